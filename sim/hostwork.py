"""The work a C16 execution does in each host: builds, sizings, runs, curves, charts, exports, costs and look-ups, with canonical results."""
import os
from . import core, ops, requests, tariffs


def perform(work, scratch):
    ctx, rig, uc, res = core.Ctx(), None, None, []
    for st in work:
        try:
            k = st["op"]
            if k == "build":
                rig = ops.Rig(st["cfg"])
                v = ops.sizing(rig)
            elif k == "request":
                requests.tariff_file(st["q"], scratch)
                v = requests.perform(st["q"], scratch)
            elif k == "tariff":
                uc = tariffs.build(st["t"], scratch)
                p = os.path.join(scratch, "t.csv")
                uc.to_csv(p)
                with open(p, "rb") as f:
                    v = core.digest(f.read().hex())
            elif k == "bill":
                r = getattr(rig, "last_run", None)
                v = None if r is None or uc is None else core.canon([r.get_annual_utility_cost(uc), r.get_monthly_cost_breakdown(uc),
                                                                     r.get_monthly_cost_breakdown_detailed(uc), r.get_monthly_energy_kwh(), r.get_summary()])
            elif rig is None:
                v = None
            else:
                v = ops.perform(rig, st, ctx, scratch)
            res.append(["ok", core.digest(v), str(v)[:160]])
        except Exception as e:
            if not core.from_repo(e) and not isinstance(e, (OSError, UnicodeError)):
                raise
            res.append(["exc", type(e).__name__, str(e)[:160]])
    return res
