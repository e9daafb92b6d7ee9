"""One fresh interpreter under given host conditions: reads {"host":..., "work":...} on stdin, prints the results as JSON.

Run as  python -P [flags] -m sim.hostproc  with PYTHONPATH=/verif; hash seed, time zone, locale and working directory are set by the parent.
"""
import json, os, sys


class _Clock:
    """Simulated wall and monotonic clock; every reading may jump (wall clock also backwards)."""
    def __init__(self, spec, rng):
        self.t, self.jump, self.rng, self.m, self.reads = float(spec["start"]), spec["jump"], rng, 1000.0, 0

    def wall(self):
        self.reads += 1
        j = self.jump
        self.t += {"frozen": 0.0, "steady": 1.0, "leaps": self.rng.choice([0.0, 1.0, 3600.0, 86400.0 * 31, 86400.0 * 366]),
                   "jitter": self.rng.uniform(-7200, 7200)}[j]
        return self.t

    def mono(self):
        self.reads += 1
        self.m += {"frozen": 0.0, "steady": 1.0, "leaps": self.rng.choice([0.0, 1.0, 5000.0]), "jitter": self.rng.random()}[self.jump]
        return self.m


def install_clock(spec, rng):
    import datetime as dtm, time
    ck = _Clock(spec, rng)
    real_local, real_gm, real_strf, real_ctime, real_asc = time.localtime, time.gmtime, time.strftime, time.ctime, time.asctime
    time.time = ck.wall
    time.time_ns = lambda: int(ck.wall() * 1e9)
    time.monotonic = time.perf_counter = time.process_time = ck.mono
    time.monotonic_ns = time.perf_counter_ns = lambda: int(ck.mono() * 1e9)
    time.localtime = lambda s=None: real_local(ck.wall() if s is None else s)
    time.gmtime = lambda s=None: real_gm(ck.wall() if s is None else s)
    time.strftime = lambda f, t=None: real_strf(f, real_local(ck.wall()) if t is None else t)
    time.ctime = lambda s=None: real_ctime(ck.wall() if s is None else s)
    time.asctime = lambda t=None: real_asc(real_local(ck.wall()) if t is None else t)
    RD, RT = dtm.date, dtm.datetime

    class MetaD(type):
        def __instancecheck__(c, x): return isinstance(x, RD)
        def __subclasscheck__(c, x): return issubclass(x, RD)

    class MetaT(type):
        def __instancecheck__(c, x): return isinstance(x, RT)
        def __subclasscheck__(c, x): return issubclass(x, RT)

    class date(RD, metaclass=MetaD):
        @classmethod
        def today(cls): return RD.fromtimestamp(ck.wall())

    class datetime(RT, metaclass=MetaT):
        @classmethod
        def now(cls, tz=None): return RT.fromtimestamp(ck.wall(), tz)
        @classmethod
        def utcnow(cls): return RT.fromtimestamp(ck.wall(), dtm.timezone.utc).replace(tzinfo=None)
        @classmethod
        def today(cls): return RT.fromtimestamp(ck.wall())
    dtm.date, dtm.datetime = date, datetime
    return ck


def install_listing(seed):
    """Directory listings come back in a seeded order, as file systems may give them."""
    import random
    rng = random.Random(seed)
    ls, sd = os.listdir, os.scandir

    def listdir(*a):
        out = ls(*a); rng.shuffle(out); return out

    class scandir:
        def __init__(self, *a):
            self.it = sd(*a)
            self.l = list(self.it); rng.shuffle(self.l)
        def __iter__(self): return self
        def __next__(self):
            if not self.l: raise StopIteration
            return self.l.pop()
        def __enter__(self): return self
        def __exit__(self, *a): self.it.close()
        def close(self): self.it.close()
    os.listdir, os.scandir = listdir, scandir


def main():
    req = json.loads(sys.stdin.buffer.read())
    host = req["host"]
    out = os.dup(1)
    dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1); os.dup2(dn, 2); os.close(dn)
    import warnings; warnings.simplefilter("ignore")
    import random
    from sim import core
    sys.dont_write_bytecode = True
    sys.path.insert(0, core.SRC)
    import decimal, gc, uuid, numpy, tempfile, shutil, subprocess  # noqa: F401  (host libraries keep the clock they imported)
    import scipy.interpolate, scipy.spatial, plotly.graph_objects, plotly.subplots, plotly.io  # noqa: F401
    if host["cwd"] == "gone":
        os.rmdir(os.getcwd())
    ck = install_clock(host["clock"], random.Random(host["rand"]))
    if host["listing"]:
        install_listing(host["listing"])
    random.seed(host["rand"]); numpy.random.seed(host["rand"])
    if host["gc"] == "off":
        gc.disable()
    elif host["gc"] == "often":
        gc.set_threshold(50, 2, 2)
    if host["tools"]:           # settings a host application makes for its own output
        numpy.set_printoptions(precision=2, suppress=True, threshold=5)
        numpy.seterr(all="ignore")
        decimal.getcontext().prec = 4
    from sim import hostwork
    try:
        for m in ["ecoengine", *host["imports"]]:
            __import__(m)
        res = None
    except Exception as e:      # cannot even be imported under these conditions
        res = [["exc", "import " + type(e).__name__, str(e)[:300]]] * len(req["work"])
    if res is None:
        res = hostwork.perform(req["work"], req["scratch"])
    os.write(out, json.dumps({"res": res, "reads": ck.reads, "utf8": sys.flags.utf8_mode}).encode())


if __name__ == "__main__":
    main()
