"""Deterministic thread scheduler: real threads, exactly one runs at a time, switched at line events of repository code.

A policy (seeded) or an explicit slice list decides every switch; the slices actually taken are recorded, so an execution
can be replayed and minimised as data.  Locks created by repository code are cooperative (see install_locks).
"""
import random, sys, threading, zlib
from . import core

_ALLOC = threading._allocate_lock
_cur = None         # the active scheduler
_sim = threading.local()


class SimLock:
    """Lock / RLock stand-in for locks made by repository code: waiting is a scheduling decision."""
    def __init__(self, re):
        self.re, self.owner, self.n = re, None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while not (self.owner is None or (self.re and self.owner == me)):
            if not blocking or _cur is None or getattr(_sim, "tid", None) is None:
                return False
            if timeout is not None and timeout >= 0:
                return False
            _cur.blocked(self)
        self.owner, self.n = me, self.n + 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.n -= 1
        if self.n == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


def install_locks():
    """Before the package is imported: locks its modules create are cooperative."""
    def factory(orig, re):
        def make(*a, **k):
            f = sys._getframe(1)
            if f.f_code.co_filename.startswith(core.PKG):
                return SimLock(re)
            return orig(*a, **k)
        return make
    threading.Lock = factory(threading.Lock, False)
    threading.RLock = factory(threading.RLock, True)


def _prime():
    """CPython delivers instruction events only after some frame has asked for them once."""
    def ask(frame, event, arg):
        frame.f_trace_opcodes = True
        return ask

    def nothing():
        return 0
    sys.settrace(ask)
    nothing()
    sys.settrace(None)


class Stalled(Exception):
    pass


class Scheduler:
    def __init__(self, bodies, policy=None, slices=None, ctx=None):
        self.bodies, self.policy, self.ctx = bodies, policy, ctx
        self.given = None if slices is None else [list(s) for s in slices]
        n = len(bodies)
        self.sem = [_ALLOC() for _ in range(n)]
        for s in self.sem:
            s.acquire()
        self.main = _ALLOC(); self.main.acquire()
        self.alive = set(range(n))
        self.waiting = {}
        self.where = ["start"] * n
        self.taken = []
        self.used = 0
        self.budget = 0
        self.current = None
        self.switches = 0
        self.events = 0
        self.error = None
        self.results = [None] * n
        self.rng = random.Random(policy["seed"]) if policy else None
        self.hot = {}
        if policy and policy["mode"] == "hot":
            self.hotp = policy["p"]
        self.pos = 0
        self.seen_lines = set()
        self.due = {}

    # ---- decisions
    def runnable(self):
        return [t for t in sorted(self.alive) if not (t in self.waiting and self.waiting[t].owner is not None)]

    def pick(self, exclude=None):
        r = self.runnable()
        if not r:
            self.error = ("deadlock", {"blocked": sorted(self.alive), "at": [self.where[t] for t in sorted(self.alive)]})
            return None
        if self.given is not None:
            while self.pos < len(self.given):
                t, n = self.given[self.pos]
                self.pos += 1
                if t in r:
                    self.budget = max(1, n)
                    return t
            self.budget = 1 << 60
            return r[0]
        others = [t for t in r if t != exclude] or r
        t = self.rng.choice(others)
        p = self.policy
        if p["mode"] in ("hot", "novel", "geo"):
            self.budget = 1 << 60
        else:
            lo, hi = p["lo"], p["hi"]
            self.budget = int(lo * (hi / lo) ** self.rng.random())
        if self.switches >= p.get("max", 6000):
            self.budget = 1 << 60
        return t

    # ---- called in the running thread
    def switch(self, me, done=False):
        self.taken.append([me, self.used])
        self.used = 0
        self.switches += 1
        t = self.pick(exclude=me)
        if t is None:
            self.main.release()
            if not done:
                self.sem[me].acquire()     # never released: the process is about to report the deadlock
            return
        if t == me and not done:
            return
        if self.ctx is not None:
            self.ctx.state(self.where[me], self.where[t])
        self.waiting.pop(t, None)
        self.current = t
        self.sem[t].release()
        if not done:
            self.sem[me].acquire()

    def blocked(self, lock):
        me = _sim.tid
        self.waiting[me] = lock
        self.switch(me)
        self.waiting.pop(me, None)

    def _is_hot(self, code):
        k = code
        h = self.hot.get(k)
        if h is None:
            q = getattr(code, "co_qualname", code.co_name)
            h = self.hot[k] = zlib.crc32(f"{self.policy['salt']}:{q}".encode()) % self.policy["of"] == 0
        return h

    def tracer(self, tid):
        where, pol = self.where, self.policy
        hotmode = self.given is None and pol["mode"] == "hot"
        novel = self.given is None and pol["mode"] == "novel"
        geo = self.given is None and pol["mode"] == "geo"
        pkg = core.PKG
        ops = bool(pol) and pol.get("unit") == "op"     # preemption points: bytecode instructions instead of lines
        unit = "opcode" if ops else "line"

        def local(frame, event, arg):
            if event == unit:
                self.events += 1
                self.used += 1
                self.budget -= 1
                if self.budget <= 0:
                    where[tid] = frame.f_code.co_qualname
                    self.switch(tid)
            return local

        def local_hot(frame, event, arg):
            if event == unit:
                self.events += 1
                self.used += 1
                if self.switches < pol["max"] and self.rng.random() < self.hotp and len(self.alive) > 1:
                    where[tid] = frame.f_code.co_qualname
                    self.switch(tid)
            return local_hot

        def local_cold(frame, event, arg):
            if event == unit:
                self.events += 1
                self.used += 1
            return local_cold

        def local_novel(frame, event, arg):
            # lazy initialisation happens on lines that run for the first time: only those may be preempted
            if event == unit:
                self.events += 1
                self.used += 1
                k = (frame.f_code, frame.f_lasti if ops else frame.f_lineno)
                if k not in self.seen_lines:
                    self.seen_lines.add(k)
                    if self.switches < pol["max"] and self.rng.random() < pol["p"] and len(self.alive) > 1:
                        where[tid] = frame.f_code.co_qualname
                        self.switch(tid)
            return local_novel

        due = self.due

        def local_geo(frame, event, arg):
            # every line gets about the same number of preemptions, at geometrically spaced visits, however often it runs
            if event == unit:
                self.events += 1
                self.used += 1
                k = (frame.f_code, frame.f_lasti if ops else frame.f_lineno)
                d = due.get(k)
                if d is None:
                    d = due[k] = [0, 1 + int(self.rng.random() * pol["first"])]
                d[0] += 1
                if d[0] >= d[1]:
                    d[1] = d[0] + 1 + int(d[0] * pol["grow"] * self.rng.random())
                    if self.switches < pol["max"] and len(self.alive) > 1:
                        where[tid] = frame.f_code.co_qualname
                        self.switch(tid)
            return local_geo

        def glob(frame, event, arg):
            if not frame.f_code.co_filename.startswith(pkg):
                return None
            if ops:
                frame.f_trace_opcodes, frame.f_trace_lines = True, False
            if novel:
                return local_novel
            if geo:
                return local_geo
            if hotmode:
                return local_hot if self._is_hot(frame.f_code) else local_cold
            return local
        return glob

    def _thread(self, tid):
        _sim.tid = tid
        self.sem[tid].acquire()
        try:
            if self.policy and self.policy.get("unit") == "op":
                _prime()
            sys.settrace(self.tracer(tid))
            try:
                self.results[tid] = self.bodies[tid]()
            finally:
                sys.settrace(None)
        except BaseException as e:      # harness bodies never raise on purpose
            self.results[tid] = ("raised", e)
        self.alive.discard(tid)
        self.where[tid] = "end"
        if self.alive:
            self.switch(tid, done=True)
        else:
            self.taken.append([tid, self.used])
            self.main.release()

    def run(self, stall=90.0):
        global _cur
        _cur = self
        for t in range(len(self.bodies)):
            threading.Thread(target=self._thread, args=(t,), daemon=True).start()
        first = self.pick()
        self.current = first
        self.sem[first].release()
        last = -1
        while not self.main.acquire(timeout=stall):
            if self.events == last:
                raise Stalled(f"no line event for {stall} s; threads at {self.where}")
            last = self.events
        _cur = None
        return self.results
