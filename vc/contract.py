"""Contracts, and the run of all contracts of one property (in parallel processes)."""
import multiprocessing as mp
import os
import resource
import signal
import time

from . import terms as T
from . import loops as LOOPS
from . import prove as PR
from .explore import Explorer, shared_interp, Run


class Contract:
    """One function (or one group of paths of it) under contract.

    spec(v) states precondition, call and postconditions; stubs are the contracts of the callees (qualified name -> function
    that checks the callee's precondition and returns a value about which only its postcondition is known)."""

    def __init__(self, name, spec, stubs=None, budget=60.0, max_paths=4000, sampler=None, assumes=(), lemma=False):
        self.name, self.spec, self.stubs, self.budget, self.max_paths = name, spec, stubs, budget, max_paths
        self.sampler, self.assumes, self.lemma = sampler, tuple(assumes), lemma


def contract(registry, name, **kw):
    def deco(f):
        registry.append(Contract(name, f, **kw))
        return f
    return deco


def run_one(con, scale=1.0):
    """Result of a contract as plain data."""
    for k in PR.STATS:
        PR.STATS[k] = 0
    LOOPS.PEEL.clear()
    while True:
        ex = Explorer(con.name, con.budget*scale, con.max_paths, con.sampler)
        r = ex.explore(con.spec, con.stubs() if callable(con.stubs) else con.stubs)
        if getattr(r, "first", None) is None or r.first in LOOPS.PEEL:
            break
        LOOPS.PEEL.add(r.first)
    unsupported = r.unsupported
    if unsupported is None and not r.failures:
        if not r.covered:
            unsupported = "vacuous: no precondition was shown to be satisfiable"
        elif not r.obligations:
            unsupported = "vacuous: no obligation"
    return {"contract": con.name, "paths": r.paths, "obligations": r.obligations, "discharged": r.discharged,
            "failures": [{"name": f.name, "text": f.text(), "refuted": f.refuted, "values": f.values or {}} for f in r.failures],
            "unsupported": unsupported, "covered": sorted(r.covered), "functions": sorted(r.functions), "seconds": round(r.seconds, 3),
            "assumed": sorted(r.assumed | set(con.assumes)), "denominators": len(r.denominators), "denominators_proved": r.denominators_proved,
            "stats": dict(PR.STATS)}


def _child(con, conn, scale, mem):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    except (ValueError, OSError):
        pass
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        conn.send(run_one(con, scale))
    except MemoryError:
        conn.send({"error": "memory limit"})
    except BaseException as e:
        if os.environ.get("VC_DEBUG"):
            import traceback
            traceback.print_exc()
        conn.send({"error": f"engine: {type(e).__name__}: {e}"})
    finally:
        conn.close()


def empty(con, why):
    return {"contract": con.name, "paths": 0, "obligations": {}, "discharged": {}, "failures": [], "unsupported": why, "covered": [],
            "functions": [], "seconds": 0.0, "assumed": sorted(con.assumes), "denominators": 0, "denominators_proved": 0,
            "stats": {k: 0 for k in PR.STATS}}


def run_all(contracts, jobs=8, scale=1.0, mem=6 << 30, deadline=None):
    """All contracts, each in a forked process, longest budget first."""
    preload()
    ctx = mp.get_context("fork")
    todo = sorted(contracts, key=lambda c: -c.budget)
    running, done = [], {}
    while todo or running:
        while todo and len(running) < jobs:
            c = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(c, b, scale, mem))
            p.start()
            b.close()
            running.append((c, p, a, time.time()))
        time.sleep(0.005)
        for item in list(running):
            c, p, a, t0 = item
            res = None
            if a.poll():
                try:
                    res = a.recv()
                except EOFError:
                    res = {"error": "the process of the contract ended"}
            elif not p.is_alive():
                res = {"error": "the process of the contract ended"}
            elif time.time() - t0 > c.budget*scale + 25 or (deadline and time.time() > deadline):
                res = {"error": "time budget of the contract exceeded"}
            if res is None:
                continue
            if p.is_alive():
                p.join(0.2)
                if p.is_alive():
                    p.kill()
            p.join()
            a.close()
            running.remove(item)
            done[c.name] = empty(c, res["error"]) if "error" in res else res
    return [done[c.name] for c in contracts]


def preload():
    """Load the modules of the verified package once (the children inherit them)."""
    from .sym import Ctx, Raised
    from .explore import Explorer
    ex = Explorer("load")
    Ctx.cur = Ctx(ex, [])
    try:
        i = shared_interp()
        i.reset({})
        for m in ("zernikepol", "zernpsf"):
            try:
                i.load(m)
            except (Raised, T.Unsupported):
                pass
    except (Raised, T.Unsupported):
        pass
    finally:
        Ctx.cur = None
