"""Verification of one contract: all paths of the code under it, with the obligations generated along them."""
import os
import random
import time
import traceback

from . import terms as T
from . import prove as PR
from . import sym as S
from . import seq as Q
from .sym import Ctx, PathEnd, Raised, Unsupported
from .interp import Interp


class Failure:
    def __init__(self, contract, name, why, pc, goal=None, values=None, refuted=False):
        self.contract, self.name, self.why, self.pc, self.goal, self.values, self.refuted = contract, name, why, pc, goal, values, refuted

    def text(self):
        out = [f"obligation: {self.contract}: {self.name}", f"status: {'refuted' if self.refuted else 'not discharged'}", f"reason: {self.why}"]
        if self.goal is not None:
            out.append(f"goal: {T.show_c(self.goal) if isinstance(self.goal, T.C) else T.show(self.goal)}"[:1500])
        out.append("path condition:")
        out += ["  " + T.show_c(c)[:400] for c in self.pc[:40]]
        if self.values:
            out.append("counterexample values: " + ", ".join(f"{k}={v}" for k, v in sorted(self.values.items())))
        return "\n".join(out)


def default_sampler(rng, name, sort):
    if sort == "int":
        return rng.choice([0, 1, 2, 3, 4, 5, 7, 10, -1, rng.randint(0, 30)])
    return rng.choice([0.0, 1.0, 0.5, rng.uniform(0, 1), rng.uniform(-2, 8), rng.uniform(0, 0.1)])


class Run:
    """Result of the verification of one contract."""

    def __init__(self, name):
        self.name = name
        self.paths, self.ended = 0, 0
        self.obligations, self.discharged = {}, {}
        self.failures, self.unsupported, self.covered = [], None, set()
        self.denominators, self.denominators_proved = set(), 0
        self.functions = set()
        self.seconds = 0.0
        self.assumed = set()


_interp = []


def shared_interp():
    if not _interp:
        _interp.append(Interp())
    return _interp[0]


class Explorer:
    def __init__(self, name, budget=60.0, max_paths=4000, sampler=None):
        self.run = Run(name)
        self.work = []
        self.deadline = time.time() + budget
        self.max_paths = max_paths
        self.sampler = sampler or default_sampler
        self.seen = set()

    def schedule(self, prefix):
        self.work.append(prefix)

    def tick(self):
        if time.time() > self.deadline:
            raise Unsupported("time budget of the contract exceeded")

    # ---------- obligations
    def obligation(self, ctx, name, goal):
        self.tick()
        r = self.run
        key = (name, goal, frozenset(ctx.all()))
        if key in self.seen:
            return
        self.seen.add(key)
        r.obligations[name] = r.obligations.get(name, 0) + 1
        if goal is T.TRUE or self.entailed(ctx, goal):
            r.discharged[name] = r.discharged.get(name, 0) + 1
            return
        self.not_proved(ctx, name, goal)

    def entailed(self, ctx, goal):
        pc = ctx.all()
        if not self.quantified(ctx, goal):
            return PR.entails(pc, goal, 1500) or PR.entails_otherwise(pc, goal, 3000, True) or PR.entails_otherwise(pc, goal, 4000, seed=7) \
                or PR.entails(pc, goal, 15000)
        return PR.entails(pc, goal, 1500) or PR.entails_deep(pc, goal, True) or PR.entails(pc, goal, 8000) or PR.entails_deep(pc, goal, False)

    def quantified(self, ctx, goal):
        """Is there an extremum below another one (a nested quantifier) in the path condition?"""
        for c in ctx.all() + [goal]:
            for a in T.all_atoms(c):
                if a.op == "arrkey" and a.args[3] in ("min", "max") and any(b.op == "arrkey" for b in T.all_atoms(a.args[2])):
                    return True
        return False

    def obligation_eq(self, ctx, name, a, b):
        self.tick()
        r = self.run
        key = (name, a, b, frozenset(ctx.all()))
        if key in self.seen:
            return
        self.seen.add(key)
        r.obligations[name] = r.obligations.get(name, 0) + 1
        if PR.prove_eq(ctx.all(), a, b) == "proved":
            r.discharged[name] = r.discharged.get(name, 0) + 1
            return
        self.not_proved(ctx, name, T.eq(a, b))

    def not_proved(self, ctx, name, goal):
        r = self.run
        if PR.consistent(ctx.all()) == "unsat":
            r.discharged[name] = r.discharged.get(name, 0) + 1
            return
        if any(a.op == "app" and a.args[0].startswith("u!") for a in T.all_atoms(goal)) or \
                any(a.op == "app" and a.args[0].startswith("u!") for c in ctx.all() for a in T.all_atoms(c)):
            raise Unsupported(f"obligation '{name}' depends on a loop without a closed form")
        m = None
        try:
            if not any(a.op == "app" and a.args[0].startswith("find!") for x in [goal] + ctx.all() for a in T.all_atoms(x)):
                m = PR.refute(ctx.all(), goal, self.sampler)
        except Unsupported:
            pass
        if m is not None:
            r.failures.append(Failure(r.name, name, "a valuation falsifies it", list(ctx.all()), goal, {k: str(v) for k, v in m[0].items()}, True))
        else:
            r.failures.append(Failure(r.name, name, "the verifier could not discharge it", list(ctx.all()), goal))
        if len(r.failures) > 6:
            self.work.clear()
            raise PathEnd()

    def failed(self, ctx, name, why):
        r = self.run
        r.obligations[name] = r.obligations.get(name, 0) + 1
        if PR.consistent(ctx.all()) == "unsat":
            r.discharged[name] = r.discharged.get(name, 0) + 1
            return
        r.failures.append(Failure(r.name, name, why, list(ctx.all()), None, None, True))

    def denominator(self, ctx, p):
        if ctx.quiet:
            return
        key = T.show(p, 80)
        if key in self.run.denominators:
            return
        self.run.denominators.add(key)
        if ctx.entails(T.cnot(T.eq0(p))):
            self.run.denominators_proved += 1
        else:
            self.run.assumed.add(f"{self.run.name}: denominator {key} is not 0")

    # ---------- paths
    def explore(self, spec, stubs=None):
        """spec(v) sets up the inputs, calls the code and states the postconditions on every path."""
        t0 = time.time()
        r = self.run
        self.work = [[]]
        try:
            while self.work:
                prefix = self.work.pop()
                r.paths += 1
                if r.paths > self.max_paths:
                    raise Unsupported("too many paths")
                ctx = Ctx(self, prefix)
                Ctx.cur = ctx
                try:
                    interp = shared_interp()
                    interp.reset(stubs)
                    v = V(self, ctx, interp)
                    spec(v)
                    r.ended += 1
                    r.functions |= interp.executed
                except PathEnd:
                    pass
                except Raised as e:
                    self.failed(ctx, "no exception", f"{e.cls.__name__}: {e.exc}")
                finally:
                    Ctx.cur = None
        except Unsupported as e:
            r.unsupported = str(e)
            r.first = getattr(e, "place", None)
            if os.environ.get("VC_DEBUG"):
                traceback.print_exc()
        except RecursionError:
            r.unsupported = "recursion limit"
        r.seconds = time.time() - t0
        return r


class V:
    """What a contract uses: inputs, calls of the code and obligations."""

    def __init__(self, ex, ctx, interp):
        self.ex, self.c, self.interp = ex, ctx, interp

    # inputs
    def int(self, name):
        return S.Sym(T.var(name, "int"), "int")

    def real(self, name):
        return S.Sym(T.var(name, "real"), "float")

    def array(self, name, dims, kind="float", frozen=True):
        sort = {"int": "int", "float": "real", "complex": "complex", "bool": "int"}[kind]
        return S.SArr(tuple(S.dim(d) for d in dims), lambda ix: T.app(name, tuple(ix), sort), kind, name=name, frozen=name if frozen else None)

    def seq(self, name, n, cls="list", sort="real", frozen=True):
        from .seq import VList
        kd = "float" if sort == "real" else "int"
        r = VList((), cls, S.dim(n), lambda i: S.Sym(T.app(name, (i,), sort), kd))
        r.frozen = name if frozen else None
        return r

    def require(self, cond):
        self.c.fact(S.cond_of(cond))

    def require_all(self, arr, f):
        """Precondition on all elements of an array or sequence of numbers (one or two dimensions)."""
        a = S.asarray(arr)
        ks = tuple(T.var(f"$p{len(T.Atom.table)}_{i}", "int") for i in range(a.ndim))
        cond = S.cond_of(f(S.Sym(a.at(*ks), a.kind)))
        m = T.pa(T.arrkey_atom(ks, a.dims, T.ite(cond, T.ONE, T.ZERO), "min"))
        self.c.fact(T.cor(*[T.le(d, T.ZERO) for d in a.dims], T.ge0(T.sub(m, T.ONE))))

    def index(self, *dims):
        """Arbitrary indices within the dimensions."""
        out = []
        for d in dims:
            x = self.c.freshvar("i", "int")
            self.c.assume(T.cand(T.ge0(x), T.lt(x, S.dim(d) if not isinstance(d, T.P) else d)))
            out.append(x)
        return tuple(out)

    def choose(self, options):
        """One path for each option."""
        options = list(options)
        i = self.c.decide(list(range(len(options)))) if len(options) > 1 else 0
        return options[i]

    # calls
    def call(self, qual, *args, **kw):
        """The body of the function under contract: (result, None) or (None, exception class)."""
        f = self.func(qual)
        if f is None:
            raise Unsupported("no function " + qual)
        try:
            return self.interp.call_body(f, wrap(list(args)), wrap(kw)), None
        except Raised as e:
            self.last_exc = e
            return None, e.cls

    def func(self, qual):
        return self.interp.get(qual)

    def method(self, obj, name, *args, **kw):
        try:
            m = self.interp.getattr(obj, name)
            return self.interp.call_body(m, wrap(list(args)), wrap(kw)), None
        except Raised as e:
            self.last_exc = e
            return None, e.cls

    def new(self, qual, *args, **kw):
        try:
            cls = self.interp.get(qual)
            if cls is None:
                raise Unsupported("no class " + qual)
            return self.interp.call(cls, wrap(list(args)), wrap(kw)), None
        except Raised as e:
            self.last_exc = e
            return None, e.cls

    # obligations
    def prove(self, name, cond):
        self.c.check(name, S.cond_of(cond) if not isinstance(cond, T.C) else cond)

    def equal(self, name, a, b):
        """a and b are equal numbers (or terms)."""
        a = a if isinstance(a, T.P) else S.lift(a)
        b = b if isinstance(b, T.P) else S.lift(b)
        if a is None or b is None:
            self.c.fail(name, "the result is not a number")
            return
        self.c.check_eq(name, a if isinstance(a, T.P) else a[0], b if isinstance(b, T.P) else b[0])

    def fail(self, name, why=""):
        self.c.fail(name, why)

    def cover(self, name):
        """The point is reachable: its precondition is satisfiable."""
        if name not in self.ex.run.covered and PR.consistent(self.c.all()) == "sat":
            self.ex.run.covered.add(name)


def wrap(x):
    """Lists given by a contract as lists of the verifier (also in tuples and keyword arguments)."""
    if isinstance(x, dict):
        return {k: wrap_value(v) for k, v in x.items()}
    return [wrap_value(v) for v in x]


def wrap_value(v):
    if type(v) is list:
        r = Q.VList([wrap_value(x) for x in v])
        r.frozen = "a given list"
        return r
    if type(v) is tuple:
        return tuple(wrap_value(x) for x in v)
    return v
