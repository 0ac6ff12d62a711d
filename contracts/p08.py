"""P08: sets of polynomials up to an order."""
from .polys import *
from .p01 import lemma_range, range_facts
from . import p01

CONTRACTS = [c for c in p01.CONTRACTS if c.lemma]
GEN = "zernikepol:generate_polynomials"
MKEYS, NKEYS = ("m", "l", "azimuthal_order", "angular_frequency"), ("n", "radial_order")


def create(interp, args, kwargs):
    """Contract of the constructor (P02): by valid orders up to 54 it creates the polynomial of these orders; other orders raise ValueError."""
    keys = [k for k in kwargs if k in ("osa", "osa_index", "ansi", "ansi_index")]
    if not args and len(kwargs) == 1 and keys and S.lift(kwargs[keys[0]]) is not None and S.lift(kwargs[keys[0]])[1] == "int":
        i = t(kwargs[keys[0]])
        ok = T.cand(T.ge0(i), T.lt(i, T.pc((NMAX + 1)*(NMAX + 2)//2)))
        if not S.ctx().entails(ok) and not S.ctx().branch(ok):
            raise S.Raised(ValueError, "not a valid index")
        m, n = T.app("osa_m", (i,), "int"), T.app("osa_n", (i,), "int")
        S.ctx().fact(S.cond_of(valid(m, n, NMAX)))
        S.ctx().fact(T.eq(osa(m, n), i))
        return poly_object_of(interp, m, n)
    ms, ns = [kwargs[k] for k in MKEYS if k in kwargs], [kwargs[k] for k in NKEYS if k in kwargs]
    if args or len(kwargs) != 2 or len(ms) != 1 or len(ns) != 1:
        raise Unsupported("another way to create a polynomial")
    m, n = ms[0], ns[0]
    if any(S.lift(x) is None or S.lift(x)[1] not in ("int",) for x in (m, n)):
        raise S.Raised(ValueError, "orders that are not integers")
    ok = S.cond_of(valid(m, n, NMAX))
    if not S.ctx().entails(ok) and not S.ctx().branch(ok):
        raise S.Raised(ValueError, "not valid orders")
    r = poly_object_of(interp, t(m), t(n))
    return r


def poly_object_of(interp, m, n):
    class W:
        pass
    w = W()
    w.interp = interp
    return poly_object(w, m, n)


STUBS = {CLS: create}


def complete(v, x, e, N):
    if e:
        return v.fail("no exception for a maximal order up to 54", repr(v.last_exc.exc))
    if not isinstance(x, (tuple, Q.VList)):
        return v.fail("a tuple of polynomials", repr(x))
    count = T.fdiv(T.mul(T.add(t(N), T.ONE), T.add(t(N), T.pc(2))), 2)
    n = S.dim(x.length()) if isinstance(x, Q.VList) else T.pc(len(x))
    v.equal("(N + 1)(N + 2)/2 polynomials", n, count)
    i = v.int("place")
    v.require(AND(i >= 0, S.mkbool(T.lt(t(i), count))))
    if isinstance(x, Q.VList):
        p = x.elem(t(i))
    else:
        j = v.choose(list(range(len(x))))
        v.require(i == j)
        p = x[j]
    if not isinstance(p, Q.VObj) or p.cls is not v.interp.get(CLS):
        return v.fail("polynomial objects", repr(p))
    m, k = p.attrs["_ZernPol__m"], p.attrs["_ZernPol__n"]
    v.prove("valid orders", valid(m, k))
    v.prove("at most the maximal order", S.mkbool(T.le(t(k), t(N))))
    v.equal("the polynomial at place i has the OSA index i", osa(m, k), t(i))


@contract(CONTRACTS, f"{GEN} gives all polynomials up to the order, each at the place of its OSA index", budget=100, stubs=STUBS)
def symbolic(v):
    N = v.int("max_order")
    v.require(AND(N >= 0, N <= NMAX))
    v.cover("a maximal order")
    x, e = v.call(GEN, N)
    complete(v, x, e, N)


@contract(CONTRACTS, f"{GEN} without an argument gives the polynomials up to the order 10", budget=100, stubs=STUBS)
def default(v):
    v.cover("no argument")
    x, e = v.call(GEN)
    complete(v, x, e, 10)


@contract(CONTRACTS, f"{GEN}: a negative order raises ValueError", budget=100, stubs=STUBS)
def negative(v):
    N = v.int("max_order")
    v.require(N < 0)
    v.cover("a negative order")
    x, e = v.call(GEN, N)
    v.prove("ValueError", e is ValueError)


@contract(CONTRACTS, f"{GEN}: an order that is not an integer is converted with a warning", budget=100, stubs=STUBS)
def converted(v):
    y = v.real("order")
    v.require(AND(y >= 0, y < NMAX + 1))
    v.cover("a real order")
    w = len(v.c.warned)
    x, e = v.call(GEN, y)
    v.prove("a warning", S.mkbool(T.TRUE if len(v.c.warned) > w else T.FALSE))
    complete(v, x, e, S.mk(T.floor(t(y)), "int"))


@contract(CONTRACTS, f"{GEN}: a negative order that is not an integer raises ValueError", budget=100, stubs=STUBS)
def converted_negative(v):
    y = v.real("order")
    v.require(y <= -1)
    v.cover("a negative real order")
    w = len(v.c.warned)
    x, e = v.call(GEN, y)
    v.prove("ValueError", e is ValueError)
    v.prove("a warning", S.mkbool(T.TRUE if len(v.c.warned) > w else T.FALSE))
