"""P14: creation of PSF objects."""
from .polys import *
from . import p01

CONTRACTS = [c for c in p01.CONTRACTS if c.lemma]
PSF = "zernpsf:ZernPSF"


def piston(m, n):
    return T.cand(T.eq(t(m), T.ZERO), T.eq(t(n), T.ZERO))


def airy_is(v, o, want):
    a = v.interp.getattr(o, "airy")
    c = S.cond_of(a) if isinstance(a, (bool, S.SymBool)) else None
    if c is None:
        return v.fail("the mark of an Airy pattern is a truth value", repr(a))
    v.prove("marked as an Airy pattern exactly for the piston", S.mkbool(T.cand(T.implies(c, want), T.implies(want, c))))


def valid_polynomials(v, name, k):
    m, n = orders_app(name, k)
    v.c.fact(S.cond_of(valid(m, n, NMAX)))
    return m, n


def single(v, o, p):
    v.prove("the given polynomial is used", o.attrs.get("zernpol") is p)
    s = v.interp.getattr(o, "polynomials")
    v.prove("no set of polynomials", isinstance(s, tuple) and len(s) == 0)


@contract(CONTRACTS, f"{PSF} of a polynomial, alone or as a sequence of one", budget=60)
def one(v):
    m, n = valid_polynomials(v, "p", T.ZERO)
    p = poly_object(v, m, n)
    given = v.choose([p, [p], (p,), "array"])
    if isinstance(given, str):
        given = Q.VList([p])
    v.cover("any polynomial")
    o, e = v.new(PSF, given)
    if e:
        return v.fail("a polynomial is accepted", repr(v.last_exc.exc))
    single(v, o, p)
    airy_is(v, o, piston(m, n))


def several(v):
    """Polynomials of which every element of the sequence is a valid one."""
    k = v.int("count")
    s = Q.VList((), v.choose(["list", "tuple"]), t(k), lambda i: poly_object(v, *valid_polynomials(v, "p", i)))
    s.frozen = "polynomials"
    return k, s


def osa_determines(v, i, j):
    """Instances of the lemma: an OSA index identifies the polynomial."""
    (a, b), (c, d) = valid_polynomials(v, "p", i), valid_polynomials(v, "p", j)
    return T.implies(T.eq(osa(a, b), osa(c, d)), T.cand(T.eq(a, c), T.eq(b, d)))


def indices(v):
    """The OSA index that an object tells is that of its orders (contract P02)."""
    def stub(interp, a):
        o = a["self"]
        m, n = o.attrs["_ZernPol__m"], o.attrs["_ZernPol__n"]
        return ((m, n), S.mk(osa(m, n), "int"), S.mk(noll(m, n), "int"), S.mk(fringe(m, n), "int"))
    v.interp.stubs[CLS + ".get_indices"] = stub


@contract(CONTRACTS, f"{PSF} of several different polynomials", budget=100)
def different(v):
    indices(v)
    k, s = several(v)
    v.require(k >= 2)

    def distinct(i, j):      # precondition: all of them are different, here for the places i and j
        (a, b), (c, d) = valid_polynomials(v, "p", i), valid_polynomials(v, "p", j)
        return T.cand(T.implies(T.cnot(T.eq(i, j)), T.cor(T.cnot(T.eq(a, c)), T.cnot(T.eq(b, d)))), osa_determines(v, i, j))
    v.c.ghost["places"] = [distinct]
    v.cover("several polynomials")
    o, e = v.new(PSF, s)
    if e:
        return v.fail("different polynomials are accepted", repr(v.last_exc.exc))
    x = v.interp.getattr(o, "polynomials")
    if not isinstance(x, (Q.VList, tuple)):
        return v.fail("the polynomials are kept", repr(x))
    v.prove("no single polynomial", v.interp.getattr(o, "zernpol") is None)
    q = v.index(k)[0]
    v.equal("number of the polynomials", S.dim(x.length()) if isinstance(x, Q.VList) else T.pc(len(x)), t(k))
    y = x.elem(q) if isinstance(x, Q.VList) else None
    if not isinstance(y, Q.VObj):
        return v.fail("the polynomials are kept", repr(y))
    for a, b in zip(("_ZernPol__m", "_ZernPol__n"), orders_app("p", q)):
        v.equal("the polynomials are kept in their order", y.attrs[a], b)
    i = T.var("$place", "int")
    airy_is(v, o, T.exists(i, t(k), piston(*orders_app("p", i))))


@contract(CONTRACTS, f"{PSF} of repeated polynomials raises ValueError", budget=100)
def repeated(v):
    indices(v)
    k, s = several(v)
    i, j = v.int("place"), v.int("repetition")
    v.require(AND(i >= 0, i < j, j < k))
    (a, b), (c, d) = valid_polynomials(v, "p", t(i)), valid_polynomials(v, "p", t(j))
    v.require(S.mkbool(T.cand(T.eq(a, c), T.eq(b, d))))
    v.c.ghost["pairs"] = [(t(i), t(j))]
    v.c.ghost["places"] = [lambda x, y: osa_determines(v, x, y)]
    v.cover("a repetition")
    o, e = v.new(PSF, s)
    v.prove("ValueError", e is ValueError)


OTHER = [None, 1, 2.5, "Z", "", "zernike", (0, 2), [0, 2], {}]


@contract(CONTRACTS, f"{PSF} of other objects raises ValueError, wherever they are", budget=100)
def others(v):
    indices(v)
    k, at = v.int("count"), v.int("position")
    v.require(AND(at >= 0, at < k))
    other = v.choose([None, 1, "Z", (0, 2), [0, 2]])
    is_pol = lambda i: T.eq(T.app("is_polynomial", (i,), "int"), T.ONE)
    s = Q.VList((), v.choose(["list", "tuple"]), t(k), lambda i: poly_object(v, *valid_polynomials(v, "p", i)) if S.ctx().branch(is_pol(i)) else other)
    s.frozen = "polynomials"
    v.require(S.mkbool(T.cnot(is_pol(t(at)))))
    v.cover("another object")
    o, e = v.new(PSF, s)
    v.prove("ValueError", e is ValueError)


@contract(CONTRACTS, f"{PSF} of nothing or of another object raises ValueError", budget=100)
def alone(v):
    other = v.choose([None, 1, 2.5, True, "Z", "", "zernike", (0, 2), [0, 2], [], (), {}, {"a": 1}, {"a": 1, "b": 2}, [[]], ([], []), "array", "integer", "real", "class"])
    if other == "array":
        other = v.array("a", [v.choose([0, 1, 3])])
    elif other == "integer":
        other = v.int("i")
    elif other == "real":
        other = v.real("x")
    elif other == "class":
        other = v.interp.get(CLS)
    v.cover("another object")
    o, e = v.new(PSF, other)
    v.prove("ValueError", e is ValueError)
