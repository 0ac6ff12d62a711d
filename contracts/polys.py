"""Sequences of polynomials of any length: element k has the orders (pm(k), pn(k)), its values are Z(pm(k), pn(k), r, theta).

Z is the contract of the value of a polynomial (verified in contracts/p05.py), used at each point on its own."""
from vc import terms as T, sym as S, seq as Q
from vc.contract import contract
from .common import *
from .values import CLS, as_array, is_array, elementwise, argument, require_range, in_circle
from .p01 import CALLEES


def orders_app(name, k):
    return T.app(name + "m", (k,), "int"), T.app(name + "n", (k,), "int")


def Z(m, n, r, th):
    return T.app("Z", (t(m), t(n), t(r), t(th)), "real")


def poly_object(v, m, n):
    cls = v.interp.get(CLS)
    at = {"_ZernPol__m": S.mk(m, "int"), "_ZernPol__n": S.mk(n, "int")}
    for k, f in (("_ZernPol__osa_index", osa), ("_ZernPol__noll_index", noll), ("_ZernPol__fringe_index", fringe)):
        at[k] = S.mk(T.app("index" + k[9:-6], (m, n), "int"), "int")
    return Q.VObj(cls, at, ("polynomial", m, n))


def polynomials(v, name, count, cls="list"):
    """A sequence of count arbitrary polynomials."""
    r = Q.VList((), cls, S.dim(count), lambda k: poly_object(v, *orders_app(name, k)))
    r.frozen = name
    return r


def zk(name, k, r, th):
    return Z(*orders_app(name, k), r, th)


def broadcast(interp, r, th):
    """Dimensions of the result for both arguments, as polynomial_value has them."""
    r, th = as_array(r), as_array(th)
    if isinstance(r, S.SArr) and isinstance(th, S.SArr):
        if r.ndim != th.ndim:
            raise S.Raised(ValueError, "Shape of input arrays r and theta is not equal")
        for a, b in zip(r.dims, th.dims):
            if a != b and not S.ctx().entails(T.eq(a, b)) and not S.ctx().branch(T.eq(a, b)):
                raise S.Raised(ValueError, "Shape of input arrays r and theta is not equal")
        return r, th, r.dims
    return r, th, r.dims if isinstance(r, S.SArr) else th.dims if isinstance(th, S.SArr) else None


def needs_circle(r):
    """Precondition of the value of a polynomial: there are radii, all of them in [0, 1]."""
    c = S.ctx()
    if isinstance(r, S.SArr):
        ix = tuple(c.freshvar("radius", "int") for _ in r.dims)
        inside = T.cand(*[x for i, d in zip(ix, r.dims) for x in (T.ge0(i), T.lt(i, d))])
        x = r.at(*ix)
        c.check("precondition of polynomial_value: there are radii", T.cand(*[T.lt(T.ZERO, d) for d in r.dims]))
        goal = T.implies(inside, T.cand(T.ge0(x), T.le(x, T.ONE)))
    else:
        goal = T.cand(T.ge0(t(r)), T.le(t(r), T.ONE))
    c.check("precondition of polynomial_value: the radii are in [0, 1]", goal)


def value_stub(interp, a):
    """Contract of ZernPol.polynomial_value (P05): the value at each point; the radii have to be in the unit circle (P06)."""
    vals = list(a.values())
    o, r, th = vals[:3]
    if len(vals) > 3 and vals[3] not in (False, True):
        raise Unsupported("way to calculate")
    m, n = o.attrs["_ZernPol__m"], o.attrs["_ZernPol__n"]
    r, th, dims = broadcast(interp, r, th)
    for x in (r, th):
        if not isinstance(x, S.SArr) and S.lift(x) is None:
            raise Unsupported("argument of polynomial_value")
    needs_circle(r)
    if dims is None:
        return S.mk(Z(m, n, r, th), "float")
    f, g = (x.snapshot() if isinstance(x, S.SArr) else (lambda ix, p=t(x): p) for x in (r, th))
    return S.SArr(dims, lambda ix: Z(m, n, S.mk(f(ix), "float"), S.mk(g(ix), "float")), "float")


VALUE = {CLS + ".polynomial_value": value_stub}
COEFFS = ("list", "tuple", "array")


def coefficients(v, name, count, kind):
    if kind == "array":
        return v.array(name, [count])
    return v.seq(name, count, cls=kind)


def ck(name, k):
    return T.app(name, (k,), "real")


def weighted(c, p, count, r, th, scale=None):
    """sum over k of c(k)*Z_k(r, th)."""
    k = T.var("$sumk", "int")
    x = T.mul(ck(c, k), zk(p, k, r, th))
    return T.bsum(k, t(count), x)
