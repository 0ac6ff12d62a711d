"""P10: images of phases."""
from fractions import Fraction
from .polys import *
from . import p08
from vc import loops

CONTRACTS = []
IMAGE, RANDOM = "zernikepol:generate_phases_image", "zernikepol:generate_random_phases"
PI = T.pa(T.PI_ATOM)


def sum_stub(interp, a):
    """Contract of ZernPol.sum_zernikes (P07) at points: the weighted sum at each of them; radii have to be in the unit circle."""
    vals = list(a.values())
    c, p, r, th = vals[:4]
    if len(vals) > 4 and vals[4] is not False:
        raise Unsupported("way to calculate the sum")
    if not isinstance(p, (Q.VList, tuple, list)):
        raise Unsupported("sequences of the sum")
    n, k = count_of(c), count_of(p)
    if n != k and not S.ctx().entails(T.eq(n, k)):
        if not S.ctx().branch(T.eq(n, k)):
            raise S.Raised(ValueError, "different lengths")
    if not S.ctx().entails(T.lt(T.ZERO, n)) and not S.ctx().branch(T.lt(T.ZERO, n)):
        raise S.Raised(ValueError, "empty sequences")
    r, th, dims = broadcast(interp, r, th)
    cf = coefficient_of(c)

    def value(x, y):
        q = T.var("$sumk", "int")
        m, o = orders_of(p, q)
        return T.bsum(q, n, T.mul(cf(q), Z(m, o, S.mk(x, "float"), S.mk(y, "float"))))
    if dims is None:
        S.ctx().check("the radius is in the unit circle", S.cond_of(in_circle(S.mk(t(r), "float"))))
        return S.mk(value(t(r), t(th)), "float")
    f, g = (x.snapshot() if isinstance(x, S.SArr) else (lambda ix, q=t(x): q) for x in (r, th))
    if isinstance(r, S.SArr):
        ix = tuple(S.ctx().freshvar("point", "int") for _ in dims)
        S.ctx().check("the radii are in the unit circle", T.implies(T.cand(*[T.cand(T.ge0(i), T.lt(i, d)) for i, d in zip(ix, dims)]), S.cond_of(in_circle(S.mk(f(ix), "float")))))
    return S.SArr(dims, lambda ix: value(f(ix), g(ix)), "float")


def count_of(x):
    if isinstance(x, S.SArr):
        return x.dims[0]
    return S.dim(x.length()) if isinstance(x, Q.VList) else T.pc(len(x))


def coefficient_of(c):
    a = S.asarray(c)
    f = a.snapshot()
    return lambda k: f((k,))


def orders_of(p, k):
    if not isinstance(p, Q.VList):
        p = Q.VList(list(p))
    o = p.elem(k)
    if not isinstance(o, Q.VObj):
        raise Unsupported("polynomials of the sum")
    return o.attrs["_ZernPol__m"], o.attrs["_ZernPol__n"]


STUBS = {CLS + ".sum_zernikes": sum_stub}


def pixel(v, img, h, w, c, p, n):
    """The image has the values of the property at an arbitrary pixel."""
    if not isinstance(img, S.SArr) or img.ndim != 2:
        return v.fail("a matrix", repr(img))
    h, w = t(h), t(w)
    v.equal("as many rows as the height", img.dims[0], h)
    v.equal("as many columns as the width", img.dims[1], w)
    i, j = v.index(h, w)
    r0, c0 = T.fdiv(h, 2), T.fdiv(w, 2)
    R = T.add(T.ONE, T.fdiv(T.ite(T.le(h, w), h, w), 2))
    up, right = T.sub(r0, i), T.sub(j, c0)
    d = T.sqrt(T.add(T.mul(up, up), T.mul(right, right)))
    if v.choose(["inside", "outside"]) == "outside":
        v.require(S.mkbool(T.lt(R, d)))
        v.equal("0 outside of the circle", img.at(i, j), T.ZERO)
        return
    v.require(S.mkbool(T.le(d, R)))
    at = T.app("arctan2", (up, right), "real")
    angle = T.ite(T.lt(at, T.ZERO), T.add(at, T.scale(PI, 2)), at)
    q = T.var("$sumk", "int")
    m, o = orders_of(p, q)
    want = T.bsum(q, t(n), T.mul(c(q), Z(m, o, S.mk(T.div(d, R), "float"), S.mk(angle, "float"))))
    v.equal("the sum of the polynomials within the circle", img.at(i, j), want)


def sides(v):
    h, w = v.int("height"), v.int("width")
    v.require(AND(h >= 1, w >= 1))
    return h, w


@contract(CONTRACTS, f"{IMAGE}: the sum of the polynomials within the circle, 0 outside", budget=200, stubs=STUBS)
def image(v):
    n = v.int("count")
    v.require(n >= 1)
    c, p = coefficients(v, "c", n, v.choose(COEFFS)), polynomials(v, "p", n, v.choose(["list", "tuple"]))
    h, w = sides(v)
    v.cover("any image")
    x, e = v.choose([lambda: v.call(IMAGE, p, c, w, h), lambda: v.call(IMAGE, polynomials=p, polynomials_amplitudes=c, img_width=w, img_height=h)])()
    if e:
        return v.fail("no exception", repr(v.last_exc.exc))
    pixel(v, x, h, w, lambda k: ck("c", k), p, n)


def generated(interp, a):
    """Contract of generate_polynomials (P08): all polynomials up to the order, the one at place i has the OSA index i."""
    N, = list(a.values())
    if S.lift(N) is None or S.lift(N)[1] != "int":
        raise Unsupported("order of the generated polynomials")
    c = S.ctx()
    for bad in (T.lt(t(N), T.ZERO), T.lt(T.pc(NMAX), t(N))):
        if not c.entails(T.cnot(bad)) and c.branch(bad):
            raise S.Raised(ValueError, "order")

    def element(i):
        m, n = T.app("osa_m", (i,), "int"), T.app("osa_n", (i,), "int")
        return p08.poly_object_of(interp, m, n)
    return Q.VList((), "tuple", T.fdiv(T.mul(T.add(t(N), T.ONE), T.add(t(N), T.pc(2))), 2), element)


DRAWN = T.pc(Fraction("1.5"))


def random_call(v, low, high, digits):
    """The result for an order between the limits: (image, amplitudes, polynomials, number of them, height, width)."""
    N = v.int("max_order")
    v.require(AND(N >= low, N <= high))
    h, w = sides(v)
    v.cover("any order and sides")
    if digits is None:
        x, e = v.call(RANDOM, N, w, h)
    else:
        x, e = v.call(RANDOM, max_order=N, img_width=w, img_height=h, round_digits=digits)
    if e:
        return v.fail("no exception", repr(v.last_exc.exc))
    if not isinstance(x, (tuple, Q.VList)) or len(x) != 3:
        return v.fail("an image, amplitudes and polynomials", repr(x))
    img, a, p = x
    if not isinstance(a, S.SArr) or a.ndim != 1 or not isinstance(p, Q.VList) or p.n is None or p.cls != "tuple":
        return v.fail("a vector of amplitudes and a tuple of polynomials", repr((a, p)))
    return img, a, p, T.fdiv(T.mul(T.add(t(N), T.ONE), T.add(t(N), T.pc(2))), 2), h, w


def random_contracts(low, high):
    text = f"{RANDOM} for orders {low} to {high}: "
    stubs = {**STUBS, p08.GEN: generated}

    @contract(CONTRACTS, text + "the image is the one of the amplitudes and polynomials", budget=250, stubs=stubs)
    def image_of(v):
        r = random_call(v, low, high, None)
        if r:
            img, a, p, count, h, w = r
            f = a.snapshot()
            pixel(v, img, h, w, lambda k: f((k,)), p, count)

    @contract(CONTRACTS, text + "all polynomials up to the order, amplitudes within the limits and rounded", budget=250, stubs=stubs)
    def amplitudes_of(v):
        digits = v.choose([None, 1, 7])
        r = random_call(v, low, high, digits)
        if not r:
            return
        img, a, p, count, h, w = r
        v.equal("all polynomials up to the order", p.n, count)
        v.equal("an amplitude for each of them", a.dims[0], count)
        i, = v.index(count)
        m, n = orders_of(p, i)
        v.equal("the angular orders in OSA order", m, T.app("osa_m", (i,), "int"))
        v.equal("the radial orders in OSA order", n, T.app("osa_n", (i,), "int"))
        y = a.at(i)
        v.prove("amplitudes in [-1.5, 1.5]", S.mkbool(T.cand(T.le(T.neg(DRAWN), y), T.le(y, DRAWN))))
        j, = v.index(count)
        least = T.pc(Fraction("0.08"))
        others = T.implies(T.cnot(T.eq(i, j)), T.lt(T.pabs(a.at(j)), least))
        v.prove("rounded amplitudes, or the only one that is not vanishing",
                S.mkbool(T.cor(T.eq(y, T.rnd(y, digits or 4)), T.cand(T.le(least, T.pabs(y)), others))))


for limits in ((0, 2), (3, 4), (5, 8), (9, NMAX)):
    random_contracts(*limits)
