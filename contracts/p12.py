"""P12: fitting of polynomials."""
from .polys import *

CONTRACTS = []
FIT, IMAGE, VECTORS = "calculations.fit_zernike_pols:fit_zernikes", "zernikepol:fit_polynomials", "zernikepol:fit_polynomials_vectors"
CROP = "calculations.fit_zernike_pols:crop_phases_img"


def different(v, name, count, cls):
    """Polynomials, all of them different (the precondition for any two places)."""
    def places(i, j):
        (a, b), (c, d) = orders_app(name, i), orders_app(name, j)
        return T.cor(T.eq(i, j), T.cnot(T.eq(a, c)), T.cnot(T.eq(b, d)))
    v.c.ghost["places"] = [places]
    return polynomials(v, name, count, cls)


def solution(values, phases):
    """Least-squares solution (assumed contract of numpy.linalg.lstsq): one number per column."""
    from vc import lib
    return lib.lstsq(values, phases)[0]


@contract(CONTRACTS, f"{FIT}: point-wise", budget=200, stubs=VALUE)
def pointwise(v):
    n, k = v.int("points"), v.int("count")
    v.require(AND(n >= 1, k >= 1))
    p = different(v, "p", k, v.choose(["list", "tuple"]))
    y, r, th = v.array("phases", [n]), v.array("radii", [n]), v.array("angles", [n])
    v.require_all(r, lambda x: AND(x >= 0, x <= 1))
    v.cover("any points")
    x, e = v.call(FIT, (y, r, th), p)
    if e:
        return v.fail("no exception", repr(v.last_exc.exc))
    W = S.SArr((t(n), t(k)), lambda ix: zk("p", ix[1], S.mk(r.at(ix[0]), "float"), S.mk(th.at(ix[0]), "float")), "float")
    i, = v.index(k)
    v.equal("one amplitude for each polynomial", x.dims[0], t(k))
    v.equal("the least-squares solution", x.at(i), solution(W, y).at(i))


@contract(CONTRACTS, f"{FIT}: a grid of radii and angles", budget=200, stubs=VALUE)
def grid(v):
    n, m, k = v.int("radii"), v.int("angles"), v.int("count")
    v.require(AND(n >= 1, m >= 1, k >= 1, NOT(S.mkbool(T.eq(t(n), t(m))))))
    p = different(v, "p", k, v.choose(["list", "tuple"]))
    y, r, th = v.array("phases", [S.mk(T.mul(t(n), t(m)), "int")]), v.array("radii", [n]), v.array("angles", [m])
    v.require_all(r, lambda x: AND(x >= 0, x <= 1))
    v.cover("any grid")
    x, e = v.call(FIT, (y, r, th), p)
    if e:
        return v.fail("no exception", repr(v.last_exc.exc))

    def value(ix):
        i = T.var("$row", "int")
        start = T.mul(i, t(m))
        a = T.sub(ix[0], start)
        inside = T.cand(T.le(start, ix[0]), T.lt(a, t(m)))
        return T.bsum(i, t(n), T.ite(inside, zk("p", ix[1], S.mk(r.at(i), "float"), S.mk(th.at(a), "float")), T.ZERO))
    W = S.SArr((T.mul(t(n), t(m)), t(k)), value, "float")
    i, = v.index(k)
    v.equal("one amplitude for each polynomial", x.dims[0], t(k))
    v.equal("the least-squares solution", x.at(i), solution(W, y).at(i))


@contract(CONTRACTS, f"{FIT}: repeated polynomials raise ValueError", budget=100, stubs=VALUE)
def repeated(v):
    n, k = v.int("points"), v.int("count")
    i, j = v.int("place"), v.int("repetition")
    v.require(AND(n >= 1, i >= 0, i < j, j < k))
    (a, b), (c, d) = orders_app("p", t(i)), orders_app("p", t(j))
    v.require(S.mkbool(T.cand(T.eq(a, c), T.eq(b, d))))
    v.c.ghost["pairs"] = [(t(i), t(j))]
    p = polynomials(v, "p", k, v.choose(["list", "tuple"]))
    y, r, th = v.array("phases", [n]), v.array("radii", [n]), v.array("angles", [n])
    v.cover("a repetition")
    x, e = v.call(FIT, (y, r, th), p)
    v.prove("ValueError", e is ValueError)


@contract(CONTRACTS, "no polynomials raise ValueError", budget=100, stubs=VALUE)
def empty(v):
    n = v.int("points")
    v.require(n >= 1)
    y, r, th = v.array("phases", [n]), v.array("radii", [n]), v.array("angles", [n])
    v.cover("any points")
    none = v.choose([(), []])
    if v.choose(["inner", "vectors"]) == "inner":
        x, e = v.call(FIT, (y, r, th), none)
    else:
        x, e = v.call(VECTORS, none, y, r, th)
    v.prove("ValueError", e is ValueError)


def digits(v):
    """No digits given (4 of them by default), or any number of digits."""
    if v.choose(["default", "given"]) == "default":
        return {}, 4
    d = v.int("digits")
    return {"round_digits": d}, d


def rounded(v, x, W, y, k, d):
    if not isinstance(x, S.SArr) or x.ndim != 1:
        return v.fail("a vector of amplitudes", repr(x))
    i, = v.index(k)
    v.equal("one amplitude for each polynomial", x.dims[0], t(k))
    v.equal("the rounded least-squares solution", x.at(i), T.rnd(solution(W, y).at(i), d) if isinstance(d, int) else T.app("round", (solution(W, y).at(i), t(d))))


@contract(CONTRACTS, f"{VECTORS}: the rounded solution", budget=200, stubs=VALUE)
def vectors(v):
    n, k = v.int("points"), v.int("count")
    v.require(AND(n >= 1, k >= 1))
    p = different(v, "p", k, v.choose(["list", "tuple"]))
    y, r, th = v.array("phases", [n]), v.array("radii", [n]), v.array("angles", [n])
    v.require_all(r, lambda x: AND(x >= 0, x <= 1))
    kw, d = digits(v)
    v.cover("any points")
    if v.choose(["positional", "keywords"]) == "positional":
        x, e = v.call(VECTORS, p, y, r, th, **kw)
    else:
        x, e = v.call(VECTORS, polynomials=p, phases_vector=y, radii_vector=r, thetas_vector=th, **kw)
    if e:
        return v.fail("no exception", repr(v.last_exc.exc))
    W = S.SArr((t(n), t(k)), lambda ix: zk("p", ix[1], S.mk(r.at(ix[0]), "float"), S.mk(th.at(ix[0]), "float")), "float")
    rounded(v, x, W, y, k, d)


@contract(CONTRACTS, f"{VECTORS}: arrays that are not vectors raise TypeError", budget=100, stubs=VALUE)
def not_vectors(v):
    k = v.int("count")
    v.require(k >= 1)
    p = polynomials(v, "p", k)
    n, m, l = v.int("n"), v.int("m"), v.int("l")
    v.require(AND(n >= 0, m >= 0, l >= 0))
    shapes = [[n], [n, m], [n, m, l]]
    ranks = v.choose([(a, b, c) for a in range(3) for b in range(3) for c in range(3) if a + b + c])
    y, r, th = (v.array(s, shapes[q]) for s, q in zip(("phases", "radii", "angles"), ranks))
    v.cover("an array")
    x, e = v.call(VECTORS, p, y, r, th)
    v.prove("TypeError", e is TypeError)


@contract(CONTRACTS, f"{IMAGE}: the rounded solution on the cropped circle", budget=200, stubs=VALUE)
def image(v):
    h, w, k, n = v.int("rows"), v.int("columns"), v.int("count"), v.int("points")
    v.require(AND(h >= 3, w >= 3, k >= 1, n >= 1))
    p = different(v, "p", k, v.choose(["list", "tuple"]))
    img = v.array("img", [h, w], kind=v.choose(["float", "int"]))
    mask, y, r, th = v.array("mask", [h, w], kind="int"), v.array("phases", [n]), v.array("radii", [n]), v.array("angles", [n])
    v.require_all(r, lambda x: AND(x >= 0, x <= 1))
    options = {}
    if v.choose(["default", "given"]) == "given":
        R = v.real("radius")
        options = {"crop_radius": R, "suppress_warnings": v.choose([False, True]), "strict_circle_border": v.choose([False, True])}

    def crop(interp, a):       # contract P11: mask and vectors of the circle
        R, want = a["crop_radius"], options.get("crop_radius", 1.0)
        v.prove("the image is cropped", a["phases_image"] is img)
        v.equal("with the given radius", t(R), t(want))
        v.prove("with the given border", a["strict_border"] is options.get("strict_circle_border", False))
        v.prove("with the given switch of warnings", a["suppress_warns"] is options.get("suppress_warnings", False))
        return mask, (y, r, th)
    v.interp.stubs[CROP] = crop
    kw, d = digits(v)
    back = v.choose([None, False, True])
    if back is not None:
        kw["return_cropped_image"] = back
    v.cover("any image")
    x, e = v.call(IMAGE, img, p, **options, **kw)
    if e:
        return v.fail("no exception", repr(v.last_exc.exc))
    if not isinstance(x, tuple) or len(x) != 2:
        return v.fail("amplitudes and an image", repr(x))
    W = S.SArr((t(n), t(k)), lambda ix: zk("p", ix[1], S.mk(r.at(ix[0]), "float"), S.mk(th.at(ix[0]), "float")), "float")
    rounded(v, x[0], W, y, k, d)
    if not back:
        return v.prove("no image unless requested", x[1] is None)
    if not isinstance(x[1], S.SArr) or x[1].ndim != 2:
        return v.fail("the cropped image", repr(x[1]))
    i, j = v.index(h, w)
    v.equal("rows of the cropped image", x[1].dims[0], t(h))
    v.equal("columns of the cropped image", x[1].dims[1], t(w))
    v.equal("the image within the circle", x[1].at(i, j), T.mul(mask.at(i, j), img.at(i, j)))
