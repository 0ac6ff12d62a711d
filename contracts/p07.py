"""P07: sums of polynomials."""
from .polys import *
CONTRACTS = []
N1 = "the sum is the weighted sum of the values"


def setup(v, empty=False):
    n = v.int("count")
    v.require(n >= 1)
    ck_, pk = v.choose([("list", "list"), ("tuple", "tuple"), ("array", "list"), ("list", "tuple")])
    return n, coefficients(v, "c", n, ck_), polynomials(v, "p", n, pk)


@contract(CONTRACTS, f"{CLS}.sum_zernikes at points is the weighted sum of the values", budget=150, stubs=VALUE)
def points(v):
    n, c, p = setup(v)
    rk, tk = v.choose([("float", "float"), ("int", "float"), ("array1", "array1"), ("array1", "float"), ("float", "array1"), ("array2", "array2"), ("list", "list"), ("array2", "float")])
    size, size2 = v.int("size"), v.int("size2")
    r, th = argument(v, "r", rk, size, size2), argument(v, "theta", tk, size, size2)
    require_range(v, r, in_circle)
    v.cover("points of the circle")
    modes = [{}, {"get_surface": False}] + ([{"get_surface": True}] if rk not in ("array1", "array2") or tk not in ("array1", "array2") else [])
    x, e = v.call(CLS + ".sum_zernikes", c, p, r, th, **v.choose(modes))
    if e:
        return v.fail("no exception for valid inputs", repr(v.last_exc.exc))
    elementwise(v, N1, x, [r, th], lambda a, b: weighted("c", "p", n, a, b))


def mesh(v, qual, **kw):
    n, c, p = setup(v)
    a, b = v.int("n_r"), v.int("n_theta")
    v.require(AND(a >= 1, b >= 1))
    r, th = v.array("r", [a]), v.array("theta", [b])
    v.require_all(r, in_circle)
    v.cover("vectors of any lengths")
    x, e = v.call(qual, c, p, r, th, **kw)
    if e:
        return v.fail("no exception for valid inputs", repr(v.last_exc.exc))
    if not isinstance(x, S.SArr) or x.ndim != 2:
        return v.fail("a matrix", repr(x))
    v.equal("as many rows as radii", x.dims[0], t(a))
    v.equal("as many columns as angles", x.dims[1], t(b))
    i, j = T.var("$row", "int"), T.var("$col", "int")
    v.c.fact(T.cand(T.ge0(i), T.lt(i, t(a)), T.ge0(j), T.lt(j, t(b))))
    v.equal("element [j, k] is the sum at (r_j, theta_k)", x.at(i, j), weighted("c", "p", n, S.mk(r.at(i), "float"), S.mk(th.at(j), "float")))


contract(CONTRACTS, f"{CLS}.sum_zernikes gives the surface for vectors of any lengths", budget=150, stubs=VALUE)(lambda v: mesh(v, CLS + ".sum_zernikes", get_surface=True))
contract(CONTRACTS, f"{CLS}._sum_zernikes_meshgrid gives the surface for vectors of any lengths", budget=150, stubs=VALUE)(lambda v: mesh(v, CLS + "._sum_zernikes_meshgrid"))


COORDS = ("gen_polar_coordinates", "gen_equal_polar_mesh")


@contract(CONTRACTS, f"{CLS}.gen_zernikes_surface returns the matrix with the coordinates it was computed on", budget=150, stubs=VALUE)
def surface(v):
    n, c, p = setup(v)
    a, b = v.int("n_r"), v.int("n_theta")
    v.require(AND(a >= 1, b >= 1))
    made = {}

    def coordinates(name):
        def stub(interp, args):
            r, th = v.array("r", [a]), v.array("theta", [b])
            v.require_all(r, in_circle)
            made["by"], made["args"], made["out"] = name, list(args.values()), (r, th)
            return interp.get("zernikepol:polar_vectors")(r, th)
        return stub
    for name in COORDS:
        v.interp.stubs[f"{CLS}.{name}"] = coordinates(name)
    equal = v.choose([False, True])
    rs, ts, k = v.real("r_step"), v.real("theta_step"), v.int("n_points")
    v.cover("any coordinates")
    x, e = v.call(CLS + ".gen_zernikes_surface", c, p, r_step=rs, theta_rad_step=ts, equal_n_coordinates=equal, n_points=k)
    if e:
        return v.fail("no exception for valid inputs", repr(v.last_exc.exc))
    if not isinstance(x, tuple) or len(x) != 3 or getattr(x, "_fields", None) != ("ZernSurf", "R", "Theta"):
        return v.fail("the tuple of the surface and its coordinates", repr(x))
    if not made:
        return v.fail("generated coordinates are used")
    v.prove("the requested kind of coordinates", made["by"] == COORDS[1] if equal else made["by"] == COORDS[0])
    for name, got, want in zip(("radii step", "angles step") if not equal else ("number of points",), made["args"], (rs, ts) if not equal else (k,)):
        v.equal(f"the requested {name}", got, t(want))
    r, th = made["out"]
    i, j = T.var("$row", "int"), T.var("$col", "int")
    v.c.fact(T.cand(T.ge0(i), T.lt(i, t(a)), T.ge0(j), T.lt(j, t(b))))
    for name, got, want in (("radii", x.R, r), ("angles", x.Theta, th)):
        if not isinstance(got, S.SArr) or got.ndim != 1:
            return v.fail(f"the {name} are returned", repr(got))
        v.equal(f"number of the {name}", got.dims[0], want.dims[0])
        q = T.var("$q", "int")
        v.equal(f"the {name} are returned", got.at(q), want.at(q))
    s = x.ZernSurf
    if not isinstance(s, S.SArr) or s.ndim != 2:
        return v.fail("a matrix", repr(s))
    v.equal("as many rows as radii", s.dims[0], t(a))
    v.equal("as many columns as angles", s.dims[1], t(b))
    v.equal("element [j, k] is the sum at (r_j, theta_k)", s.at(i, j), weighted("c", "p", n, S.mk(r.at(i), "float"), S.mk(th.at(j), "float")))


FUNCS = (("sum_zernikes", {}), ("sum_zernikes", {"get_surface": True}), ("_sum_zernikes_meshgrid", {}))


def places(v):
    a, b = v.int("n_r"), v.int("n_theta")
    v.require(AND(a >= 1, b >= 1))
    r, th = v.array("r", [a]), v.array("theta", [a] if v.choose([True, False]) else [b])
    v.require_all(r, in_circle)
    return r, th


@contract(CONTRACTS, "sequences of different lengths raise ValueError", budget=100, stubs=VALUE)
def lengths(v):
    n, k = v.int("n_coefficients"), v.int("n_polynomials")
    v.require(AND(n >= 0, k >= 0, NOT(n == k)))
    name, kw = v.choose(FUNCS)
    c, p = coefficients(v, "c", n, v.choose(COEFFS)), polynomials(v, "p", k, v.choose(["list", "tuple"]))
    r, th = places(v)
    v.cover("different lengths")
    x, e = v.call(f"{CLS}.{name}", c, p, r, th, **kw)
    v.prove("ValueError", e is ValueError)


@contract(CONTRACTS, "empty sequences raise ValueError", budget=100, stubs=VALUE)
def empty(v):
    name, kw = v.choose(FUNCS[:2])
    c, p = v.choose([lambda: [], lambda: (), lambda: coefficients(v, "c", 0, "array")])(), v.choose([[], ()])
    r, th = places(v)
    v.cover("no polynomials")
    x, e = v.call(f"{CLS}.{name}", c, p, r, th, **kw)
    v.prove("ValueError", e is ValueError)


@contract(CONTRACTS, "objects that are not polynomials raise ValueError, wherever they are", budget=150, stubs=VALUE)
def objects(v):
    n, at = v.int("count"), v.int("position")
    v.require(AND(at >= 0, at < n))
    name, kw = v.choose(FUNCS)
    other = v.choose([None, 1, 2.5, "Z", (0, 2), [0, 2]])
    is_pol = lambda k: T.eq(T.app("is_polynomial", (k,), "int"), T.ONE)

    def element(k):
        return poly_object(v, *orders_app("p", k)) if S.ctx().branch(is_pol(k)) else other
    p = Q.VList((), v.choose(["list", "tuple"]), t(n), element)
    p.frozen = "polynomials"
    v.require(S.mkbool(T.cnot(is_pol(t(at)))))
    c = coefficients(v, "c", n, v.choose(["list", "array"]))
    r, th = places(v)
    v.cover("another object")
    x, e = v.call(f"{CLS}.{name}", c, p, r, th, **kw)
    v.prove("ValueError", e is ValueError)
