"""P06: acceptance of radii and angles.  The arrays and lists given to the calculations are frozen in every contract: a write to them is a failed obligation."""
from .values import *
from .p02 import consistent_object
CONTRACTS = []
METHODS = ("radial", "radial_dr", "polynomial_value")


def two_pi():
    return T.scale(T.pa(T.PI_ATOM), 2)


def call_value(v, p, method, r, th, kw):
    return v.method(p, method, r, th, **kw) if method == "polynomial_value" else v.method(p, method, r, **kw)


def outside(v, r, how):
    """One of the radii lies outside of [0, 1]."""
    bad = lambda x: x < 0 if how == "negative" else x > 1
    if isinstance(r, S.Sym):
        v.require(bad(r))
        return
    a = as_array(r)
    ix = v.index(*[I(d) for d in a.dims])
    v.require(bad(S.mk(a.at(*ix), a.kind)))


def radii(method, mode):
    kw = {"use_exact_eq": True} if mode == "exact" else {}

    @contract(CONTRACTS, f"{CLS}.{method} rejects radii outside of the unit circle ({mode} mode)", budget=100, stubs=STUBS)
    def rejected(v):
        shape = v.choose(SHAPES)
        how = v.choose(["negative", "above 1"])
        p, m, n = polynomial(v)
        r = argument(v, "r", shape)
        outside(v, r, how)
        v.cover("a radius outside of [0, 1]")
        th = v.real("theta")
        x, e = call_value(v, p, method, r, th, kw)
        v.prove("ValueError for a radius outside of [0, 1]", S.mkbool(T.TRUE if e is ValueError else T.FALSE))

    @contract(CONTRACTS, f"{CLS}.{method} accepts radii within the unit circle ({mode} mode)", budget=100, stubs=STUBS)
    def accepted(v):
        shape = v.choose(SHAPES)
        p, m, n = polynomial(v)
        r = argument(v, "r", shape)
        require_range(v, r, in_circle)
        v.cover("radii in [0, 1]")
        th = v.real("theta")
        x, e = call_value(v, p, method, r, th, kw)
        v.prove("no exception for radii in [0, 1]", S.mkbool(T.TRUE if e is None else T.FALSE))
        consistent_object(v, p, m, n)              # the polynomial is not modified


for m_ in METHODS:
    for mode_ in ("default", "exact"):
        radii(m_, mode_)


@contract(CONTRACTS, f"{CLS} rejects texts that are not numbers", budget=60, stubs=STUBS)
def texts(v):
    text = v.choose(["", "abc", "1,5", "r", "0.5 1", "pi"])
    what = v.choose(["radial", "radial_dr", "value", "value angle", "triangular", "triangular_dtheta", "both"])
    kw = v.choose([{}, {"use_exact_eq": True}])
    p, m, n = polynomial(v)
    r, th = v.real("r"), v.real("theta")
    v.require(in_circle(r))
    v.cover("a text")
    if what in ("radial", "radial_dr"):
        x, e = v.method(p, what, text, **kw)
    elif what in ("triangular", "triangular_dtheta"):
        x, e = v.method(p, what, text)
    else:
        x, e = v.method(p, "polynomial_value", r if what == "value angle" else text, th if what == "value" else text, **kw)
    v.prove("ValueError for a text", S.mkbool(T.TRUE if e is ValueError else T.FALSE))


@contract(CONTRACTS, f"{CLS}.polynomial_value rejects arrays of different shapes", budget=100, stubs=STUBS)
def shapes(v):
    kw = v.choose([{}, {"use_exact_eq": True}])
    case = v.choose([(a, b) for a in ("array1", "ints", "list", "tuple") for b in ("array1", "ints", "list", "tuple")] + [("array2", "array2"), ("array2", "array1"), ("array1", "array2"), ("list", "array2"), ("array2", "tuple")])
    p, m, n = polynomial(v)
    n1, n2, k1, k2 = v.int("n1"), v.int("n2"), v.int("k1"), v.int("k2")
    r, th = argument(v, "r", case[0], n1, k1), argument(v, "theta", case[1], n2, k2)
    require_range(v, r, in_circle)
    if case == ("array2", "array2"):
        v.require(OR(NOT(n1 == n2), NOT(k1 == k2)))
    elif "array2" not in case:
        v.require(NOT(n1 == n2))
    v.cover("different shapes")
    x, e = v.method(p, "polynomial_value", r, th, **kw)
    v.prove("ValueError for different shapes", S.mkbool(T.TRUE if e is ValueError else T.FALSE))


@contract(CONTRACTS, f"{CLS}: angles outside of [0, 2*pi] are accepted with a warning", budget=100, stubs=STUBS)
def angles(v):
    shape = v.choose(SHAPES)
    how = v.choose(["negative", "above 2*pi"])
    method = v.choose(["triangular", "triangular_dtheta", "polynomial_value"])
    p, m, n = polynomial(v)
    th = argument(v, "theta", shape)
    bad = lambda x: x < 0 if how == "negative" else S.mkbool(T.gt0(T.sub(t(x), two_pi())))
    if isinstance(th, S.Sym):
        v.require(bad(th))
    else:
        a = as_array(th)
        ix = v.index(*[I(d) for d in a.dims])
        v.require(bad(S.mk(a.at(*ix), a.kind)))
    v.cover("an angle outside of [0, 2*pi]")
    r = v.real("r")
    v.require(in_circle(r))
    w = len(v.c.warned)
    x, e = v.method(p, method, th) if method != "polynomial_value" else v.method(p, method, r, th)
    if e:
        return v.fail("no exception for angles outside of [0, 2*pi]", repr(v.last_exc.exc))
    v.prove("a warning", S.mkbool(T.TRUE if len(v.c.warned) > w else T.FALSE))
    f = {"triangular": lambda q: ang_term(m, q), "triangular_dtheta": lambda q: dang_term(m, q),
         "polynomial_value": lambda q: T.mul(T.mul(norm_term(m, n), radial_app("R", m, n, t(r))), ang_term(m, q))}[method]
    elementwise(v, "the angles are used unchanged", x, [th], f)
