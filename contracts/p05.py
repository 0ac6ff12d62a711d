"""P05: angular functions, normalization and complete values."""
from .values import *
from . import p01, p03
CONTRACTS = [c for c in p03.CONTRACTS if not c.name.startswith(CLS)]        # the radial part
LIMIT = 40
BATTERY_S = 25


@contract(CONTRACTS, f"{CLS}.normf is the normalization factor, for all orders", budget=60, stubs=STUBS)
def normf(v):
    p, m, n = polynomial(v)
    v.cover("valid orders")
    x, e = v.method(p, "normf")
    if e:
        return v.fail("no exception", repr(v.last_exc.exc))
    v.equal("normalization factor", x, norm_term(m, n))


def angular(method, f, what):
    @contract(CONTRACTS, f"{CLS}.{method} is the {what}, for all orders and angles", budget=100, stubs=STUBS)
    def spec(v):
        shape = v.choose(SHAPES)
        p, m, n = polynomial(v)
        th = argument(v, "theta", shape)
        v.cover("any angles")
        x, e = v.method(p, method, th)
        if e:
            return v.fail("no exception", repr(v.last_exc.exc))
        elementwise(v, what, x, [th], lambda q: f(m, q))


angular("triangular", ang_term, "angular function")
angular("triangular_dtheta", dang_term, "derivative of the angular function")

CALC_FUNCTIONS = {"triangular_function": lambda m, n: lambda q: ang_term(m, q), "triangular_derivative": lambda m, n: lambda q: dang_term(m, q)}


def behind(name, f):
    """The functions behind the methods, which other modules call too: for polynomials and for orders."""
    @contract(CONTRACTS, f"{CALC}{name} for polynomials and for orders", budget=60, stubs=STUBS)
    def spec(v):
        shape = v.choose(("float", "array1", "array2"))
        p, m, n = polynomial(v)
        o = v.choose([p, (m, n)])
        if name == "normalization_factor":
            v.cover("valid orders")
            x, e = v.call(CALC + name, o)
            if e:
                return v.fail("no exception", repr(v.last_exc.exc))
            return v.equal("normalization factor", x, norm_term(m, n))
        th = argument(v, "theta", shape)
        v.cover("any angles")
        x, e = v.call(CALC + name, o, th)
        if e:
            return v.fail("no exception", repr(v.last_exc.exc))
        elementwise(v, "value", x, [th], f(m, n))


for k, f in CALC_FUNCTIONS.items():
    behind(k, f)
behind("normalization_factor", None)


def value(v, shapes, modes):
    rk, tk = v.choose(shapes)
    kw = v.choose(modes)
    p, m, n = polynomial(v)
    size, size2 = v.int("size"), v.int("size2")
    r, th = argument(v, "r", rk, size, size2), argument(v, "theta", tk, size, size2)
    require_range(v, r, in_circle)
    v.cover("valid radii")
    full = lambda q, a: T.mul(T.mul(norm_term(m, n), radial_app("R", m, n, q)), ang_term(m, a))
    for turn in ("first", "second"):
        w = len(v.c.warned)
        x, e = v.method(p, "polynomial_value", r, th, **kw)
        if e:
            return v.fail("no exception for valid radii", repr(v.last_exc.exc))
        if kw.get("use_exact_eq") and not v.c.entails(S.cond_of(n <= LIMIT)):
            if v.c.entails(S.cond_of(n > LIMIT)):
                elementwise(v, f"zeros for n > {LIMIT}", x, [r, th], lambda q, a: T.ZERO)
                v.prove(f"a warning for n > {LIMIT}", S.mkbool(T.TRUE if len(v.c.warned) > w else T.FALSE))
                continue
            elementwise(v, "value of the exact equation", x, [r, th], lambda q, a: T.ite(T.le(t(n), T.pc(LIMIT)), full(q, a), T.ZERO))
            continue
        elementwise(v, f"value ({turn} call)", x, [r, th], full)


def value_contracts():
    one, many = ("float", "int"), tuple(a for a in SHAPES if a not in ("float", "int"))
    groups = {"numbers": [(a, b) for a in one for b in one], "arrays of radii": [(a, "float") for a in many] + [("array1", "int")],
              "arrays of angles": [("float", a) for a in many] + [("int", "array1")], "arrays of one shape": [(a, a) for a in many],
              "mixed sequences": [("list", "tuple"), ("array1", "list"), ("tuple", "ints"), ("ints", "array1"), ("list", "array1")]}
    modes = {"default mode": [{}, {"use_exact_eq": False}], "exact equations": [{"use_exact_eq": True}]}
    for g, shapes in groups.items():
        for k, kws in modes.items():
            contract(CONTRACTS, f"{CLS}.polynomial_value is normalization * radial * angular value: {g}, {k}", budget=150, stubs=STUBS)(
                lambda v, shapes=shapes, kws=kws: value(v, shapes, kws))


value_contracts()
