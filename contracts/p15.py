"""P15: physical and calculation properties."""
from fractions import Fraction
from .psf import *

CONTRACTS = []
PI = T.pa(T.PI_ATOM)
ORDERS = "calculations.calc_zernike_pol:define_orders"
QUARTER = Fraction(1, 4)


def props(v):
    return v.choose([lambda: v.real("NA"), lambda: v.int("NA")])(), v.real("wavelength"), v.real("pixel")


def accepted(na, wl, px):
    """0 < NA <= 1.7, wavelength > 0, 0 < pixel <= wavelength/(4 NA)."""
    return AND(na > 0, S.mkbool(T.le(t(na), T.pc(Fraction("1.7")))), wl > 0, px > 0, S.mkbool(T.le(T.scale(T.mul(t(px), t(na)), 4), t(wl))))


def consistent(v, o, na, wl, px):
    g = lambda a: v.interp.getattr(o, a)
    for name, a, want in (("NA", "NA", t(na)), ("wavelength", "wavelength", t(wl)), ("pixel size", "pixel_size", t(px))):
        v.equal(f"the {name} is the given one", g(a), want)
    v.equal("the wave number is 2 pi/wavelength", T.mul(t(g("k")), t(wl)), T.scale(PI, 2))


def odd(v, size):
    if S.lift(size) is None or S.lift(size)[1] not in ("int",):
        return v.fail("the kernel size is an integer", repr(size))
    v.prove("the kernel size is an odd number >= 1", S.mkbool(size_facts(t(size))))
    return True


STUBS = {SIZE: size_stub}


@contract(CONTRACTS, f"{PSF}.set_physical_props of one polynomial", budget=100, stubs=STUBS)
def single(v):
    o, m, n = psf_single(v)
    any_history(v, o)
    na, wl, px = props(v)
    v.require(accepted(na, wl, px))
    a = v.choose([lambda: v.real("amplitude"), lambda: v.int("amplitude")])()
    given = v.choose([lambda: a, lambda: [a], lambda: (a,), lambda: v.array("amplitudes", [1])])()
    if isinstance(given, S.SArr):
        a = S.mk(given.at(T.ZERO), "float")
    v.cover("properties in their ranges")
    x, e = v.choose([lambda: v.method(o, "set_physical_props", na, wl, given, px), lambda: v.method(o, "set_physical_props", NA=na, wavelength=wl, expansion_coeff=given, pixel_physical_size=px)])()
    if e:
        return v.fail("valid properties are accepted", repr(v.last_exc.exc))
    consistent(v, o, na, wl, px)
    g = lambda k: v.interp.getattr(o, k)
    v.equal("the amplitude is the given one", g("expansion_coeff"), t(a))
    v.equal("the normalized amplitude is amplitude/wavelength", T.mul(t(g("alpha")), t(wl)), t(a))
    size = g("kernel_size")
    if odd(v, size):
        v.equal("the kernel size is the estimate for the polynomial", size, estimate(m, n, px, g("alpha"), wl, na))


@contract(CONTRACTS, f"{PSF}.set_physical_props of several polynomials", budget=200, stubs=STUBS)
def several_polynomials(v):
    o, k = psf_several(v)
    any_history(v, o)
    na, wl, px = props(v)
    v.require(accepted(na, wl, px))
    given = coefficients(v, "a", k, v.choose(COEFFS))
    v.cover("properties in their ranges")
    x, e = v.method(o, "set_physical_props", na, wl, given, px)
    if e:
        return v.fail("valid properties are accepted", repr(v.last_exc.exc))
    consistent(v, o, na, wl, px)
    g = lambda a: v.interp.getattr(o, a)
    q = v.index(k)[0]
    for name, a, f in (("the amplitudes are the given ones", "coefficients", lambda p: p), ("each normalized amplitude is amplitude/wavelength", "amplitudes", lambda p: T.mul(p, t(wl)))):
        y = g(a)
        if not isinstance(y, (S.SArr, Q.VList)):
            return v.fail(name, repr(y))
        y = S.asarray(y)
        v.equal(f"{name}: one for each polynomial", y.dims[0], t(k))
        v.equal(name, f(y.at(q)), ck("a", q))
    size = g("kernel_size")
    if odd(v, size):
        m, n = valid_polynomials(v, "p", q)
        est = estimate(m, n, px, S.mk(S.asarray(g("amplitudes")).at(q), "float"), wl, na)
        v.c.fact(size_facts(est))
        v.prove("the kernel size is at least each of the estimates", S.mkbool(T.le(est, t(size))))


@contract(CONTRACTS, f"{PSF}.set_physical_props: properties out of their ranges raise ValueError", budget=100, stubs=STUBS)
def out_of_range(v):
    many = v.choose([False, True])
    if many:
        o, k = psf_several(v)
        given = coefficients(v, "a", k, v.choose(["list", "array"]))
    else:
        o, m, n = psf_single(v)
        given = v.real("amplitude")
    any_history(v, o)
    na, wl, px = props(v)
    v.require(NOT(accepted(na, wl, px)))
    v.cover("properties out of their ranges")
    x, e = v.method(o, "set_physical_props", na, wl, given, px)
    v.prove("ValueError", e is ValueError)


@contract(CONTRACTS, f"{PSF}.set_physical_props: another number of amplitudes raises ValueError", budget=100, stubs=STUBS)
def number(v):
    many = v.choose([False, True])
    if many:
        o, k = psf_several(v)
        c = v.int("number")
        v.require(AND(c >= 0, NOT(c == k)))
        given = v.choose([lambda: coefficients(v, "a", c, v.choose(COEFFS)), lambda: v.real("amplitude"), lambda: v.int("amplitude")])()
    else:
        o, m, n = psf_single(v)
        c = v.int("number")
        v.require(AND(c >= 0, NOT(c == 1)))
        given = coefficients(v, "a", c, v.choose(COEFFS))
    any_history(v, o)
    na, wl, px = props(v)
    v.require(accepted(na, wl, px))
    v.cover("another number of amplitudes")
    x, e = v.method(o, "set_physical_props", na, wl, given, px)
    v.prove("ValueError", e is ValueError)


def any_psf(v):
    o = psf_several(v)[0] if v.choose([False, True]) else psf_single(v)[0]
    any_history(v, o)
    return o, v.int("size"), v.int("n_r"), v.int("n_phi")


def calc_ok(s, r, p):
    return AND(s >= 3, r >= 20, p >= 36)


@contract(CONTRACTS, f"{PSF}.set_calculation_props", budget=100, stubs=STUBS)
def calculation(v):
    o, s, r, p = any_psf(v)
    v.require(calc_ok(s, r, p))
    keep = {a: v.interp.getattr(o, a) for a in NUMBERS}
    v.cover("properties in their ranges")
    x, e = v.method(o, "set_calculation_props", s, r, p)
    if e:
        return v.fail("valid properties are accepted", repr(v.last_exc.exc))
    g = lambda a: v.interp.getattr(o, a)
    v.equal("the kernel size is the given one, an even one increased by one", g("kernel_size"), T.add(t(s), T.sub(T.ONE, T.sub(t(s), T.scale(T.fdiv(t(s), 2), 2)))))
    v.equal("the number of radial points is the given one", g("n_int_r_points"), t(r))
    v.equal("the number of angular points is the given one", g("n_int_phi_points"), t(p))
    for a, x in keep.items():
        v.equal(f"{a} remains", g(a), t(x))


@contract(CONTRACTS, f"{PSF}.set_calculation_props: properties out of their ranges raise ValueError", budget=100, stubs=STUBS)
def calculation_rejected(v):
    o, s, r, p = any_psf(v)
    v.require(NOT(calc_ok(s, r, p)))
    v.cover("properties out of their ranges")
    x, e = v.method(o, "set_calculation_props", s, r, p)
    v.prove("ValueError", e is ValueError)


def estimate_args(v):
    m, n = valid_polynomials(v, "p", T.ZERO)
    na, wl, al = v.real("NA"), v.real("wavelength"), v.real("alpha")
    v.require(AND(na > 0, S.mkbool(T.le(t(na), T.pc(Fraction("1.7")))), wl > 0))
    return poly_object(v, m, n), na, wl, al


@contract(CONTRACTS, f"{SIZE} gives an odd number >= 1", budget=100)
def estimated(v):
    pol, na, wl, al = estimate_args(v)
    px = v.real("pixel")
    v.require(px > 0)
    v.cover("any polynomial")
    x, e = v.call(SIZE, pol, px, al, wl, na)
    if e:
        return v.fail("no exception", repr(v.last_exc.exc))
    odd(v, x)


@contract(CONTRACTS, f"{SIZE}: a smaller pixel never gives a smaller size", budget=100)
def monotonic(v):
    pol, na, wl, al = estimate_args(v)
    u, d = v.real("pixels_per_length"), v.real("more_pixels")    # any pixel sizes 1/(u + d) <= 1/u
    v.require(AND(u > 0, d >= 0))
    a, b = S.mk(T.div(T.ONE, t(u)), "float"), S.mk(T.div(T.ONE, T.add(t(u), t(d))), "float")
    v.cover("two pixel sizes")
    x, e = v.call(SIZE, pol, a, al, wl, na)
    y, e2 = v.call(SIZE, pol, b, al, wl, na)
    if e or e2 or S.lift(x) is None or S.lift(y) is None:
        return v.fail("no exception", repr(v.last_exc.exc))
    v.prove("not smaller for the smaller pixel", S.mkbool(T.le(t(x), t(y))))
