"""P17: the accelerated calculation is the plain one (contracts P16) for the supported polynomials, and rejects the other ones."""
from fractions import Fraction
from .p16 import *
from .radial import poly, orders_of as all_orders

CONTRACTS = []
MOD = "calculations.calc_psfs_numba:"
VALUEC, SUMS = MOD + "zernpol_value", MOD + "pol_sums"
DIC, DISC = MOD + "diffraction_integral_r_comp", MOD + "diffraction_integral_r_pols_comp"
RIC, RISC = MOD + "radial_integral_comp", MOD + "radial_integral_pols_comp"
POINTC, POINTSC = MOD + "get_psf_point_r_comp", MOD + "get_psf_point_r_pols_comp"
KERNELC = MOD + "get_psf_kernel_comp"
ASSUMPTIONS = ["numba.njit compiles a function that computes what the Python source says (the decorator is taken as the identity)"]


def supported(m, n):
    """Orders the accelerated mode has an equation for."""
    return n <= 10 or abs(m) in (n, n - 2)


def is_supported(m, n):
    m, n = t(m), t(n)
    return T.cor(T.le(n, T.pc(10)), *[T.eq(x, y) for x in (m, T.neg(m)) for y in (n, T.sub(n, T.pc(2)))])


# ---------------------------------------------------------------------------------------------- values
def values_of(n):
    def spec(v):
        for m in v.choose([[m] for m in all_orders(n) if supported(m, n)]):
            r, k = radii(v)
            th = v.real("theta")
            v.cover("any radii")
            x, e = v.call(VALUEC, (m, n), r, th)
            if e:
                return v.fail("no exception", repr(v.last_exc.exc))
            ang = T.cos(T.scale(t(th), m)) if m >= 0 else T.sin(T.scale(t(th), -m))
            norm = T.sqrt(T.pc(n + 1 if m == 0 else 2*(n + 1)))
            value = lambda p: T.mul(T.mul(norm, poly("R", m, n, p)), ang)
            if k is None:
                v.equal(f"the value of the polynomial {(m, n)}", x, value(t(r)))
                continue
            if not isinstance(x, S.SArr) or x.ndim != 1:
                return v.fail("a vector of values", repr(x))
            i, = v.index(k)
            v.equal("a value for each radius", x.dims[0], t(k))
            v.equal(f"the value of the polynomial {(m, n)}", x.at(i), value(r.at(i)))
    return spec


for _n in range(55):
    CONTRACTS.append(Contract(f"{VALUEC}: values of the polynomials of the order {_n}", values_of(_n), budget=100))


def orders_key(o):
    if not (isinstance(o, tuple) and len(o) == 2 and all(S.lift(x) is not None for x in o)):
        raise Unsupported("orders of a polynomial")
    m, n = (t(x) for x in o)
    S.ctx().check("precondition of zernpol_value: the polynomial is supported", is_supported(m, n))
    return m, n


def value_c(interp, a):
    o, r, th = a.values()
    m, n = orders_key(o)
    needs_circle(r)
    if isinstance(r, S.SArr):
        f = r.snapshot()
        return S.SArr(r.dims, lambda ix: Z(m, n, S.mk(f(ix), "float"), th), "float")
    return S.mk(Z(m, n, S.mk(number(r), "float"), th), "float")


# ---------------------------------------------------------------------------------------------- one polynomial
def one(v):
    m, n = valid_polynomials(v, "p", T.ZERO)
    v.require(S.mkbool(is_supported(m, n)))
    return m, n, (S.mk(m, "int"), S.mk(n, "int"))


def several_orders(v, k):
    """The orders of k supported polynomials."""
    def pair(i):
        m, n = valid_polynomials(v, "p", i)
        v.c.fact(is_supported(m, n))
        return S.mk(m, "int"), S.mk(n, "int")
    return Q.VList((), "tuple", S.dim(k), pair)


@contract(CONTRACTS, f"{DIC} is the integrand", budget=60, stubs={VALUEC: value_c})
def integrand(v):
    m, n, o = one(v)
    a, phi, theta, r = (v.real(x) for x in ("alpha", "phi", "theta", "r"))
    p, k = radii(v)
    v.cover("any arguments")
    x, e = v.call(DIC, o, a, phi, p, theta, r)
    if e:
        return v.fail("no exception", repr(v.last_exc.exc))
    pointwise(v, x, p, k, lambda q: phase(T.mul(t(a), Z(m, n, q, phi)), t(r), t(theta), t(phi), q))


@contract(CONTRACTS, f"{DISC} is the integrand of the sum", budget=100, stubs={VALUEC: value_c})
def integrands(v):
    k = v.int("count")
    v.require(k >= 1)
    ps, a = several_orders(v, k), v.array("a", [k])
    phi, theta, r = (v.real(x) for x in ("phi", "theta", "r"))
    p, n = radii(v)
    v.cover("any arguments")
    x, e = v.call(DISC, ps, a, phi, p, theta, r)
    if e:
        return v.fail("no exception", repr(v.last_exc.exc))
    pointwise(v, x, p, n, lambda q: phase(weighted("a", "p", k, S.mk(q, "float"), phi), t(r), t(theta), t(phi), q))


def di_c(interp, g):
    return apply("integrand", orders_key(g["orders"]) + tuple(number(g[x]) for x in ("alpha", "phi", "theta", "r")), g["p"])


@contract(CONTRACTS, f"{RIC} is the trapezoidal rule", budget=100, stubs={DIC: di_c})
def radial(v):
    m, n, o = one(v)
    r, theta, phi, alpha = (v.real(x) for x in ("r", "theta", "phi", "alpha"))
    k = v.int("n_int_r_points")
    v.require(k >= 2)
    v.cover("any number of points")
    x, e = v.call(RIC, o, r, theta, phi, alpha, k)
    if e:
        return v.fail("no exception", repr(v.last_exc.exc))
    v.equal("the trapezoidal rule", x, trapezoid(lambda p: T.app("integrand", (m, n, t(alpha), t(phi), t(theta), t(r), p), "complex"), t(k)))


def same_orders(v, g):
    if g["polynomials_orders"] is not v.c.ghost["polynomials"] or g["amplitudes"] is not v.c.ghost["amplitudes"]:
        raise Unsupported("other sequences are passed on")


def given(v):
    q = v.int("count")
    v.require(q >= 1)
    ps, a = several_orders(v, q), v.array("a", [q])
    v.c.ghost["polynomials"], v.c.ghost["amplitudes"] = ps, a
    return ps, a


@contract(CONTRACTS, f"{RISC} is the trapezoidal rule", budget=100)
def radials(v):
    ps, a = given(v)

    def stub(interp, g):
        same_orders(v, g)
        return apply("integrand", tuple(number(g[x]) for x in ("phi", "theta", "r")), g["p"])
    v.interp.stubs[DISC] = stub
    r, theta, phi = (v.real(x) for x in ("r", "theta", "phi"))
    k = v.int("n_int_r_points")
    v.require(k >= 2)
    v.cover("any number of points")
    x, e = v.call(RISC, ps, a, r, theta, phi, k)
    if e:
        return v.fail("no exception", repr(v.last_exc.exc))
    v.equal("the trapezoidal rule", x, trapezoid(lambda p: T.app("integrand", (t(phi), t(theta), t(r), p), "complex"), t(k)))


def ri_c(interp, g):
    return S.mk(T.app("radial", orders_key(g["orders"]) + tuple(number(g[x]) for x in ("r", "theta", "alpha", "n_int_r_points", "phi")), "complex"), "complex")


@contract(CONTRACTS, f"{POINTC} is the Simpson rule", budget=100, stubs={RIC: ri_c})
def point(v):
    m, n, o = one(v)
    r, theta, alpha = (v.real(x) for x in ("r", "theta", "alpha"))
    k, half = v.int("n_int_r_points"), v.int("half_of_n_int_phi_points")
    v.require(AND(k >= 2, half >= 2))
    v.cover("any number of points")
    x, e = v.call(POINTC, o, r, theta, alpha, k, 2*half)
    if e:
        return v.fail("no exception", repr(v.last_exc.exc))
    v.equal("the Simpson rule", x, simpson(lambda p: T.app("radial", (m, n, t(r), t(theta), t(alpha), t(k), p), "complex"), t(half)))


@contract(CONTRACTS, f"{POINTSC} is the Simpson rule", budget=100)
def points(v):
    ps, a = given(v)

    def stub(interp, g):
        same_orders(v, g)
        return S.mk(T.app("radial", tuple(number(g[x]) for x in ("r", "theta", "n_int_r_points", "phi")), "complex"), "complex")
    v.interp.stubs[RISC] = stub
    r, theta = v.real("r"), v.real("theta")
    k, half = v.int("n_int_r_points"), v.int("half_of_n_int_phi_points")
    v.require(AND(k >= 2, half >= 2))
    v.cover("any number of points")
    x, e = v.call(POINTSC, ps, a, r, theta, k, 2*half)
    if e:
        return v.fail("no exception", repr(v.last_exc.exc))
    v.equal("the Simpson rule", x, simpson(lambda p: T.app("radial", (t(r), t(theta), t(k), p), "complex"), t(half)))


# ---------------------------------------------------------------------------------------------- the kernels
def point_c(interp, g):
    return S.mk(T.app("point", orders_key(g["orders"]) + tuple(number(g[x]) for x in ("r", "theta", "alpha", "n_int_r_points", "n_int_phi_points"))), "float")


def points_c(v, k):
    """The orders and amplitudes have to be those of the polynomials at every place."""
    def stub(interp, g):
        o, a = g["polynomials_orders"], g["amplitudes"]
        c = v.c
        if not isinstance(o, (Q.VList, tuple)) or not isinstance(a, S.SArr):
            raise Unsupported("sequences of the accelerated points")
        o = o if isinstance(o, Q.VList) else Q.VList(list(o))
        i, = v.index(k)
        m, n = valid_polynomials(v, "p", i)
        c.check("as many orders and amplitudes as polynomials", T.cand(T.eq(S.dim(o.length()), t(k)), T.eq(a.dims[0], t(k))))
        x = o.elem(i)
        if not isinstance(x, tuple) or len(x) != 2:
            raise Unsupported("orders of the accelerated points")
        c.check("the orders are those of the polynomials", T.cand(T.eq(t(x[0]), m), T.eq(t(x[1]), n)))
        c.check("the amplitudes are the given ones", T.eq(a.at(i), ck("a", i)))
        return S.mk(T.app("point", tuple(number(g[x]) for x in ("r", "theta", "n_int_r_points", "n_int_phi_points"))), "float")
    return stub


def kernel_c(norm, mode, parity):
    def spec(v):
        m, n = valid_polynomials(v, "p", T.ZERO)
        v.require(S.mkbool(is_supported(m, n)))
        o = poly_object(v, m, n)
        wl, na, px = physical(v)
        alpha, ks = v.real("alpha"), v.int("kernel_size")
        k, q = v.int("n_int_r_points"), v.int("n_int_phi_points")
        v.require(AND(k >= 2, q >= 4))
        size = sizes(v, ks, 1, (parity,))
        v.cover("any properties")
        x, e = v.call(KERNELC, o, px, alpha, wl, na, n_int_r_points=k, n_int_phi_points=q, normalize_values=norm, kernel_size=ks, suppress_warns=mode[0], verbose=mode[1])
        if e:
            return v.fail("no exception", repr(v.last_exc.exc))
        elements(v, x, size, wave(wl, na, px), norm, lambda r, th: T.app("point", (m, n, r, th, T.div(t(alpha), t(wl)), t(k), t(q))))
    return spec


def supported_polynomials(v, k, cls):
    ps = polynomials(v, "p", k, cls)
    fn = ps.fn

    def elem(i):
        m, n = valid_polynomials(v, "p", i)
        v.c.fact(is_supported(m, n))
        return fn(i)
    return Q.VList((), cls, S.dim(k), elem)


def kernels_c(norm, mode, parity):
    def spec(v):
        c = v.int("count")
        v.require(c >= 1)
        ps = supported_polynomials(v, c, v.choose(["list", "tuple"]) if mode == QUIET else "list")
        a = v.choose([lambda: v.array("a", [c]), lambda: v.seq("a", c)] if mode == QUIET else [lambda: v.array("a", [c])])()
        wl, na, px = physical(v)
        ks, k, q = v.int("kernel_size"), v.int("n_int_r_points"), v.int("n_int_phi_points")
        v.require(AND(k >= 2, q >= 4))
        size = sizes(v, ks, 1, (parity,))
        v.interp.stubs[POINTSC] = points_c(v, c)
        v.cover("any properties")
        x, e = v.call(KERNELC, ps, px, a, wl, na, n_int_r_points=k, n_int_phi_points=q, normalize_values=norm, kernel_size=ks, suppress_warns=mode[0], verbose=mode[1])
        if e:
            return v.fail("no exception", repr(v.last_exc.exc))
        elements(v, x, size, wave(wl, na, px), norm, lambda r, th: T.app("point", (r, th, t(k), t(q))))
    return spec


for _f, _g, _h in [(x, y, z) for x, y in ((False, QUIET), (True, QUIET), (True, WARNS), (True, VERBOSE)) for z in SIZES[:2]]:
    for _text, _k, _stubs in (("a polynomial", kernel_c, {POINTC: point_c}), ("several polynomials", kernels_c, None)):
        CONTRACTS.append(Contract(f"{KERNELC} of {_text}: each element is the value at its pixel{', normalized' if _f else ''}{MODE[_g]}, {_h} size", _k(_f, _g, _h), stubs=_stubs, budget=300))


@contract(CONTRACTS, f"{KERNELC} rejects polynomials without an equation", budget=60)
def rejected(v):
    wl, na, px = physical(v)
    ks = v.int("kernel_size")
    v.require(ks >= 1)
    if v.choose(["one", "several"]) == "one":
        m, n = valid_polynomials(v, "p", T.ZERO)
        v.require(S.mkbool(T.cnot(is_supported(m, n))))
        o, a = poly_object(v, m, n), v.real("alpha")
    else:
        c = v.int("count")
        v.require(c >= 1)
        o, a = polynomials(v, "p", c, v.choose(["list", "tuple"])), v.array("a", [c])
        i, = v.index(c)
        m, n = valid_polynomials(v, "p", i)
        v.require(S.mkbool(T.cnot(is_supported(m, n))))
    v.cover("a polynomial that is not supported")
    x, e = v.call(KERNELC, o, px, a, wl, na, kernel_size=ks)
    if e is None:
        v.fail("polynomials without an equation raise ValueError", "a kernel is returned")
    elif e is not ValueError:
        v.fail("polynomials without an equation raise ValueError", repr(v.last_exc.exc))
    else:
        v.prove("polynomials without an equation raise ValueError", True)


# ---------------------------------------------------------------------------------------------- the method
def accelerated(several):
    def spec(v):
        o = psf_several(v)[0] if several else psf_single(v)[0]
        any_history(v, o)
        for f in (KERNEL, KERNELS, KERNELC):
            v.interp.stubs[f] = recorded(v, f)
        v.interp.load("zernpsf").ns["numba_installed"] = True
        state = {k: o.attrs.get(k) for k in ("zernpol", "polynomials", "amplitudes", "expansion_coeff", "airy", "pixel_size", "wavelength", "NA", "n_int_r_points",
                                             "n_int_phi_points", "kernel_size", "_ZernPSF__physical_props_set")}
        v.require(state["kernel_size"] >= 1)
        flags = {"normalized": v.choose([True, False])}
        quiet, verbose = v.choose([(True, False), (False, False), (True, True)])
        v.cover("any properties")
        x, e = v.method(o, "calculate_psf_kernel", suppress_warnings=quiet, normalized=flags["normalized"], verbose_info=verbose, accelerated=v.choose([None, True]))
        if e:
            return v.fail("no exception", repr(v.last_exc.exc))
        calculated(v, o, state, x, flags, True)
    return spec


for _s in (False, True):
    CONTRACTS.append(Contract(f"{CALC} with acceleration: {'several polynomials' if _s else 'a polynomial'}", accelerated(_s), budget=300))
