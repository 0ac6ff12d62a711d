"""P16: points and kernels as the quadrature of the diffraction integral."""
from fractions import Fraction
from vc.contract import Contract
from .psf import *

CONTRACTS = []
MOD = "calculations.calc_psfs:"
DI, DIS = MOD + "diffraction_integral_r", MOD + "diffraction_integral_r_pols"
RI, RIA, RIP, RIS = MOD + "radial_integral", MOD + "radial_integral_args", MOD + "radial_integral_s", MOD + "radial_integral_pols"
POINT, POINTP, POINTS = MOD + "get_psf_point_r", MOD + "get_psf_point_r_parallel", MOD + "get_psf_point_r_pols"
KERNEL, KERNELS, AIRY = MOD + "get_psf_kernel", MOD + "get_psf_kernel_zerns", MOD + "airy_ref_pattern"
ORDERS = "calculations.calc_zernike_pol:define_orders"
PI, HALF = T.pa(T.PI_ATOM), T.pc(Fraction(1, 2))


# ---------------------------------------------------------------------------------------------- the integrand
def phase(W, r, theta, phi, p):
    """exp(i*(W - r*p*cos(phi - theta)))*p"""
    x = T.sub(W, T.mul(T.mul(r, p), T.cos(T.sub(phi, theta))))
    return T.mul(T.exp(T.mul(x, T.IMAG)), p)


def radii(v):
    """A radius or a vector of radii of the unit circle."""
    if v.choose(["number", "vector"]) == "number":
        p = v.real("p")
        v.require(AND(p >= 0, p <= 1))
        return p, None
    n = v.int("radii")
    v.require(n >= 1)
    p = v.array("p", [n])
    v.require_all(p, lambda x: AND(x >= 0, x <= 1))
    return p, n


def pointwise(v, x, p, n, f):
    if n is None:
        return v.equal("the integrand", x, f(t(p)))
    if not isinstance(x, S.SArr) or x.ndim != 1:
        return v.fail("a vector of values", repr(x))
    i, = v.index(n)
    v.equal("a value for each radius", x.dims[0], t(n))
    v.equal("the integrand", x.at(i), f(p.at(i)))


@contract(CONTRACTS, f"{DI} is the integrand", budget=60, stubs=VALUE)
def integrand(v):
    m, n = valid_polynomials(v, "p", T.ZERO)
    o = poly_object(v, m, n)
    a, phi, theta, r = (v.real(x) for x in ("alpha", "phi", "theta", "r"))
    p, k = radii(v)
    v.cover("any arguments")
    x, e = v.call(DI, o, a, phi, p, theta, r)
    if e:
        return v.fail("no exception", repr(v.last_exc.exc))
    pointwise(v, x, p, k, lambda q: phase(T.mul(t(a), Z(m, n, q, phi)), t(r), t(theta), t(phi), q))


@contract(CONTRACTS, f"{DIS} is the integrand of the sum", budget=100, stubs=VALUE)
def integrands(v):
    k = v.int("count")
    v.require(k >= 1)
    ps = polynomials(v, "p", k, v.choose(["list", "tuple"]))
    a = v.array("a", [k])
    phi, theta, r = (v.real(x) for x in ("phi", "theta", "r"))
    p, n = radii(v)
    v.cover("any arguments")
    x, e = v.call(DIS, ps, a, phi, p, theta, r)
    if e:
        return v.fail("no exception", repr(v.last_exc.exc))
    pointwise(v, x, p, n, lambda q: phase(weighted("a", "p", k, S.mk(q, "float"), phi), t(r), t(theta), t(phi), q))


# ---------------------------------------------------------------------------------------------- trapezoidal rule over the radius
def number(x):
    if S.lift(x) is None:
        raise Unsupported("argument of the integrand")
    return t(x)


def pol_key(o):
    if not isinstance(o, Q.VObj) or "_ZernPol__m" not in o.attrs:
        raise Unsupported("polynomial of the integrand")
    return t(o.attrs["_ZernPol__m"]), t(o.attrs["_ZernPol__n"])


def apply(name, key, p):
    """The contract of an integrand: a function of the radius, at each point on its own; it needs radii in [0, 1]."""
    needs_circle(p)
    if isinstance(p, S.SArr):
        f = p.snapshot()
        return S.SArr(p.dims, lambda ix: T.app(name, key + (f(ix),), "complex"), "complex")
    return S.mk(T.app(name, key + (number(p),), "complex"), "complex")


def di_stub(interp, a):
    o, alpha, phi, p, theta, r = a.values()
    return apply("integrand", pol_key(o) + tuple(number(x) for x in (alpha, phi, theta, r)), p)


def same(v, ps, a):
    """The sequences that are passed on are the given ones."""
    if ps is not v.c.ghost["polynomials"] or a is not v.c.ghost["amplitudes"]:
        raise Unsupported("other sequences are passed on")


def dis_stub(v):
    def stub(interp, a):
        ps, am, phi, p, theta, r = a.values()
        same(v, ps, am)
        return apply("integrand", tuple(number(x) for x in (phi, theta, r)), p)
    return stub


def trapezoid(f, n):
    """Composite rule with n intervals on [0, 1]; every node once."""
    k = T.var("$node", "int")
    h = T.div(T.ONE, n)
    inner = T.bsum(k, T.sub(n, T.ONE), f(T.mul(h, T.add(k, T.ONE))))
    return T.mul(h, T.add(T.mul(HALF, T.add(f(T.ZERO), f(T.ONE))), inner))


def setting(v):
    m, n = valid_polynomials(v, "p", T.ZERO)
    o = poly_object(v, m, n)
    return (m, n, o) + tuple(v.real(x) for x in ("r", "theta", "phi", "alpha"))


@contract(CONTRACTS, "the radial integral of a polynomial is the trapezoidal rule", budget=100, stubs={DI: di_stub})
def radial(v):
    m, n, o, r, theta, phi, alpha = setting(v)
    k = v.int("n_int_r_points")
    v.require(k >= 2)
    v.cover("any number of points")
    which = v.choose([RI, RIA, RIP])
    if which == RI:
        x, e = v.call(RI, o, r, theta, phi, alpha, k)
    elif which == RIA:
        x, e = v.call(RIA, phi, o, r, theta, alpha, k)
    else:
        x, e = v.call(RIP, (phi, (o, r, theta, alpha, k)))
    if e:
        return v.fail("no exception", repr(v.last_exc.exc))
    f = lambda p: T.app("integrand", (m, n, t(alpha), t(phi), t(theta), t(r), p), "complex")
    v.equal(f"{which.split(':')[1]}: the trapezoidal rule", x, trapezoid(f, t(k)))


@contract(CONTRACTS, f"{RIS} is the trapezoidal rule", budget=100)
def radials(v):
    q = v.int("count")
    v.require(q >= 1)
    ps, a = polynomials(v, "p", q, v.choose(["list", "tuple"])), v.array("a", [q])
    v.c.ghost["polynomials"], v.c.ghost["amplitudes"] = ps, a
    v.interp.stubs[DIS] = dis_stub(v)
    r, theta, phi = (v.real(x) for x in ("r", "theta", "phi"))
    k = v.int("n_int_r_points")
    v.require(k >= 2)
    v.cover("any number of points")
    x, e = v.call(RIS, ps, a, r, theta, phi, k)
    if e:
        return v.fail("no exception", repr(v.last_exc.exc))
    v.equal("the trapezoidal rule", x, trapezoid(lambda p: T.app("integrand", (t(phi), t(theta), t(r), p), "complex"), t(k)))


# ---------------------------------------------------------------------------------------------- Simpson rule over the angle
def simpson(f, m):
    """Composite rule with 2*m intervals on [0, 2 pi]: every node once, with the weights 1, 4, 2, .., 4, 1; |I|^2/pi^2."""
    k = T.var("$angle", "int")
    h = T.div(PI, m)
    odd = T.bsum(k, m, f(T.mul(h, T.add(T.scale(k, 2), T.ONE))))
    even_ = T.bsum(k, T.sub(m, T.ONE), f(T.mul(h, T.add(T.scale(k, 2), T.pc(2)))))
    s = T.add(T.add(f(T.ZERO), f(T.scale(PI, 2))), T.add(T.scale(odd, 4), T.scale(even_, 2)))
    return T.div(T.power(T.pabs(T.mul(T.scale(h, Fraction(1, 3)), s)), 2), T.mul(PI, PI))


def ri_stub(order):
    def stub(interp, a):
        g = dict(a)
        return S.mk(T.app("radial", pol_key(g["zernike_pol"]) + tuple(number(g[x]) for x in ("r", "theta", "alpha", "n_int_r_points", "phi")), "complex"), "complex")
    return stub


@contract(CONTRACTS, "a point of the PSF of a polynomial is the Simpson rule", budget=100, stubs={RI: ri_stub(0), RIA: ri_stub(1)})
def point(v):
    m, n, o, r, theta, phi, alpha = setting(v)
    k, half = v.int("n_int_r_points"), v.int("half_of_n_int_phi_points")
    v.require(AND(k >= 1, half >= 1))
    v.cover("any number of points")
    which = v.choose([POINT, POINTP])
    x, e = v.call(which, o, r, theta, alpha, k, 2*half)
    if e:
        return v.fail("no exception", repr(v.last_exc.exc))
    f = lambda p: T.app("radial", (m, n, t(r), t(theta), t(alpha), t(k), p), "complex")
    v.equal(f"{which.split(':')[1]}: the Simpson rule", x, simpson(f, t(half)))


@contract(CONTRACTS, f"{POINTS} is the Simpson rule", budget=100)
def points(v):
    q = v.int("count")
    v.require(q >= 1)
    ps, a = polynomials(v, "p", q, v.choose(["list", "tuple"])), v.array("a", [q])
    v.c.ghost["polynomials"], v.c.ghost["amplitudes"] = ps, a

    def stub(interp, g):
        same(v, g["polynomials"], g["amplitudes"])
        return S.mk(T.app("radial", tuple(number(g[x]) for x in ("r", "theta", "n_int_r_points", "phi")), "complex"), "complex")
    v.interp.stubs[RIS] = stub
    r, theta = v.real("r"), v.real("theta")
    k, half = v.int("n_int_r_points"), v.int("half_of_n_int_phi_points")
    v.require(AND(k >= 1, half >= 1))
    v.cover("any number of points")
    x, e = v.call(POINTS, ps, a, r, theta, k, 2*half)
    if e:
        return v.fail("no exception", repr(v.last_exc.exc))
    v.equal("the Simpson rule", x, simpson(lambda p: T.app("radial", (t(r), t(theta), t(k), p), "complex"), t(half)))


# ---------------------------------------------------------------------------------------------- the kernels
def point_stub(name):
    def stub(interp, a):
        g = dict(a)
        return S.mk(T.app("point", pol_key(g["zernike_pol"]) + tuple(number(g[x]) for x in ("r", "theta", "alpha", "n_int_r_points", "n_int_phi_points"))), "float")
    return stub


def airy_stub(interp, a):
    r, = a.values()
    return S.mk(T.app("airy", (number(r),)), "float")


def polar(i, j, size, factor):
    """Radius and angle of the pixel [i, j]."""
    c = T.fdiv(size, 2)
    y, x = T.sub(i, c), T.sub(j, c)
    d = T.sqrt(T.add(T.mul(y, y), T.mul(x, x)))
    return T.mul(factor, d), T.add(T.app("arctan2", (y, x), "real"), PI)


def made_odd(s):
    return T.ite(S.cond_of(even(s)), T.add(t(s), T.ONE), t(s))


def elements(v, x, size, factor, normalized, value):
    """The kernel of the given size with the value of each pixel at its radius and angle."""
    if not isinstance(x, S.SArr) or x.ndim != 2:
        return v.fail("a matrix", repr(x))
    v.equal("the number of rows is the size", x.dims[0], size)
    v.equal("the number of columns is the size", x.dims[1], size)
    at = lambda i, j: value(*polar(i, j, size, factor))
    i, j = v.index(size, size)
    want = at(i, j)
    if normalized:
        full = S.SArr((size, size), lambda ix: at(*ix), "float")
        want = T.div(want, t(S.extremum(full, "max")))
    v.equal("the element is the value at the radius and the angle of its pixel" + (", divided by the maximum" if normalized else ""), x.at(i, j), want)


def physical(v):
    wl, na, px = v.real("wavelength"), v.real("NA"), v.real("pixel")
    v.require(AND(wl > 0, na > 0, px > 0))
    return wl, na, px


def wave(wl, na, px):
    return T.div(T.mul(T.scale(PI, 2), T.mul(t(na), t(px))), t(wl))


PSTUBS = {POINT: point_stub(0), POINTP: point_stub(1), AIRY: airy_stub, SIZE: size_stub}


def sizes(v, ks, smallest=3, parity=("even", "odd")):
    """A requested size and the odd size that is made of it."""
    v.require(ks >= smallest)
    if v.choose(parity) == "even":
        v.require(even(ks))
        return T.add(t(ks), T.ONE)
    v.require(S.mkbool(T.cnot(S.cond_of(even(ks)))))
    return t(ks)


QUIET, WARNS, VERBOSE = (True, False), (False, False), (True, True)
MODE = {QUIET: "", WARNS: ", with warnings", VERBOSE: ", with reports"}
SIZES = ("even", "odd", "estimated")


def kernel(airy, norm, vec, mode=QUIET, which=SIZES):
    def spec(v):
        m, n = valid_polynomials(v, "p", T.ZERO)
        o = poly_object(v, m, n)
        wl, na, px = physical(v)
        alpha, ks = v.real("alpha"), v.int("kernel_size")
        k, q = v.int("n_int_r_points"), v.int("n_int_phi_points")
        v.require(AND(k >= 1, q >= 2))
        w = v.choose(which)
        if w != "estimated":
            size = sizes(v, ks, parity=(w,))
        else:
            v.require(ks < 3)
            size = estimate(m, n, px, S.mk(T.div(t(alpha), t(wl)), "float"), wl, na)
        v.cover("any properties")
        x, e = v.call(KERNEL, o, px, alpha, wl, na, n_int_r_points=k, n_int_phi_points=q, normalize_values=norm, airy_pattern=airy, kernel_size=ks,
                      test_vectorized=vec, suppress_warns=mode[0], verbose=mode[1])
        if e:
            return v.fail("no exception", repr(v.last_exc.exc))
        value = (lambda r, th: T.app("airy", (r,))) if airy else (lambda r, th: T.app("point", (m, n, r, th, T.div(t(alpha), t(wl)), t(k), t(q))))
        elements(v, x, size, wave(wl, na, px), norm, value)
    return spec


def add(text, spec, **kw):
    CONTRACTS.append(Contract(text, spec, budget=300, **kw))


_B = (False, True)
for _f in [(a, b, c) for a in _B for b in _B for c in _B]:
    add(f"{KERNEL}: each element is the value at its pixel" + "".join(x for x, y in zip((", Airy pattern", ", normalized", ", vectorized"), _f) if y), kernel(*_f), stubs=PSTUBS)
for _f, _g, _h in [(x, y, z) for x in ((False, True, True), (True, True, True)) for y in (WARNS, VERBOSE) for z in SIZES]:
    add(f"{KERNEL}: each element is the value at its pixel, {'Airy pattern' if _f[0] else 'a polynomial'}{MODE[_g]}, {_h} size", kernel(*_f, _g, (_h,)), stubs=PSTUBS)


def kernels(norm, mode, parity):
    def spec(v):
        c = v.int("count")
        v.require(c >= 1)
        ps, a = polynomials(v, "p", c, v.choose(["list", "tuple"]) if mode == QUIET else "list"), v.array("a", [c])
        wl, na, px = physical(v)
        ks, k, q = v.int("kernel_size"), v.int("n_int_r_points"), v.int("n_int_phi_points")
        v.require(AND(k >= 1, q >= 2))
        size = sizes(v, ks, 1, (parity,))
        v.c.ghost["polynomials"], v.c.ghost["amplitudes"] = ps, a

        def stub(interp, g):
            same(v, g["polynomials"], g["amplitudes"])
            return S.mk(T.app("point", tuple(number(g[x]) for x in ("r", "theta", "n_int_r_points", "n_int_phi_points"))), "float")
        v.interp.stubs[POINTS] = stub
        v.cover("any properties")
        x, e = v.call(KERNELS, ps, a, px, wl, na, ks, n_int_r_points=k, n_int_phi_points=q, normalize_values=norm, suppress_warns=mode[0], verbose=mode[1])
        if e:
            return v.fail("no exception", repr(v.last_exc.exc))
        elements(v, x, size, wave(wl, na, px), norm, lambda r, th: T.app("point", (r, th, t(k), t(q))))
    return spec


for _f, _g, _h in [(x, y, z) for x, y in ((False, QUIET), (True, QUIET), (True, WARNS), (True, VERBOSE)) for z in SIZES[:2]]:
    add(f"{KERNELS}: each element is the value at its pixel{', normalized' if _f else ''}{MODE[_g]}, {_h} size", kernels(_f, _g, _h))


@contract(CONTRACTS, f"{AIRY} is the Airy pattern", budget=60)
def airy(v):
    r = v.real("r")
    v.require(r >= 0)
    v.cover("any radius")
    x, e = v.call(AIRY, r)
    if e:
        return v.fail("no exception", repr(v.last_exc.exc))
    q = T.rnd(t(r), 12)
    j = lambda z: T.div(T.app("jv", (T.ONE, z), "real"), z)
    small = T.pc(Fraction("1E-11"))
    if v.choose(["centre", "elsewhere"]) == "centre":
        v.require(S.mkbool(T.eq0(q)))
        v.equal("the limit in the centre, next to the centre", x, T.scale(T.power(j(small), 2), 4))
    else:
        v.require(S.mkbool(T.cnot(T.eq0(q))))
        v.equal("(2 J1(r)/r)^2, the radius rounded to 12 digits", x, T.scale(T.power(j(q), 2), 4))


# ---------------------------------------------------------------------------------------------- the methods
PSFM = "zernpsf:"
CALC, PPOINT, PKERNEL = PSF + ".calculate_psf_kernel", PSF + ".get_psf_point_r_parallel", PSF + ".get_kernel_parallel"
COMP = "calculations.calc_psfs_numba:get_psf_kernel_comp"


def recorded(v, name):
    """A kernel about which its arguments are known."""
    def stub(interp, a):
        r = S.SArr((t(a["kernel_size"]), t(a["kernel_size"])), lambda ix: T.app("kernel", ix), "float")
        v.c.ghost.setdefault("kernels", []).append((name, dict(a), r))
        return r
    return stub


def calculated(v, o, state, x, flags, accelerated=False):
    """The plain or accelerated kernel of the properties of the object was calculated, stored and returned."""
    calls = v.c.ghost.get("kernels", [])
    if len(calls) != 1:
        return v.fail("one kernel is calculated", len(calls))
    name, a, r = calls[0]
    several = state["zernpol"] is None
    if name != ("calculations.calc_psfs_numba:get_psf_kernel_comp" if accelerated else KERNELS if several else KERNEL):
        return v.fail(f"the {'accelerated' if accelerated else 'plain'} kernel of the polynomial(s)", name)
    if accelerated:
        a = dict(a, polynomials=a["zernike_pol"], amplitudes=a["alpha"], airy_pattern=state["airy"])
    if x is not r or v.interp.getattr(o, "kernel") is not r:
        return v.fail("the kernel is stored and returned", repr(x))
    if several:
        if a["polynomials"] is not state["polynomials"] or a["amplitudes"] is not state["amplitudes"]:
            return v.fail("the polynomials and the normalized amplitudes of the object", repr(a))
    else:
        if a["zernike_pol"] is not state["zernpol"]:
            return v.fail("the polynomial of the object", repr(a))
        v.equal("the amplitude", a["alpha"], t(state["expansion_coeff"]))
        if a["airy_pattern"] is not state["airy"]:
            return v.fail("the Airy equation for the piston only", repr(a))
    for k, q in (("len2pixels", "pixel_size"), ("wavelength", "wavelength"), ("NA", "NA"), ("n_int_r_points", "n_int_r_points"), ("n_int_phi_points", "n_int_phi_points")):
        v.equal(f"the {q} of the object", a[k], t(state[q]))
    ks = t(state["kernel_size"])
    v.equal("the kernel size of the object", a["kernel_size"], ks if state["_ZernPSF__physical_props_set"] else T.ite(T.lt(ks, T.pc(3)), T.pc(19), ks))
    if a["normalize_values"] is not flags["normalized"]:
        v.fail("normalized when requested", repr(a))


def plain(several):
    def spec(v):
        o = psf_several(v)[0] if several else psf_single(v)[0]
        any_history(v, o)
        for f in (KERNEL, KERNELS, COMP):
            v.interp.stubs[f] = recorded(v, f)
        installed = v.choose([True, False])
        v.interp.load("zernpsf").ns["numba_installed"] = installed
        state = {k: o.attrs.get(k) for k in ("zernpol", "polynomials", "amplitudes", "expansion_coeff", "airy", "pixel_size", "wavelength", "NA", "n_int_r_points",
                                                     "n_int_phi_points", "kernel_size", "_ZernPSF__physical_props_set")}
        v.require(state["kernel_size"] >= 1)
        flags = {"normalized": v.choose([True, False])}
        quiet, verbose = v.choose([(True, False), (False, False), (True, True)])
        v.cover("any properties")
        x, e = v.method(o, "calculate_psf_kernel", suppress_warnings=quiet, normalized=flags["normalized"], verbose_info=verbose,
                        accelerated=v.choose([False] if installed else [False, None, True]))
        if e:
            return v.fail("no exception", repr(v.last_exc.exc))
        calculated(v, o, state, x, flags)
    return spec


for _s in (False, True):
    add(f"{CALC} without acceleration: {'several polynomials' if _s else 'a polynomial'}", plain(_s))


def workers(v):
    """Contract of the distributed calculation (DispenserManager, external: see P22): the results of the given parameters in their order."""
    box = []

    def update(params):
        box[:] = [params]

    def compute():
        ps = box[0]
        if not isinstance(ps, (Q.VList, list)):
            raise Unsupported("parameters of the workers")
        ps = ps if isinstance(ps, Q.VList) else Q.VList(list(ps))

        def value(i):
            phi, (o, r, theta, alpha, k) = ps.elem(i)
            return S.mk(T.app("radial", pol_key(o) + tuple(number(x) for x in (r, theta, alpha, k, phi)), "complex"), "complex")
        return Q.VList((), "list", S.dim(ps.length()), value)
    return Q.VObj(None, {"update_params": update, "compute": compute}, "workers")


@contract(CONTRACTS, f"{PPOINT} is the Simpson rule", budget=100, stubs={RI: ri_stub(0)})
def distributed_point(v):
    o, m, n = psf_single(v)
    any_history(v, o)
    half = v.int("half_of_n_int_phi_points")
    o.attrs["n_int_phi_points"] = 2*half
    k, alpha = o.attrs["n_int_r_points"], o.attrs["alpha"]
    v.require(AND(k >= 20, half >= 18))
    o.attrs["_ZernPSF__ParallelCalc"] = workers(v)
    r, theta = v.real("r"), v.real("theta")
    v.cover("any number of points")
    x, e = v.method(o, "get_psf_point_r_parallel", r, theta)
    if e:
        return v.fail("no exception", repr(v.last_exc.exc))
    f = lambda p: T.app("radial", (m, n, t(r), t(theta), t(alpha), t(k), p), "complex")
    v.equal("the Simpson rule", x, simpson(f, t(half)))


@contract(CONTRACTS, f"{PKERNEL}: each element is the value at its pixel", budget=200, stubs={SIZE: size_stub})
def distributed_kernel(v):
    o, m, n = psf_single(v)
    any_history(v, o)
    v.interp.stubs[PPOINT] = lambda interp, a: S.mk(T.app("point", (number(a["r"]), number(a["theta"]))), "float")
    g = lambda a: o.attrs[a]
    v.require(AND(g("wavelength") > 0, g("NA") > 0, g("pixel_size") > 0))
    ks = g("kernel_size")
    if v.choose(["given", "estimated"]) == "given":
        v.require(ks >= 3)
        size = t(ks)
    else:
        v.require(ks < 3)
        size = estimate(m, n, g("pixel_size"), g("alpha"), g("wavelength"), g("NA"))
    factor = T.mul(t(g("k")), T.mul(t(g("NA")), t(g("pixel_size"))))
    norm = v.choose([True, False])
    v.cover("any properties")
    x, e = v.method(o, "get_kernel_parallel", normalize_values=norm)
    if e:
        return v.fail("no exception", repr(v.last_exc.exc))
    elements(v, x, size, factor, norm, lambda r, th: T.app("point", (r, th)))
