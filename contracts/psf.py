"""PSF objects: built by the constructor (contract P14) for a polynomial or for a sequence of any number of different ones."""
from .polys import *
from .p14 import PSF, indices, valid_polynomials, several, osa_determines

SIZE = "calculations.calc_psfs:get_kernel_size"
PX = "_ZernPSF__"


def psf_single(v):
    """A PSF object of one polynomial: (object, m, n)."""
    m, n = valid_polynomials(v, "p", T.ZERO)
    p = poly_object(v, m, n)
    o, e = v.new(PSF, p)
    if e:
        raise Unsupported("constructor of the PSF: " + repr(v.last_exc.exc))
    return o, m, n


def psf_several(v):
    """A PSF object of k >= 2 different polynomials: (object, k)."""
    indices(v)
    k, s = several(v)
    v.require(k >= 2)

    def distinct(i, j):
        (a, b), (c, d) = valid_polynomials(v, "p", i), valid_polynomials(v, "p", j)
        return T.cand(T.implies(T.cnot(T.eq(i, j)), T.cor(T.cnot(T.eq(a, c)), T.cnot(T.eq(b, d)))), osa_determines(v, i, j))
    v.c.ghost["places"] = [distinct]
    o, e = v.new(PSF, s)
    if e:
        raise Unsupported("constructor of the PSF: " + repr(v.last_exc.exc))
    return o, k


NUMBERS = ("NA", "wavelength", "expansion_coeff", "pixel_size_nyquist", "pixel_size", "alpha", "k")


def any_history(v, o):
    """Whatever was set before: all properties have unknown values."""
    for a in NUMBERS:
        o.attrs[a] = v.real("old_" + a)
    for a in ("kernel_size", "n_int_r_points", "n_int_phi_points"):
        o.attrs[a] = v.int("old_" + a)
    o.attrs[PX + "physical_props_set"] = v.choose([False, True])
    if v.interp.getattr(o, "zernpol") is None:
        q = v.int("old_count")
        v.require(q >= 2)
        o.attrs["coefficients"], o.attrs["amplitudes"] = v.array("old_c", [q]), v.array("old_a", [q])


def size_stub(interp, a):
    """Contract of the estimate: an odd number >= 1, a function of the polynomial and the properties."""
    vals = list(a.values())
    o = vals[0]
    if not isinstance(o, Q.VObj) or "_ZernPol__m" not in o.attrs:
        if isinstance(o, tuple) and len(o) == 2:
            m, n = o
        else:
            raise Unsupported("polynomial of the estimate")
    else:
        m, n = o.attrs["_ZernPol__m"], o.attrs["_ZernPol__n"]
    if any(S.lift(x) is None for x in vals[1:]) or len(vals) != 5:
        raise Unsupported("arguments of the estimate")
    r = estimate(m, n, *vals[1:])
    S.ctx().fact(size_facts(r))
    return S.mk(r, "int")


def estimate(m, n, px, alpha, wl, na):
    return T.app("kernel_size", tuple(t(x) for x in (m, n, px, alpha, wl, na)), "int")


def size_facts(r):
    return T.cand(T.le(T.ONE, r), S.cond_of(even(T.sub(r, T.ONE))))
