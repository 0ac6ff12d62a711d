"""P17: the accelerated calculation."""
import contextlib
import io
import math
import warnings
import numpy as np
import oracle as O
import b16 as B


def supported(m, n):
    return n <= 10 or abs(m) in (n, n - 2)


def quiet():
    s = contextlib.ExitStack()
    s.enter_context(warnings.catch_warnings())
    warnings.simplefilter("ignore")
    s.enter_context(contextlib.redirect_stdout(io.StringIO()))
    return s


def values(R):
    """All supported orders up to 54, compiled."""
    from zernpy.calculations.calc_psfs_numba import zernpol_value
    p = np.array([0.0, 0.07, 0.25, 0.5, 0.71875, 0.9375, 1.0])
    for m, n in O.orders(54):
        if not supported(m, n):
            continue
        th = R.rng.choice([0.0, 0.5, 2.0, 4.5, 6.2])
        R.case((m, n, th))
        with quiet():
            x = zernpol_value((m, n), p, th)
            y = [zernpol_value((m, n), float(q), th) for q in (0.0, 0.5, 1.0)]
        want = np.array([O.Z(m, n, q, th) for q in p])
        tol = 1e-9*max(1.0, O.N(m, n))
        R.check(x.shape == p.shape and bool(np.all(np.abs(x - want) < tol)), "the value of the polynomial", x, want)
        R.check(max(abs(a - O.Z(m, n, q, th)) for a, q in zip(y, (0.0, 0.5, 1.0))) < tol, "the value of the polynomial at a point", y)


def sample(R, k):
    low = O.orders(10)
    high = [(m, n) for m, n in O.orders(30) if n > 10 and supported(m, n)]
    return [R.rng.choice(high) if R.rng.random() < 0.3 else R.rng.choice(low[1:]) for _ in range(k)]


def kernels(R):
    from zernpy import ZernPSF
    from zernpy.calculations.calc_psfs_numba import get_psf_kernel_comp
    for t in range(400 if R.thorough else 60):
        if R.left() < 3:
            return
        k = 1 if t % 3 else (2 if not R.thorough else R.rng.choice([2, 3, 5]))
        os_ = list(dict.fromkeys(sample(R, k)))
        if len(os_) != k:
            continue
        amps = [R.rng.choice([0.0, 0.1, -0.3, 0.6, R.rng.uniform(-1, 1)]) for _ in os_]
        na, wl, px = R.rng.choice(B.PARAMS)
        px = min(px, wl/(4*na))
        ks, norm = R.rng.choice([3, 4, 5, 6]), R.rng.random() < 0.5
        nr, nphi = R.rng.choice([20, 24, 21]), R.rng.choice([36, 40])
        if t % 12 == 0:                # an odd number of angles: only compared with the plain calculation
            nphi += 1
        R.case((os_, amps, na, wl, px, ks, norm, nr, nphi))
        ps = B.pols(os_)
        with quiet():
            s = ZernPSF(ps[0] if k == 1 else ps)
            s.set_physical_props(NA=na, wavelength=wl, expansion_coeff=amps[0] if k == 1 else amps, pixel_physical_size=px)
            s.set_calculation_props(kernel_size=ks, n_integration_points_r=nr, n_integration_points_phi=nphi)
            a = s.calculate_psf_kernel(suppress_warnings=t % 2 == 0, normalized=norm, accelerated=True, verbose_info=t % 5 == 0).copy()
            if t % 6 == 1:
                d = get_psf_kernel_comp(ps[0], px, float(amps[0]), wl, na, n_int_r_points=nr, n_int_phi_points=nphi, normalize_values=norm, kernel_size=ks, suppress_warns=True)
                R.check(bool(np.array_equal(a, d)), "the kernel of the function and of the object", d, a)
        if nphi % 2 == 0:
            B.compare(R, a, B.kernel(os_, amps, px, wl, na, ks, nr, nphi, norm, False), "the accelerated kernel is the quadrature")
        if max(n for m, n in os_) <= 12 and t % 4 == 0:
            with quiet():
                b = s.calculate_psf_kernel(suppress_warnings=True, normalized=norm, accelerated=False)
            R.check(a.shape == b.shape and bool(np.all(np.abs(a - b) < 1e-8*max(1.0, float(b.max())))), "both calculations give the same kernel", a, b)


def rejected(R):
    """Polynomials without an equation, alone and at any place."""
    from zernpy import ZernPSF
    bad = [(m, n) for m, n in O.orders(54) if not supported(m, n)]
    for o in bad[:6] + R.rng.sample(bad, 30) + [(0, 12), (9, 13), (-9, 13), (0, 54), (50, 54), (-50, 54)]:
        for os_ in ([o], [o, (1, 1)], [(0, 2), (1, 1), o]):
            R.case(("rejected", os_))
            ps = B.pols(os_)
            with quiet():
                s = ZernPSF(ps[0] if len(os_) == 1 else ps)
                s.set_physical_props(NA=0.9, wavelength=0.5, expansion_coeff=0.1 if len(os_) == 1 else [0.1]*len(os_), pixel_physical_size=0.1)
                s.kernel_size = 3
                R.raises(ValueError, "polynomials without an equation raise ValueError", lambda orders: s.calculate_psf_kernel(suppress_warnings=True, accelerated=True), os_)


PARTS = [("values", values), ("rejected", rejected), ("kernels", kernels)]
