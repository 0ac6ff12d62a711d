"""P16: points and kernels as the quadrature of the diffraction integral."""
import contextlib
import functools
import io
import math
import warnings
import numpy as np
import oracle as O

PARAMS = [(0.95, 0.532, 0.1), (0.5, 0.4, 0.13), (1.4, 0.633, 0.08), (0.2, 1.0, 0.9), (1.7, 0.5, 0.05), (0.65, 2, 0.5)]


@functools.lru_cache(maxsize=None)
def nodes(m, n, nr):
    return np.array([O.R(m, n, k/nr) for k in range(nr + 1)])*O.N(m, n)


def point(orders, amps, r, theta, nr, nphi):
    """|I|^2/pi^2 by the composite rules."""
    p, phi = np.arange(nr + 1)/nr, 2*math.pi*np.arange(nphi + 1)/nphi
    wp, ws = np.ones(nr + 1), np.where(np.arange(nphi + 1) % 2 == 1, 4.0, 2.0)
    wp[0] = wp[-1] = 0.5
    ws[0] = ws[-1] = 1.0
    W = sum(a*np.outer([O.ang(m, x) for x in phi], nodes(m, n, nr)) for (m, n), a in zip(orders, amps))
    f = np.exp(1j*(W - r*np.outer(np.cos(phi - theta), p)))*p
    return abs((2*math.pi/nphi/3)*(ws @ (f @ wp))/nr)**2/math.pi**2


def airy(r):
    from scipy.special import jv
    return 1.0 if r < 1e-12 else float((2*jv(1, r)/r)**2)


def kernel(orders, amps, px, wl, na, size, nr, nphi, norm, pattern):
    size += size % 2 == 0
    c, out = size//2, np.zeros((size, size))
    for i in range(size):
        for j in range(size):
            r, th = 2*math.pi/wl*na*px*math.hypot(i - c, j - c), math.atan2(i - c, j - c) + math.pi
            out[i, j] = airy(r) if pattern else point(orders, [a/wl for a in amps], r, th, nr, nphi)
    return out/out.max() if norm else out


def sample(R, most=1, nmax=7):
    k = 1 if most == 1 else R.rng.randrange(1, most + 1)
    o = R.rng.sample(O.orders(nmax), k)
    return o, [R.rng.choice([0.0, 0.05, -0.12, 0.3, 0.7, -1.1, R.rng.uniform(-1, 1)]) for _ in o]


def pols(orders):
    from zernpy import ZernPol
    return [ZernPol(m=m, n=n) for m, n in orders]


def points(R):
    from zernpy.calculations import calc_psfs as P
    n0 = R.evaluations
    while R.left() > 25 and R.evaluations - n0 < (3000 if R.thorough else 150):
        (o,), (a,) = sample(R, 1, 9)
        r, th = R.rng.choice([0.0, 0.5, 3.0, 10.0, R.rng.uniform(0, 8)]), R.rng.choice([0.0, math.pi, R.rng.uniform(0, 6.3)])
        nr, nphi = R.rng.choice([2, 3, 4, 20, 21, 33]), R.rng.choice([2, 4, 6, 36, 38])
        R.case((o, a, r, th, nr, nphi))
        want, p = point([o], [a], r, th, nr, nphi), pols([o])[0]
        for f in (P.get_psf_point_r, P.get_psf_point_r_parallel):
            x = f(p, r, th, a, nr, nphi)
            R.check(abs(x - want) < 1e-9*want + 1e-13, f.__name__ + " is the quadrature", x, want)
        os_, as_ = sample(R, 4)
        x, want = P.get_psf_point_r_pols(pols(os_), np.array(as_), r, th, nr, nphi), point(os_, as_, r, th, nr, nphi)
        R.case((os_, as_, r, th, nr, nphi))
        R.check(abs(x - want) < 1e-9*want + 1e-13, "get_psf_point_r_pols is the quadrature", x, want)


def airy_kernels(R):
    """Airy patterns, also where they hardly differ from 1 and far from the centre."""
    from zernpy import ZernPSF
    for na, wl, px, ks in [(1e-3, 2.0, 1e-3, 5), (0.01, 1.0, 0.01, 5), (0.1, 0.6, 2e-3, 5), (0.5, 0.5, 0.02, 7), (1.2, 0.5, 0.1, 21), (0.9, 0.4, 1e-4, 9), (0.02, 0.7, 5.0, 9)]:
        for norm in (False, True):
            s = ZernPSF(pols([(0, 0)])[0])
            R.case(("airy", na, wl, px, ks, norm))
            with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
                warnings.simplefilter("ignore")
                s.set_physical_props(NA=na, wavelength=wl, expansion_coeff=R.rng.choice([0.0, 0.3]), pixel_physical_size=px)
                s.set_calculation_props(kernel_size=ks, n_integration_points_r=20, n_integration_points_phi=36)
                k = s.calculate_psf_kernel(suppress_warnings=True, normalized=norm, accelerated=False)
            want = kernel([(0, 0)], [0.0], px, wl, na, ks, 20, 36, norm, True)
            R.check(k.shape == want.shape and bool(np.all(np.abs(k - want) < 1e-10*want + 1e-14)), "the Airy pattern", k, want)


def integrals(R):
    """The integral over the radius, in all of its forms; several worker processes are replaced by a loop."""
    from zernpy import ZernPSF
    from zernpy.calculations import calc_psfs as P
    for t in range(60 if R.thorough else 20):
        (o,), (a,) = sample(R, 1, 9)
        r, th, phi, nr = R.rng.choice([0.0, 3.0, R.rng.uniform(0, 8)]), R.rng.uniform(0, 6.3), R.rng.choice([0.0, R.rng.uniform(0, 6.3)]), R.rng.choice([2, 3, 20, 33])
        R.case(("integral", o, a, r, th, phi, nr))
        p = np.arange(nr + 1)/nr
        f = np.exp(1j*(a*O.ang(o[0], phi)*nodes(*o, nr) - r*p*math.cos(phi - th)))*p
        want = (np.sum(f) - 0.5*(f[0] + f[-1]))/nr
        q = pols([o])[0]
        for name, g in (("radial_integral", lambda: P.radial_integral(q, r, th, phi, a, nr)), ("radial_integral_args", lambda: P.radial_integral_args(phi, q, r, th, a, nr)),
                        ("radial_integral_s", lambda: P.radial_integral_s((phi, (q, r, th, a, nr)))), ("radial_integral_pols", lambda: P.radial_integral_pols([q], np.array([a]), r, th, phi, nr))):
            if hasattr(P, name):
                x = g()
                R.check(abs(x - want) < 1e-9, name + " is the trapezoidal rule", x, want)

    class InLine:
        def update_params(self, params):
            self.params = list(params)

        def compute(self):
            return [P.radial_integral_s(x) for x in self.params]
    if not (hasattr(ZernPSF, "get_kernel_parallel") and hasattr(P, "radial_integral_s")):
        return
    for t in range(3):
        (o,), (a,) = sample(R)
        o = (1, 1) if o == (0, 0) else o
        s = ZernPSF(pols([o])[0])
        if not hasattr(s, "_ZernPSF__ParallelCalc"):
            return
        na, wl, px = PARAMS[t]
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            s.set_physical_props(NA=na, wavelength=wl, expansion_coeff=a, pixel_physical_size=px)
            s.set_calculation_props(kernel_size=(3, 5, 4)[t], n_integration_points_r=20, n_integration_points_phi=36)
            s._ZernPSF__ParallelCalc = InLine()
            R.case(("workers", o, a, na, wl, px, t))
            got = s.get_kernel_parallel(normalize_values=t != 1)
            s._ZernPSF__ParallelCalc = None
        k = s.kernel if got is None else got
        compare(R, k, kernel([o], [a], px, wl, na, (3, 5, 4)[t], 20, 36, t != 1, False), "the kernel calculated by workers")


def compare(R, k, want, what):
    ok = isinstance(k, np.ndarray) and k.shape == want.shape and np.all(np.abs(k - want) < 1e-8*float(want.max()) + 1e-14)
    R.check(bool(ok), what, k, want)


def direct(R):
    from zernpy.calculations import calc_psfs as P
    sizes = [3, 4, 5, 6, 7]
    for t, (na, wl, px) in enumerate(PARAMS*(6 if R.thorough else 1)):
        if R.left() < 15:
            return
        (o,), (a,) = sample(R)
        ks, norm, vec, pattern = sizes[t % 5], t % 2 == 0, t % 3 == 0, t % 4 == 1
        R.case(("kernel", o, a, na, wl, px, ks, norm, vec, pattern))
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            k = P.get_psf_kernel(pols([o])[0], px, a, wl, na, n_int_r_points=20, n_int_phi_points=36, normalize_values=norm, airy_pattern=pattern, kernel_size=ks, test_vectorized=vec,
                                 suppress_warns=t % 2 == 1, verbose=t % 3 == 1)
            compare(R, k, kernel([o], [a], px, wl, na, ks, 20, 36, norm, pattern), "the kernel of a polynomial")
            os_, as_ = sample(R, 5 if t % 3 == 0 else 3)
            k = P.get_psf_kernel_zerns(pols(os_), np.array(as_)/wl, px, wl, na, ks, n_int_r_points=20, n_int_phi_points=36, normalize_values=norm, suppress_warns=t % 2 == 1, verbose=t % 3 == 1)
            compare(R, k, kernel(os_, as_, px, wl, na, ks, 20, 36, norm, False), "the kernel of several polynomials")


def objects(R):
    """Kernels of objects whose properties are set again."""
    from zernpy import ZernPSF
    for t in range(24 if R.thorough else 5):
        os_, _ = sample(R, 1 if t % 2 else 3)
        if t == 1:
            os_ = [(0, 0)]
        s = ZernPSF(pols(os_)[0] if len(os_) == 1 else pols(os_))
        for step in range(2):
            if R.left() < 4:
                return
            na, wl, px = R.rng.choice(PARAMS)
            px = min(px, wl/(4*na))
            amps = [R.rng.choice([0.0, 0.1, -0.3, 0.6]) for _ in os_]
            ks, nr, nphi, norm = R.rng.choice([3, 4, 5]), R.rng.choice([20, 24]), R.rng.choice([36, 40]), R.rng.random() < 0.5
            R.case(("object", os_, na, wl, px, amps, ks, nr, nphi, norm, step))
            with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
                warnings.simplefilter("ignore")
                s.set_physical_props(NA=na, wavelength=wl, expansion_coeff=amps[0] if len(os_) == 1 else amps, pixel_physical_size=px)
                s.set_calculation_props(kernel_size=ks, n_integration_points_r=nr, n_integration_points_phi=nphi)
                k = s.calculate_psf_kernel(suppress_warnings=step == 0, normalized=norm, accelerated=False, verbose_info=step == 1)
            compare(R, k, kernel(os_, amps, px, wl, na, ks, nr, nphi, norm, os_ == [(0, 0)]), "the kernel of the object")
            R.check(s.kernel is k, "the kernel is kept", None)


PARTS = [("Airy patterns", airy_kernels), ("integrals", integrals), ("points", points), ("kernels", direct), ("objects", objects)]
