"""P15: physical and calculation properties."""
import contextlib
import io
import math
import numpy as np
import oracle as O

NAS = [0.01, 0.1, 0.25, 0.3, 0.5, 0.65, 0.75, 0.95, 0.99, 1, 1.0, 1.2, 1.33, 1.4, 1.49, 1.5, 1.7]
WLS = [0.532, 0.4, 0.633, 0.8, 1, 1.0, 2, 0.05, 488.0, 532, 1e-3]
AMPS = [0.0, 0, 1, -1, 0.05, -0.1, 0.13, 0.25, -0.26, 0.4, 0.5, -0.7, 1.5, 3.0, -4, 12.0, 1e-9, -1e-9]


def psf(orders):
    from zernpy import ZernPol, ZernPSF
    ps = [ZernPol(m=m, n=n) for m, n in orders]
    return ZernPSF(ps[0] if len(ps) == 1 else ps), ps


def close(a, b):
    return isinstance(a, (int, float, np.floating, np.integer)) and abs(a - b) <= 1e-12*max(abs(a), abs(b))


def size_of(p, px, al, wl, na):
    from zernpy.calculations.calc_psfs import get_kernel_size
    return get_kernel_size(p, px, al, wl, na)


def check(R, s, ps, na, wl, amps, px):
    R.check(close(s.NA, na) and close(s.wavelength, wl) and close(s.pixel_size, px), "the properties are the given ones", (s.NA, s.wavelength, s.pixel_size), (na, wl, px))
    R.check(close(s.k, 2*math.pi/wl), "the wave number is 2 pi/wavelength", s.k, 2*math.pi/wl)
    k = s.kernel_size
    R.check(isinstance(k, (int, np.integer)) and k >= 1 and k % 2 == 1, "the kernel size is an odd number >= 1", k)
    if len(ps) == 1:
        R.check(close(s.expansion_coeff, amps[0]) and close(s.alpha, amps[0]/wl), "normalized amplitude", (s.expansion_coeff, s.alpha), (amps[0], amps[0]/wl))
        est = size_of(ps[0], px, amps[0]/wl, wl, na)
        R.check(k == est, "the kernel size is the estimate", k, est)
    else:
        a, c = np.asarray(s.amplitudes), np.asarray(s.coefficients)
        ok = a.shape == (len(ps),) and c.shape == (len(ps),) and all(close(x, float(y)/wl) for x, y in zip(a, amps)) and all(close(x, float(y)) for x, y in zip(c, amps))
        R.check(ok, "normalized amplitudes", (a, c), amps)
        est = [size_of(p, px, float(x)/wl, wl, na) for p, x in zip(ps, amps)]
        R.check(k >= max(est), "the kernel size is at least the largest estimate", k, est)


def values(R):
    na, wl = R.rng.choice(NAS + [R.rng.uniform(0.02, 1.7)]), R.rng.choice(WLS + [R.rng.uniform(0.1, 2)])
    px = wl/(4*na)*R.rng.choice([1.0, 1.0, 0.5, 0.98, 0.25, R.rng.uniform(0.05, 1)])
    return na, wl, px


def history(R):
    """Objects whose properties are set many times: after each call the properties are those of that call."""
    os_ = O.orders(9)
    n0 = R.evaluations
    while R.left() > 0 and R.evaluations - n0 < (20000 if R.thorough else 4000):
        k = R.rng.choice([1, 1, 1, 2, 3, 5, 8])
        orders = R.rng.sample(os_, k)
        s, ps = psf(orders)
        for step in range(R.rng.randrange(1, 7)):
            op = R.rng.random()
            na, wl, px = values(R)
            amps = [R.rng.choice(AMPS + [R.rng.uniform(-2, 2)])*R.rng.choice([1, 1, wl]) for _ in ps]
            if op < 0.55:
                given = amps[0] if k == 1 and R.rng.random() < 0.7 else R.rng.choice([list, tuple, np.array])(amps)
                R.case((orders, step, na, wl, px, amps))
                r = s.set_physical_props(na, wl, given, px) if R.rng.random() < 0.5 else s.set_physical_props(NA=na, wavelength=wl, expansion_coeff=given, pixel_physical_size=px)
                check(R, s, ps, na, wl, amps, px)
            elif op < 0.75:
                bad = R.rng.choice(["na", "wl", "px", "amps"])
                b = dict(NA=na, wavelength=wl, expansion_coeff=amps[0] if k == 1 else amps, pixel_physical_size=px)
                if bad == "na":
                    b["NA"] = R.rng.choice([0, 0.0, -0.5, -1, math.nextafter(1.7, 2), 1.71, 2, 100.0, -1e-9, math.inf])
                elif bad == "wl":
                    b["wavelength"] = R.rng.choice([0, 0.0, -0.532, -1, -1e-9])
                elif bad == "px":
                    b["pixel_physical_size"] = R.rng.choice([0, 0.0, -0.1, -px, math.nextafter(wl/(4*na), math.inf), wl/(4*na)*1.001, wl/na, wl, 1e9, -1e-9]) if wl > wl/(4*na) else R.rng.choice([0, -px, wl/(4*na)*1.01])
                else:
                    b["expansion_coeff"] = R.rng.choice([list, tuple, np.array])(R.rng.choice([amps + [0.1], amps + amps, amps[:-1], []]) if k > 1 else R.rng.choice([[0.1, 0.2], [0.0]*3, []]))
                    if k > 1 and R.rng.random() < 0.3:
                        b["expansion_coeff"] = R.rng.choice([0.5, 1, 0.0, np.float64(0.3)])
                R.raises(ValueError, f"{bad} is not valid", s.set_physical_props, **b)
            else:
                calc(R, s)


def calc(R, s):
    ks, nr, nf = R.rng.choice([3, 4, 5, 6, 7, 18, 19, 20, 21, 50, 1001]), R.rng.choice([20, 21, 22, 100, 320, 321, 400, 501, 600]), R.rng.choice([36, 37, 38, 150, 299, 300, 301, 401, 500])
    keep = (s.NA, s.wavelength, s.pixel_size, s.k, s.expansion_coeff, s.alpha)
    if R.rng.random() < 0.4:
        bad = R.rng.choice(["size", "r", "phi"])
        a = [ks, nr, nf]
        if bad == "size":
            a[0] = R.rng.choice([2, 1, 0, -1, -3, -100])
        elif bad == "r":
            a[1] = R.rng.choice([19, 18, 0, -1, -20])
        else:
            a[2] = R.rng.choice([35, 34, 20, 0, -36])
        with contextlib.redirect_stdout(io.StringIO()):
            R.raises(ValueError, f"{bad} is not valid", s.set_calculation_props, *a)
        return
    R.case(("calculation", ks, nr, nf))
    with contextlib.redirect_stdout(io.StringIO()):
        s.set_calculation_props(ks, nr, nf) if R.rng.random() < 0.5 else s.set_calculation_props(kernel_size=ks, n_integration_points_r=nr, n_integration_points_phi=nf)
    R.check(s.kernel_size == ks + (ks % 2 == 0), "the kernel size is the given one made odd", s.kernel_size, ks)
    R.check((s.n_int_r_points, s.n_int_phi_points) == (nr, nf), "numbers of integration points", (s.n_int_r_points, s.n_int_phi_points), (nr, nf))
    R.check(keep == (s.NA, s.wavelength, s.pixel_size, s.k, s.expansion_coeff, s.alpha), "the physical properties remain", keep)


def lowered(R):
    """An explicit size is taken as it is, also below the (large) estimate."""
    for m, n in O.orders(8)[::3]:
        for f in (1.0, 0.2, 0.05, 0.02):
            for ks in (3, 50, 101, 105, 110, 151):
                s, ps = psf([(m, n)])
                s.set_physical_props(0.95, 0.532, 0.9, 0.14*f)
                est = s.kernel_size
                R.case(("lowered", m, n, f, ks, est))
                with contextlib.redirect_stdout(io.StringIO()):
                    s.set_calculation_props(ks, 320, 300)
                R.check(s.kernel_size == ks + (ks % 2 == 0), "the kernel size is the given one made odd", s.kernel_size, (ks, est))


def independent(R):
    """Two objects do not share properties."""
    for i in range(40):
        R.case(("two objects", i))
        (a, pa), (b, pb) = psf([(0, 2), (1, 3)]), psf([R.rng.choice(O.orders(6))])
        x, y = values(R), values(R)
        a.set_physical_props(x[0], x[1], [0.1, -0.2], x[2])
        b.set_physical_props(y[0], y[1], 0.3, y[2])
        check(R, a, pa, x[0], x[1], [0.1, -0.2], x[2])
        check(R, b, pb, y[0], y[1], [0.3], y[2])


def monotonic(R):
    """The estimate of all orders up to 20 for a ladder of pixel sizes."""
    for m, n in O.orders(54 if R.thorough else 20):
        p = psf([(m, n)])[1][0]
        for na in R.rng.sample(NAS, 4) + [0.9999, 0.2500001]:
            for al in R.rng.sample([0.0, 0.1, 0.2499, 0.25, -0.25, 0.3, 0.499, 0.5, -0.5, 0.8, 2.0, -3.0], 3):
                R.case((m, n, na, al))
                wl = R.rng.choice(WLS)
                pxs = sorted([wl/(4*na)*f for f in (1.0, 0.999, 0.9, 0.7, 0.5, 0.3, 0.1)] + [wl/(4*na)*R.rng.random() + 1e-3*wl for _ in range(5)], reverse=True)
                ks = [size_of(p, x, al, wl, na) for x in pxs]
                R.check(all(isinstance(k, (int, np.integer)) and k >= 1 and k % 2 == 1 for k in ks), "odd sizes >= 1", ks)
                R.check(all(a <= b for a, b in zip(ks, ks[1:])), "a smaller pixel never gives a smaller size", ks, pxs)


PARTS = [("sizes below the estimate", lowered), ("two objects", independent), ("monotonic estimate", monotonic), ("histories", history)]
