"""P09: generated polar coordinates."""
import math
import numpy as np

TOP = {"R": 1.0, "Theta": 2*np.pi}


def vector(R, name, a, step):
    last = TOP[name]
    if not R.check(isinstance(a, np.ndarray) and a.ndim == 1 and len(a) >= 2, f"{name}: a vector", a):
        return
    R.check(a[0] == 0.0, f"{name}: starts at 0", a[0], 0.0)
    R.check(a[-1] == last, f"{name}: ends at exactly the limit", a[-1], last)
    d = np.diff(a)
    R.check(bool(np.all(d > 0)), f"{name}: strictly ascending", a[-4:])
    R.check(bool(np.all(a >= 0) and np.all(a <= last)), f"{name}: within the range", (a.min(), a.max()))
    R.check(bool(np.all(np.abs(d[:-1] - step) <= 1e-12)), f"{name}: consecutive values differ by the step", d[:-1][np.abs(d[:-1] - step) > 1e-12][:3] if len(d) > 1 else d, step)
    R.check(bool(d[-1] <= step + 1e-9), f"{name}: the last step is not longer", d[-1], step)


def pair(R, r, th):
    from zernpy import ZernPol
    R.case((r, th))
    x = ZernPol.gen_polar_coordinates(r, th) if R.rng.random() < 0.5 else ZernPol.gen_polar_coordinates(r_step=r, theta_rad_step=th)
    if R.check(isinstance(x, tuple) and getattr(x, "_fields", None) == ("R", "Theta"), "named tuple R, Theta", x):
        vector(R, "R", x.R, r)
        vector(R, "Theta", x.Theta, th)


def parts(R):
    """Steps that divide the range exactly in reals, but not always in floating point numbers."""
    for k in range(2, 1200 if R.thorough else 400):
        pair(R, 1/k, 2*np.pi/k)
        pair(R, 1.0/k, np.pi/k)
    for d in range(1, 51):
        pair(R, d/100, np.radians(d*180/50))
        pair(R, round(1/(d + 1), 3), min(np.pi, round(0.07*d, 2)))
    for r in (0.5, 0.25, 0.1, 0.2, 0.3, 0.4, 0.45, 0.01, 0.001, np.float64(0.05)):
        for th in (1, 2, 3, np.pi, np.pi/2, np.pi/240, 0.5, 0.1, 1.0, 3.0, np.float64(0.7)):
            pair(R, r, th)
    R.exhaustive.append("steps 1/k and 2 pi/k for k below 400")


def random_steps(R):
    for _ in range(3000 if R.thorough else 400):
        pair(R, R.rng.uniform(1e-3, 0.5), R.rng.uniform(2e-3, np.pi))
        k = R.rng.randrange(2, 900)
        pair(R, min(0.5, math.nextafter(1/k, R.rng.choice([0, 1]))), min(np.pi, math.nextafter(2*np.pi/k, R.rng.choice([0, 4]))))


def default(R):
    from zernpy import ZernPol
    R.case("default steps")
    x = ZernPol.gen_polar_coordinates()
    vector(R, "R", x.R, 0.01)
    vector(R, "Theta", x.Theta, round(np.pi/240, 7))
    a = ZernPol.gen_polar_coordinates()
    a.R[3] = 5.0
    b = ZernPol.gen_polar_coordinates()
    vector(R, "R", b.R, 0.01)
    R.case("only one step")
    vector(R, "R", ZernPol.gen_polar_coordinates(r_step=0.3).R, 0.3)
    vector(R, "Theta", ZernPol.gen_polar_coordinates(theta_rad_step=0.3).Theta, 0.3)


def rejected(R):
    from zernpy import ZernPol
    f = ZernPol.gen_polar_coordinates
    bad_r = [0, 0.0, -0.1, -1, 0.5000001, math.nextafter(0.5, 1), 0.51, 1, 1.0, 2, -5e-324, 1e300, math.inf, -math.inf, -0.0]
    bad_t = [0, 0.0, -0.1, -1, math.nextafter(np.pi, 4), 3.15, 4, 2*np.pi, 100, -5e-324, math.inf, -math.inf, -0.0]
    for b in bad_r:
        R.raises(ValueError, "step on radii", f, b, 0.1)
        R.raises(ValueError, "step on radii", f, r_step=b)
    for b in bad_t:
        R.raises(ValueError, "step on angles", f, 0.1, b)
        R.raises(ValueError, "step on angles", f, theta_rad_step=b)
    for b in bad_r:
        R.raises(ValueError, "both steps", f, b, R.rng.choice(bad_t))


def equal(R):
    from zernpy import ZernPol
    for k in list(range(-3, 130)) + [250, 251, 999, 1000]:
        R.case(("equal mesh", k))
        x = ZernPol.gen_equal_polar_mesh(k)
        n = max(4, k)
        for name, last in TOP.items():
            a = getattr(x, name)
            if R.check(a.shape == (n,), f"{name}: number of values", a.shape, n):
                R.check(a[0] == 0 and a[-1] == last and bool(np.all(np.abs(a - last*np.arange(n)/(n - 1)) < 1e-12)), f"{name}: equidistant in the range", a[:3])
    R.case("default")
    x = ZernPol.gen_equal_polar_mesh()
    R.check(x.R.shape == (250,) and x.Theta.shape == (250,), "default number of points", x.R.shape)


PARTS = [("default steps", default), ("parts of the range", parts), ("rejected", rejected), ("equal mesh", equal), ("random steps", random_steps)]
