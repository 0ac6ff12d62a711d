"""P19: cropping of kernels."""
import math
import numpy as np


def psf(k):
    from zernpy import ZernPol, ZernPSF
    s = ZernPSF(ZernPol(m=0, n=2))
    s.kernel, s.kernel_size = k, k.shape[0]
    return s


def frames(k, limit):
    """The largest number of outermost frames with values below the limit only."""
    n, s = k.shape[0], 0
    while 2*s < n:
        i = np.minimum(np.arange(n), n - 1 - np.arange(n))
        ring = np.minimum.outer(i, i) == s
        if np.any(k[ring] >= limit):
            return s
        s += 1
    return s


def kernel(R, n):
    """Kernels with bright values at few places, some just at the threshold."""
    x = R.rng.random()
    k = np.array([[R.rng.random()*0.004 for _ in range(n)] for _ in range(n)])
    c = n//2
    if x < 0.5:      # a bright disk somewhere about the centre
        a, b, w = c + R.rng.randrange(-1, 2)*R.rng.randrange(0, c + 1), c + R.rng.randrange(-1, 2)*R.rng.randrange(0, c + 1), R.rng.uniform(0.3, n/3)
        for i in range(n):
            for j in range(n):
                k[i, j] += math.exp(-((i - a)**2 + (j - b)**2)/w**2)
    else:
        for _ in range(R.rng.randrange(1, 4)):
            k[R.rng.randrange(n), R.rng.randrange(n)] = R.rng.choice([0.2, 0.5, 1.0, 0.01, 0.3])
    if R.rng.random() < 0.3:
        k[R.rng.randrange(n), R.rng.randrange(n)] = 1.0
    return k*R.rng.choice([1.0, 1.0, 1e-6, 350.0])


def check(R, k, x, call):
    keep = k.copy()
    s = psf(k)
    old = (s.NA, s.wavelength, s.pixel_size, s.expansion_coeff)
    call(s)
    limit = (x*np.max(keep) if keep.shape[0] > 3 else 0)
    f = frames(keep, limit) if keep.shape[0] > 3 else 0
    want = keep[f:keep.shape[0] - f, f:keep.shape[1] - f]
    got = s.kernel
    R.check(got.shape == want.shape, "as many frames are removed as have dim values only", got.shape, want.shape)
    R.check(got.shape == want.shape and np.array_equal(got, want), "central part with unchanged values", got, want)
    R.check(s.kernel_size == want.shape[0], "the kernel size is updated", s.kernel_size, want.shape[0])
    R.check(np.array_equal(k, keep), "the values of the kernel before are unchanged")
    R.check(old == (s.NA, s.wavelength, s.pixel_size, s.expansion_coeff), "other properties remain")
    return s


def cropped(R):
    n0 = R.evaluations
    while R.left() > 0 and R.evaluations - n0 < (8000 if R.thorough else 1500):
        n = R.rng.choice([1, 2, 3, 4, 5, 5, 7, 9, 11, 15, 21, 6, 8])
        k = kernel(R, n)
        x = R.rng.choice([0.01, 0.05, 0.1, 0.2, 0.3, 0.49, math.nextafter(0.5, 0), 1e-6, R.rng.uniform(0.001, 0.499)])
        R.case((n, x, k.round(3).tolist() if n < 6 else k.sum()))
        s = check(R, k, x, R.rng.choice([lambda s: s.crop_kernel(x), lambda s: s.crop_kernel(min_part_of_max=x)]))
        if R.rng.random() < 0.3:       # once more: with another threshold
            y = R.rng.choice([x, 0.3, 0.45])
            R.case((n, x, y))
            check(R, s.kernel.copy(), y, lambda s: s.crop_kernel(y))
        if R.rng.random() < 0.2:
            R.case((n, "default"))
            check(R, k, 0.01, lambda s: s.crop_kernel())


def single_places(R):
    """One bright value at every place of small kernels."""
    for n in (4, 5, 6, 7, 9):
        for i in range(n):
            for j in range(n):
                for v in (1.0, 0.05):
                    k = np.full((n, n), 1e-4)
                    k[n//2, n//2] = 1.0
                    k[i, j] = v
                    R.case((n, i, j, v))
                    check(R, k, 0.04, lambda s: s.crop_kernel(0.04))
                    if v != 1.0 and (i, j) != (n//2, n//2):
                        R.case((n, i, j, "equal to the threshold"))
                        k[i, j] = 0.25
                        check(R, k, 0.25, lambda s: s.crop_kernel(0.25))
    R.exhaustive.append("a bright value at every place of kernels of size 4 to 9")


def calculated(R):
    from zernpy import ZernPol, ZernPSF
    for o, a in (((0, 2), 0.3), ((-1, 3), 0.4), ((0, 0), 0.2)):
        R.case(("calculated", o))
        s = ZernPSF(ZernPol(m=o[0], n=o[1]))
        s.set_physical_props(0.95, 0.55, a, 0.55/4.5)
        s.set_calculation_props(15, 20, 36)
        k = s.calculate_psf_kernel(suppress_warnings=True, accelerated=False).copy()
        s.crop_kernel(0.02)
        f = frames(k, 0.02*np.max(k))
        R.check(np.array_equal(s.kernel, k[f:15 - f, f:15 - f]) and s.kernel_size == 15 - 2*f, "calculated kernel", s.kernel.shape, 15 - 2*f)


def rejected(R):
    for n in (4, 5, 9):
        for x in (0, 0.0, -0.1, -1, 0.5, math.nextafter(0.5, 1), 0.6, 1, 1.0, 2, math.inf, -math.inf):
            k = kernel(R, n)
            keep = k.copy()
            s = psf(k)
            R.raises(ValueError, f"threshold {x}", s.crop_kernel, x)
            R.check(np.array_equal(s.kernel, keep) and s.kernel_size == n, "the kernel remains")


PARTS = [("single places", single_places), ("rejected", rejected), ("calculated kernels", calculated), ("random kernels", cropped)]
