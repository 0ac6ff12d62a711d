"""P20: convolution of images with kernels."""
import numpy as np

TYPES = ["float64", "float32", "uint8", "uint16", "int16", "int32", "int64", "int8", "uint32"]


def outside(x, n):
    """d c b a | a b c d | d c b a"""
    x %= 2*n
    return x if x < n else 2*n - 1 - x


def direct(img, k):
    h, w = img.shape
    n, m = k.shape
    out = np.zeros((h, w))
    for a in range(n):
        rows = [outside(i + n//2 - a, h) for i in range(h)]
        for b in range(m):
            cols = [outside(j + m//2 - b, w) for j in range(w)]
            out += k[a, b]*img[np.ix_(rows, cols)].astype(float)
    return out/np.sum(k)


def kernels(R):
    n = R.rng.choice([1, 3, 5, 7, 9])
    kind = R.rng.choice(["random", "gauss", "delta", "corner", "asymmetric", "ones", "rectangular", "signed", "large"])
    g = np.random.default_rng(R.rng.randrange(10**9))
    if kind == "random":
        k = g.random((n, n))
    elif kind == "gauss":
        x = np.arange(n) - n//2
        k = np.exp(-(x[:, None]**2 + x[None, :]**2)/4)
    elif kind == "delta":
        k = np.zeros((n, n))
        k[n//2, n//2] = R.rng.choice([1.0, 0.25, 7.0])
    elif kind == "corner":
        k = np.zeros((n, n))
        k[0, n - 1] = 1.0
        k[n//2, n//2] = 0.5
    elif kind == "asymmetric":
        k = np.triu(g.random((n, n))) + 0.01
    elif kind == "ones":
        k = np.ones((n, n))
    elif kind == "signed":     # weights of both signs
        k = g.random((n, n)) - 0.3
        k[n//2, n//2] = n
    elif kind == "large":
        n = R.rng.choice([21, 35, 51])
        k = g.random((n, n))**4
    else:
        k = g.random((n, n + 2))
    return kind, k*R.rng.choice([1.0, 1.0, 1e-6, 1e5])


def images(R, value=None, least=1):
    """scipy's own reflection deviates for kernels several times larger than the image: `least` keeps them apart."""
    h, w = R.rng.choice([(1, 1), (1, 6), (7, 2), (3, 3), (6, 9), (12, 5), (16, 16)])
    h, w = max(h, least), max(w, least)
    name = R.rng.choice(TYPES)
    g = np.random.default_rng(R.rng.randrange(10**9))
    top = R.rng.choice({"uint8": [1, 10, 255], "int8": [1, 100, 127]}.get(name, [1, 100, 30000]))
    if value is not None:
        a = np.full((h, w), value)
    elif name.startswith("float"):
        a = g.random((h, w))*R.rng.choice([1.0, 1e-6, 1e5, 1e-12])
        if R.rng.random() < 0.3:       # values of both signs
            a = a*1.6 - np.max(a)
    else:
        a = g.integers(0, top + 1, (h, w))
    return name, R.rng.choice([lambda x: x, np.asfortranarray, lambda x: np.repeat(x, 2, axis=0)[::2]])(a.astype(name))


def run(R, img, k, scale):
    from zernpy import ZernPSF, ZernPol
    from zernpy.calculations.calc_psfs import convolute_img_psf
    i0, k0 = img.copy(), k.copy()
    if R.rng.random() < 0.5:
        got = convolute_img_psf(img, k, scale)
    else:
        p = ZernPSF(ZernPol(m=1, n=3))
        p.kernel, p.kernel_size = k, k.shape[0]
        got = p.convolute_img(img) if scale and R.rng.random() < 0.5 else p.convolute_img(image=img, scale2original=scale)
    R.check(np.array_equal(img, i0) and img.dtype == i0.dtype, "the image is not modified", img, i0)
    R.check(np.array_equal(k, k0), "the kernel is not modified", k, k0)
    R.check(not np.shares_memory(got, img), "the result is another array")
    R.check(isinstance(got, np.ndarray) and got.dtype == img.dtype, "the type of the image", getattr(got, "dtype", got), img.dtype)
    return got if R.check(np.shape(got) == img.shape, "the shape of the image", np.shape(got), img.shape) else None


def close(R, got, want, img, what):
    if got is None:
        return
    whole = img.dtype.kind in "iu"
    eps = {"float64": 1e-9, "float32": 1e-5}.get(str(img.dtype), 1e-9)
    top = float(np.max(np.abs(img)))
    tol = eps*(top + 1e-300) + (1.0 if whole else 0.0)
    d = np.abs(got.astype(float) - want)
    R.check(np.all(d <= tol), what, (got.ravel()[:8], float(np.max(d))), want.ravel()[:8])
    if whole:     # truncation of the exact value
        near = np.abs(want - np.round(want)) < 1e-6*(1 + top)
        R.check(np.all((got == np.trunc(want)) | near), f"{what}: conversion to integers", got.ravel()[:8], want.ravel()[:8])


def convolutions(R):
    for _ in range(1500 if R.thorough else 220):
        if R.left() < 0:
            return
        kind, k = kernels(R)
        name, img = images(R, least=max(k.shape)//3)
        scale = R.rng.choice([False, True])
        R.case((name, img.shape, kind, k.shape, scale, R.evaluations))
        want = direct(img, k)
        if scale and 0 < np.max(want) < 0.05*np.max(np.abs(img)):     # the errors of both calculations would be enlarged
            continue
        if scale and np.max(want) > 0:
            want = want*(float(np.max(img))/np.max(want))
        if img.dtype.kind in "iu" and not np.iinfo(img.dtype).min <= np.min(want) <= np.max(want) <= np.iinfo(img.dtype).max:
            continue                   # weights of both signs
        close(R, run(R, img, k, scale), want, img, "the normalized convolution" + (", scaled" if scale else ""))


def constants(R):
    for _ in range(400 if R.thorough else 80):
        if R.left() < 0:
            return
        value = R.rng.choice([0, 0, 1, 7, 100, 255])
        kind, k = kernels(R)
        name, img = images(R, value, max(k.shape)//3)
        if name == "int8" and value > 127:
            continue
        scale = R.rng.choice([False, True])
        R.case((name, value, img.shape, kind, k.shape, scale, R.evaluations))
        got = run(R, img, k, scale)
        if got is None:
            continue
        if value == 0:
            R.check(np.all(got == 0), "a blank image stays blank", got, 0)
        else:
            close(R, got, np.full(img.shape, float(value)), img, "a constant image stays constant")


def calculated(R):
    from zernpy import ZernPSF, ZernPol
    for m, n in [(0, 0), (-1, 3), (2, 2)]:
        p = ZernPSF(ZernPol(m=m, n=n))
        p.set_physical_props(0.9, 0.55, 0.2, 0.15)
        p.set_calculation_props(9, 20, 36)
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            p.calculate_psf_kernel(suppress_warnings=True)
        for _ in range(4):
            name, img = images(R)
            R.case((m, n, name, img.shape, R.evaluations))
            k0 = p.kernel.copy()
            got = p.convolute_img(img)
            want = direct(img, k0)
            if np.max(want) > 0:
                want = want*(float(np.max(img))/np.max(want))
            R.check(np.array_equal(k0, p.kernel), "the kernel of the object remains")
            close(R, got, want, img, "convolution with a calculated kernel")


PARTS = [("convolution", convolutions), ("constant images", constants), ("calculated kernels", calculated)]
