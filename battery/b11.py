"""P11: the circle of an image of phases."""
import math
import warnings
import numpy as np


def expected(img, R, strict):
    """Mask, phases, radii and angles by the definition; None if a pixel stands at a border of rounding."""
    h, w = img.shape
    small, large = min(h, w), max(h, w)
    half = ((large if large - small < 2 else small) - 1)/2
    eps = 0.055 if not strict and ((h % 2 == 0 and w % 2 == 0) or abs(h - w) == 1) else 0.001
    crop = round(float(R), 4)
    mask, vec = np.zeros((h, w), dtype=int), []
    for i in range(h):
        for j in range(w):
            y, x = (h - 1)/2 - i, j - (w - 1)/2
            d = math.sqrt(x*x + y*y)/half
            if abs(d*1e4 % 1 - 0.5) < 1e-7 and d < 1.2:
                return None
            r = round(d, 4)
            if abs(r - crop - eps) < 1e-9:      # exactly at the tolerance: decided by rounding errors
                return None
            if r - crop < eps:
                th = math.atan2(y, x)
                mask[i, j] = 1
                vec.append((img[i, j], r, th + 2*math.pi if th < 0 else th))
    top = max([x[1] for x in vec], default=1)
    scale = top if top > 1 else 1.0
    return mask, [x[0] for x in vec], [round(x[1]/scale, 4) for x in vec], [x[2] for x in vec]


def one(R, f, img, crop, strict, kind):
    want = expected(img, crop, strict)
    if want is None:
        return
    copy = img.copy()
    R.case((img.shape, img.dtype.str, crop, strict, kind))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = f(img, crop, R.rng.choice([False, True]), strict) if kind == "positional" else f(phases_image=img, crop_radius=crop, strict_border=strict)
    mask, (y, r, th) = got
    if not R.check(mask.shape == img.shape, "size of the mask", mask.shape, img.shape):
        return
    R.check(np.array_equal(mask, want[0]), "1 for the pixels of the circle, 0 elsewhere", mask, want[0])
    if not R.check(len(y) == len(r) == len(th) == len(want[1]), "as many values as pixels", (len(y), len(r), len(th)), len(want[1])):
        return
    R.check(np.array_equal(y, want[1]), "phases in row order", y, want[1])
    R.check(np.all(np.abs(np.array(r) - want[2]) < 1.1e-4) and np.all(r >= 0) and np.all(r <= 1), "normalized radii within [0, 1]", r, want[2])
    R.check(np.all(np.abs(np.array(th) - want[3]) < 1e-9), "counterclockwise angles", th, want[3])
    R.check(np.array_equal(img, copy), "the image is not modified", img, copy)


def images(R):
    from zernpy.calculations.fit_zernike_pols import crop_phases_img as f
    top = 15 if R.thorough else 12
    sizes = [(h, w) for h in range(3, top) for w in range(3, top)]
    R.rng.shuffle(sizes)
    for h, w in sizes + [(31, 30), (30, 30), (29, 33), (40, 41)]:
        for strict in (False, True):
            for crop in [1.0, 1, 0.5, round(R.rng.uniform(0.5, 1), R.rng.choice([2, 3, 6]))]:
                if R.left() < 0:
                    return
                kind = R.rng.choice(["float", "int", "uint8", "float32"])
                img = np.array([[R.rng.uniform(-5, 5) if kind.startswith("f") else R.rng.randrange(0, 200) for _ in range(w)] for _ in range(h)], dtype=kind)
                one(R, f, img, crop, strict, R.rng.choice(["positional", "keywords"]))
    for n in (104, 153) + ((260, 301) if R.thorough else ()):      # pixels close to the positive half of the x axis
        img = np.array([[R.rng.uniform(-5, 5) for _ in range(n)] for _ in range(n)])
        one(R, f, img, 1.0, n % 2 == 1, "keywords")
    R.exhaustive.append(f"image sizes from 3 x 3 to {top-1} x {top-1}, both border modes")


def rejected(R):
    from zernpy.calculations.fit_zernike_pols import crop_phases_img as f
    img = np.ones((5, 5))
    for crop in (0.4999, 0.49994, 1.0001, 1.5, 0, 2, -1, -0.7, float("inf"), 0.0):
        R.raises(ValueError, "crop radius out of the range", f, img, crop)
    for shape in ((2, 5), (5, 2), (2, 2), (1, 1), (1, 9), (0, 5), (2, 3)):
        R.raises(ValueError, "too small image", f, np.ones(shape))
    for x in (np.ones(5), np.ones((3, 3, 3)), np.float64(1.0), np.array(2.0), [[1.0]*4]*4, None, "img", 5, ((1, 2, 3),)*3):
        R.raises(ValueError, "not a 2D array", f, x)


PARTS = [("rejections", rejected), ("circles", images)]
