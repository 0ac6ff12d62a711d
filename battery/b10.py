"""P10: images of phases."""
import math
import random
import numpy as np
import oracle as O
from b07 import series, tol


def expected(cs, orders, h, w):
    """The image by the definition (integer test of the circle)."""
    img = np.zeros((h, w))
    r0, c0, rad = h//2, w//2, 1 + min(h, w)//2
    for i in range(h):
        for j in range(w):
            d2 = (i - r0)**2 + (j - c0)**2
            if d2 <= rad*rad:
                r, th = math.sqrt(d2)/rad, math.atan2(r0 - i, j - c0)
                if th < 0:
                    th += 2*math.pi
                img[i, j] = sum(c*O.Z(m, n, r, th) for c, (m, n) in zip(cs, orders) if c)
    return img


def compare(R, got, cs, ps, h, w):
    if not R.check(isinstance(got, np.ndarray) and got.shape == (h, w), "size of the image", getattr(got, "shape", got), (h, w)):
        return
    want = expected([float(c) for c in cs], [p.get_mn_orders() for p in ps], h, w)
    bad = np.argwhere(~(np.abs(got - want) <= 10*tol(cs, ps)))
    R.check(len(bad) == 0, "the sum of the polynomials within the circle, 0 outside", (bad[:3].tolist(), got[tuple(bad[0])] if len(bad) else None), want[tuple(bad[0])] if len(bad) else None)


SIZES = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 3), (3, 4), (4, 3), (5, 5), (6, 6), (7, 4), (4, 7), (8, 9), (11, 3), (3, 11), (9, 14), (14, 9), (11, 11), (1, 9), (9, 1), (2, 8)]


def images(R):
    from zernpy import generate_phases_image
    rounds = 6 if R.thorough else 2
    for _ in range(rounds):
        for h, w in SIZES + ([(24, 31), (31, 24)] if R.thorough else []):
            if R.left() < 0:
                return
            c, p, cs, ps = series(R)
            R.case((h, w, cs, [q.get_mn_orders() for q in ps]))
            if R.rng.random() < 0.5:
                got = generate_phases_image(p, c, w, h)
            else:
                got = generate_phases_image(polynomials=p, polynomials_amplitudes=c, img_width=w, img_height=h)
            compare(R, got, cs, ps, h, w)
            R.check(list(map(float, c)) == list(map(float, cs)) and list(p) == list(ps), "inputs are not modified", (c, p), (cs, ps))
    for h, w in ((65, 78), (90, 66)):
        c, p, cs, ps = series(R)
        R.case((h, w, cs))
        compare(R, generate_phases_image(ps[:1], [1.3], w, h), [1.3], ps[:1], h, w)
    c, p, cs, ps = series(R)
    R.case(("default", cs))
    compare(R, generate_phases_image([ps[0]], [1.0], 60), [1.0], [ps[0]], 513, 60)


def consistent(R, out, N, h, w, digits):
    if not R.check(isinstance(out, tuple) and len(out) == 3, "image, amplitudes and polynomials", type(out), tuple):
        return
    img, a, ps = out
    want = O.orders(N)
    R.check(isinstance(ps, tuple) and [p.get_mn_orders() for p in ps] == want, "all polynomials up to the order", [p.get_mn_orders() for p in ps][:10], want[:10])
    if not R.check(np.shape(a) == (len(want),), "an amplitude for each polynomial", np.shape(a), (len(want),)):
        return
    R.check(np.all(np.abs(a) <= 1.5), "amplitudes within [-1.5, 1.5]", a, 1.5)
    off = [i for i, x in enumerate(a) if x != np.round(x, digits)]
    single = len(off) == 1 and abs(a[off[0]]) >= 0.08 and all(abs(x) < 0.08 for i, x in enumerate(a) if i != off[0])
    R.check(not off or single, "amplitudes are rounded", (off, a), digits)
    compare(R, img, list(a), ps, h, w)


def randoms(R):
    from zernpy import generate_random_phases
    todo = [(N, h, w) for N in (0, 1, 2, 3, 4, 5, 8, 9, 10) for h, w in R.rng.sample(SIZES, 3)] + [(2, 65, 78), (2, 70, 66)]
    for N, h, w in todo*(4 if R.thorough else 1):
        if R.left() < 0:
            return
        digits = R.rng.choice([1, 2, 3, 4, 7])
        seed = R.rng.randrange(10**6)
        random.seed(seed)
        R.case((N, h, w, digits, seed))
        consistent(R, generate_random_phases(N, w, h, digits), N, h, w, digits)
    random.seed(5)
    R.case("defaults")
    img, a, ps = generate_random_phases(img_width=21, img_height=17)
    consistent(R, (img, a, ps), 4, 17, 21, 4)


class Draws:
    """Stand-in for the random source with chosen draws."""

    def __init__(self, rng, pick, value):
        self.rng, self.pick, self.value = rng, pick, value

    def choice(self, seq):
        seq = list(seq)
        if all(isinstance(x, bool) for x in seq):
            return self.pick(seq)
        return seq[self.rng.choice([0, len(seq) - 1, self.rng.randrange(len(seq))])]

    def uniform(self, a, b):
        return self.value(a, b)

    def __getattr__(self, name):
        return getattr(random, name)


def forced(R):
    """Draws which ordinary runs do not meet: nothing selected, vanishing amplitudes, limits."""
    import zernpy.zernikepol as zp
    if getattr(zp, "random", None) is not random:
        return
    rng = random.Random(R.seed)
    picks = {"nothing": lambda s: False if False in s else s[0], "all": lambda s: True if True in s else s[0], "some": lambda s: rng.choice(s)}
    values = {"zero": lambda a, b: 0.0 if a <= 0 <= b else a, "low": lambda a, b: a, "high": lambda a, b: b, "small": lambda a, b: min(max(0.0699, a), b),
              "negative small": lambda a, b: min(max(-0.0399, a), b), "edge": lambda a, b: min(max(0.08, a), b), "long": lambda a, b: a + (b - a)*0.123456789}
    try:
        for N in (0, 1, 2, 3, 4, 6, 9):
            for pn, pick in picks.items():
                for vn, value in values.items():
                    zp.random = Draws(rng, pick, value)
                    h, w = rng.choice(SIZES[:12])
                    d = rng.choice([1, 2, 4])
                    R.case((N, pn, vn, h, w, d))
                    consistent(R, zp.generate_random_phases(N, w, h, d), N, h, w, d)
    finally:
        zp.random = random


PARTS = [("images", images), ("random phases", randoms), ("chosen draws", forced)]
