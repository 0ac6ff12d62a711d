"""P12: fitting of polynomials."""
import warnings
import numpy as np
import oracle as O
from b07 import pool
import b11


def chosen(R, k):
    return R.rng.sample(pool()[:28], k)


def solution(ps, pts, y, low=1e-3):
    W = np.array([[O.Z(*p.get_mn_orders(), float(r), float(th)) for p in ps] for r, th in pts])
    x, _, rank, sv = np.linalg.lstsq(W, np.array(y, dtype=float), rcond=None)
    if min(W.shape) and sv[-1] < low*sv[0]:
        return None                     # badly determined: comparison by a tolerance is not possible
    return x


def compare(R, got, want, digits, ps):
    if not R.check(np.shape(got) == (len(ps),), "one amplitude for each polynomial", np.shape(got), (len(ps),)):
        return
    R.check(np.all(np.abs(got - want) <= 0.5*10.0**-digits + 1e-8), "the least-squares amplitudes", got, want)
    R.check(np.allclose(np.array(got)*10.0**digits, np.round(np.array(got)*10.0**digits), atol=1e-3), "rounded amplitudes", got, digits)


def vectors(R):
    from zernpy import fit_polynomials_vectors as f
    for i in range(400 if R.thorough else 120):
        if R.left() < 0:
            return
        k = R.rng.randrange(1, 6)
        ps = R.rng.choice([tuple, list])(chosen(R, k))
        if i % 2:
            n, m = R.rng.randrange(3, 7), R.rng.randrange(7, 12)
            if R.rng.random() < 0.5:
                n, m = m, n
            r, th = [R.rng.random() for _ in range(n)], [R.rng.random()*6.28 for _ in range(m)]
            pts = [(a, b) for a in r for b in th]
        else:
            n = R.rng.randrange(k, k + 30)
            r, th = [R.rng.random() for _ in range(n)], [R.rng.random()*6.28 for _ in range(n)]
            pts = list(zip(r, th))
        if i % 10 == 3:                 # a grid of one angle or one radius
            n, m = R.rng.choice([(1, k + 5), (k + 5, 1)])
            r, th = [R.rng.random() for _ in range(n)], [R.rng.random()*6.28 for _ in range(m)]
            pts = [(a, b) for a in r for b in th]
        y = [R.rng.uniform(-2, 2) for _ in pts]
        want = solution(ps, pts, y)
        if want is None or len(pts) < k:
            continue
        a = [np.array(x) for x in (y, r, th)]
        copies, kept = [x.copy() for x in a], list(ps)
        d = R.rng.choice([None, 0, 1, 2, 5, 8])
        R.case((len(r), len(th), k, d))
        got = f(ps, *a) if d is None else f(polynomials=ps, phases_vector=a[0], radii_vector=a[1], thetas_vector=a[2], round_digits=d)
        compare(R, got, want, 4 if d is None else d, ps)
        R.check(all(np.array_equal(x, z) for x, z in zip(a, copies)) and list(ps) == kept, "inputs are not modified", a, copies)


def close_to_dependent(R):
    """Points close to the center, where the polynomials are nearly dependent, but exact data."""
    from zernpy import ZernPol, fit_polynomials_vectors as f
    for orders in ([(0, 0), (0, 2)], [(0, 0), (1, 1), (0, 2), (1, 3)], [(-1, 1), (-1, 3), (2, 2), (2, 4)], [(0, 0), (0, 2), (0, 4)]):
        for top in (0.5, 0.3, 0.12):
            if R.left() < 0:
                return
            ps = [ZernPol(m=m, n=n) for m, n in orders]
            r, th = [top*(i + 1)/9 for i in range(9)], [0.61*i for i in range(11)]
            pts = [(a, b) for a in r for b in th]
            c = [R.rng.choice([-2, 1, 0.5, -0.25, 3]) for _ in ps]
            W = np.array([[O.Z(m, n, a, b) for m, n in orders] for a, b in pts])
            if solution(ps, pts, W @ c, 1e-6) is None:
                continue
            R.case(("nearly dependent", orders, top))
            got = f(ps, W @ c, np.array(r), np.array(th), round_digits=4)
            R.check(np.shape(got) == (len(ps),) and bool(np.all(np.abs(got - np.array(c)) < 1e-3)), "the amplitudes of the profile", got, c)


def images(R):
    from zernpy import fit_polynomials as f
    for i in range(120 if R.thorough else 40):
        if R.left() < 0:
            return
        h, w = R.rng.randrange(5, 14), R.rng.randrange(5, 14)
        ps = chosen(R, R.rng.randrange(1, 5))
        img = np.array([[R.rng.uniform(-2, 2) for _ in range(w)] for _ in range(h)])
        if R.rng.random() < 0.3:
            img = (img*20).astype(int)
        crop, strict = R.rng.choice([1.0, 0.8, 0.55]), R.rng.choice([False, True])
        circle = b11.expected(img, crop, strict)
        if circle is None:
            continue
        want = solution(ps, list(zip(circle[2], circle[3])), circle[1]) if len(circle[1]) >= len(ps) else None
        if want is None:
            continue
        copy = img.copy()
        d, back = R.rng.choice([0, 2, 3]), R.rng.choice([False, True])
        R.case((h, w, crop, strict, d, back, [p.get_mn_orders() for p in ps]))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = f(img, ps, crop, True, strict, d, back)
        if not R.check(isinstance(got, tuple) and len(got) == 2, "amplitudes and an image", got, 2):
            return
        if R.check(np.shape(got[0]) == (len(ps),), "one amplitude for each polynomial", np.shape(got[0]), (len(ps),)):
            scale = 1 + np.max(np.abs(want))      # radii are rounded to 4 digits
            R.check(np.all(np.abs(got[0] - want) <= 0.5*10.0**-d + 5e-3*scale), "the least-squares amplitudes", got[0], want)
            R.check(np.allclose(got[0]*10.0**d, np.round(got[0]*10.0**d), atol=1e-4), "rounded amplitudes", got[0], d)
        if back:
            R.check(np.array_equal(got[1], circle[0]*img), "the image within the circle", got[1], circle[0]*img)
        else:
            R.check(got[1] is None, "no image unless requested", got[1], None)
        R.check(np.array_equal(img, copy), "the image is not modified", img, copy)


def profiles(R):
    """A profile of polynomials gives back its amplitudes."""
    from zernpy import ZernPol, fit_polynomials_vectors as f
    for _ in range(10):
        ps = chosen(R, R.rng.randrange(1, 7))
        c = [round(R.rng.uniform(-2, 2), 3) for _ in ps]
        r, th = np.linspace(0, 1, 15), np.linspace(0, 2*np.pi, 31)
        y = np.array([sum(x*O.Z(*p.get_mn_orders(), a, b) for x, p in zip(c, ps)) for a in r for b in th])
        R.case((c, [p.get_mn_orders() for p in ps]))
        R.check(np.allclose(f(ps, y, r, th), c, atol=1e-4), "the amplitudes of the profile", f(ps, y, r, th), c)


def rejected(R):
    from zernpy import ZernPol, fit_polynomials_vectors as f, fit_polynomials as g
    v = np.linspace(0, 1, 9)
    a, b = ZernPol(m=0, n=2), ZernPol(m=1, n=3)
    for ps in ([], (), [a, b, a], (a, a), [a, b, ZernPol(osa=4)], [a, ZernPol(noll=4)], [b, a, b, a]):
        R.raises(ValueError, "repeated or no polynomials", f, ps, v, v, v)
        R.raises(ValueError, "repeated or no polynomials", g, np.ones((7, 7)), ps)
    for k in range(3):
        for x in (v.reshape(3, 3), v.reshape(1, 9), v.reshape(9, 1), v.reshape(1, 3, 3)):
            z = [v, v, v]
            z[k] = x
            R.raises(TypeError, "not one-dimensional vectors", f, [a, b], *z)


PARTS = [("rejections", rejected), ("vectors", vectors), ("nearly dependent", close_to_dependent), ("profiles", profiles), ("images", images)]
