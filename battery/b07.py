"""P07: sums of polynomials, at points and as surfaces."""
import warnings
import numpy as np
import oracle as O


def pool():
    from zernpy import ZernPol
    return [ZernPol(m=m, n=n) for m, n in O.orders(11)]


def exact(cs, ps, r, th):
    return sum(float(c)*O.Z(*p.get_mn_orders(), float(r), float(th)) for c, p in zip(cs, ps))


def tol(cs, ps):
    return 1e-9*sum(abs(float(c))*O.N(*p.get_mn_orders()) for c, p in zip(cs, ps))


COEFFS = [[0.0], [1], [2.5], [0.0, 0.0], [0.0, 1.0], [1.0, 0.0], [0.0, -1.5, 0.0], [3, -2, 1], [0.1]*4, [-1e-300, 1.0], [1e-12, 1e12], [1.0, -1.0], [0, 0, 5], [-0.5], [-1, -2], [1e-9], [3e-10, -2e-10], [4e-300], [1e-12, -7e-10, 2e-9],
          [3e-16, -2e-14, 5e-15], [1e-250, -2e-250], [0, 3e-13], [2e-18, 1e-20], [1e9, 3e10], [1e150, -2e149]]


def series(R, k=None):
    """Coefficients (also vanishing and negative ones) with polynomials, as the different sequences."""
    P = pool()
    cs = list(R.rng.choice(COEFFS)) if R.rng.random() < 0.5 else [R.rng.choice([0.0, 0, 1.0, -1, R.rng.uniform(-3, 3)]) for _ in range(R.rng.randrange(1, 7))]
    ps = [R.rng.choice(P) for _ in cs]
    cv = R.rng.choice([list, tuple, np.array])
    return cv(cs), R.rng.choice([list, tuple])(ps), cs, ps


def radii(R, k):
    return [R.rng.choice([0.0, 1.0, 0.5, R.rng.random()]) for _ in range(k)]


def angles(R, k):
    return [R.rng.choice([0.0, np.pi, 2*np.pi, R.rng.random()*2*np.pi]) for _ in range(k)]


def points(R):
    from zernpy import ZernPol
    kinds = ["scalars", "ints", "arrays", "arrays 2d", "r only", "theta only", "lists", "single"]
    while R.left() > 0:
        if R.parts.get("n", 0) > (4000 if R.thorough else 700):
            break
        R.parts["n"] = R.parts.get("n", 0) + 1
        c, p, cs, ps = series(R)
        kind = kinds[R.parts["n"] % len(kinds)]
        k = R.rng.randrange(1, 6)
        r, th = radii(R, k), angles(R, k)
        if kind == "scalars":
            a, b, pairs, shape = r[0], th[0], [(r[0], th[0])], ()
        elif kind == "ints":
            a, b = R.rng.choice([0, 1]), R.rng.choice([0, 1, 3, 6])
            pairs, shape = [(a, b)], ()
        elif kind == "arrays":
            a, b, pairs, shape = np.array(r), np.array(th), list(zip(r, th)), (k,)
        elif kind == "single":
            a, b, pairs, shape = np.array(r[:1]), np.array(th[:1]), [(r[0], th[0])], (1,)
        elif kind == "arrays 2d":
            r, th = radii(R, 2*k), angles(R, 2*k)
            a, b, pairs, shape = np.array(r).reshape(2, k), np.array(th).reshape(2, k), list(zip(r, th)), (2, k)
        elif kind == "r only":
            a, b, pairs, shape = np.array(r), th[0], [(x, th[0]) for x in r], (k,)
        elif kind == "theta only":
            a, b, pairs, shape = r[0], np.array(th), [(r[0], x) for x in th], (k,)
        else:
            a, b, pairs, shape = list(r), tuple(th), list(zip(r, th)), (k,)
        modes = [{}, {"get_surface": False}]
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            modes.append({"get_surface": True})
        kw = R.rng.choice(modes)
        R.case((kind, kw, cs, [q.get_mn_orders() for q in ps], repr(a), repr(b)))
        got = ZernPol.sum_zernikes(c, p, a, b, **kw)
        want = np.array([exact(cs, ps, x, y) for x, y in pairs]).reshape(shape)
        R.check(np.shape(got) == shape, "shape of the points", np.shape(got), shape)
        R.check(np.shape(got) == shape and np.all(np.abs(np.asarray(got, dtype=float) - want) <= tol(cs, ps)), "weighted sum of the values", got, want)
    R.parts.pop("n", None)


def sizes(R):
    s = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (3, 4), (4, 3), (1, 7), (7, 1), (5, 5), (5, 6), (6, 5), (9, 4), (4, 9)]
    return s + [(R.rng.randrange(1, 20), R.rng.randrange(1, 20)) for _ in range(60 if R.thorough else 14)]


def surfaces(R):
    from zernpy import ZernPol
    for rep in range(3 if R.thorough else 1):
        for kr, kt in sizes(R):
            for name in ("sum_zernikes", "_sum_zernikes_meshgrid"):
                for _ in range(3):
                    c, p, cs, ps = series(R)
                    r, th = radii(R, kr), angles(R, kt)
                    R.case((name, cs, [q.get_mn_orders() for q in ps], r, th))
                    if R.rng.random() < 0.2:        # vectors of whole numbers
                        r, th = [R.rng.randrange(2) for _ in r], [R.rng.randrange(7) for _ in th]
                    a, b = np.array(r), np.array(th)
                    got = ZernPol.sum_zernikes(c, p, a, b, get_surface=True) if name == "sum_zernikes" else ZernPol._sum_zernikes_meshgrid(c, p, a, b)
                    if not R.check(np.shape(got) == (kr, kt), f"{name}: shape of the surface", np.shape(got), (kr, kt)):
                        continue
                    want = np.array([[exact(cs, ps, x, y) for y in th] for x in r])
                    bad = np.argwhere(~(np.abs(got - want) <= tol(cs, ps)))
                    R.check(len(bad) == 0, f"{name}: element [j, k] is the sum at (r_j, theta_k)", (bad[:3].tolist(), got[tuple(bad[0])] if len(bad) else None), want[tuple(bad[0])] if len(bad) else None)


def generated(R):
    from zernpy import ZernPol
    todo = [dict(r_step=a, theta_rad_step=b) for a in (0.5, 0.1, 0.3, 0.07) for b in (0.5, np.pi, 1.0, 0.23)] + [dict(equal_n_coordinates=True, n_points=k) for k in (2, 4, 5, 9, 17)]
    todo += [dict(r_step=0.2, theta_rad_step=0.4, equal_n_coordinates=True, n_points=6), dict(r_step=0.5, theta_rad_step=2*np.pi/4)]
    for kw in todo:
        c, p, cs, ps = series(R)
        R.case((kw, cs, [q.get_mn_orders() for q in ps]))
        s = ZernPol.gen_zernikes_surface(c, p, **kw)
        equal = kw.get("equal_n_coordinates", False)
        w = ZernPol.gen_equal_polar_mesh(kw["n_points"]) if equal else ZernPol.gen_polar_coordinates(kw["r_step"], kw["theta_rad_step"])
        R.check(np.array_equal(s.R, w.R) and np.array_equal(s.Theta, w.Theta), "the coordinates are returned", (s.R, s.Theta), w)
        if R.check(s.ZernSurf.shape == (len(s.R), len(s.Theta)), "shape of the surface", s.ZernSurf.shape, (len(s.R), len(s.Theta))):
            want = np.array([[exact(cs, ps, x, y) for y in s.Theta] for x in s.R])
            R.check(np.all(np.abs(s.ZernSurf - want) <= tol(cs, ps)), "the matrix belongs to the coordinates", s.ZernSurf, want)
    R.case("two results are independent")
    P = pool()
    a = ZernPol.gen_zernikes_surface([1.0], [P[3]], r_step=0.25, theta_rad_step=1.0)
    keep = [x.copy() for x in a]
    b = ZernPol.gen_zernikes_surface([2.0, -1.0], [P[4], P[7]], r_step=0.25, theta_rad_step=1.0)
    for x in b:
        x += 1.0
    R.check(all(np.array_equal(x, y) for x, y in zip(a, keep)), "an earlier result keeps its values", a, keep)


def rejected(R):
    from zernpy import ZernPol
    P = pool()[:5]
    x, y = np.array([0.1, 0.5, 1.0]), np.array([0.0, 1.0])
    places = [(x, y, {"get_surface": True}), (0.5, 1.0, {}), (0.5, 1.0, {"get_surface": True}), (x, x, {}), (x, x, {"get_surface": True})]
    calls = [lambda c, p, q=q: ZernPol.sum_zernikes(c, p, q[0], q[1], **q[2]) for q in places]
    calls.append(lambda c, p: ZernPol.gen_zernikes_surface(c, p, r_step=0.5, theta_rad_step=1.0))
    calls.append(lambda c, p: ZernPol.gen_zernikes_surface(c, p, equal_n_coordinates=True, n_points=5))
    mesh = lambda c, p: ZernPol._sum_zernikes_meshgrid(c, p, x, y)
    for i, j in [(0, 1), (1, 0), (1, 2), (2, 1), (3, 5), (5, 3), (4, 5), (5, 1)]:
        for cv in (list, tuple, np.array):
            for f in calls + [mesh]:
                R.raises(ValueError, "different lengths", f, cv([1.0]*i), P[:j])
                R.raises(ValueError, "different lengths", f, cv([0.0]*i), tuple(P[:j]))
    for c in ([], (), np.array([])):
        for p in ([], ()):
            for f in calls:
                R.raises(ValueError, "empty sequences", f, c, p)
    for bad in (None, 1, "Z", (0, 2), [1, 1], 2.5, ZernPol, P[0].get_mn_orders()):
        for n in (1, 2, 3, 5):
            for at in range(n):
                for z in (1.0, 0.0):
                    p = list(P[:n])
                    p[at] = bad
                    c = [1.0]*n
                    c[at] = z
                    for f in calls + [mesh]:
                        R.raises(ValueError, f"object {bad!r} at {at} of {n}", f, c, p)


PARTS = [("surfaces", surfaces), ("generated surfaces", generated), ("rejected inputs", rejected), ("points", points)]
