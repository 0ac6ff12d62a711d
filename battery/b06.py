"""P06: acceptance of radii and angles; unmodified inputs."""
import copy
import tempfile
import warnings
import numpy as np
import oracle as O
from math import pi

TINY = 2.3e-16
BAD = [-0.1, -5e-324, -1e-9, 1 + TINY, 1.0001, 2.0, 5, -1, 1e300, float("inf"), float("-inf")]
GOOD = [0.0, 1.0, 0, 1, 0.5, 5e-324, 1 - 1e-16, 0.999999]


def some(R, k):
    """Polynomials of all routes."""
    from zernpy import ZernPol
    orders = [(0, 0), (1, 1), (-2, 4), (0, 12), (3, 13), (-5, 29), (2, 40), (0, 42), (-1, 41)]
    return [ZernPol(m=m, n=n) for m, n in R.rng.sample(orders, k)]


def calls(p, mode):
    kw = {"use_exact_eq": True} if mode else {}
    return [("radial", lambda r: p.radial(r, **kw)), ("radial_dr", lambda r: p.radial_dr(r, **kw)), ("polynomial_value", lambda r: p.polynomial_value(r, 1.0, **kw))]


def containers(x, R):
    """The value among accepted ones."""
    g = R.rng.sample([0.1, 0.2, 0.9, 1.0, 0.0], 3)
    i = R.rng.randrange(4)
    l = g[:i] + [x] + g[i:]
    out = [x, l, tuple(l), np.array(l), np.array(l).reshape(2, 2), np.array(l).reshape(4, 1), [x], np.array([x])]
    if isinstance(x, int):
        out += [[0, x, 1], np.array([1, x, 0])]
    return out


def radii(R):
    for p in some(R, 9 if R.thorough else 5):
        o = p.get_mn_orders()
        for mode in (0, 1):
            for name, f in calls(p, mode):
                for x in BAD:
                    for r in containers(x, R):
                        R.raises(ValueError, f"{name} of {o} with radii out of the unit circle", f, r)
                for x in GOOD:
                    for r in containers(x, R):
                        R.case((name, o, mode, repr(r)))
                        try:
                            got = f(r)
                        except Exception as e:
                            R.check(False, f"{name} of {o} accepts {r!r}", f"{type(e).__name__}: {e}", "a value")
                            continue
                        R.check(np.shape(got) == np.shape(r), f"{name} of {o}: shape for {r!r}", np.shape(got), np.shape(r))


def texts(R):
    for p in some(R, 4):
        for t in ("", "abc", "1,5", "r", "0.5 1", "pi"):
            for mode in (0, 1):
                for name, f in calls(p, mode):
                    R.raises(ValueError, f"{name} of a text", f, t)
            R.raises(ValueError, "triangular of a text", p.triangular, t)
            R.raises(ValueError, "triangular_dtheta of a text", p.triangular_dtheta, t)
            R.raises(ValueError, "polynomial_value of a text", p.polynomial_value, 0.5, t)
            R.raises(ValueError, "polynomial_value of texts", p.polynomial_value, t, t)


def shapes(R):
    a = lambda *s: np.linspace(0.0, 1.0, int(np.prod(s))).reshape(s)
    for p in some(R, 5):
        for s1, s2 in [((3,), (4,)), ((1,), (2,)), ((4,), (1,)), ((2, 2), (4,)), ((4,), (2, 2)), ((2, 3), (3, 2)), ((2, 2), (2, 3)), ((3, 1), (3,)), ((1, 3), (3,)), ((3,), (3, 3)), ((3, 1), (1, 3)), ((1, 1), (1,)),
                       ((3, 3), (1, 3)), ((2, 3, 1), (2, 3))]:
            for kw in ({}, {"use_exact_eq": True}):
                R.raises(ValueError, "different shapes", p.polynomial_value, a(*s1), a(*s2), **kw)
                if len(s1) == len(s2) == 1:
                    R.raises(ValueError, "different shapes", p.polynomial_value, list(a(*s1)), tuple(a(*s2)), **kw)
                    R.raises(ValueError, "different shapes", p.polynomial_value, list(a(*s1)), a(*s2), **kw)


def angles(R):
    for p in some(R, 6):
        m, n = p.get_mn_orders()
        for bad in (-0.1, -1e-9, 2*pi + 1e-9, 7, 7.0, -3, 100.0, -50.0):
            for th in (bad, [0.1, bad, 1.0], (bad, 2.0), np.array([0.0, bad]), np.array([[0.5, 1.0], [bad, 2.0]]), [bad], np.array([bad, bad])):
                for name, f, want in (("triangular", p.triangular, O.ang), ("triangular_dtheta", p.triangular_dtheta, O.dang)):
                    R.case((name, m, n, repr(th)))
                    with warnings.catch_warnings(record=True) as w:
                        warnings.simplefilter("always")
                        got = f(th)
                    R.check(len(w) > 0, f"a warning for the angles {th!r}", 0, 1)
                    a = np.asarray(th, dtype=float)
                    ok = np.shape(got) == a.shape and np.allclose(got, np.array([want(m, float(x)) for x in a.ravel()]).reshape(a.shape), rtol=0, atol=1e-10*(1 + abs(m)))
                    R.check(ok, f"{name} of {(m, n)}: the angles {th!r} are used unchanged", got)
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter("always")
                    got = p.polynomial_value(1.0, th)
                a = np.asarray(th, dtype=float)
                R.check(len(w) > 0, f"a warning for the angles {th!r}", 0, 1)
                ok = np.shape(got) == a.shape and np.allclose(got, np.array([O.N(m, n)*O.ang(m, float(x)) for x in a.ravel()]).reshape(a.shape), rtol=0, atol=1e-7)
                R.check(n > 30 or ok, f"polynomial_value of {(m, n)}: the angles {th!r} are used unchanged", got)


def same(a, b):
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and bool(np.all(a == b))
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if type(a).__name__ == "ZernPol":
        return a.get_indices() == b.get_indices()
    return a == b


def unmodified(R):
    """No calculation of the package modifies what it is given."""
    import zernpy as Z
    from zernpy import ZernPol
    from zernpy.calculations import fit_zernike_pols as F
    rng = np.random.default_rng(R.seed)
    pols = [ZernPol(osa=i) for i in (1, 4, 3, 7)]
    cs = [0.5, -0.25, 1.0, 0.125]
    r, th = np.linspace(0, 1, 5), np.linspace(0, 6, 5)
    img = Z.generate_phases_image(polynomials=pols, polynomials_amplitudes=cs, img_width=21, img_height=20)

    def frozen(a):
        a = np.array(a)
        a.flags.writeable = False
        return a
    todo = []
    for q in (ZernPol(m=0, n=0), ZernPol(m=1, n=3), ZernPol(m=-2, n=14), ZernPol(m=2, n=42)):
        for kw in ({}, {"use_exact_eq": True}):
            for x, y in ((r, th), (list(r), list(th)), (r.reshape(5, 1), th.reshape(5, 1)), (np.array([0, 1]), np.array([0, 2])), (0.5, th), (r, 1.0)):
                todo.append(("polynomial_value", lambda a, b, q=q, kw=kw: q.polynomial_value(a, b, **kw), (x, y)))
                todo.append(("radial", lambda a, q=q, kw=kw: q.radial(a, **kw), (x,)))
                todo.append(("radial_dr", lambda a, q=q, kw=kw: q.radial_dr(a, **kw), (x,)))
                todo.append(("triangular", lambda b, q=q: q.triangular(b), (y,)))
                todo.append(("triangular_dtheta", lambda b, q=q: q.triangular_dtheta(b), (y,)))
    for c in (cs, tuple(cs), np.array(cs)):
        for ps in (list(pols), tuple(pols)):
            for mesh in (False, True):
                todo.append(("sum_zernikes", lambda a, b, x, y, mesh=mesh: ZernPol.sum_zernikes(a, b, x, y, get_surface=mesh), (c, ps, r, th)))
            todo.append(("gen_zernikes_surface", lambda a, b: ZernPol.gen_zernikes_surface(a, b, r_step=0.1, theta_rad_step=0.5), (c, ps)))
            todo.append(("generate_phases_image", lambda a, b: Z.generate_phases_image(polynomials=a, polynomials_amplitudes=b, img_width=11, img_height=10), (tuple(ps), tuple(c))))
    for ps in (list(pols), tuple(pols)):
        todo.append(("fit_polynomials", lambda a, b: Z.fit_polynomials(a, b), (img, ps)))
        todo.append(("fit_polynomials, cropped", lambda a, b: Z.fit_polynomials(a, b, crop_radius=0.8, return_cropped_image=True, strict_circle_border=True), (img, ps)))
        todo.append(("fit_polynomials_vectors", lambda a, b, x, y: Z.fit_polynomials_vectors(a, b, x, y), (ps, np.sin(th), r, th)))
        todo.append(("fit_polynomials_vectors, grid", lambda a, b, x, y: Z.fit_polynomials_vectors(a, b, x, y), (ps, rng.random(20), r[:4], th)))
        todo.append(("ZernPSF", lambda a: Z.ZernPSF(a), (ps,)))
    todo.append(("crop_phases_img", lambda a: F.crop_phases_img(a, 0.9), (img,)))
    for name, f, args in todo:
        for variant in ("as given", "read-only"):
            use = tuple(copy.deepcopy(a) for a in args) if variant == "as given" else tuple(frozen(a) if isinstance(a, np.ndarray) else copy.deepcopy(a) for a in args)
            before = copy.deepcopy(use)
            R.case((name, variant, repr(args)[:200]))
            try:
                f(*use)
            except ValueError as e:
                if "read-only" in str(e):
                    R.check(False, f"{name} writes to a given array", str(e), "unmodified inputs")
                    continue
                raise
            R.check(all(same(a, b) for a, b in zip(before, use)), f"{name} modifies its inputs", repr(use)[:300], repr(before)[:300])


PARTS = [("radii", radii), ("texts", texts), ("shapes", shapes), ("angles", angles), ("unmodified inputs", unmodified)]
