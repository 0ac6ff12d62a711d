"""P05: angular functions, normalization and complete values."""
import warnings
import numpy as np
import brad
import oracle as O
from math import pi

ANGLES = [0.0, 0.3, pi/4, 1.9, pi, 3.7, 5.5, 2*pi, -1.1, 9.5, 0.7853, 2.0, 63.1234567, -150.7654321]
TOL = 1e-12


def tol_z(m, n, r, th):
    return O.N(m, n)*(brad.want("R", m, n, float(r))[1] + (1 + abs(m))*1e-15*10 + abs(m*th)*4e-16) + TOL


def angular(R):
    from zernpy import ZernPol
    for m, n in [(m, n) for m, n in O.orders(54) if n in (abs(m), abs(m) + 2) or n < 8]:
        p = ZernPol(n=n, m=m)
        R.case((m, n))
        R.check(abs(p.normf() - O.N(m, n)) < TOL, f"normf of {(m, n)}", p.normf(), O.N(m, n))
        for name, f in (("triangular", O.ang), ("triangular_dtheta", O.dang)):
            g = getattr(p, name)
            k = 1 + (abs(m) if name == "triangular_dtheta" else 0)
            ths = R.rng.sample(ANGLES, 6)
            for th in (np.array(ths), ths, tuple(ths), np.array(ths).reshape(2, 3), ths[0], 1, 0, [2, 5, 1], np.array([1, 4, 2])):
                R.case((name, m, n, repr(th)))
                got = g(th)
                if isinstance(th, (int, float)):
                    R.check(np.ndim(got) == 0 and abs(got - f(m, th)) < 1e-11*k, f"{name} of {(m, n)} at {th}", got, f(m, th))
                else:
                    a = np.asarray(th)
                    want = np.array([f(m, float(x)) for x in a.ravel()]).reshape(a.shape)
                    R.check(isinstance(got, np.ndarray) and got.shape == a.shape and np.all(np.abs(got - want) < 1e-11*k), f"{name} of {(m, n)} at {th}", got, want)


def pairs(R):
    """(r, theta) of the accepted combinations of shapes."""
    rs, ths = R.rng.sample(brad.RADII, 6), R.rng.sample(ANGLES, 6)
    a, b = np.array(rs), np.array(ths)
    return [(rs[0], ths[0]), (a, b), (a.reshape(2, 3), b.reshape(2, 3)), (a, ths[1]), (rs[1], b), (rs, ths), (tuple(rs), b), (a, ths), (1, b), (a, 2), (0, 1), (a.reshape(3, 2), 1.5),
            (0.5, b.reshape(3, 2)), (np.array([0, 1, 1]), np.array([0.5, 1.5, 3.0])), (np.array([0, 1, 0.5]), np.array([1, 2, 3])), (a.reshape(1, 6), b.reshape(1, 6)), (a[:1], b[:1]),
            (np.array([0, 1]), 0.5), ([0, 1], [1, 2]), (a[:1], ths[2])]


def values(R, todo, thorough):
    from zernpy import ZernPol
    for m, n in todo:
        if R.violations and R.enough():
            return
        p = ZernPol(n=n, m=m)
        ps = pairs(R)
        for r, th in (ps if n < 6 or thorough else R.rng.sample(ps, 3)):
            A, B = np.broadcast_arrays(np.asarray(r, dtype=float), np.asarray(th, dtype=float))
            want = np.array([O.N(m, n)*brad.want("R", m, n, float(x))[0]*O.ang(m, float(y)) for x, y in zip(A.ravel(), B.ravel())]).reshape(A.shape)
            tol = np.array([tol_z(m, n, x, y) for x, y in zip(A.ravel(), B.ravel())]).reshape(A.shape)
            for kw in ({}, {"use_exact_eq": True}):
                if not kw and n > 43:
                    continue
                R.case((m, n, repr(r), repr(th), bool(kw)))
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter("always")
                    got = p.polynomial_value(r, th, **kw)
                if kw and n > 40:
                    R.check(np.shape(got) == A.shape and not np.any(got), f"zeros for {(m, n)} above 40", got, "zeros")
                    R.check(len(w) > 0, f"a warning for {(m, n)} above 40", len(w), "a warning")
                    continue
                R.check(np.shape(got) == A.shape and (A.ndim == 0 or isinstance(got, np.ndarray)), f"value of {(m, n)}: shape", np.shape(got), A.shape)
                if np.shape(got) == A.shape:
                    R.check(np.all(np.abs(got - want) <= tol), f"value of {(m, n)}{' (exact equations)' if kw else ''} at {r}, {th}", got, want)


def complete(R):
    todo = O.orders(54)
    R.rng.shuffle(todo)
    values(R, todo, R.thorough)


def high(R):
    from zernpy import ZernPol
    todo = [(m, n) for m, n in O.orders(54) if n > 43]
    todo.sort(key=lambda o: o[1] + 8*R.rng.random())
    r, th = np.array(brad.RADII), np.array(ANGLES[:len(brad.RADII)])
    for m, n in todo:
        if R.enough():
            return
        R.case((m, n))
        got = ZernPol(n=n, m=m).polynomial_value(r, th)
        want = np.array([O.N(m, n)*brad.want("R", m, n, float(x))[0]*O.ang(m, float(y)) for x, y in zip(r, th)])
        tol = np.array([tol_z(m, n, x, y) for x, y in zip(r, th)])
        R.check(np.shape(got) == r.shape and np.all(np.abs(got - want) <= tol), f"value of {(m, n)}", got, want)


PARTS = [("angular", angular), ("complete values", complete), ("high orders", high)]
