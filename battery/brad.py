"""Radial polynomials and derivatives on the real code, against exact rational values."""
import warnings
from fractions import Fraction as Fr
import functools
import numpy as np
import oracle as O

EPS = 2.3e-16
LOW = 45
RADII = [0.0, 1.0, 0.5, 1/64, 3/16, 11/16, 15/16, 127/128]


@functools.lru_cache(maxsize=None)
def want(kind, m, n, r):
    """(exact value, tolerance) at the float r."""
    m, fr = abs(m), Fr(r)
    co = O.radial_coeffs(n, m)
    if kind == "R":
        d = co
    else:
        d = {p - 1: p*x for p, x in co.items() if p}
    a, b, k = fr.numerator, fr.denominator, max(d, default=0)
    v, c = (Fr(sum(s(x)*a**p*b**(k - p) for p, x in d.items()), b**k) for s in (int, abs))
    return float(v), (8 + 4*n)*EPS*float(c) + 1e-13*(n + 1)**(2 if kind == "dR" else 1)


def near(kind, m, n, r, got):
    v, tol = want(kind, m, n, float(r))
    try:
        return abs(float(got) - v) <= tol
    except (TypeError, ValueError):
        return False


def compare(R, kind, m, n, r, got, how):
    """got for the radii r (number, list, array)."""
    if isinstance(r, (int, float)):
        return R.check(np.ndim(got) == 0 and near(kind, m, n, r, got), f"{how} of {(m, n)} at {r}", got, want(kind, m, n, float(r))[0])
    a = np.asarray(r)
    if not R.check(isinstance(got, np.ndarray) and got.shape == a.shape, f"{how} of {(m, n)}: shape of the input", getattr(got, "shape", got), a.shape):
        return False
    for x, g in zip(a.ravel(), got.ravel()):
        if not near(kind, m, n, x, g):
            return R.check(False, f"{how} of {(m, n)} at {x}", g, want(kind, m, n, float(x))[0])
    return True


def forms(R, k):
    """The radii in different forms."""
    xs = R.rng.sample(RADII, 6)
    if k > 13:
        return (0.0, 1.0)[k - 14]
    return [np.array(xs), xs, tuple(xs), np.array(xs).reshape(2, 3), np.array(xs).reshape(1, 6), np.array([0, 1]), 0, 1, xs[0], [xs[1]], np.array(xs).reshape(3, 2).T,
            np.array(xs)[::2], np.float64(xs[2]).item(), [0, 1]][k % 14]


def batch(kind, method, limit):
    def all_orders(R):
        from zernpy import ZernPol
        todo = O.orders(54)
        R.rng.shuffle(todo)
        hint = [x for v in R.hints.get("values", []) for x in [(v.get("m"), v.get("n"))] if x in set(todo)]
        for m, n in hint + todo:
            if R.violations and R.enough():
                return
            p = ZernPol(n=n, m=m)
            f = getattr(p, method)
            for k in ([0, 14, 15, R.rng.randrange(14)] if not R.thorough else range(16)):
                if n > 43 and k:
                    continue                   # the recursion of the program takes seconds there
                r = forms(R, k)
                R.case((m, n, repr(r)))
                with warnings.catch_warnings(record=True):
                    warnings.simplefilter("always")
                    for how, kw in (("value", {}), ("value, use_exact_eq=False", {"use_exact_eq": False}))[:(1 + (k > 0))*(n <= LOW)]:
                        compare(R, kind, m, n, r, f(r, **kw), how)
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter("always")
                    got = f(r, use_exact_eq=True)
                if n <= limit:
                    compare(R, kind, m, n, r, got, "exact value")
                else:
                    R.check(len(w) > 0, f"warning for {(m, n)} above {limit}", len(w), "a warning")
                    R.check(np.shape(got) == np.shape(r) and not np.any(got), f"zeros for {(m, n)} above {limit}", got, "zeros of the shape of the input")
        R.exhaustive.append(f"all polynomials with n <= {LOW} in default mode, all 1540 with use_exact_eq=True (sampled radii)")

    def high(R):
        """The orders with long recursions: as many as the time permits."""
        from zernpy import ZernPol
        todo = [(m, n) for m, n in O.orders(54) if n > LOW]
        todo.sort(key=lambda o: o[1] + 8*R.rng.random())
        for m, n in todo:
            if R.enough():
                return
            r = np.array(RADII)
            R.case((m, n, repr(r)))
            compare(R, kind, m, n, r, getattr(ZernPol(n=n, m=m), method)(r), "value")

    return [("all orders", all_orders), ("high orders", high)]
