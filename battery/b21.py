"""P21: comparisons and names."""
import os
import sys
import numpy as np
import oracle as O


def documented(m, n):
    """(full, short) names by kind, grade and direction, up to the 7th order."""
    a = abs(m)
    if n > 7:
        return "", ""
    if m == 0:
        return {0: ("Piston", "Piston"), 2: ("Defocus", "Defocus"), 4: ("Primary spherical", "Spherical"), 6: ("Secondary spherical", "2d spherical")}[n]
    grade, short = (("", ""), ("secondary ", "2d "), ("thirdly ", "3d "))[max(n - 3, 0)//2 if a == 1 else (n - a)//2]
    if a == 1:
        d, ds = ("Horizontal", "Hor.") if m > 0 else ("Vertical", "Vert.")
        kind, ks = ("tilt", "tilt") if n == 1 else ("coma", "coma")
    else:
        d, ds = ("Vertical", "Vert.") if (m > 0) == (a % 2 == 0) else ("Oblique", "Obliq.")
        if a == 2:
            kind, ks = "astigmatism", "astigm." if n == 2 else "ast."
        else:
            kind, ks = {3: ("trefoil", "3foil"), 4: ("quadrafoil", "4foil"), 5: ("pentafoil", "5foil"), 6: ("sexfoil", "6foil"), 7: ("septfoil", "7foil")}[a]
    return f"{d} {grade}{kind}", f"{ds} {short}{ks}"


def makers(m, n):
    from zernpy import ZernPol
    return [lambda: ZernPol(m=m, n=n), lambda: ZernPol(osa_index=O.osa(m, n)), lambda: ZernPol(noll=O.noll(m, n)), lambda: ZernPol(fringe=O.fringe(m, n)), lambda: ZernPol(n=n, azimuthal_order=m)]


def names(R):
    for m, n in O.orders(54):
        f = makers(m, n)[(m + n) // 2 % 5 if n < 30 else 0]
        p = f()
        R.case((m, n))
        full, short = documented(m, n)
        R.check(p.get_polynomial_name() == full, f"full name of {(m, n)}", p.get_polynomial_name(), full)
        R.check(p.get_polynomial_name(short=False) == full, f"full name of {(m, n)}", p.get_polynomial_name(short=False), full)
        s = p.get_polynomial_name(short=True)
        R.check(isinstance(s, str) and s.replace(" ", "") == short.replace(" ", ""), f"short name of {(m, n)}", s, short)
        R.check(str(p).startswith(full), f"text of {(m, n)} has the name", str(p), full)
    R.exhaustive.append("names of all 1540 polynomials")


def pairs(R):
    os_ = O.orders(9)
    pols = {o: [f() for f in makers(*o)] for o in os_}
    for o in os_:
        for q in os_:
            R.case((o, q))
            for a, b in ((R.rng.choice(pols[o]), R.rng.choice(pols[q])), (pols[o][0], pols[q][0])):
                R.check((a == b) is (o == q), f"{o} == {q}", a == b, o == q)
                R.check((a != b) is (o != q), f"{o} != {q}", a != b, o != q)
                R.check((a > b) is (O.osa(*o) > O.osa(*q)), f"{o} > {q}", a > b, O.osa(*o) > O.osa(*q))
    R.exhaustive.append("pairs of all polynomials with n <= 9")
    from zernpy import ZernPol
    every = O.orders(54)
    for i in range(6000 if R.thorough else 1200):
        o = R.rng.choice(every)
        q = R.rng.choice([o, (-o[0], o[1]), R.rng.choice(every), (min(o[0] + 2, o[1]), o[1]), R.rng.choice([x for x in every if x[0] == o[0]])])
        a, b = R.rng.choice(makers(*o))(), R.rng.choice(makers(*q))()
        R.case((o, q))
        R.check((a == b) is (o == q), f"{o} == {q}", a == b, o == q)
        R.check((a > b) is (O.osa(*o) > O.osa(*q)), f"{o} > {q}", a > b, O.osa(*o) > O.osa(*q))


def others(R):
    from zernpy import ZernPol, ZernPSF
    import zernpy

    class Like:
        def __init__(self, p):
            self.__dict__.update(p.__dict__)

        def get_indices(self):
            return ((0, 0), 0, 1, 1)
    for o in ((0, 0), (-1, 1), (0, 2), (3, 13), (0, 54)):
        p = ZernPol(m=o[0], n=o[1])
        for x in (None, 0, 1, 4, 2.5, "Z", str(p), p.get_polynomial_name(), o, list(o), p.get_indices(), {}, {"m": 0}, np.array([1, 2]), np.float64(1), ZernPol, Like(p), ZernPSF(ZernPol(m=0, n=2)), object(), True):
            if isinstance(x, (np.ndarray, np.generic)):
                R.raises(ValueError, "compared with another object", p.__eq__, x)
                R.raises(ValueError, "compared with another object", p.__gt__, x)
                continue
            R.raises(ValueError, "== with another object", lambda a: p == a, x)
            R.raises(ValueError, "!= with another object", lambda a: p != a, x)
            R.raises(ValueError, "> with another object", lambda a: p > a, x)


PARTS = [("names", names), ("pairs", pairs), ("other objects", others)]
