"""P14: creation of PSF objects."""
import numpy as np
import oracle as O


def pol(o):
    from zernpy import ZernPol
    return ZernPol(m=o[0], n=o[1])


def seqs(R):
    return R.rng.choice([list, tuple])


def arr(ps):
    a = np.empty(len(ps), dtype=object)
    a[:] = ps
    return a


def accepted(R):
    from zernpy import ZernPSF
    os_ = O.orders(8)
    for o in os_:
        p = pol(o)
        for given in (p, [p], (p,), arr([p])):
            R.case((o, type(given).__name__))
            s = ZernPSF(given)
            R.check(s.zernpol is p and len(s.polynomials) == 0, f"{o}: the polynomial is used", (s.zernpol, s.polynomials), p)
            R.check(s.airy is (o == (0, 0)), f"{o}: Airy pattern", s.airy, o == (0, 0))
    for i in range(1500 if R.thorough else 400):
        k = R.rng.randrange(2, 9)
        pick = R.rng.sample(os_, k)
        if R.rng.random() < 0.4 and (0, 0) not in pick:
            pick[R.rng.randrange(k)] = (0, 0)
        ps = [pol(o) for o in pick]
        given = R.rng.choice([list, tuple, arr])(ps)
        R.case((tuple(pick), type(given).__name__))
        s = ZernPSF(given)
        R.check(s.zernpol is None and len(s.polynomials) == k and all(a is b for a, b in zip(s.polynomials, ps)), "the polynomials are used", s.polynomials, ps)
        R.check(s.airy is ((0, 0) in pick), "Airy pattern exactly with the piston", s.airy, (0, 0) in pick)
        t = ZernPSF(pol((1, 1)))
        R.check(t.airy is False and len(t.polynomials) == 0 and t.zernpol.get_mn_orders() == (1, 1), "objects are independent", (t.airy, t.polynomials), None)


def rejected(R):
    from zernpy import ZernPSF, ZernPol
    os_ = O.orders(8)
    for x in (None, 0, 1, 2.5, True, "", "Z", "zernike", b"", b"Z", (0, 2), [0, 2], [1], (None,), ["Z"], [], (), {}, {"a": 1}, {"a": 1, "b": 2}, {1}, {1, 2}, set(), frozenset(), np.array([]), np.array([1.0]), np.array([1.0, 2.0]), np.array(5),
              [[]], ([], []), ZernPol, object(), list, range(0), range(1), range(3), [ZernPol], iter([]), (x for x in ()), [[pol((0, 2))]], [(pol((0, 2)), pol((1, 1)))], ZernPSF(pol((0, 2)))):
        R.raises(ValueError, f"{x!r}"[:60], ZernPSF, x)
    for i in range(900 if R.thorough else 250):
        k = R.rng.randrange(1, 8)
        ps = [pol(o) for o in R.rng.sample(os_, k)]
        bad = R.rng.choice([None, 1, "Z", (0, 2), [0, 2], 2.5, ZernPol, np.array([1, 2]), {}])
        at = R.rng.randrange(k)
        ps[at] = bad
        R.raises(ValueError, f"{bad!r} at {at} of {k}"[:60], ZernPSF, R.rng.choice([list, tuple])(ps))
    for i in range(900 if R.thorough else 250):
        k = R.rng.randrange(1, 8)
        pick = R.rng.sample(os_, k)
        pick.insert(R.rng.randrange(k + 1), R.rng.choice(pick))
        ps = [pol(o) for o in pick]
        if R.rng.random() < 0.3:
            j = max(q for q in range(len(pick)) if pick.count(pick[q]) > 1)
            ps[j] = ps[pick.index(pick[j])]          # the same object twice
        R.raises(ValueError, f"repeated polynomials {pick}", ZernPSF, R.rng.choice([list, tuple, arr])(ps))


PARTS = [("accepted", accepted), ("rejected", rejected)]
