"""P02: creation of polynomial objects."""
import itertools
import oracle as O

N_NAMES = ("n", "radial_order")
M_NAMES = ("m", "l", "azimuthal_order", "angular_frequency")
I_NAMES = {"osa": ("osa_index", "osa", "ansi_index", "ansi"), "noll": ("noll_index", "noll"), "fringe": ("fringe_index", "fringe")}
F = {"osa": O.osa, "noll": O.noll, "fringe": O.fringe}


def consistent(R, p, m, n, how):
    want = ((m, n), O.osa(m, n), O.noll(m, n), O.fringe(m, n))
    got = p.get_indices()
    R.check(tuple(got[0]) == want[0] and tuple(got[1:]) == want[1:], f"get_indices of {how}", got, want)
    R.check(tuple(p.get_mn_orders()) == (m, n), f"get_mn_orders of {how}", p.get_mn_orders(), (m, n))


def by_orders(R):
    from zernpy import ZernPol
    for m, n in O.orders(54):
        for a, b in [R.rng.choice(list(itertools.product(N_NAMES, M_NAMES)))] if n > 8 and not R.thorough else itertools.product(N_NAMES, M_NAMES):
            for kw in ({a: n, b: m}, {b: m, a: n}):
                R.case(tuple(kw.items()))
                consistent(R, ZernPol(**kw), m, n, kw)
    R.exhaustive.append("all 1540 polynomials with n <= 54 by orders")


def by_index(R):
    from zernpy import ZernPol
    todo = O.orders(54)
    R.rng.shuffle(todo)
    for m, n in todo:
        if R.enough():
            return
        for s, names in I_NAMES.items():
            for nm in (names if n < 6 else [R.rng.choice(names)]):
                x = F[s](m, n)
                R.case((nm, x))
                consistent(R, ZernPol(**{nm: x}), m, n, {nm: x})
    R.exhaustive.append("all 1540 polynomials with n <= 54 by each index")


def rejected(R):
    from zernpy import ZernPol
    for n in range(-4, 60):
        for m in range(-60, 61) if n in (-2, 0, 1, 2, 5, 54, 55, 56) else [-n - 2, -n - 1, n + 1, n + 2, n - 1, -n + 1]:
            if n >= 0 and n <= 54 and abs(m) <= n and (n - m) % 2 == 0:
                continue
            R.raises(ValueError, "orders", ZernPol, n=n, m=m)
    for n in (55, 56, 57, 100, 249, 250):
        for m in (-n, -n + 2, n):
            R.raises(ValueError, "orders above 54", ZernPol, n=n, m=m)
    ok = {s: {F[s](m, n) for m, n in O.orders(54)} for s in F}
    for s, names in I_NAMES.items():
        xs = [-1, -2, -100, 1540, 1541, 1542, 1595, 1596, 1600, 2000, 784, 785, 3025, 3026, 3000, 10**6] + ([0] if s != "osa" else []) + [R.rng.randint(1500, 4000) for _ in range(6)]
        for x in xs:
            if x not in ok[s]:
                R.raises(ValueError, s, ZernPol, **{R.rng.choice(names): x})
    for bad in (1.0, 2.5, "1", None, [1], (1,), 3.0):
        for s, names in I_NAMES.items():
            for nm in names:
                R.raises(ValueError, "value", ZernPol, **{nm: bad})
        for a in N_NAMES:
            for b in M_NAMES:
                R.raises(ValueError, "value", ZernPol, **{a: bad, b: 1})
                R.raises(ValueError, "value", ZernPol, **{a: 1, b: bad})
    names = [x for s in I_NAMES.values() for x in s]
    R.raises(ValueError, "no keywords", ZernPol)
    for a in N_NAMES + M_NAMES + ("x", "N", "index", "order"):
        R.raises(ValueError, "one order", ZernPol, **{a: 1})
    allk = list(N_NAMES + M_NAMES) + names + ["x", "k"]
    for a, b in itertools.permutations(allk, 2):
        if (a in N_NAMES and b in M_NAMES) or (b in N_NAMES and a in M_NAMES):
            continue
        R.raises(ValueError, "pair of keywords", ZernPol, **{a: 1, b: 1})
    for t in itertools.combinations(allk, 3):
        if R.rng.random() < 0.3:
            R.raises(ValueError, "three keywords", ZernPol, **{k: 1 for k in t})
    for t in itertools.islice(itertools.combinations(allk, 4), 200):
        R.raises(ValueError, "four keywords", ZernPol, **{k: 1 for k in t})


PARTS = [("by orders", by_orders), ("rejected", rejected), ("by index", by_index)]
