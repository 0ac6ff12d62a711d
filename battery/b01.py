"""P01: indices."""
import oracle as O


def forms(R):
    from zernpy import ZernPol
    for m, n in O.orders(60 if not R.thorough else 150):
        R.case((m, n))
        for f, g in (("get_osa_index", O.osa), ("get_noll_index", O.noll), ("get_fringe_index", O.fringe)):
            got = getattr(ZernPol, f)(m, n)
            R.check(got == g(m, n) and isinstance(got, int), f"{f}({m}, {n})", got, g(m, n))
    for k in range(60):
        n = R.rng.randint(100, 10**6)
        m = -n + 2*R.rng.randint(0, n)
        R.case((m, n))
        for f, g in (("get_osa_index", O.osa), ("get_noll_index", O.noll), ("get_fringe_index", O.fringe)):
            got = getattr(ZernPol, f)(m, n)
            R.check(got == g(m, n), f"{f}({m}, {n})", got, g(m, n))


def conversions(R):
    """Every polynomial up to n = 54: complete for the documented range."""
    from zernpy import ZernPol
    todo = O.orders(54)
    R.rng.shuffle(todo)
    for m, n in todo:
        if R.enough():
            return
        R.case((m, n))
        o, j, f = O.osa(m, n), O.noll(m, n), O.fringe(m, n)
        for name, x, want in (("osa2noll", o, j), ("noll2osa", j, o), ("osa2fringe", o, f), ("fringe2osa", f, o)):
            got = getattr(ZernPol, name)(x)
            R.check(got == want, f"{name}({x})", got, want)
        for kw in ({"osa_index": o}, {"noll_index": j}, {"fringe_index": f}):
            got = ZernPol.index2orders(**kw)
            R.check(tuple(got) == (m, n), f"index2orders({kw})", got, (m, n))
    R.exhaustive.append("all 1540 polynomials with n <= 54, all conversions")


def rejected(R):
    from zernpy import ZernPol
    for name, first in (("osa2noll", 0), ("noll2osa", 1), ("osa2fringe", 0), ("fringe2osa", 1)):
        f = getattr(ZernPol, name)
        for x in (first - 1, -5, -1000, 2.0, 1.5, "3", None, [1], (2,)):
            R.raises(ValueError, f"{name}({x!r})", f, x)
        for x in (10**7, 10**9):
            R.raises(ValueError, f"{name}({x!r})", f, x)
        # integers beyond the guaranteed range: the right answer or ValueError
        g = {"osa": O.osa, "noll": O.noll, "fringe": O.fringe}
        src, dst = name.split("2")
        table = {g[src](m, n): g[dst](m, n) for m, n in O.orders(255)}
        xs = [1539, 1540, 1541, 1594, 1595, 1596, 1597, 1600, 3000, 3080, 3025, 3136, 2900] + [R.rng.randint(1500, 8000) for _ in range(6)]
        for x in xs:
            R.case((name, x))
            try:
                got = f(x)
            except ValueError:
                R.check(x not in [g[src](m, n) for m, n in ORD54], f"{name}({x}) raises ValueError", "ValueError", table.get(x))
                continue
            R.check(got == table.get(x), f"{name}({x})", got, table.get(x))


ORD54 = O.orders(54)
PARTS = [("formulas", forms), ("rejected and far indices", rejected), ("conversions", conversions)]
