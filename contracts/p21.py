"""P21: comparison and names of polynomials."""
from .polys import *
from .p01 import idx, range_facts, orders
from . import p01

CONTRACTS = [c for c in p01.CONTRACTS if c.lemma]
FOIL = {3: ("trefoil", "3foil"), 4: ("quadrafoil", "4foil"), 5: ("pentafoil", "5foil"), 6: ("sexfoil", "6foil"), 7: ("septfoil", "7foil")}
GRADES = {0: ("", ""), 1: ("secondary ", "2d "), 2: ("thirdly ", "3d ")}
SPHERICAL = {0: ("Piston", "Piston"), 2: ("Defocus", "Defocus"), 4: ("Primary spherical", "Spherical"), 6: ("Secondary spherical", "2d spherical")}


def documented(m, n):
    """(full, short) name of a polynomial with n <= 7, out of its kind (|m|), grade ((n - |m|)/2) and direction (sign of m)."""
    a = abs(m)
    if n > 7:
        return "", ""
    if m == 0:
        return SPHERICAL[n]
    grade, short = GRADES[max(n - 3, 0)//2 if a == 1 else (n - a)//2]
    if a == 1:
        d, ds = ("Horizontal", "Hor.") if m > 0 else ("Vertical", "Vert.")
        kind, ks = ("tilt", "tilt") if n == 1 else ("coma", "coma")
    else:
        vertical = (m > 0) == (a % 2 == 0)
        d, ds = ("Vertical", "Vert.") if vertical else ("Oblique", "Obliq.")
        kind, ks = ("astigmatism", "astigm." if n == 2 else "ast.") if a == 2 else FOIL[a]
    return f"{d} {grade}{kind}", f"{ds} {short}{ks}"


def same_short(x, y):
    """Short names may leave out the space after the abbreviated direction."""
    return isinstance(x, str) and x.replace(" ", "") == y.replace(" ", "")


def polynomial(v, name):
    m, n, j = orders(v, name)
    v.require(n <= NMAX)
    at = {"_ZernPol__" + k: S.mk(f(m, n), "int") for k, f in SCHEMES.items()}
    p = Q.VObj(v.interp.get(CLS), {"_ZernPol__m": m, "_ZernPol__n": n, **at}, ("polynomial", name))
    return p, m, n


def truth(v, x):
    c = S.cond_of(x) if isinstance(x, (bool, S.SymBool, S.Sym, int)) else None
    if c is None:
        v.fail("a truth value", repr(x))
        raise S.PathEnd()
    return c


@contract(CONTRACTS, "equal exactly for the same polynomial", budget=60)
def equal(v):
    p, m, n = polynomial(v, "1")
    q, m2, n2 = polynomial(v, "2")
    v.cover("any polynomials")
    for f in SCHEMES.values():       # instances of the lemmas: an index identifies the polynomial
        v.c.fact(T.implies(T.eq(f(m, n), f(m2, n2)), T.cand(T.eq(t(m), t(m2)), T.eq(t(n), t(n2)))))
    x, e = v.method(p, "__eq__", q)
    if e:
        return v.fail("polynomials can be compared", repr(v.last_exc.exc))
    c = truth(v, x)
    same = S.cond_of(AND(m == m2, n == n2))
    v.prove("equal for the same orders", S.mkbool(T.cor(T.cnot(same), c)))
    v.prove("different for different orders", S.mkbool(T.cor(same, T.cnot(c))))


@contract(CONTRACTS, "greater exactly for the greater OSA index", budget=60)
def greater(v):
    p, m, n = polynomial(v, "1")
    q, m2, n2 = polynomial(v, "2")
    v.cover("any polynomials")
    x, e = v.method(p, "__gt__", q)
    if e:
        return v.fail("polynomials can be compared", repr(v.last_exc.exc))
    c = truth(v, x)
    gt = T.lt(osa(m2, n2), osa(m, n))
    v.prove("greater for the greater OSA index", S.mkbool(T.cor(T.cnot(gt), c)))
    v.prove("not greater otherwise", S.mkbool(T.cor(gt, T.cnot(c))))


@contract(CONTRACTS, "comparing with other objects raises ValueError", budget=60)
def others(v):
    p, m, n = polynomial(v, "1")
    other = v.choose([lambda: None, lambda: 1, lambda: 2.5, lambda: "Z", lambda: (0, 2), lambda: [1, 1], lambda: {}, lambda: v.int("i"), lambda: v.real("x"), lambda: v.array("a", [3]),
                      lambda: Q.VObj(v.interp.get("zernpsf:ZernPSF"), {}, ("psf",))])()
    v.cover("another object")
    x, e = v.method(p, v.choose(["__eq__", "__gt__"]), other)
    v.prove("ValueError", e is ValueError)


@contract(CONTRACTS, f"{CLS}.get_polynomial_name gives the documented names and an empty one for the other polynomials", budget=100)
def names(v):
    p, m, n = polynomial(v, "")
    short = v.choose([None, False, True])
    v.cover("any polynomial")
    x, e = v.method(p, "get_polynomial_name", **({} if short is None else {"short": short}))
    if e:
        return v.fail("no exception", repr(v.last_exc.exc))
    if not isinstance(x, str):
        return v.fail("a name", repr(x))
    # the orders that are possible at this point have this name
    known = [(k, l) for l in range(8) for k in range(-l, l + 1, 2)]
    fits = [o for o in known if (same_short(x, documented(*o)[1]) if short else x == documented(*o)[0])]
    if x == "":
        v.prove("only the polynomials with n > 7 have no name", n > 7)
    else:
        v.prove(f"the name {x!r} belongs to the polynomial", OR(*[AND(m == a, n == b) for a, b in fits]) if fits else False)
