"""Contracts of the radial polynomials, their derivatives and their coefficients: used by P03, P04, P05 and P13.

Orders are enumerated completely (all 1540 pairs with n <= 54), radii are symbolic: a number or an array of any size.  Recursive calls are replaced
by the contract (precondition: valid orders of a smaller radial order, so that the recursion ends)."""
from math import factorial
import functools

from vc import terms as T, sym as S, seq as Q
from vc.contract import contract
from .common import *

CALC = "calculations.calc_zernike_pol:"
COEF = "calculations.find_pols_coeffs:"
MAX_FIND = 44        # the search for coefficients is verified up to this radial order (the program uses it up to 40)


@functools.lru_cache(maxsize=None)
def exact(kind, m, n):
    """{power: coefficient} of R_n^|m| ("R") or of its derivative ("dR")."""
    a = abs(m)
    d = {}
    for k in range((n - a)//2 + 1):
        c = (-1)**k*(factorial(n - k)//(factorial(k)*factorial((n + a)//2 - k)*factorial((n - a)//2 - k)))
        p = n - 2*k
        if kind == "R":
            d[p] = c
        elif p > 0:
            d[p - 1] = c*p
    return d


@functools.lru_cache(maxsize=4096)
def poly(kind, m, n, p):
    r = T.ZERO
    for k, c in exact(kind, m, n).items():
        r = T.add(r, T.scale(T.power(p, k), c))
    return r


def is_orders(x):
    return isinstance(x, tuple) and len(x) == 2 and all(isinstance(y, int) and not isinstance(y, bool) for y in x) and x[1] >= 0 and abs(x[0]) <= x[1] and (x[1] - x[0]) % 2 == 0


def orders_of(n):
    return range(-n, n + 1, 2)


# ---------------------------------------------------------------------------------------------- dictionaries of coefficients
class Frozen(dict):
    """Coefficients that are stored or were returned: nobody may change them."""
    label = ""

    def _no(self, *a, **k):
        S.ctx().fail("stored or returned coefficients are never changed", f"the coefficients {self.label} are changed")

    def __setitem__(self, k, v):
        if not (k in self and S.lift(self[k]) is not None and S.lift(v) is not None and S.lift(self[k])[0] == S.lift(v)[0]):
            self._no()
        dict.__setitem__(self, k, v)

    def __delitem__(self, k):
        self._no()
        dict.__delitem__(self, k)

    def pop(self, *a):
        self._no()
        return dict.pop(self, *a)

    def popitem(self):
        self._no()
        return dict.popitem(self)

    def clear(self):
        self._no()
        dict.clear(self)

    def update(self, *a, **k):
        self._no()
        dict.update(self, *a, **k)

    def setdefault(self, k, d=None):
        if k not in self:
            self._no()
        return dict.setdefault(self, k, d)

    def __ior__(self, o):
        self._no()
        dict.update(self, o)
        return self


def form_of(c):
    if "form" not in c.ghost:
        c.ghost["form"] = c.decide(["dense", "sparse"])
    return c.ghost["form"]


def stored(kind, m, n):
    """Coefficients as the contract allows them: with or without the vanishing ones."""
    d = exact(kind, m, n)
    if form_of(S.ctx()) == "dense":
        d = {k: d.get(k, 0) for k in range(max(d, default=0) + 1)}
    r = Frozen(d)
    r.label = f"{'of the derivative ' if kind == 'dR' else ''}of {(m, n)}"
    return r


def wrong(d, kind, m, n):
    """What is wrong with the coefficients d of (m, n), or None."""
    if not isinstance(d, dict):
        return f"not a dictionary: {type(d).__name__}"
    want = exact(kind, m, n)
    for k, x in dict.items(d):
        if not isinstance(k, int) or isinstance(k, bool) or k < 0 or k > n:
            return f"power {k!r}"
        l = S.lift(x)
        if l is None or not l[0].is_const():
            return f"coefficient of r^{k}: {x!r}"
        if l[0].const() != want.get(k, 0):
            return f"coefficient of r^{k}: {l[0].const()}, not {want.get(k, 0)}"
    for k in want:
        if k not in d:
            return f"no coefficient of r^{k}"
    return None


def must_be_exact(name, d, kind, m, n):
    w = wrong(d, kind, m, n)
    S.ctx().check(name, T.TRUE) if w is None else S.ctx().fail(name, f"{(m, n)}: {w}")


class Keys:
    def __init__(self, d):
        self.d = d

    def __contains__(self, k):
        return k in self.d

    def __iter__(self):
        raise Unsupported("iteration over the stored coefficients")


class History(dict):
    """Stored coefficients after any history: the initial ones, and any others, each exact for its key (the invariant)."""

    def __init__(self, name, kind, base):
        dict.__init__(self, base)
        self.name, self.kind, self.missing, self.wrote = name, kind, set(), []

    def save(self):
        return None

    def restore(self, s):
        raise Unsupported("stored coefficients within a summarised loop")

    def __contains__(self, k):
        if dict.__contains__(self, k):
            return True
        if k in self.missing or not is_orders(k):
            return False
        if S.ctx().decide(["missing", "stored"]) == "stored":
            dict.__setitem__(self, k, stored(self.kind, *k))
            return True
        self.missing.add(k)
        return False

    def __getitem__(self, k):
        if k in self:
            return dict.__getitem__(self, k)
        raise KeyError(k)

    def get(self, k, d=None):
        return self[k] if k in self else d

    def __setitem__(self, k, v):
        c = S.ctx()
        if not is_orders(k):
            c.fail("coefficients are stored for valid orders", f"{self.name}: {k!r}")
            return
        must_be_exact("stored coefficients are those of the exact polynomial", v, self.kind, *k)
        dict.__setitem__(self, k, v)
        self.missing.discard(k)
        self.wrote.append(k)

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return self[k]

    def keys(self):
        return Keys(self)

    def _no(self, *a, **k):
        raise Unsupported("operation on the stored coefficients")
    items = values = pop = popitem = clear = update = __iter__ = __len__ = __delitem__ = __ior__ = copy = _no

    def recheck(self):
        for k in self.wrote:
            must_be_exact("stored coefficients are not changed afterwards", dict.__getitem__(self, k), self.kind, *k)


def tables(v):
    """The dictionaries of stored coefficients of the module: (name, dictionary, kind)."""
    m = v.interp.load("calculations.find_pols_coeffs")
    out = []
    for name, d in m.ns.items():
        if isinstance(d, dict) and all(isinstance(k, tuple) and len(k) == 2 for k in d) and all(isinstance(x, dict) for x in d.values()):
            if name.startswith("__"):
                continue
            ok = {kind: sum(is_orders(k) and wrong(x, kind, *k) is None for k, x in d.items()) for kind in ("R", "dR")}
            kind = "dR" if ok["dR"] > ok["R"] or not d and "dr" in name else "R"
            out.append((name, d, kind))
    return m, out


def any_history(v):
    """The stored coefficients become those after an arbitrary history."""
    m, ts = tables(v)
    hs = []
    for name, d, kind in ts:
        base = {}
        for k, x in d.items():
            f = Frozen(x)
            f.label = f"{name}[{k}]"
            base[k] = f
        h = History(name, kind, base)
        m.ns[name] = h
        hs.append(h)
    return hs


def values(a):
    """Arguments in their order."""
    return list(a.values())


def coeff_stub(kind, name):
    """Contract of the search for coefficients: exact coefficients of the orders, which the caller must not change."""
    def stub(interp, a):
        o = values(a)[0]
        o = tuple(Q.native(o)) if isinstance(o, Q.VList) else o
        c = S.ctx()
        if not is_orders(o):
            c.fail(f"precondition of {name}: valid orders", f"called with {o!r}")
            raise S.PathEnd()
        cur = c.ghost.get("calls", {}).get(name)
        if cur is not None and o[1] >= cur:
            c.fail(f"termination: recursive call of {name} for a smaller radial order", f"called with {o!r}")
            raise S.PathEnd()
        test = len(values(a)) > 1 and values(a)[1] is True
        if kind == "dR" and o[1] < (7 if test else 9):
            c.fail(f"precondition of {name}: radial order not below the stored ones", f"called with {o!r}")
            raise S.PathEnd()
        if o[1] > MAX_FIND:
            c.fail(f"precondition of {name}: radial order up to {MAX_FIND}", f"called with {o!r}")
            raise S.PathEnd()
        return stored(kind, *o)
    return stub


FIND = COEF + "find_coeffs_orders"
FIND_DR = COEF + "find_coeffs_orders_dr"
COEF_STUBS = {FIND: coeff_stub("R", "find_coeffs_orders"), FIND_DR: coeff_stub("dR", "find_coeffs_orders_dr")}


def coefficient_contracts(reg, kinds=("R", "dR")):
    def table(v):
        m, ts = tables(v)
        v.cover("initial coefficients")
        if not any(ts):
            return v.fail("initial coefficients are found", "no dictionary")
        for name, d, kind in ts:
            for k, x in d.items():
                w = wrong(x, kind, *k) if is_orders(k) else "not valid orders"
                v.prove("initial coefficients are exact", S.mkbool(T.TRUE)) if w is None else v.fail("initial coefficients are exact", f"{name}[{k}]: {w}")
    contract(reg, COEF + "tables of initial coefficients are exact", budget=20)(table)

    def one(kind, qual, lo, hi, step, test):
        if kind not in kinds:
            return
        nm = qual.split(":")[1]

        @contract(reg, f"{qual} gives exact coefficients after any history ({'test tables, ' if test else ''}n = {lo}..{hi - 1})", budget=100, stubs=COEF_STUBS, max_paths=200000)
        def spec(v):
            m, n = v.choose([(m, n) for n in range(lo, hi) for m in orders_of(n)])
            v.cover("valid orders")
            hs = any_history(v)
            v.c.ghost["calls"] = {nm: n}
            r, e = v.call(qual, (m, n), *([True] if test else []))
            if e:
                return v.fail("no exception", f"{(m, n)}: {v.last_exc.exc!r}")
            must_be_exact("the coefficients are those of the exact polynomial", r, kind, m, n)
            for h in hs:
                h.recheck()
    for lo, hi in ((0, 20), (20, 29), (29, 35), (35, 40), (40, MAX_FIND + 1)):
        one("R", FIND, lo, hi, 0, False)
    for lo, hi in ((9, 19), (19, 24), (24, 28), (28, 31), (31, 34), (34, 37), (37, 40), (40, 42), (42, MAX_FIND + 1)):
        one("dR", FIND_DR, lo, hi, 0, False)
    one("R", FIND, 7, 13, 0, True)
    one("dR", FIND_DR, 7, 13, 0, True)


# ---------------------------------------------------------------------------------------------- values
def radius(v, kind):
    """A radius in [0, 1]: number or array."""
    if kind == "float":
        r = v.real("r")
        v.require(AND(r >= 0, r <= 1))
        return r
    n = v.int("size")
    v.require(n >= 1)
    if kind == "array2":
        k = v.int("size2")
        v.require(k >= 1)
        r = v.array("r", [n, k])
    else:
        r = v.array("r", [n], kind="int" if kind == "ints" else "float")
    v.require_all(r, lambda x: AND(x >= 0, x <= 1))
    return r


def same_elements(v, name, got, r, f, of=""):
    """got = f(r), element by element, as a number or as an array of the same shape."""
    if isinstance(r, S.SArr):
        if not isinstance(got, S.SArr) or got.ndim != r.ndim:
            return v.fail(f"{name}: an array of the same shape", f"{of}: {got!r}")
        for a, b in zip(got.dims, r.dims):
            v.prove(f"{name}: the same shape", S.mkbool(T.eq(a, b)))
        ix = tuple(T.var(f"$i{j}", "int") for j in range(r.ndim))
        return v.equal(f"{name}", got.at(*ix), f(r.at(*ix)))
    if isinstance(got, S.SArr) or S.lift(got) is None:
        return v.fail(f"{name}: a number", f"{of}: {got!r}")
    return v.equal(name, got, f(t(r)))


def value_stub(kind, name):
    def stub(interp, a):
        o, r = values(a)[:2]
        c = S.ctx()
        if not is_orders(o) or o[1] > NMAX:
            c.fail(f"precondition of {name}: valid orders", f"called with {o!r}")
            raise S.PathEnd()
        cur = c.ghost.get("calls", {}).get(name)
        if cur is not None and o[1] >= cur:
            c.fail(f"termination: recursive call of {name} for a smaller radial order", f"called with {o!r}")
            raise S.PathEnd()
        if o[1] < FROM.get(name, 0):
            c.fail(f"precondition of {name}: radial order at least {FROM[name]}", f"called with {o!r}")
            raise S.PathEnd()
        if S.kind_of(r) not in ("float", "int", "npint"):
            c.fail(f"precondition of {name}: real radii", "")
        return S.elementwise1(r, lambda p, k: (poly(kind, o[0], o[1], p), "float"))
    return stub


VALUE = {"radial_polynomial": "R", "radial_derivative": "dR", "radial_polynomial_eq": "R", "radial_derivative_eq": "dR",
         "radial_polynomial_coeffs": "R", "radial_polynomial_coeffs_dr": "dR"}
VALUE_STUBS = {**{CALC + k: value_stub(x, k) for k, x in VALUE.items()}, **COEF_STUBS}
FROM = {"radial_polynomial_coeffs_dr": 9}         # precondition: radial order from
KINDS = ("float", "array1", "array2", "ints")


def value_contracts(reg, names):
    def one(name, lo, hi):
        kind, qual = VALUE[name], CALC + name

        @contract(reg, f"{qual} is the exact {'derivative' if kind == 'dR' else 'polynomial'} (n = {lo}..{hi - 1})", budget=100, stubs=VALUE_STUBS, max_paths=100000)
        def spec(v):
            rk = v.choose(KINDS)
            n = v.choose(range(lo, hi))
            for m in orders_of(n):
                r = radius(v, rk)
                v.cover("radius in [0, 1]")
                v.c.ghost["calls"] = {name: n}
                x, e = v.call(qual, (m, n), r)
                if e:
                    v.fail("no exception", f"{(m, n)}, {rk}: {v.last_exc.exc!r}")
                    continue
                same_elements(v, "the value of the exact " + ("derivative" if kind == "dR" else "polynomial"), x, r, lambda p: poly(kind, m, n, p), str((m, n)))
    for nm in names:
        for lo, hi in ((FROM.get(nm, 0), 14), (14, 24), (24, 33), (33, 41), (41, 49), (49, 55)):
            one(nm, lo, hi)
