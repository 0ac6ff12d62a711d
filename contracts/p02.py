"""P02: creation of polynomial objects."""
from vc import terms as T, sym as S
from vc.contract import contract
from .common import *
from .p01 import Z, CALLEES, idx, orders, range_facts, FIRST, lemma_range
from . import p01

CONTRACTS = [c for c in p01.CONTRACTS if c.lemma or "index2orders" in c.name or "published index" in c.name]
CLS = "zernikepol:ZernPol"
N_NAMES = ("n", "radial_order")
M_NAMES = ("m", "l", "azimuthal_order", "angular_frequency")
I_NAMES = {"osa_index": ("osa_index", "osa", "ansi_index", "ansi"), "noll_index": ("noll_index", "noll"), "fringe_index": ("fringe_index", "fringe")}


def consistent_object(v, p, m, n):
    """All the getters describe the polynomial (m, n)."""
    r, e = v.method(p, "get_mn_orders")
    if e or not isinstance(r, tuple) or len(r) != 2:
        return v.fail("get_mn_orders returns the orders", repr(e or r))
    v.equal("m of get_mn_orders", r[0], m)
    v.equal("n of get_mn_orders", r[1], n)
    r, e = v.method(p, "get_indices")
    if e or not isinstance(r, tuple) or len(r) != 4 or not isinstance(r[0], tuple):
        return v.fail("get_indices returns orders and indices", repr(e or r))
    v.equal("m of get_indices", r[0][0], m)
    v.equal("n of get_indices", r[0][1], n)
    for x, s in zip(r[1:], ("osa_index", "noll_index", "fringe_index")):
        v.equal(f"{s} of get_indices", x, idx(s, m, n))


@contract(CONTRACTS, f"{CLS} by orders: a consistent object exactly for the valid orders up to {NMAX}", budget=60, stubs=CALLEES)
def by_orders(v):
    a, b = v.choose([(x, y, o) for x in N_NAMES for y in M_NAMES for o in (0, 1)][:]), None
    n, m = v.int("n"), v.int("m")
    v.cover("any integers")
    kw = {a[0]: n, a[1]: m} if a[2] == 0 else {a[1]: m, a[0]: n}
    p, e = v.new(CLS, **kw)
    ok = S.cond_of(valid(m, n, NMAX))
    if e:
        if e is not ValueError:
            return v.fail("ValueError for other orders", str(e))
        return v.prove("valid orders are accepted", S.mkbool(T.cnot(ok)))
    v.prove("only valid orders up to 54 are accepted", S.mkbool(ok))
    consistent_object(v, p, m, n)


def by_index(scheme):
    @contract(CONTRACTS, f"{CLS} by {scheme}: the polynomial of the index, up to n = {NMAX}", budget=60, stubs=CALLEES)
    def right(v):
        name = v.choose(I_NAMES[scheme])
        m, n, j = orders(v, nmax=NMAX)
        v.cover("index of a polynomial")
        v.c.ghost["orders"] = [(m, n)]
        range_facts(v.c, m, n)
        x = idx(scheme, m, n)
        v.require(x >= FIRST[scheme])
        p, e = v.new(CLS, **{name: x})
        if e:
            return v.fail("no exception for the index of a polynomial", str(v.last_exc.exc))
        consistent_object(v, p, m, n)

    @contract(CONTRACTS, f"{CLS} by {scheme}: any other integer is rejected", budget=60, stubs=CALLEES)
    def total(v):
        name = v.choose(I_NAMES[scheme])
        x = v.int("index")
        v.cover("any integer")
        p, e = v.new(CLS, **{name: x})
        if e:
            return v.prove("ValueError for other integers", S.mkbool(T.TRUE if e is ValueError else T.FALSE))
        r, e = v.method(p, "get_mn_orders")
        if e or not isinstance(r, tuple) or len(r) != 2:
            return v.fail("get_mn_orders returns the orders", repr(e or r))
        m, n = r
        v.prove("the accepted orders are valid and at most 54", valid(m, n, NMAX))
        v.equal("they have the given index", idx(scheme, m, n), x)
        consistent_object(v, p, m, n)


for s in I_NAMES:
    by_index(s)


@contract(CONTRACTS, f"{CLS} rejects values that are not integers", budget=60, stubs=CALLEES)
def not_integers(v):
    bad = v.choose([1.0, 0.5, "2", None, (1,), "real"])
    bad = v.real("x") if bad == "real" else bad
    kind = v.choose(["n", "m", "index"])
    v.cover("not an integer")
    if kind == "index":
        kw = {v.choose([x for s in I_NAMES.values() for x in s]): bad}
    elif kind == "n":
        kw = {v.choose(N_NAMES): bad, v.choose(M_NAMES): v.int("m")}
    else:
        kw = {v.choose(N_NAMES): v.int("n"), v.choose(M_NAMES): bad}
    p, e = v.new(CLS, **kw)
    v.prove("ValueError for a value that is not an integer", S.mkbool(T.TRUE if e is ValueError else T.FALSE))


@contract(CONTRACTS, f"{CLS} rejects unknown, missing and additional keywords", budget=60, stubs=CALLEES)
def keywords(v):
    i, k, q = v.int("i"), v.int("k"), v.int("q")
    v.cover("any integers")
    unknown = ["x", "index", "N", "order", "k"]
    names = [x for s in I_NAMES.values() for x in s]
    sets = [{}] + [{u: i} for u in unknown + list(N_NAMES) + list(M_NAMES)] + [{u: i, w: k} for u in unknown[:2] for w in unknown[2:4] + list(N_NAMES) + list(M_NAMES)]
    sets += [{N_NAMES[0]: i, N_NAMES[1]: k}] + [{a: i, b: k} for a in M_NAMES for b in M_NAMES if a < b]
    sets += [{a: i, b: k} for a in names[:9] for b in ("x", "noll", "m", "osa") if a != b] + [{"n": i, "osa": k}, {"radial_order": i, "fringe": k}]
    sets += [{"n": i, "m": k, "x": q}, {"n": i, "m": k, "osa": q}, {"n": i, "m": k, "l": q}, {"n": i, "radial_order": k, "m": q}, {"osa": i, "noll": k, "fringe": q},
             {"n": i, "m": k, "l": q, "x": 1}]
    p, e = v.new(CLS, **v.choose(sets))
    v.prove("ValueError for other sets of keywords", S.mkbool(T.TRUE if e is ValueError else T.FALSE))
