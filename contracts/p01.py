"""P01: polynomial indices."""
from vc import terms as T, sym as S
from vc.contract import contract
from vc.sym import Raised
from .common import *

CONTRACTS = []
Z = "zernikepol:ZernPol."
GET = {"osa_index": Z + "get_osa_index", "noll_index": Z + "get_noll_index", "fringe_index": Z + "get_fringe_index"}


def orders(v, name="", nmax=None):
    """Arbitrary valid orders: m = 2 j - n with 0 <= j <= n."""
    n, j = v.int("n" + name), v.int("j" + name)
    v.require(AND(n >= 0, j >= 0, j <= n))
    if nmax is not None:
        v.require(n <= nmax)
    return 2*j - n, n, j


# ---- the three formulas
def formula(scheme):
    @contract(CONTRACTS, f"{GET[scheme]} returns the published index", budget=40)
    def spec(v):
        m, n, j = orders(v)
        v.cover("valid orders")
        r, e = v.call(GET[scheme], m, n)
        if e:
            return v.fail("no exception for valid orders", str(e))
        v.equal("the index is that of the definition", r, SCHEMES[scheme](m, n))
        v.prove("the index is an integer", S.mkbool(T.TRUE if is_integer(r) else T.FALSE))


def is_integer(x):
    return isinstance(x, int) and not isinstance(x, bool) or isinstance(x, S.Sym) and x.kind == "int"


for s in SCHEMES:
    formula(s)


# ---- each index identifies exactly one polynomial: lemmas about the definitions, without bound
def order_facts(v, n1, j1, n2, j2, d):
    """Orders n2 = n1 + 1 + d: products needed by the solver."""
    v.c.fact(T.ge0(T.mul(t(n1), t(d))))
    v.c.fact(T.ge0(T.mul(t(d), t(d))))


@contract(CONTRACTS, "lemma: OSA indices of different polynomials differ", lemma=True, budget=40)
def lemma_osa(v):
    n1, j1, d, j2 = v.int("n1"), v.int("j1"), v.int("d"), v.int("j2")
    v.require(AND(n1 >= 0, j1 >= 0, j1 <= n1, d >= 0, j2 >= 0))
    n2 = n1 + 1 + d
    v.require(j2 <= n2)
    v.cover("two polynomials")
    order_facts(v, n1, j1, n2, j2, d)
    v.prove("a lower radial order has a lower OSA index", S.mkbool(T.lt(osa(2*j1 - n1, n1), osa(2*j2 - n2, n2))))
    v.prove("OSA indices of one radial order ascend with m", S.mkbool(T.implies(T.lt(t(j1), t(j2)), T.lt(osa(2*j1 - n1, n1), osa(2*j2 - n1, n1)))))


@contract(CONTRACTS, "lemma: Noll indices of different polynomials differ", lemma=True, budget=60)
def lemma_noll(v):
    n1, j1, d, j2 = v.int("n1"), v.int("j1"), v.int("d"), v.int("j2")
    v.require(AND(n1 >= 0, j1 >= 0, j1 <= n1, d >= 0, j2 >= 0))
    n2 = n1 + 1 + d
    v.require(j2 <= n2)
    v.cover("two polynomials")
    order_facts(v, n1, j1, n2, j2, d)
    v.prove("a lower radial order has a lower Noll index", S.mkbool(T.lt(noll(2*j1 - n1, n1), noll(2*j2 - n2, n2))))
    same = v.int("j3")
    v.require(AND(same >= 0, same <= n1))
    v.prove("Noll indices of one radial order differ",
            S.mkbool(T.implies(T.cnot(T.eq(t(j1), t(same))), T.cnot(T.eq(noll(2*j1 - n1, n1), noll(2*same - n1, n1))))))


@contract(CONTRACTS, "lemma: Fringe indices of different polynomials differ", lemma=True, budget=60)
def lemma_fringe(v):
    # s = (n + |m|)/2 and a = |m| <= s: the index lies in (s^2, (s + 1)^2]
    s1, a1, s2, a2, d = v.int("s1"), v.int("a1"), v.int("s2"), v.int("a2"), v.int("d")
    e1, e2 = v.int("e1"), v.int("e2")
    v.require(AND(s1 >= 0, a1 >= 0, a1 <= s1, a2 >= 0, d >= 0, e1 >= 0, e1 <= 1, e2 >= 0, e2 <= 1))
    v.require(AND(IMPLIES(e1 == 1, a1 > 0), IMPLIES(e2 == 1, a2 > 0)))
    v.cover("two polynomials")
    idx = lambda s, a, e: T.add(T.sub(T.mul(T.add(t(s), T.ONE), T.add(t(s), T.ONE)), T.scale(t(a), 2)), t(e))
    order_facts(v, s1, a1, s2, a2, d)
    S2 = s1 + 1 + d
    v.prove("a lower group has lower Fringe indices",
            S.mkbool(T.implies(T.le(t(a2), t(S2)), T.lt(idx(s1, a1, e1), idx(S2, a2, e2)))))
    v.prove("Fringe indices of one group differ",
            S.mkbool(T.implies(T.cand(T.le(t(a2), t(s1)), T.eq(idx(s1, a1, e1), idx(s1, a2, e2))), T.cand(T.eq(t(a1), t(a2)), T.eq(t(e1), t(e2))))))
    j, n = v.int("j"), v.int("n")
    v.require(AND(n >= 0, j >= 0, j <= n))
    m = 2*j - n
    a = aabs(m)
    s = T.fdiv(T.add(t(n), a), 2)
    v.equal("the definition in these terms", fringe(m, n),
            T.add(T.sub(T.mul(T.add(s, T.ONE), T.add(s, T.ONE)), T.scale(a, 2)), T.ite(T.lt(t(m), T.ZERO), T.ONE, T.ZERO)))
    v.prove("|m| <= (n + |m|)/2", S.mkbool(T.le(a, s)))


def instance(v, scheme, p, q):
    """Instance of the lemma of the scheme for two pairs of orders (p, q): equal indices only for equal orders."""
    (m1, n1), (m2, n2) = p, q
    v.c.fact(T.implies(T.cand(S.cond_of(valid(m1, n1)), S.cond_of(valid(m2, n2)), T.eq(t(idx(scheme, m1, n1)), t(idx(scheme, m2, n2)))),
                       T.cand(T.eq(t(n1), t(n2)), T.eq(t(m1), t(m2)))))


# ---- from indices to orders: the callers see the formulas only as functions with these contracts
def index_stub(scheme):
    def stub(interp, a):
        m, n = a["m"], a["n"]
        S.ctx().check(f"precondition of {scheme[:-6]} formula: valid orders", S.cond_of(valid(m, n)))
        x = idx(scheme, m, n)
        S.ctx().fact(T.le(T.pc(FIRST[scheme]), t(x)))
        return x
    return stub


def idx(scheme, m, n):
    """The index as a function symbol."""
    return Sym(T.app(scheme, (t(m), t(n)), "int"), "int")


FORMULAS = {GET[s]: index_stub(s) for s in SCHEMES}


LIMIT = {"osa_index": 55, "noll_index": 55, "fringe_index": 249}


def search(scheme):
    @contract(CONTRACTS, f"{Z}index2orders({scheme}) finds the orders of every polynomial up to n = {NMAX}", budget=60, stubs=FORMULAS)
    def found(v):
        v.interp.summarise = 20
        m, n, j = orders(v, nmax=NMAX)
        v.cover("index of a polynomial")
        x = idx(scheme, m, n)
        v.require(x >= FIRST[scheme])
        r, e = v.call(Z + "index2orders", **{scheme: x})
        if e:
            return v.fail("no exception for the index of a polynomial", str(v.last_exc.exc))
        check_found(v, scheme, r, x, (m, n))

    @contract(CONTRACTS, f"{Z}index2orders({scheme}) gives for every integer its orders or ValueError", budget=60, stubs=FORMULAS)
    def total(v):
        v.interp.summarise = 20
        x = v.int("index")
        v.cover("any integer")
        r, e = v.call(Z + "index2orders", **{scheme: x})
        if e:
            if e is not ValueError:
                v.fail("ValueError for other integers", str(e))
            else:
                v.prove("ValueError for other integers", S.mkbool(T.TRUE))
            return
        m, n = pair(v, r)
        v.prove("the orders found are valid", valid(m, n))
        v.equal("the orders found have the given index", idx(scheme, m, n), x)


def pair(v, r):
    if not isinstance(r, tuple) or len(r) != 2 or any(S.lift(x) is None for x in r):
        v.fail("a pair of orders is returned", repr(r))
        from vc.sym import PathEnd
        raise PathEnd()
    return r


def check_found(v, scheme, r, x, want):
    m2, n2 = pair(v, r)
    v.prove("the orders found are valid", valid(m2, n2))
    instance(v, scheme, want, (m2, n2))
    v.prove("the orders found have the given index", S.mkbool(T.eq(t(idx(scheme, m2, n2)), t(x))))
    v.equal("the radial order is that of the polynomial", n2, want[1])
    v.equal("the azimuthal order is that of the polynomial", m2, want[0])


for s in SCHEMES:
    search(s)


# ---- conversions between the indices, against the contracts of the formulas and of the search
def index2orders_stub(interp, a):
    kw = dict(a["kwargs"])
    c = S.ctx()
    known = [s for s in ("osa_index", "noll_index", "fringe_index") if s in kw]
    if not known or S.lift(kw[known[0]]) is None:
        raise S.Unsupported("index2orders called in another way")
    scheme, x = known[0], kw[known[0]]
    given = [g for g in c.ghost.get("orders", ())]
    if c.decide(["found", "missing"]) == "found":
        n, m = Sym(c.fresh("n"), "int"), Sym(c.fresh("m"), "int")
        c.fact(S.cond_of(valid(m, n)))
        c.assume(T.eq(t(idx(scheme, m, n)), t(x)))
        c.fact(T.le(T.pc(FIRST[scheme]), t(idx(scheme, m, n))))
        for g in given:
            instance(Holder, scheme, g, (m, n))
        range_facts(c, m, n)
        return m, n
    for m, n in given:
        c.assume(T.cnot(T.cand(S.cond_of(valid(m, n, NMAX)), T.eq(t(idx(scheme, m, n)), t(x)))))
    raise Raised(ValueError, "orders not found")


HIGHEST = {"osa_index": 1539, "noll_index": 1540}


def range_facts(c, m, n):
    """The lemma on the ranges: radial orders up to 54 have exactly the indices up to 1539 (OSA) and 1540 (Noll)."""
    ok = S.cond_of(valid(m, n))
    for s, top in HIGHEST.items():
        low = T.le(t(n), T.pc(NMAX))
        small = T.le(t(idx(s, m, n)), T.pc(top))
        c.fact(T.implies(T.cand(ok, low), small))
        c.fact(T.implies(T.cand(ok, small), low))


@contract(CONTRACTS, "lemma: radial orders up to 54 have exactly the first 1540 OSA and Noll indices", lemma=True, budget=40)
def lemma_range(v):
    m, n, j = orders(v)
    v.cover("valid orders")
    for s, top in HIGHEST.items():
        f = SCHEMES[s](m, n)
        d = t(n - 55)
        v.c.fact(T.implies(T.ge0(d), T.ge0(T.mul(d, d))))
        v.prove(f"{s} up to n = 54", S.mkbool(T.implies(T.le(t(n), T.pc(54)), T.le(f, T.pc(top)))))
        v.prove(f"{s} above n = 54", S.mkbool(T.implies(T.lt(T.pc(54), t(n)), T.lt(T.pc(top), f))))


class HolderType:
    @property
    def c(self):
        return S.ctx()


Holder = HolderType()
CALLEES = {**FORMULAS, Z + "index2orders": index2orders_stub}
CONVERSIONS = {"osa2noll": ("osa_index", "noll_index"), "noll2osa": ("noll_index", "osa_index"),
               "osa2fringe": ("osa_index", "fringe_index"), "fringe2osa": ("fringe_index", "osa_index")}


def conversion(name, src, dst):
    @contract(CONTRACTS, f"{Z}{name} converts the index of every polynomial up to n = {NMAX}", budget=40, stubs=CALLEES)
    def right(v):
        m, n, j = orders(v, nmax=NMAX)
        v.cover("index of a polynomial")
        v.c.ghost["orders"] = [(m, n)]
        x = idx(src, m, n)
        v.require(x >= FIRST[src])
        r, e = v.call(Z + name, x)
        if e:
            return v.fail("no exception for the index of a polynomial", str(v.last_exc.exc))
        v.equal("the index of the same polynomial", r, idx(dst, m, n))

    @contract(CONTRACTS, f"{Z}{name} never gives a wrong answer for another integer", budget=40, stubs=CALLEES)
    def total(v):
        x = v.int("index")
        v.cover("any integer")
        r, e = v.call(Z + name, x)
        if e:
            if e is not ValueError:
                v.fail("ValueError for other integers", str(e))
            return v.prove("ValueError for other integers", S.mkbool(T.TRUE))
        # some polynomial has the given index in the one and the result in the other scheme
        v.prove("the given index is not below the first one", x >= FIRST[src])
        apps = [a for c in v.c.all() for a in T.all_atoms(c) if a.op == "app" and a.args[0] == src]
        ok = T.cor(*[T.cand(S.cond_of(valid(Sym(a.args[1], "int"), Sym(a.args[2], "int"))), T.eq(T.pa(a), t(x)), T.eq(T.app(dst, a.args[1:], "int"), t(r)))
                     for a in dict.fromkeys(apps)]) if S.lift(r) is not None else T.FALSE
        v.prove("both indices belong to one polynomial", S.mkbool(ok))

    @contract(CONTRACTS, f"{Z}{name} rejects values that are not integers", budget=20, stubs=CALLEES)
    def other(v):
        x = v.choose([2.0, 1.5, "3", None, (1,), v.real("x")])
        v.cover("not an integer")
        r, e = v.call(Z + name, x)
        v.prove("ValueError for a value that is not an integer", S.mkbool(T.TRUE if e is ValueError else T.FALSE))


for nm, (a, b) in CONVERSIONS.items():
    conversion(nm, a, b)
