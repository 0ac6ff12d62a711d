"""Terms of the verifier: exact polynomial normal forms over hash-consed atoms, and conditions over them.

A term (class P) is a multivariate (Laurent) polynomial with rational coefficients over atoms.  Atoms are variables,
applications of (interpreted or uninterpreted) functions to terms, conditional terms and bounded sums.  Two terms with the
same normal form are equal as mathematical objects for every value of their variables, so syntactic equality of normal
forms is the ring back end of the prover.  Conditions (class C) are boolean combinations of p > 0, p >= 0, p == 0.
"""
from fractions import Fraction as Fr
import math


class Unsupported(Exception):
    """The engine cannot represent something: the obligation is undecided (never a violation)."""


# ------------------------------------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ("op", "args", "sort", "id", "fv")
    table = {}

    def __repr__(self):
        return show_atom(self)


def mk_atom(op, args, sort):
    key = (op, args, sort)
    a = Atom.table.get(key)
    if a is None:
        a = Atom()
        a.op, a.args, a.sort = op, args, sort
        a.id = len(Atom.table)
        fv = set()
        if op == "var":
            fv = {a}
        else:
            for x in args:
                if isinstance(x, (P, C)):
                    fv |= x.fv()
        if op == "sum":          # args: (bound var atom as P, count, body)
            fv -= args[0].fv()
            fv |= args[1].fv()
        if op == "arrkey":       # args: (bound vars tuple ..., shape ..., body)
            for b in args[0]:
                fv -= b.fv()
            for s in args[1]:
                fv |= s.fv()
            fv |= args[2].fv() - {x for b in args[0] for x in b.fv()}
        a.fv = frozenset(fv)
        Atom.table[key] = a
    return a


# ------------------------------------------------------------------------------------------------ terms
class P:
    __slots__ = ("d", "_h", "_fv")

    def __init__(self, d):
        self.d = d
        self._h = None
        self._fv = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, P) and self.d == o.d

    def fv(self):
        if self._fv is None:
            s = set()
            for m in self.d:
                for a, _ in m:
                    s |= a.fv
            self._fv = frozenset(s)
        return self._fv

    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def const(self):
        return self.d.get((), Fr(0))

    def atoms(self):
        return {a for m in self.d for a, _ in m}

    def __repr__(self):
        return show(self)


def pc(x):
    """A constant term."""
    x = Fr(x)
    return P({(): x}) if x != 0 else P({})


ZERO, ONE = P({}), P({(): Fr(1)})


def pa(atom):
    return P({((atom, 1),): Fr(1)})


def var(name, sort="real"):
    return pa(mk_atom("var", (name,), sort))


I_ATOM = mk_atom("I", (), "complex")
IMAG = pa(I_ATOM)
PI_ATOM = mk_atom("pi", (), "real")
PI = pa(PI_ATOM)


def is_int(p):
    return all(c.denominator == 1 and all(a.sort == "int" and e > 0 for a, e in m) for m, c in p.d.items())


def is_complex(p):
    return any(a.sort == "complex" for m in p.d for a, _ in m)


def add(p, q):
    if not p.d:
        return q
    if not q.d:
        return p
    d = dict(p.d)
    for m, c in q.d.items():
        v = d.get(m)
        if v is None:
            d[m] = c
        else:
            v += c
            if v == 0:
                del d[m]
            else:
                d[m] = v
    return P(d)


def scale(p, k):
    k = Fr(k)
    if k == 0:
        return ZERO
    if k == 1:
        return p
    return P({m: c*k for m, c in p.d.items()})


def neg(p):
    return scale(p, -1)


def sub(p, q):
    return add(p, neg(q))


SPECIAL = ("I", "sqrt", "exp", "ite", "abs")


def mono_mul(m1, m2):
    """Product of two monomials: (coefficient term P or None, monomial)."""
    if not m1:
        return None, m2
    if not m2:
        return None, m1
    d = dict(m1)
    for a, e in m2:
        e2 = d.get(a, 0) + e
        if e2 == 0:
            del d[a]
        else:
            d[a] = e2
    extra = None
    nexp = 0
    for a in list(d):
        op = a.op
        if op == "I":
            e = d[a] % 4
            if e in (2, 3):
                extra = scale(extra or ONE, -1)
            if e % 2:
                d[a] = 1
            else:
                del d[a]
        elif op == "sqrt" and abs(d[a]) >= 2:
            e = d[a]
            k = int(e/2)
            r = e - 2*k
            extra = mul(extra or ONE, power(a.args[0], k))
            if r:
                d[a] = r
            else:
                del d[a]
        elif op == "ind" and d[a] > 1:
            d[a] = 1
        elif op == "exp":
            nexp += 1
            if d[a] != 1:
                nexp += 1
    if nexp > 1:
        arg = ZERO
        for a in list(d):
            if a.op == "exp":
                arg = add(arg, scale(a.args[0], d[a]))
                del d[a]
        extra = mul(extra or ONE, exp(arg))
    return extra, tuple(sorted(d.items(), key=lambda t: t[0].id))


def mul(p, q):
    if not p.d or not q.d:
        return ZERO
    if p.is_const():
        return scale(q, p.const())
    if q.is_const():
        return scale(p, q.const())
    if len(p.d)*len(q.d) > 40000:
        raise Unsupported("term too large")
    d = {}
    rest = None
    for m1, c1 in p.d.items():
        for m2, c2 in q.d.items():
            extra, m = mono_mul(m1, m2)
            c = c1*c2
            if extra is not None:
                t = scale(extra, c)
                if m:
                    t = mul(t, P({m: Fr(1)}))
                rest = t if rest is None else add(rest, t)
                continue
            v = d.get(m, 0) + c
            if v == 0:
                d.pop(m, None)
            else:
                d[m] = v
    r = P(d)
    if rest is not None:
        r = add(r, rest)
    return ite_product(r)


def ite_product(p):
    return p


def power(p, k):
    """Integer power."""
    if isinstance(k, Fr) and k.denominator == 1:
        k = int(k)
    assert isinstance(k, int)
    if k < 0:
        return inv(power(p, -k))
    if k == 0:
        return ONE
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if not any(a.op in SPECIAL for a, _ in m):
            return P({tuple((a, e*k) for a, e in m): c**k})
    r = None
    b = p
    while k:
        if k & 1:
            r = b if r is None else mul(r, b)
        k >>= 1
        if k:
            b = mul(b, b)
    return r


def inv(p):
    if not p.d:
        raise ZeroDivisionError("division by the term 0")
    if len(p.d) == 1:
        (m, c), = p.d.items()
        r = pc(1/c)
        for a, e in m:
            if a.op == "I":
                r = mul(r, neg(IMAG))
            elif a.op == "exp":
                r = mul(r, exp(neg(a.args[0])))
            else:
                r = mul(r, P({((a, -e),): Fr(1)}))
        return r
    lead = min(p.d, key=lambda m: tuple((a.id, e) for a, e in m))
    c = p.d[lead]
    # factor common atoms of all monomials out of the sum
    common = None
    for m in p.d:
        dm = dict(m)
        if common is None:
            common = dm
        else:
            common = {a: min(e, dm[a]) for a, e in common.items() if a in dm and e > 0 and dm[a] > 0}
    if common:
        cm = P({tuple(sorted(common.items(), key=lambda t: t[0].id)): Fr(1)})
        icm = P({tuple((a, -e) for a, e in sorted(common.items(), key=lambda t: t[0].id)): Fr(1)})
        q = mul(p, icm)
        return mul(inv(cm), inv(q)) if not any(a.op in SPECIAL for a in common) else _inv_atom(p, c)
    return _inv_atom(p, c)


def _inv_atom(p, c):
    q = scale(p, 1/c)
    sort = "complex" if is_complex(q) else "real"
    return scale(pa(mk_atom("inv", (q,), sort)), 1/c)


def div(p, q):
    return mul(p, inv(q))


def leading_negative(p):
    lead = min(p.d, key=lambda m: tuple((a.id, e) for a, e in m))
    return p.d[lead] < 0


# ------------------------------------------------------------------------------------------------ functions
def _pi_multiple(p):
    """The rational k with p == k*pi, or None."""
    if not p.d:
        return Fr(0)
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if m == ((PI_ATOM, 1),):
            return c
    return None


def _drop_2pi(p):
    """Remove from p an integer multiple of 2*pi (for periodic functions), including 2*pi*(integer term)."""
    d = {}
    for m, c in p.d.items():
        dm = dict(m)
        if dm.get(PI_ATOM) == 1:
            rest = [(a, e) for a, e in m if a is not PI_ATOM]
            if rest and all(a.sort == "int" and e > 0 for a, e in rest) and (c/2).denominator == 1:
                continue
            if not rest:
                c = c % 2
                if c == 0:
                    continue
        d[m] = c
    return P(d)


def cos(p):
    p = _drop_2pi(p)
    k = _pi_multiple(p)
    if k is not None and (2*k).denominator == 1:
        return pc({0: 1, 1: 0, 2: -1, 3: 0}[int(2*k) % 4])
    if leading_negative(p):
        p = neg(p)
    return pa(mk_atom("cos", (p,), "real"))


def sin(p):
    p = _drop_2pi(p)
    k = _pi_multiple(p)
    if k is not None and (2*k).denominator == 1:
        return pc({0: 0, 1: 1, 2: 0, 3: -1}[int(2*k) % 4])
    if leading_negative(p):
        return neg(pa(mk_atom("sin", (neg(p),), "real")))
    return pa(mk_atom("sin", (p,), "real"))


def exp(p):
    if not p.d:
        return ONE
    return pa(mk_atom("exp", (p,), "complex" if is_complex(p) else "real"))


def sqrt(p):
    if p.is_const():
        c = p.const()
        if c >= 0:
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n*n == c.numerator and d*d == c.denominator:
                return pc(Fr(n, d))
            # sqrt(n/d) = sqrt(n*d)/d, square part extracted
            v, k = c.numerator*c.denominator, 1
            f = 2
            while f*f <= v and f < 2000:
                while v % (f*f) == 0:
                    v //= f*f
                    k *= f
                f += 1
            return scale(pa(mk_atom("sqrt", (pc(v),), "real")), Fr(k, c.denominator))
    return pa(mk_atom("sqrt", (p,), "real"))


def pabs(p):
    if p.is_const():
        return pc(abs(p.const()))
    if len(p.d) == 1:
        (m, c), = p.d.items()
        r = pc(abs(c))
        for a, e in m:
            if a is PI_ATOM or a.op in ("sqrt", "abs") or (a.op == "exp" and a.sort == "real") or (e % 2 == 0 and a.sort != "complex"):
                r = mul(r, P({((a, e),): Fr(1)}))
            elif a is I_ATOM:
                pass
            else:
                r = mul(r, power(pa(mk_atom("abs", (pa(a),), "int" if a.sort == "int" else "real")), e))
        return r
    if leading_negative(p):
        p = neg(p)
    return pa(mk_atom("abs", (p,), "int" if is_int(p) else "real"))


def app(name, args, sort="real"):
    """Application of an uninterpreted function."""
    return pa(mk_atom("app", (name,) + tuple(args), sort))


PI_LOW = Fr(31415926535897932384626433832795028841971693993751, 10**49)
PI_HIGH = PI_LOW + Fr(1, 10**49)


def pi_interval(p):
    """Bounds of a polynomial of pi alone."""
    lo = hi = Fr(0)
    for m, c in p.d.items():
        if any(a is not PI_ATOM for a, e in m):
            return None
        e = m[0][1] if m else 0
        a, b = sorted((c*PI_LOW**e, c*PI_HIGH**e))
        lo, hi = lo + a, hi + b
    return lo, hi


def fdiv(p, k):
    """floor(p / k) for a positive integer k and an arbitrary real term p."""
    k = Fr(k)
    if p.is_const():
        return pc(math.floor(p.const()/k))
    w = pi_interval(p)
    if w is not None and math.floor(w[0]/k) == math.floor(w[1]/k):
        return pc(math.floor(w[0]/k))
    out, rest = {}, {}
    for m, c in p.d.items():
        q = c/k
        if all(a.sort == "int" and e > 0 for a, e in m):
            w = math.floor(q)
            if w:
                out[m] = Fr(w)
            if q != w:
                rest[m] = (q - w)*k
        else:
            rest[m] = c
    r, o = P(rest), P(out)
    if r.is_const():
        return add(o, pc(math.floor(r.const()/k)))
    # floor((r + c)/k) with r integer-valued: an integer constant is kept reduced modulo k by the loop above
    return add(o, pa(mk_atom("fdiv", (scale(r, 1/k),), "int")))


def floor(p):
    return fdiv(p, 1)


def ceil(p):
    return neg(fdiv(neg(p), 1))


def rnd(p, digits):
    """Rounding to a number of decimal digits (numpy/python half-even)."""
    if is_int(p) and digits >= 0:
        return p
    if p.is_const():
        return pc(round(p.const(), digits))
    w = pi_interval(p)
    if w is not None and round(w[0], digits) == round(w[1], digits):
        return pc(round(w[0], digits))
    return pa(mk_atom("round", (p, digits), "int" if digits == 0 else "real"))


# ------------------------------------------------------------------------------------------------ conditions
class C:
    """op: 'T', 'F', 'gt' (p > 0), 'ge' (p >= 0), 'eq' (p == 0), 'and', 'or', 'not', 'batom'."""
    __slots__ = ("op", "args", "_h", "_fv")
    table = {}

    def __repr__(self):
        return show_c(self)

    def fv(self):
        if self._fv is None:
            s = set()
            for x in self.args:
                if isinstance(x, (P, C)):
                    s |= x.fv()
            self._fv = frozenset(s)
        return self._fv


def mk_c(op, args=()):
    key = (op, args)
    c = C.table.get(key)
    if c is None:
        c = C()
        c.op, c.args, c._fv = op, args, None
        C.table[key] = c
    return c


TRUE, FALSE = mk_c("T"), mk_c("F")


def _norm(p):
    lead = min(p.d, key=lambda m: tuple((a.id, e) for a, e in m))
    return scale(p, 1/abs(p.d[lead]))


def gt0(p):
    if p.is_const():
        return TRUE if p.const() > 0 else FALSE
    if is_int(p):
        return ge0(sub(p, ONE))
    return mk_c("gt", (_norm(p),))


def ge0(p):
    if p.is_const():
        return TRUE if p.const() >= 0 else FALSE
    if is_int(p):     # integer tightening: sum c_i x_i + c0 >= 0
        g = 0
        for m, c in p.d.items():
            if m != ():
                g = math.gcd(g, int(c))
        d = {m: c/g for m, c in p.d.items() if m != ()}
        c0 = math.floor(p.const()/g)
        if c0:
            d[()] = Fr(c0)
        return mk_c("ge", (P(d),))
    return mk_c("ge", (_norm(p),))


def eq0(p):
    if p.is_const():
        return TRUE if p.const() == 0 else FALSE
    if leading_negative(p):
        p = neg(p)
    if len(p.d) == 1:    # x*y*..=0 with a single square-free atom power
        (m, c), = p.d.items()
        if len(m) == 1 and m[0][1] > 0:
            return mk_c("eq", (pa(m[0][0]),))
    return mk_c("eq", (_norm(p),))


EXTREMES = {}          # values of max() and min() of two terms


def larger(a, b, tag="max"):
    """The larger (smaller) one of two terms."""
    r = ite(gt0(sub(b, a)) if tag == "max" else gt0(sub(a, b)), b, a)
    if r != a and r != b:
        EXTREMES[r] = tag, a, b
    return r


def _parts(rel, a, b):
    """A relation with a maximum or minimum as relations with its parts (None: there is none)."""
    if a in EXTREMES:
        tag, x, y = EXTREMES[a]
        return (cand if tag == "max" else cor)(rel(x, b), rel(y, b))
    if b in EXTREMES:
        tag, x, y = EXTREMES[b]
        return (cor if tag == "max" else cand)(rel(a, x), rel(a, y))
    return None


def lt(a, b):
    r = _parts(lt, a, b) if EXTREMES else None
    return gt0(sub(b, a)) if r is None else r


def le(a, b):
    r = _parts(le, a, b) if EXTREMES else None
    return ge0(sub(b, a)) if r is None else r


def eq(a, b):
    return eq0(sub(a, b))


def cnot(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    if c.op == "gt":
        return ge0(neg(c.args[0]))
    if c.op == "ge":
        return gt0(neg(c.args[0]))
    if c.op == "and":
        return cor(*[cnot(x) for x in c.args])
    if c.op == "or":
        return cand(*[cnot(x) for x in c.args])
    return mk_c("not", (c,))


def cand(*cs):
    out = []
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        if c.op == "and":
            for x in c.args:
                if x not in out:
                    out.append(x)
        elif c not in out:
            out.append(c)
    for c in out:
        if cnot(c) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk_c("and", tuple(out))


def cor(*cs):
    out = []
    for c in cs:
        if c is TRUE:
            return TRUE
        if c is FALSE:
            continue
        if c.op == "or":
            for x in c.args:
                if x not in out:
                    out.append(x)
        elif c not in out:
            out.append(c)
    for c in out:
        if cnot(c) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk_c("or", tuple(out))


def implies(a, b):
    return cor(cnot(a), b)


# ------------------------------------------------------------------------------------------------ conditional terms
def ite(c, a, b):
    """if c then a else b, normalised as b + [c]*(a - b)."""
    if c is TRUE or a == b:
        return a
    if c is FALSE:
        return b
    d = sub(a, b)
    # [p == 0]*(a - b): under p == x - t (x an atom) replace x by t
    s = _solve_eq(c)
    if s is not None:
        a2 = subst(a, s)
        b2 = subst(b, s)
        if a2 == b2:
            return b
    s = _solve_eq(cnot(c))
    if s is not None and subst(a, s) == subst(b, s):
        return a          # c is "x != t", and both branches agree at x == t
    # |x| > 0 and x*x > 0 mean x != 0
    z = _nonzero_test(c)
    if z is not None and subst(a, {z: ZERO}) == subst(b, {z: ZERO}):
        return a
    z = _nonzero_test(cnot(c))
    if z is not None and subst(a, {z: ZERO}) == subst(b, {z: ZERO}):
        return b
    # canonical polarity
    if _polarity(c):
        return add(a, _guarded(cnot(c), neg(d)))
    return add(b, _guarded(c, d))


_RANK = {"eq": 0, "batom": 0, "and": 1, "gt": 2, "ge": 2, "or": 3, "not": 4}


def _polarity(c):
    n = cnot(c)
    rc, rn = _RANK[c.op], _RANK[n.op]
    if rc != rn:
        return rn < rc
    return id_c(n) < id_c(c)


_cid = {}


def id_c(c):
    if c not in _cid:
        _cid[c] = len(_cid)
    return _cid[c]


def _guarded(c, d):
    """[c]*d as a term: split over the monomials so that it stays linear in d."""
    g = pa(mk_atom("ind", (c,), "int"))
    return mul(g, d)


def _solve_eq(c):
    if c.op == "eq":
        p = c.args[0]
        for m, k in p.d.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "var":
                x = m[0][0]
                rest = P({mm: cc for mm, cc in p.d.items() if mm != m})
                if x not in rest.fv():
                    return {x: scale(rest, -1/k)}
    return None


def _nonzero_test(c):
    if c.op in ("gt", "ge"):
        p = c.args[0]
        off = 0
        if c.op == "ge":     # integer form |x| - 1 >= 0
            off = p.const()
            if off != -1:
                return None
            p = add(p, ONE)
        if len(p.d) == 1:
            (m, k), = p.d.items()
            if k > 0 and len(m) == 1 and m[0][0].op == "abs":
                q = m[0][0].args[0]
                if len(q.d) == 1:
                    (mm, kk), = q.d.items()
                    if len(mm) == 1:
                        return mm[0][0]
    if c.op == "not" and c.args[0].op == "eq":
        p = c.args[0].args[0]
        if len(p.d) == 1:
            (m, k), = p.d.items()
            if len(m) == 1:
                return m[0][0]
    return None


# ------------------------------------------------------------------------------------------------ sums
_bv = [0]


def bsum(k, count, body):
    """Sum of body over the integer variable k (a variable term) in [0, count): linear normal form."""
    katom, = k.atoms()
    if count.is_const():
        n = int(count.const())
        if n <= 0:
            return ZERO
        if n <= 3:
            r = ZERO
            for i in range(n):
                r = add(r, subst(body, {katom: pc(i)}))
            return r
    c0 = body.d.get((), 0)
    if c0:                               # numbers of places where a condition does not hold
        for m, c in body.d.items():
            if c == -c0 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "ind" and katom in m[0][0].fv:
                rest = P({x: y for x, y in body.d.items() if x != m and x != ()})
                return add(scale(canonical_bv(pa(mk_atom("ind", (cnot(m[0][0].args[0]),), "int")), katom, count), c0), bsum(k, count, rest))
    out = ZERO
    groups = {}
    plain = {}
    for m, c in body.d.items():      # point sums: [k == t]*f(k) sums to [0 <= t < count]*f(t)
        done = False
        for a, e in m:
            if a.op == "ind" and katom in a.fv:
                t = point_of(a.args[0], katom)
                if t is not None:
                    rest = P({tuple((b, x) for b, x in m if b is not a): c})
                    cond = subst(_without_eq(a.args[0], katom), {katom: t})
                    cond = cand(cond, ge0(t), lt(t, count))
                    if not is_int(t):
                        break
                    out = add(out, _guarded(cond, subst(rest, {katom: t})) if cond not in (TRUE, FALSE)
                              else (subst(rest, {katom: t}) if cond is TRUE else ZERO))
                    done = True
                    break
        if not done:
            plain[m] = c
    body = P(plain)
    for m, c in body.d.items():
        ind = tuple((a, e) for a, e in m if katom not in a.fv)
        dep = tuple((a, e) for a, e in m if katom in a.fv)
        split = [free_part(a, katom) for a, e in dep if a.op == "ind"]
        if any(x is not None for x in split):      # conditions that do not depend on the variable come out
            whole = {a: x for (a, e), x in zip([y for y in dep if y[0].op == "ind"], split) if x is not None}
            front = ONE
            for a, (free, rest) in whole.items():
                front = mul(front, _guarded(free, ONE))
            inner = P({tuple((a, e) for a, e in m if a not in whole): c})
            for a, (free, rest) in whole.items():
                inner = mul(inner, _guarded(rest, ONE))
            out = add(out, mul(front, bsum(k, count, inner)))
            continue
        groups.setdefault(dep, []).append((ind, c))
    for dep, items in groups.items():
        fac = P({})
        for ind, c in items:
            fac = add(fac, P({ind: c}))
        if not dep:
            out = add(out, mul(fac, count))
            continue
        if len(dep) == 1 and dep[0][0] is katom and dep[0][1] in (1, 2, 3):      # sums of powers
            half = scale(mul(count, sub(count, ONE)), Fr(1, 2))
            e = dep[0][1]
            out = add(out, mul(fac, half if e == 1 else mul(half, half) if e == 3 else scale(mul(half, sub(scale(count, 2), ONE)), Fr(1, 3))))
            continue
        b = canonical_bv(P({dep: Fr(1)}), katom, count)
        out = add(out, mul(fac, b))
    return out


def free_part(a, katom):
    """(conjuncts without the variable, the others) of a guard, None if there are not both."""
    c = a.args[0]
    if c.op != "and":
        return None
    free = [x for x in c.args if katom not in x.fv()]
    if not free:
        return None
    return cand(*free), cand(*[x for x in c.args if katom in x.fv()])


def point_of(c, katom):
    """t if the condition c implies katom == t for an integer term t free of katom (unit coefficient), else None."""
    for x in (c.args if c.op == "and" else (c,)):
        if x.op == "eq":
            p = x.args[0]
            m0 = ((katom, 1),)
            if m0 in p.d and abs(p.d[m0]) == 1:
                rest = P({m: v for m, v in p.d.items() if m != m0})
                if katom not in rest.fv():
                    return scale(rest, -1/p.d[m0])
    return None


def _without_eq(c, katom):
    if c.op == "and":
        xs = list(c.args)
        for x in xs:
            if point_of(x, katom) is not None:
                xs.remove(x)
                return cand(*xs)
    return TRUE


def canonical_bv(body, katom, count):
    """Sum atom with a canonical bound variable (named by nesting depth) for a one-monomial body."""
    depth = sum_depth(body)
    kb = var(f"$k{depth}", "int")
    b2 = subst(body, {katom: kb})
    sort = "complex" if is_complex(b2) else ("int" if is_int(b2) else "real")
    return pa(mk_atom("sum", (kb, count, b2), sort))


def sum_depth(x):
    best = 0
    if isinstance(x, P):
        for a in x.atoms():
            best = max(best, atom_depth(a))
    elif isinstance(x, C):
        for y in x.args:
            best = max(best, sum_depth(y))
    elif isinstance(x, tuple):
        for y in x:
            best = max(best, sum_depth(y))
    return best


_ad = {}


def atom_depth(a):
    r = _ad.get(a)
    if r is None:
        r = 0
        for y in a.args:
            r = max(r, sum_depth(y))
        if a.op in ("sum", "arrkey"):
            r += 1
        _ad[a] = r
    return r


# ------------------------------------------------------------------------------------------------ substitution
def subst(x, s, memo=None):
    """Simultaneous substitution of atoms by terms, renormalising."""
    if memo is None:
        memo = {}
    if isinstance(x, C):
        return subst_c(x, s, memo)
    if not s:
        return x
    keys = memo.get("$keys")
    if keys is None:
        keys = memo["$keys"] = frozenset(s)
    if not _touches(x, s):
        return x
    r = ZERO
    acc = {}
    for m, c in x.d.items():
        t = None
        plain = []
        for a, e in m:
            ra = subst_atom(a, s, memo)
            if ra is None:
                plain.append((a, e))
            else:
                f = power(ra, e)
                t = f if t is None else mul(t, f)
        if t is None:
            acc[m] = acc.get(m, 0) + c
        else:
            r = add(r, mul(P({tuple(plain): c}), t))
    acc = {m: c for m, c in acc.items() if c != 0}
    return add(P(acc), r)


def _touches(x, s):
    fv = x.fv()
    for a in s:
        if a.op == "var":
            if a in fv:
                return True
        else:
            return True
    return False


def subst_atom(a, s, memo):
    if a in s:
        return s[a]
    if a in memo:
        return memo[a]
    r = None
    if a.op not in ("var", "I", "pi"):
        if any(k.op != "var" or k in a.fv for k in s):
            r = rebuild(a, s, memo)
            if r == pa(a):
                r = None
    memo[a] = r
    return r


def rebuild(a, s, memo):
    op = a.op
    if op == "sum":
        kb, n, body = a.args
        kat, = kb.atoms()
        s2 = {k: v for k, v in s.items() if k is not kat}
        fresh = var(f"$t{len(Atom.table)}", "int")
        fat, = fresh.atoms()
        b2 = subst(body, {kat: fresh})
        b2 = subst(b2, s2)
        return bsum(fresh, subst(n, s2), b2)
    if op == "arrkey":
        ks, shape, body, tag = a.args
        kats = [next(iter(k.atoms())) for k in ks]
        s2 = {k: v for k, v in s.items() if k not in kats}
        fr = [var(f"$t{len(Atom.table)}_{i}", "int") for i in range(len(ks))]
        b2 = subst(subst(body, dict(zip(kats, fr))), s2)
        return pa(arrkey_atom(fr, tuple(subst(x, s2) for x in shape), b2, tag))
    if op == "ind":
        c = subst_c(a.args[0], s, memo)
        if c is TRUE:
            return ONE
        if c is FALSE:
            return ZERO
        return pa(mk_atom("ind", (c,), "int"))
    args = tuple(subst(x, s, memo) if isinstance(x, P) else (subst_c(x, s, memo) if isinstance(x, C) else x) for x in a.args)
    if args == a.args:
        return pa(a)
    return build(op, args, a.sort)


def build(op, args, sort):
    if op == "cos":
        return cos(args[0])
    if op == "sin":
        return sin(args[0])
    if op == "exp":
        return exp(args[0])
    if op == "sqrt":
        return sqrt(args[0])
    if op == "abs":
        return pabs(args[0])
    if op == "inv":
        return inv(args[0])
    if op == "fdiv":
        return fdiv(args[0], 1)
    if op == "round":
        return rnd(args[0], args[1])
    return pa(mk_atom(op, args, sort))


def subst_c(c, s, memo):
    if c is TRUE or c is FALSE:
        return c
    if c.op in ("gt", "ge", "eq"):
        p = subst(c.args[0], s, memo)
        return {"gt": gt0, "ge": ge0, "eq": eq0}[c.op](p)
    if c.op == "and":
        return cand(*[subst_c(x, s, memo) for x in c.args])
    if c.op == "or":
        return cor(*[subst_c(x, s, memo) for x in c.args])
    if c.op == "not":
        return cnot(subst_c(c.args[0], s, memo))
    if c.op == "batom":
        return mk_c("batom", tuple(subst(x, s, memo) if isinstance(x, P) else x for x in c.args))
    raise Unsupported(c.op)


def rewrite(x, f, memo=None):
    """Bottom-up rewriting: f(atom, rewritten arguments) gives a term or None (atom rebuilt from the arguments)."""
    if memo is None:
        memo = {}
    if isinstance(x, C):
        if x is TRUE or x is FALSE:
            return x
        if x.op in ("gt", "ge", "eq"):
            p = rewrite(x.args[0], f, memo)
            return x if p is x.args[0] else {"gt": gt0, "ge": ge0, "eq": eq0}[x.op](p)
        if x.op == "and":
            return cand(*[rewrite(y, f, memo) for y in x.args])
        if x.op == "or":
            return cor(*[rewrite(y, f, memo) for y in x.args])
        if x.op == "not":
            return cnot(rewrite(x.args[0], f, memo))
        return mk_c("batom", tuple(rewrite(y, f, memo) if isinstance(y, P) else y for y in x.args))
    acc, r, changed = {}, ZERO, False
    for m, c in x.d.items():
        t, plain = None, []
        for a, e in m:
            ra = _rewrite_atom(a, f, memo)
            if ra is None:
                plain.append((a, e))
            else:
                g = power(ra, e)
                t = g if t is None else mul(t, g)
        if t is None:
            acc[m] = acc.get(m, 0) + c
        else:
            changed = True
            r = add(r, mul(P({tuple(plain): c}), t))
    if not changed:
        return x
    return add(P({m: c for m, c in acc.items() if c != 0}), r)


def _rewrite_atom(a, f, memo):
    if a in memo:
        return memo[a]
    r = None
    if a.op == "sum":
        kb, n, body = a.args
        kat, = kb.atoms()
        n2 = rewrite(n, f, memo)
        fresh = var(f"$r{len(Atom.table)}", "int")
        b1 = subst(body, {kat: fresh})
        b2 = rewrite(b1, f, memo)
        if b2 is not b1 or n2 is not n:
            r = bsum(fresh, n2, b2)
    elif a.op == "arrkey":
        ks, shape, body, tag = a.args
        fr = [var(f"$r{len(Atom.table)}_{i}", "int") for i in range(len(ks))]
        back = {next(iter(y.atoms())): k for y, k in zip(fr, ks)}
        b1 = subst(body, {next(iter(k.atoms())): y for k, y in zip(ks, fr)})
        b2 = rewrite(b1, f, memo)
        sh = tuple(rewrite(x, f, memo) for x in shape)
        if b2 is not b1 or any(x is not y for x, y in zip(sh, shape)):
            r = pa(arrkey_atom(fr, sh, b2, tag))
    elif a.op == "ind":
        c = rewrite(a.args[0], f, memo)
        if c is not a.args[0]:
            r = ONE if c is TRUE else (ZERO if c is FALSE else pa(mk_atom("ind", (c,), "int")))
    elif a.op in ("I", "pi"):
        r = None
    else:
        args = tuple(rewrite(y, f, memo) if isinstance(y, (P, C)) else y for y in a.args)
        r = f(a, args)
        if r is None and any(x is not y for x, y in zip(args, a.args)):
            r = build(a.op, args, a.sort)
    memo[a] = r
    return r


def arrkey_atom(ks, shape, body, tag):
    """Extremum or content of an array with elements body(ks): bound variables named by nesting depth."""
    depth = sum_depth(body)
    names = tuple(var(f"$k{depth + i}", "int") for i in range(len(ks)))
    body = subst(body, {next(iter(k.atoms())): n for k, n in zip(ks, names)})
    return mk_atom("arrkey", (names, tuple(shape), body, tag), "int" if is_int(body) else "real")


def extremum(tag, k, count, body):
    """max / min of body over the integer variable k in [0, count)."""
    if next(iter(k.atoms())) not in body.fv():
        return body
    return pa(arrkey_atom((k,), (count,), body, tag))


def forall(k, count, cond):
    """Condition: cond holds for every k in [0, count)."""
    if cond is TRUE:
        return TRUE
    m = extremum("min", k, count, ite(cond, ONE, ZERO))
    return cor(le(count, ZERO), ge0(sub(m, ONE)))


def exists(k, count, cond):
    if cond is FALSE:
        return FALSE
    m = extremum("max", k, count, ite(cond, ONE, ZERO))
    return cand(lt(ZERO, count), ge0(sub(m, ONE)))


def all_atoms(x, acc=None):
    """All atoms occurring in a term or condition, at any depth."""
    if acc is None:
        acc = set()
    if isinstance(x, P):
        for m in x.d:
            for a, _ in m:
                if a not in acc:
                    acc.add(a)
                    for y in a.args:
                        all_atoms(y, acc)
    elif isinstance(x, C):
        for y in x.args:
            all_atoms(y, acc)
    elif isinstance(x, tuple):
        for y in x:
            all_atoms(y, acc)
    return acc


# ------------------------------------------------------------------------------------------------ printing
def show(p, lim=400):
    if not p.d:
        return "0"
    out = []
    for m, c in sorted(p.d.items(), key=lambda t: tuple((a.id, e) for a, e in t[0])):
        f = "*".join(show_atom(a) + (f"^{e}" if e != 1 else "") for a, e in m)
        if not f:
            out.append(str(c))
        elif c == 1:
            out.append(f)
        elif c == -1:
            out.append("-" + f)
        else:
            out.append(f"{c}*{f}")
    s = " + ".join(out).replace("+ -", "- ")
    return s if len(s) <= lim else s[:lim] + "..."


def show_atom(a):
    if a.op == "var":
        return a.args[0]
    if a.op == "app":
        return f"{a.args[0]}({', '.join(map(str, a.args[1:]))})"
    if a.op == "sum":
        return f"Sum[{a.args[0]}<{a.args[1]}]({a.args[2]})"
    if a.op == "ind":
        return f"[{a.args[0]}]"
    if a.op in ("I", "pi"):
        return a.op
    return f"{a.op}({', '.join(map(str, a.args))})"


def show_c(c):
    if c.op in ("T", "F"):
        return c.op
    if c.op in ("gt", "ge", "eq"):
        return f"{show(c.args[0])} {({'gt': '>', 'ge': '>=', 'eq': '=='})[c.op]} 0"
    if c.op == "not":
        return f"not({c.args[0]})"
    if c.op == "batom":
        return f"{c.args[0]}{c.args[1:]}"
    return "(" + f" {c.op} ".join(map(str, c.args)) + ")"
