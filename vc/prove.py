"""Entailment of conditions (z3), numeric evaluation of terms and refutation by evaluation."""
import os
import cmath
import math
import random
import time
import hashlib
import z3

from . import terms as T
from .terms import P, C, Fr

STATS = {"z3_queries": 0, "z3_s": 0.0, "ring": 0, "z3": 0, "case_split": 0}
TIMEOUT_MS = 4000


# ------------------------------------------------------------------------------------------------ translation to z3
class Tr:
    def __init__(self):
        self.vars, self.ax, self.memo, self.seen = {}, [], {}, []
        self.linear = False          # products of atoms as unknowns (an over-approximation); 2: defining facts of roots and inverses too
        self.nonlinear = False

    def product(self, m):
        """Linear mode: the product of two or more atoms (with powers), an unknown number."""
        for a, e in m if self.linear < 3 else ():
            self.atom(a)
        if ("m", m) not in self.vars:
            k = f"m_{len(self.vars)}"
            self.vars[("m", m)] = z3.Int(k) if self.linear >= 2 and all(a.sort == "int" and e > 0 for a, e in m) else z3.Real(k)
            self.nonlinear = True
        return self.vars[("m", m)]

    def term(self, p):
        r = self.memo.get(p)
        if r is not None:
            return r
        tot = None
        for m, c in p.d.items():
            t = z3.RealVal(str(c)) if m == () or c != 1 else None
            if self.linear and (len(m) > 1 or m and m[0][1] != 1):
                x = self.product(m)
                x = z3.ToReal(x) if x.is_int() else x
                t = x if t is None else t*x
                tot = t if tot is None else tot + t
                continue
            for a, e in m:
                x = self.atom(a)
                x = z3.ToReal(x) if x.is_int() else x
                if e < 0:
                    x = self.inverse(a, x)
                    e = -e
                for _ in range(int(e)):
                    t = x if t is None else t*x
            tot = t if tot is None else tot + t
        if tot is None:
            tot = z3.RealVal(0)
        self.memo[p] = tot
        return tot

    def iterm(self, p):
        """Integer version, if all atoms are integers and the coefficients are too."""
        tot = None
        for m, c in p.d.items():
            t = z3.IntVal(int(c)) if m == () or c != 1 else None
            if self.linear >= 2 and (len(m) > 1 or m and m[0][1] != 1):
                x = self.product(m)
                t = x if t is None else t*x
                tot = t if tot is None else tot + t
                continue
            for a, e in m:
                x = self.atom(a)
                for _ in range(int(e)):
                    t = x if t is None else t*x
            tot = t if tot is None else tot + t
        return tot if tot is not None else z3.IntVal(0)

    def inverse(self, a, x):
        key = ("inv", a)
        if key not in self.vars:
            v = z3.Real(f"inv_{a.id}")
            self.vars[key] = v
            self.ax.append(z3.Implies(x != 0, v*x == 1))
        return self.vars[key]

    def atom(self, a):
        v = self.vars.get(a)
        if v is not None:
            return v
        op = a.op
        name = f"{a.args[0]}" if op == "var" else f"{op}_{a.id}"
        v = z3.Int(name) if a.sort == "int" else z3.Real(name)
        if op == "ind":
            v = z3.If(self.cond(a.args[0]), z3.IntVal(1), z3.IntVal(0))
            self.vars[a] = v
            return v
        self.vars[a] = v
        self.seen.append(a)
        if self.linear == 3 and op in ("sqrt", "round", "inv", "exp", "cos", "sin", "app"):
            return v
        if op == "pi":
            self.ax += [v > z3.RealVal("3.14159265358"), v < z3.RealVal("3.14159265359")]
        elif op in ("cos", "sin"):
            self.ax += [v >= -1, v <= 1]
        elif op == "exp" and a.sort == "real":
            self.ax += [v > 0]
            x = self.term(a.args[0])
            self.ax += [z3.Implies(x <= 0, v <= 1), z3.Implies(x >= 0, v >= 1)]
        elif op == "sqrt":
            x = self.term(a.args[0])
            sq = self.product(((a, 2),)) if self.linear == 2 else v*v
            sq = z3.ToReal(sq) if sq.is_int() else sq
            self.ax += [v >= 0, z3.Implies(x >= 0, sq == x), z3.Implies(x > 0, v > 0)]
        elif op == "abs":
            if T.is_complex(a.args[0]):
                self.ax += [v >= 0]
            elif a.sort == "int":
                x = self.iterm(a.args[0])
                self.ax += [v == z3.If(x >= 0, x, -x)]
            else:
                x = self.term(a.args[0])
                self.ax += [v == z3.If(x >= 0, x, -x)]
        elif op == "inv" and a.sort == "real":
            x = self.term(a.args[0])
            if self.linear == 2:
                self.nonlinear = True
            else:
                self.ax.append(z3.Implies(x != 0, v*x == 1))
            self.ax.append(z3.Implies(x > 0, v > 0))
        elif op == "fdiv":
            x = self.term(a.args[0])
            self.ax += [z3.ToReal(v) <= x, x < z3.ToReal(v) + 1]
            p = a.args[0]
            for b in {b for m in p.d for b, e in m if b.op == "inv" and b.sort == "real"}:     # multiplied by the denominator
                d = b.args[0]
                y, w, u = self.term(T.mul(p, d)), self.term(T.mul(T.pa(a), d)), self.term(d)
                self.ax.append(z3.Implies(u > 0, z3.And(w <= y, y < w + u)))
            L = 1
            for c in p.d.values():
                L = L*c.denominator//math.gcd(L, c.denominator)
            if T.is_int(T.scale(p, L)):
                x = self.iterm(T.scale(p, L))
                self.ax += [v*L <= x, x < v*L + L]
        elif op == "round":
            p, d = a.args
            if isinstance(d, int):
                x, s = self.term(p), 10**abs(d)
                y = z3.ToReal(v) if v.is_int() else v
                if d < 0:
                    s = Fr(1, s)
                h = z3.RealVal(str(Fr(1, 2)/s))
                self.ax += [y - x <= h, x - y <= h]
                z = z3.Int(f"rz_{a.id}")
                self.ax.append(y*z3.RealVal(str(Fr(s))) == z3.ToReal(z))
        elif op == "app":
            f = APP_AXIOMS.get(a.args[0])
            if f is not None:
                self.ax += f(self, v, a)
        return v

    def cond(self, c):
        op = c.op
        if op == "T":
            return z3.BoolVal(True)
        if op == "F":
            return z3.BoolVal(False)
        if op in ("gt", "ge", "eq"):
            p = c.args[0]
            if T.is_int(p):
                x, zero = self.iterm(p), z3.IntVal(0)
            elif T.is_complex(p):
                return self.batom(c)
            else:
                x, zero = self.term(p), z3.RealVal(0)
            return {"gt": x > zero, "ge": x >= zero, "eq": x == zero}[op]
        if op == "and":
            return z3.And(*[self.cond(x) for x in c.args])
        if op == "or":
            return z3.Or(*[self.cond(x) for x in c.args])
        if op == "not":
            return z3.Not(self.cond(c.args[0]))
        return self.batom(c)

    def batom(self, c):
        if c not in self.vars:
            self.vars[c] = z3.Bool(f"b{len(self.vars)}")
        return self.vars[c]


def _ax_atan2(tr, v, a):
    y, x = tr.term(a.args[1]), tr.term(a.args[2])
    pi = tr.atom(T.PI_ATOM)
    return [v > -pi, v <= pi, z3.Implies(y > 0, v > 0), z3.Implies(y < 0, v < 0),
            z3.Implies(z3.And(y == 0, x >= 0), v == 0), z3.Implies(z3.And(y == 0, x < 0), v == pi)]


APP_AXIOMS = {"arctan2": _ax_atan2}


# ------------------------------------------------------------------------------------------------ facts about extrema
DEEP = [False]          # further rounds of instances (for obligations that are not proved without them)


def extremum_facts(conds):
    """Instances of  elem(k) <= max  /  min <= elem(k)  and the attained witness for every extremum in the conditions."""
    out, done, rounds = [], set(), 0
    pool = list(conds)
    while rounds < (4 if DEEP[0] else 2):
        rounds += 1
        atoms = set()
        for c in pool:
            T.all_atoms(c, atoms)
        ext = [a for a in atoms if a.op == "arrkey" and a.args[3] in ("max", "min")]
        if not ext:
            break
        new = []
        idx = _index_terms(atoms)
        if DEEP[0]:       # the indices of the goal and the witnesses
            last = set()
            T.all_atoms(conds[-1], last)
            goal = _index_terms(last)
            idx = goal + [x for x in _index_terms(atoms, 60) if x not in goal and any(f.args[0].startswith("$w") for f in x.fv())][:8]
        for a in sorted(ext, key=lambda z: z.id):
            ks, shape, body, tag = a.args
            kat = [next(iter(k.atoms())) for k in ks]
            if (a, "w") not in done:
                done.add((a, "w"))
                w = [T.var(f"$w{a.id}_{i}", "int") for i in range(len(ks))]
                s = dict(zip(kat, w))
                new += [T.eq(T.subst(body, s), T.pa(a))]
                for x, n in zip(w, shape):
                    new += [T.ge0(x), T.lt(x, n)]
            for combo in _combos(idx, len(ks), shape):
                if (a, combo) in done:
                    continue
                done.add((a, combo))
                s = dict(zip(kat, combo))
                inb = T.cand(*[T.cand(T.ge0(x), T.lt(x, n)) for x, n in zip(combo, shape)])
                v = T.subst(body, s)
                rel = T.le(v, T.pa(a)) if tag == "max" else T.le(T.pa(a), v)
                new.append(T.implies(inb, rel))
        out += new
        pool = list(conds) + out
    return out


def _index_terms(atoms, most=14):
    r = []
    for a in sorted(atoms, key=lambda z: z.id):
        if a.op == "var" and a.sort == "int" and not a.args[0].startswith("$k"):
            r.append(T.pa(a))
        if a.op == "app":
            for x in a.args[1:]:
                if isinstance(x, P) and T.is_int(x) and not any(f.args[0].startswith("$k") for f in x.fv()):
                    if x not in r:
                        r.append(x)
    return r[:most]


def _combos(idx, d, shape):
    if d == 1:
        return [(x,) for x in idx]
    r = [(x, y) for x in idx for y in idx]
    return r[:150] if d == 2 else []


# ------------------------------------------------------------------------------------------------ entailment
_cache = {}


def consistent(conds, timeout=None):
    """sat / unsat / unknown for a list of conditions."""
    key, timeout = frozenset(conds), timeout or TIMEOUT_MS
    if key in _cache:
        r, spent = _cache[key]
        if r != "unknown" or spent >= timeout:
            return r
    if T.FALSE in key:
        return "unsat"
    for c in key:
        if T.cnot(c) in key:
            _cache[key] = "unsat", 0
            return "unsat"
    r = decide(list(conds), timeout)
    _cache[key] = r, timeout
    return r


def decide(conds, timeout):
    """First with products as unknowns (fast; unsat is the answer, sat too if there are no products), then in full."""
    tr = []
    if any(a.op == "sum" for c in conds for a in T.all_atoms(c)) and linear_unsat(conds):
        return "unsat"
    r = _z3(conds, 1000, linear=2, use=tr)
    if r == "unsat" or r == "sat" and not tr[0].nonlinear:
        return r
    return _z3(conds, timeout)


def linear_unsat(conds):
    """Inconsistent already as linear conditions on otherwise unknown terms (fast)."""
    key = frozenset(conds)
    if key not in _linear:
        _linear[key] = T.FALSE in key or _z3(list(conds), 600, linear=3) == "unsat"
    return _linear[key]


_linear = {}


def linear_entails(pc, goal):
    if goal is T.TRUE or goal in pc:
        return True
    if goal.op == "and":
        return all(linear_entails(pc, g) for g in goal.args)
    ng = T.cnot(goal)
    return linear_unsat(relevant(pc, ng) + [ng])


def entails_deep(pc, goal, linear):
    """As entails, with more instances and time."""
    DEEP[0] = True
    try:
        if goal.op == "and":
            return all(entails_deep(pc, g, linear) for g in goal.args)
        ng = T.cnot(goal)
        cs = relevant(pc, ng) + [ng]
        return _z3(cs, 12000, linear=linear) == "unsat"
    finally:
        DEEP[0] = False


def entails_otherwise(pc, goal, timeout, linear=False, seed=0):
    """As entails, by another strategy of the solver."""
    if goal.op == "and":
        return all(entails_otherwise(pc, g, timeout, linear, seed) for g in goal.args)
    ng = T.cnot(goal)
    return _z3(relevant(pc, ng) + [ng], timeout, linear=linear, seed=seed) == "unsat"


def relevant(conds, goal):
    """Conditions connected to the goal by shared atoms (cone of influence)."""
    want = {a for a in T.all_atoms(goal) if a.op not in ("pi", "I")}
    out, rest, changed = [], [(c, {a for a in T.all_atoms(c) if a.op not in ("pi", "I")}) for c in conds], True
    while changed:
        changed = False
        keep = []
        for c, at in rest:
            if at & want or not at:
                want |= at
                out.append(c)
                changed = True
            else:
                keep.append((c, at))
        rest = keep
    return out


def congruence(tr):
    """Function symbols applied to equal arguments have equal values."""
    groups = {}
    for a in list(tr.seen):
        if a.op == "app" and not a.args[0].startswith("u!") and len(a.args) > 1 and a.sort in ("int", "real") and \
                all(isinstance(x, P) and not T.is_complex(x) for x in a.args[1:]):
            groups.setdefault((a.args[0], len(a.args), a.sort), []).append(a)
    for (name, n, sort), atoms in groups.items():
        if not 2 <= len(atoms) <= 12:
            continue
        if any(f.args[0].startswith("$k") for a in atoms for f in a.fv):
            continue
        ints = [all(T.is_int(a.args[i]) for a in atoms) for i in range(1, n)]
        f = z3.Function("f_" + name, *[z3.IntSort() if b else z3.RealSort() for b in ints], z3.IntSort() if sort == "int" else z3.RealSort())
        for a in atoms:
            xs = [tr.iterm(x) if b and integral(x) else (z3.ToInt(tr.term(x)) if b else tr.term(x)) for x, b in zip(a.args[1:], ints)]
            tr.ax.append(tr.vars[a] == f(*xs))


def monotone(tr):
    """Rounding keeps the order: instances for the pairs of rounded terms, with the sign of a difference that is a product."""
    groups = {}
    for a in list(tr.seen):
        if a.op == "round" and isinstance(a.args[1], int):
            groups.setdefault(a.args[1], []).append(a)
    for atoms in groups.values():
        if not 2 <= len(atoms) <= 5:
            continue
        for i, a in enumerate(atoms):
            for b in atoms[:i]:
                x, y, u, v = tr.term(a.args[0]), tr.term(b.args[0]), tr.vars[a], tr.vars[b]
                tr.ax += [z3.Implies(x <= y, u <= v), z3.Implies(y <= x, v <= u)]
                fs = factors(T.sub(a.args[0], b.args[0]))
                if fs:
                    d, zs = x - y, [tr.term(f) for f in fs]
                    head, (p, q) = [z >= 0 for z in zs[:-2]], zs[-2:]
                    tr.ax += [z3.Implies(z3.And(*head, z3.Or(z3.And(p >= 0, q >= 0), z3.And(p <= 0, q <= 0))), d >= 0),
                              z3.Implies(z3.And(*head, z3.Or(z3.And(p >= 0, q <= 0), z3.And(p <= 0, q >= 0))), d <= 0)]


def nonnegative(p):
    """Is the term a sum of products of truth values and of such sums, with positive coefficients?"""
    return all(c > 0 and all(a.op == "ind" or a.op == "sum" and nonnegative(a.args[2]) for a, e in m) for m, c in p.d.items())


def bound(p):
    """An upper limit of a term of this kind (for counts that are not negative), and the counts."""
    total, counts = T.ZERO, []
    for m, c in p.d.items():
        t = T.pc(c)
        for a, e in m:
            if a.op == "sum":
                b, cs = bound(a.args[2])
                t, counts = T.mul(t, T.mul(a.args[1], b)), counts + cs + [a.args[1]]
        total = T.add(total, t)
    return total, counts


def partial_sums(tr):
    """Sums of values that are not negative: not negative, ascending with the number of terms, and not larger than the number of terms if those are not larger than 1."""
    groups = {}
    for a in list(tr.seen):
        if a.op == "sum" and nonnegative(a.args[2]) and not any(f.args[0].startswith("$k") for f in a.fv):
            groups.setdefault((a.args[0], a.args[2]), []).append(a)
    for (k, body), atoms in groups.items():
        if len(atoms) > 6:
            continue
        kat, = k.atoms()
        counts = [tr.iterm(a.args[1]) if integral(a.args[1]) else tr.term(a.args[1]) for a in atoms]
        for a, n in zip(atoms, counts):
            v = tr.vars[a]
            tr.ax.append(v >= 0)
            b, cs = bound(body)
            if kat not in b.fv() and not any(kat in x.fv() for x in cs):
                tr.ax.append(z3.Implies(z3.And(n >= 0, *[tr.term(x) >= 0 for x in cs]), v <= tr.term(T.mul(a.args[1], b))))
        for i, (a, n) in enumerate(zip(atoms, counts)):
            for b, m in list(zip(atoms, counts))[:i]:
                for (x, p), (y, q) in (((a, n), (b, m)), ((b, m), (a, n))):
                    tr.ax.append(z3.Implies(p <= q, tr.vars[x] <= tr.vars[y]))
                    tr.ax.append(z3.Implies(z3.And(p >= 0, p < q), tr.vars[x] + tr.term(T.subst(body, {kat: x.args[1]})) <= tr.vars[y]))


def limited_products(tr, conds):
    """Linear mode: products of two conditions p >= 0 and q >= 0 on integer variables, if all their products occur already."""
    known = {k[1] for k in tr.vars if isinstance(k, tuple) and k[0] == "m"}
    quad = {m for m in known if sum(e for _, e in m) == 2 and all(a.op == "var" and a.sort == "int" for a, _ in m)}
    if not quad or len(quad) > 6:
        return
    used = {a for m in quad for a, _ in m}
    lin = []
    for c in conds:
        for x in conjuncts(c):
            if x.op == "ge" and x.args[0].fv() & used and len(x.args[0].d) <= 4 and \
                    all(m == () or len(m) == 1 and m[0][1] == 1 and m[0][0].op == "var" and m[0][0].sort == "int" for m in x.args[0].d):
                lin.append(x.args[0])
    lin = lin[:14]
    for i, p in enumerate(lin):
        for q in lin[:i + 1]:
            pq = T.mul(p, q)
            if all(m in known for m in pq.d if sum(e for _, e in m) > 1):
                tr.ax.append(tr.term(pq) >= 0)


def factors(d):
    """d as a product: atoms common to all terms, and a rest of the form A*(u - v) with powers of atoms u, v; None if it has not this form."""
    if len(d.d) < 2:
        return None
    ms = [dict(m) for m in d.d]
    common = [(a, e) for a, e in ms[0].items() if all(m.get(a) == e for m in ms)]
    rest = P({tuple((a, e) for a, e in m if (a, e) not in common): c for m, c in d.d.items()})
    pw = sorted({x for m in rest.d for x in m}, key=lambda x: (x[0].id, x[1]))
    for i, u in enumerate(pw):
        for v in pw[:i]:
            A, B, ok = {}, {}, True
            for m, c in rest.d.items():
                if (u in m) == (v in m):
                    ok = False
                    break
                (A if u in m else B)[tuple(x for x in m if x != u and x != v)] = c
            if ok and A and A.keys() == B.keys() and all(B[m] == -c for m, c in A.items()):
                one = lambda x: P({(x,): Fr(1)})
                return [one(x) for x in common] + [P(A), T.sub(one(u), one(v))]
    return None


def integral(p):
    return all(c.denominator == 1 for c in p.d.values()) and all(a.sort == "int" and e > 0 for m in p.d for a, e in m)


def _z3(conds, timeout, want_model=False, linear=False, use=None, seed=0):
    t0 = time.time()
    STATS["z3_queries"] += 1
    conds = list(conds) + (extremum_facts(conds) if linear != 3 else [])
    tr = Tr()
    tr.linear = linear
    if use is not None:
        use.append(tr)
    s = z3.Solver()
    s.set("timeout", timeout)
    if seed:
        s.set("random_seed", seed)
    zs = [tr.cond(c) for c in conds]
    if linear != 3:
        congruence(tr)
        monotone(tr)
    partial_sums(tr)
    if linear in (2, 3):
        limited_products(tr, conds)
    s.add(*zs)
    s.add(*tr.ax)
    t1, c1 = time.time(), time.thread_time()
    r = str(s.check())
    wall, cpu = time.time() - t1, time.thread_time() - c1
    if r == "unknown" and wall > 0.9 * timeout / 1000 and cpu < 0.85 * wall:        # the processor was shared: the time it did not get
        s.set("timeout", int(min(3, wall / max(cpu, 0.1)) * timeout))
        r = str(s.check())
    STATS["z3_s"] += time.time() - t0
    if want_model:
        return r, (s.model() if r == "sat" else None), tr
    return r


def entails(pc, goal, timeout=None):
    """True (proved) or False (not proved)."""
    if goal is T.TRUE:
        return True
    pcs = set(pc)
    if goal in pcs or T.FALSE in pcs:
        return True
    if goal.op == "and":
        return all(entails(pc, g, timeout) for g in goal.args)
    ng = T.cnot(goal)
    return consistent(relevant(pc, ng) + [ng], timeout) == "unsat"


# ------------------------------------------------------------------------------------------------ simplification under conditions
def simplify_linear(p, pc):
    """Decide the guards of a term that the path condition decides by linear reasoning."""
    for _ in range(40):
        for c in _guards(p):
            if linear_entails(pc, c):
                p = replace_guard(p, c, T.TRUE)
                break
            if linear_entails(pc, T.cnot(c)):
                p = replace_guard(p, c, T.FALSE)
                break
        else:
            return p
    return p


def simplify_under(p, pc, depth=0):
    """Decide the guards of a term under the path condition."""
    for _ in range(40):
        g = _guards(p)
        changed = False
        for c in g:
            if c in UNDECIDED.get(frozenset(pc), ()):
                continue
            if entails(pc, c, GUARD_MS):
                p = replace_guard(p, c, T.TRUE)
                changed = True
                break
            if entails(pc, T.cnot(c), GUARD_MS):
                p = replace_guard(p, c, T.FALSE)
                changed = True
                break
            UNDECIDED.setdefault(frozenset(pc), set()).add(c)
        if not changed:
            break
    return p


UNDECIDED = {}
GUARD_MS = 400


def _guards(p, acc=None):
    """Guards at the outer level first (not below a sum or extremum, whose bound variables would escape)."""
    out = []
    seen = set()

    def walk(x):
        if isinstance(x, P):
            for m in x.d:
                for a, _ in m:
                    if a in seen:
                        continue
                    seen.add(a)
                    if a.op == "ind":
                        if a.args[0] not in out and not any(f.args[0].startswith("$k") for f in a.args[0].fv()):
                            out.append(a.args[0])
                    for y in a.args:
                        walk(y)
        elif isinstance(x, C):
            for y in x.args:
                walk(y)
        elif isinstance(x, tuple):
            for y in x:
                walk(y)
    walk(p)
    return sorted(out, key=T.id_c)


def replace_guard(p, c, value):
    """Substitute the truth value of the condition c (and of its negation) in the guards of p."""
    nc = T.cnot(c)

    def fix(x):
        if isinstance(x, P):
            s = {}
            for a in x.atoms():
                n = fix_atom(a)
                if n is not None:
                    s[a] = n
            if not s:
                return x
            r = T.ZERO
            for m, k in x.d.items():
                t = T.pc(k)
                for a, e in m:
                    t = T.mul(t, T.power(s[a] if a in s else T.pa(a), e))
                r = T.add(r, t)
            return r
        if isinstance(x, C):
            return fix_c(x)
        if isinstance(x, tuple):
            return tuple(fix(y) for y in x)
        return x

    def fix_c(x):
        if x is c:
            return value
        if x is nc:
            return T.cnot(value)
        if x.op in ("and", "or"):
            parts = [fix_c(y) for y in x.args]
            if c.op == "and" and x.op == "and" and value is T.FALSE and all(y in x.args for y in c.args):
                return T.FALSE
            return T.cand(*parts) if x.op == "and" else T.cor(*parts)
        if x.op == "not":
            return T.cnot(fix_c(x.args[0]))
        if x.op in ("gt", "ge", "eq"):
            q = fix(x.args[0])
            return x if q is x.args[0] else {"gt": T.gt0, "ge": T.ge0, "eq": T.eq0}[x.op](q)
        return x

    memo = {}

    def fix_atom(a):
        if a in memo:
            return memo[a]
        r = None
        if a.op == "ind":
            n = fix_c(a.args[0])
            if n is not a.args[0]:
                r = T.ONE if n is T.TRUE else (T.ZERO if n is T.FALSE else T.pa(T.mk_atom("ind", (n,), "int")))
        elif a.op in ("var", "pi", "I"):
            r = None
        elif a.op == "sum":
            b = fix(a.args[2])
            if b is not a.args[2]:
                fresh = T.var(f"$s{a.id}", "int")
                r = T.bsum(fresh, a.args[1], T.subst(b, {next(iter(a.args[0].atoms())): fresh}))
        else:
            args = tuple(fix(y) for y in a.args)
            if any(x is not y for x, y in zip(args, a.args)):
                r = T.build(a.op, args, a.sort)
        memo[a] = r
        return r
    return fix(p)


# ------------------------------------------------------------------------------------------------ proving equalities
def prove_eq(pc, a, b, depth=0):
    """'proved' or 'open' for a == b under pc: ring normal form, guards decided, case split over the rest."""
    d = T.sub(a, b)
    if not d.d:
        STATS["ring"] += 1
        return "proved"
    key = d, frozenset(pc)
    if key not in _proved:
        _proved[key] = prove_zero(d, pc, depth)
    return _proved[key]


_proved = {}


def prove_zero(d, pc, depth):
    d = known_guards(d, pc)
    if not d.d:
        STATS["ring"] += 1
        return "proved"
    d = simplify_under(d, pc)
    if not d.d:
        STATS["z3"] += 1
        return "proved"
    d2 = _solve_equalities(d, pc)
    if not d2.d:
        STATS["ring"] += 1
        return "proved"
    if d2 is not d:
        d = simplify_under(d2, pc)
        if not d.d:
            return "proved"
    ab = sorted((a for a in T.all_atoms(d) if a.op == "abs" and not T.is_complex(a.args[0]) and
                 not any(f.args[0].startswith("$k") for f in a.fv)), key=lambda z: z.id)
    if ab and depth < 7:
        x = ab[0].args[0]
        ok = True
        for cc, val in ((T.ge0(x), x), (T.lt(x, T.ZERO), T.neg(x))):
            if consistent(relevant(pc, cc) + [cc]) == "unsat":
                continue
            if prove_eq(list(pc) + [cc], T.rewrite(d, lambda a, args: val if a is ab[0] else None), T.ZERO, depth+1) != "proved":
                ok = False
                break
        if ok:
            STATS["case_split"] += 1
            return "proved"
        return "open"
    g = _guards(d)
    if g and depth < 10:
        c = min(g, key=split_rank)
        ok = True
        for val in (T.TRUE, T.FALSE):
            cc = c if val is T.TRUE else T.cnot(c)
            if consistent(relevant(pc, cc) + [cc]) == "unsat":
                continue
            pc2, d2 = reduced(list(pc) + [cc], replace_guard(d, c, val), cc)
            if prove_eq(pc2, d2, T.ZERO, depth+1) != "proved":
                ok = False
                break
        if ok:
            STATS["case_split"] += 1
            return "proved"
        return "open"
    if not T.is_complex(d) and not any(a.op in ("sum",) for a in d.atoms()):
        if entails(pc, T.eq0(d)):
            STATS["z3"] += 1
            return "proved"
    if depth < 12:
        for step in (settled, shifted, peeled):
            d2 = step(d, pc)
            if d2 is not d:
                return prove_eq(pc, d2, T.ZERO, depth+1)
        d2 = under_binders(d, pc)
        if d2 is not d:
            return prove_eq(pc, d2, T.ZERO, depth+1)
        d2 = strided(d)
        if d2 is not d:
            return prove_eq(pc, d2, T.ZERO, depth+1)
        if merged(d, pc, depth):
            STATS["case_split"] += 1
            return "proved"
        d2 = congruent(d, pc, depth)
        if d2 is not d:
            return prove_eq(pc, d2, T.ZERO, depth+1)
    if TRACE:
        print("OPEN at depth", depth, T.show(d, 6000), [T.show_c(c) for c in pc])
    return "open"


TRACE = os.environ.get("VC_TRACE")


def settled(d, pc):
    """Quotients whose remainder follows from the conditions (by the parity of a size, say) without the rounding."""
    out = {}
    for a in sorted((a for a in T.all_atoms(d) if a.op == "fdiv" and not any(f.args[0].startswith("$k") for f in a.fv)), key=lambda z: z.id):
        p = a.args[0]
        if not all((2*c).denominator == 1 and all(x.sort == "int" and e > 0 for x, e in m) for m, c in p.d.items()):
            continue
        for r in (0, 1):
            exact = T.sub(p, T.pc(Fr(r, 2)))
            if entails(pc, T.eq(T.pa(a), exact), 1000):
                out[a] = exact
                break
    return T.subst(d, out) if out else d


def shifted(d, pc):
    """Sums of n terms as the first one and a sum of n - 1 terms that is a part of the term as well."""
    sums = binders(d, ("sum",))
    here = set(sums)
    for a in sums:
        k, n, body = a.args
        rest = T.sub(n, T.ONE)
        if not any(b is not a and b.args[1] == rest for b in sums):
            continue
        at, = k.atoms()
        fresh = T.var(f"$s{len(T.Atom.table)}", "int")
        tail = T.bsum(fresh, rest, T.subst(body, {at: T.add(fresh, T.ONE)}))
        parts = [b for b in tail.atoms() if b.op == "sum"]
        if len(parts) == 1 and parts[0] in here and (T.ge0(rest) is T.TRUE or entails(pc, T.ge0(rest))):
            return T.rewrite(d, lambda a, args: None, {a: T.add(tail, T.subst(body, {at: T.ZERO}))})
    return d


def stride(a):
    """q if the body of a sum has conditions on the remainder of its variable divided by q."""
    at, = a.args[0].atoms()
    for g in T.all_atoms(a.args[2]):
        if g.op == "ind" and at in g.fv:
            for f in T.all_atoms(g.args[0]):
                if f.op == "fdiv" and at in f.fv:
                    c = f.args[0].d.get(((at, 1),))
                    if c is not None and c.denominator in (2, 3, 4):
                        return c.denominator
    return None


def strided(d):
    """Sums with conditions on the remainder of the index, and the other ones of the same range, as sums over each remainder."""
    sums = binders(d, ("sum",))
    for a in sums:
        q = stride(a)
        if q is None:
            continue
        memo = {}
        for b in sums:
            k, n, body = b.args
            if n == a.args[1]:
                at, = k.atoms()
                total = T.ZERO
                for r in range(q):
                    x = T.var(f"$s{len(T.Atom.table)}", "int")
                    total = T.add(total, T.bsum(x, T.fdiv(T.add(n, T.pc(q - 1 - r)), q), T.subst(body, {at: T.add(T.scale(x, q), T.pc(r))})))
                memo[b] = total
        return T.rewrite(d, lambda z, args: None, memo)
    return d


def merged(d, pc, depth):
    """A combination of sums over the same range that vanishes term by term."""
    count, parts = None, []
    for m, c in d.d.items():
        here = [(a, e) for a, e in m if a.op == "sum"]
        if len(here) != 1 or here[0][1] != 1 or any(f.args[0].startswith("$k") for f in here[0][0].fv):
            return False
        a = here[0][0]
        if count is None:
            count = a.args[1]
        elif a.args[1] != count:
            return False
        parts.append((P({tuple(x for x in m if x[0] is not a): c}), a))
    if len(parts) < 2:
        return False
    names, shape, rng, _ = opened(parts[0][1])
    body = T.ZERO
    for c, a in parts:
        body = T.add(body, T.mul(c, opened(a, names)[3]))
    return prove_eq(list(pc) + rng, body, T.ZERO, depth + 2) == "proved"


def squeezed(pc):
    """Equations p == 0 of which the path condition has both halves."""
    ge = {c.args[0] for c in pc if isinstance(c, C) and c.op == "ge"}
    return [T.eq0(p) for p in ge if T.neg(p) in ge and p.d]


def peeled(d, pc):
    """Sums of n + 1 terms as sums of n terms and the last one."""
    memo = {}
    for a in binders(d, ("sum",)):
        k, n, body = a.args
        if n.d.get((), 0) >= 1 and len(n.d) > 1:
            last = T.sub(n, T.ONE)
            if T.ge0(last) is T.TRUE or entails(pc, T.ge0(last)):
                at, = k.atoms()
                fresh = T.var(f"$s{len(T.Atom.table)}", "int")
                memo[a] = T.add(T.bsum(fresh, last, T.subst(body, {at: fresh})), T.subst(body, {at: last}))
    return T.rewrite(d, lambda a, args: None, memo) if memo else d


def binders(d, ops=("sum", "arrkey")):
    """Sums and arrays in a term that do not stand below another one."""
    out = []

    def walk(x):
        if isinstance(x, P):
            for a in x.atoms():
                if a.op in ops:
                    if a not in out and not any(f.args[0].startswith("$k") for f in a.fv):
                        out.append(a)
                elif a.op not in ("sum", "arrkey"):
                    walk(a.args)
        elif isinstance(x, C):
            walk(x.args)
        elif isinstance(x, tuple):
            for y in x:
                walk(y)
    walk(d)
    return sorted(out, key=lambda a: a.id)


def opened(a, names=None):
    """The index variables of a sum or array (fresh ones), their ranges and the body."""
    ks, shape, body = ((a.args[0],), (a.args[1],), a.args[2]) if a.op == "sum" else a.args[:3]
    if names is None:
        names = tuple(T.var(f"$b{len(T.Atom.table)}_{i}", "int") for i in range(len(ks)))
    rng = [c for x, n in zip(names, shape) for c in (T.ge0(x), T.lt(x, n))]
    return names, shape, rng, T.subst(body, {next(iter(k.atoms())): x for k, x in zip(ks, names)})


def products(c):
    """Whether a condition has products of integer variables."""
    return any(len(m) > 1 and all(a.op == "var" and a.sort == "int" for a, _ in m) for x in conjuncts(c) for y in x.args if isinstance(y, P) for m in y.d)


def closed(a, names, shape, body):
    return T.bsum(names[0], shape[0], body) if a.op == "sum" else T.pa(T.arrkey_atom(names, shape, body, a.args[3]))


def under_binders(d, pc, level=0):
    """Bodies of sums and arrays simplified, with their indices in range."""
    memo = {}
    for a in binders(d):
        names, shape, rng, body = opened(a)
        pc2 = list(pc) + rng
        new = known_guards(simplify_linear(body, pc2), pc2)
        if any(products(c) for c in _guards(new)):
            new = simplify_under(new, pc2)
        if level < 3:
            new = under_binders(new, pc2, level + 1)
        if new is not body and new != body:
            memo[a] = closed(a, names, shape, new)
    return T.rewrite(d, lambda a, args: None, memo) if memo else d


def congruent(d, pc, depth):
    """Sums, arrays and functions of them replaced by others of the same value."""
    atoms = binders(d) + binders(d, ("app",))
    atoms = [a for a in atoms if a.op != "app" or any(isinstance(x, P) and binders(x) for x in a.args[1:])]
    for i, a in enumerate(atoms):
        for b in atoms[:i]:
            if similar(a, b) and same_value(a, b, pc, depth + 4):
                return T.rewrite(d, lambda z, args: None, {a: T.pa(b)})
    return d


def similar(a, b):
    if a.op != b.op or len(a.args) != len(b.args) or a.sort != b.sort:
        return False
    if a.op == "app":
        return a.args[0] == b.args[0]
    return a.op == "sum" or a.args[3] == b.args[3] and len(a.args[0]) == len(b.args[0])


def same_value(a, b, pc, depth):
    if a is b:
        return True
    if a.op == "app":
        for x, y in zip(a.args[1:], b.args[1:]):
            if x == y:
                continue
            if not (isinstance(x, P) and isinstance(y, P)):
                return False
            u, v = whole_atom(x), whole_atom(y)
            if u is not None and v is not None and u.op in ("sum", "arrkey") and similar(u, v):
                if not same_value(u, v, pc, depth):
                    return False
            elif prove_eq(pc, x, y, depth) != "proved":
                return False
        return True
    names, shape, rng, x = opened(a)
    _, shape2, _, y = opened(b, names)
    return all(n == m or prove_eq(pc, n, m, depth) == "proved" for n, m in zip(shape, shape2)) and prove_eq(list(pc) + rng, x, y, depth) == "proved"


def whole_atom(p):
    """The atom a term consists of."""
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def split_rank(c):
    """Equations of variables first, then conditions on variables only, then the rest in the order they were created."""
    simple = all(a.op == "var" for a in T.all_atoms(c))
    eq = any(equation(x) for x in conjuncts(c))
    return (0 if eq and simple else 1 if simple else 2), T.id_c(c)


def conjuncts(c):
    return [y for x in c.args for y in conjuncts(x)] if c.op == "and" else [c]


def reduced(pc, d, cc):
    """The path condition and the term with the new condition cc used in all of them: as a value of guards, and equations of
    variables substituted."""
    pc = [y for x in pc for y in conjuncts(x)]
    for c in conjuncts(cc):
        if c.op == "ge" and T.ge0(T.neg(c.args[0])) in pc:        # p >= 0 and p <= 0
            pc.append(T.eq0(c.args[0]))
            s = equation(pc[-1])
            if s:
                d = T.subst(d, s)
                pc = [x if x is pc[-1] else T.subst(x, s) for x in pc]
                continue
        s = equation(c)
        if s:
            d = T.subst(d, s)
            pc = [x if x is c else T.subst(x, s) for x in pc]
        else:
            d = replace_guard(d, c, T.TRUE)
            pc = [x if x is c or not has_guard(x, c) else replace_guard(x, c, T.TRUE) for x in pc]
    return [x for x in pc if x is not T.TRUE], d


def equation(c):
    """A substitution of an integer variable by an integer term (or of a real variable), from an equation."""
    s = T._solve_eq(c)
    if s:
        (x, p), = s.items()
        if x.sort != "int" or integral(p):
            return s
    return None


def has_guard(x, c):
    n = T.cnot(c)
    return any(a.op == "ind" and (a.args[0] is c or a.args[0] is n) for a in T.all_atoms(x))


def known_guards(d, pc):
    """Guards of the term that stand in the path condition themselves."""
    have = {y for x in pc for y in conjuncts(x)}
    for c in _guards(d):
        if c in have:
            d = replace_guard(d, c, T.TRUE)
        elif T.cnot(c) in have:
            d = replace_guard(d, c, T.FALSE)
    return d


def _solve_equalities(d, pc):
    """Substitute equations var == term of the path condition."""
    for c in list(pc) + squeezed(pc):
        s = T._solve_eq(c)
        if s and next(iter(s)) in d.fv():
            d = T.subst(d, s)
    return d


# ------------------------------------------------------------------------------------------------ numeric evaluation
class EvalError(Exception):
    pass


def _h(*k):
    return int.from_bytes(hashlib.sha256(repr(k).encode()).digest()[:6], "big")/2**48


class Env:
    """A numeric valuation: variables by name, uninterpreted functions by a seeded hash unless given."""
    def __init__(self, values, funcs=None, seed=0):
        self.values, self.funcs, self.seed, self.bound = values, funcs or {}, seed, {}

    def term(self, p):
        t = 0
        for m, c in p.d.items():
            x = c if c.denominator != 1 else int(c)
            for a, e in m:
                v = self.atom(a)
                if isinstance(x, Fr) and not isinstance(v, (int, Fr)):
                    x = float(x)
                if e < 0 and v == 0:
                    raise EvalError("division by zero")
                if isinstance(v, int) and e < 0:
                    v = Fr(v)
                if isinstance(v, Fr) and not isinstance(x, (int, Fr)):
                    v = float(v)
                if isinstance(v, float) and abs(v) > 1e150:
                    raise EvalError("overflow")
                x = x*v**(int(e) if float(e).is_integer() else float(e))
            if isinstance(x, Fr) and not isinstance(t, (int, Fr)):
                x = float(x)
            elif isinstance(t, Fr) and not isinstance(x, (int, Fr)):
                t = float(t)
            t = t + x
        return t

    def atom(self, a):
        op = a.op
        if op == "var":
            n = a.args[0]
            if n in self.bound:
                return self.bound[n]
            if n in self.values:
                return self.values[n]
            raise EvalError("no value for " + n)
        if op == "I":
            return 1j
        if op == "pi":
            return math.pi
        if op == "ind":
            return 1 if self.cond(a.args[0]) else 0
        if op == "app":
            args = [self.term(x) if isinstance(x, P) else x for x in a.args[1:]]
            n = a.args[0]
            f = self.funcs.get(n) or NUM_FUNCS.get(n)
            if f:
                return f(*args)
            v = 4*_h(self.seed, n, *[round(float(x), 9) if isinstance(x, (int, float, Fr)) else x for x in args]) - 2
            return int(v*3) if a.sort == "int" else v
        if op == "sum":
            k, n, body = a.args
            name = next(iter(k.atoms())).args[0]
            n = self.term(n)
            if n > 400:
                raise EvalError("sum too long")
            old = self.bound.get(name)
            t = 0
            for i in range(int(n)):
                self.bound[name] = i
                t = t + self.term(body)
            if old is None:
                self.bound.pop(name, None)
            else:
                self.bound[name] = old
            return t
        if op == "arrkey":
            ks, shape, body, tag = a.args
            ns = [int(self.term(x)) for x in shape]
            tot = 1
            for x in ns:
                tot *= x
            if tot > 3000 or tot <= 0:
                raise EvalError("array")
            names = [next(iter(k.atoms())).args[0] for k in ks]
            import itertools
            old = {n: self.bound.get(n) for n in names}
            vals = []
            for idx in itertools.product(*[range(x) for x in ns]):
                self.bound.update(zip(names, idx))
                vals.append(self.term(body))
            for n, v in old.items():
                if v is None:
                    self.bound.pop(n, None)
                else:
                    self.bound[n] = v
            if tag in ("max", "min"):
                return max(vals) if tag == "max" else min(vals)
            raise EvalError("array key " + str(tag))
        x = self.term(a.args[0])
        if op == "cos":
            return math.cos(x)
        if op == "sin":
            return math.sin(x)
        if op == "exp":
            return cmath.exp(x) if isinstance(x, complex) else math.exp(min(x, 300))
        if op == "sqrt":
            if x < 0:
                if x > -1e-9:
                    return 0.0
                raise EvalError("sqrt")
            return math.sqrt(x)
        if op == "abs":
            return abs(x)
        if op == "inv":
            if x == 0:
                raise EvalError("division by zero")
            return 1/x if not isinstance(x, (int, Fr)) else Fr(1)/x
        if op == "fdiv":
            return math.floor(x)
        if op == "round":
            r = round(float(x) if not isinstance(x, Fr) else x, a.args[1])
            return r
        raise EvalError(op)

    def cond(self, c):
        op = c.op
        if op == "T":
            return True
        if op == "F":
            return False
        if op in ("gt", "ge", "eq"):
            v = self.term(c.args[0])
            if isinstance(v, complex):
                if abs(v.imag) > 1e-9 and op != "eq":
                    raise EvalError("complex")
                v = v.real if op != "eq" else abs(v)
            if isinstance(v, float):
                if op == "eq":
                    return abs(v) < 1e-9
                if abs(v) < 1e-12:
                    v = 0.0
            return v > 0 if op == "gt" else (v >= 0 if op == "ge" else v == 0)
        if op == "and":
            return all(self.cond(x) for x in c.args)
        if op == "or":
            return any(self.cond(x) for x in c.args)
        if op == "not":
            return not self.cond(c.args[0])
        return _h(self.seed, "b", c.args[0], *[str(self.term(x)) if isinstance(x, P) else str(x) for x in c.args[1:]]) < 0.5


NUM_FUNCS = {"arctan2": lambda y, x: math.atan2(y, x), "floorint": lambda x: math.floor(x),
             "round": lambda x, d: round(float(x), int(d)), "pow": lambda x, y: float(x)**float(y)}


def refute(pc, goal, sampler, tries=400, seed=1, funcs=None):
    """A valuation satisfying pc and falsifying the goal, or None.  sampler(rng, name, sort) gives a value for a variable."""
    rng = random.Random(seed)
    fv = set()
    for c in list(pc) + [goal]:
        fv |= c.fv()
    names = sorted((a.args[0], a.sort) for a in fv if a.op == "var" and not a.args[0].startswith("$w"))
    ws = [a for a in fv if a.op == "var" and a.args[0].startswith("$w")]
    if ws:
        return None
    hard = [c for c in pc]
    # equations var == term in the path condition are solved rather than sampled
    eqs = []
    for c in hard:
        s = T._solve_eq(c)
        if s:
            (x, t), = s.items()
            if x.args[0] not in [e[0] for e in eqs]:
                eqs.append((x.args[0], x.sort, t))
    model = None
    t_end = time.time() + 6
    for i in range(tries):
        if time.time() > t_end:
            break
        vals = {n: sampler(rng, n, s) for n, s in names}
        env = Env(vals, funcs, seed=rng.random())
        try:
            for n, s, t in eqs:
                v = env.term(t)
                if s == "int":
                    if float(v) != int(v):
                        raise EvalError("int")
                    v = int(v)
                vals[n] = v
            if all(env.cond(c) for c in hard) and not _holds_with_margin(env, goal):
                return vals, env
        except (EvalError, OverflowError, ZeroDivisionError, TypeError):
            continue
    # values suggested by the solver for the arithmetic part of the path condition
    try:
        r, m, tr = _z3(hard, 2000, want_model=True)
    except T.Unsupported:
        return None
    if m is not None:
        vals = {}
        for n, s in names:
            a = T.mk_atom("var", (n,), s)
            z = tr.vars.get(a)
            v = m.eval(z, model_completion=True) if z is not None else None
            if v is None:
                vals[n] = sampler(rng, n, s)
            elif s == "int":
                vals[n] = v.as_long()
            else:
                try:
                    vals[n] = Fr(v.numerator_as_long(), v.denominator_as_long())
                except Exception:
                    vals[n] = float(v.approx(12).as_fraction())
        for _ in range(20):
            env = Env(vals, funcs, seed=rng.random())
            try:
                if all(env.cond(c) for c in hard) and not _holds_with_margin(env, goal):
                    return vals, env
            except (EvalError, OverflowError, ZeroDivisionError, TypeError):
                pass
    return None


def _holds_with_margin(env, goal):
    if goal.op == "eq":
        v = env.term(goal.args[0])
        scale_ = sum(abs(_mono(env, m, c)) for m, c in goal.args[0].d.items())
        return abs(v) <= 1e-7*(1 + float(scale_))
    if goal.op in ("gt", "ge"):
        v = env.term(goal.args[0])
        if isinstance(v, complex):
            raise EvalError("complex")
        if isinstance(v, float):
            scale_ = sum(abs(_mono(env, m, c)) for m, c in goal.args[0].d.items())
            return v >= -1e-7*(1 + float(scale_))
        return v > 0 if goal.op == "gt" else v >= 0
    if goal.op == "and":
        return all(_holds_with_margin(env, x) for x in goal.args)
    if goal.op == "or":
        return any(_holds_with_margin(env, x) for x in goal.args)
    return env.cond(goal)


def _mono(env, m, c):
    x = float(c)
    for a, e in m:
        x = x*complex(env.atom(a))**(float(e))
    return x
