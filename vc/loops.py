"""Loops with a symbolic number of iterations: the state after k iterations in closed form, for every k.

The body is executed once for a generic iteration k with unknown values of everything it changes; the changes found in that
way are recurrences over k, which are solved exactly (unchanged, overwritten, accumulated, flag, running extremum) or guessed
(arrays written position by position) and then checked: from the guessed state before iteration k the body must lead to the
guessed state before iteration k+1.  What cannot be solved becomes an unknown function of k (sound: nothing is assumed)."""
import functools
import itertools

from . import terms as T
from . import prove as PR
from . import sym as S
from . import seq as Q
from .sym import Sym, SymBool, SArr, Raised, Unsupported, PathEnd
from .seq import VList, VObj, Poison


# ------------------------------------------------------------------------------------------------ values
def subst_value(v, s):
    """The value with atoms replaced (a new object where it is one)."""
    if isinstance(v, Sym):
        return S.mk(T.subst(v.p, s), v.kind)
    if isinstance(v, SymBool):
        return S.mkbool(T.subst_c(v.c, s, {}))
    if isinstance(v, SArr):
        f = v.snapshot()
        vs = [T.var(f"$i{len(T.Atom.table)}_{j}", "int") for j in range(v.ndim)]
        body = f(tuple(vs))
        ats = [next(iter(x.atoms())) for x in vs]
        dims = tuple(T.subst(d, s) for d in v.dims)
        return SArr(dims, functools.lru_cache(maxsize=None)(lambda ix: T.subst(body, {**s, **dict(zip(ats, ix))})), v.kind, dtype=v._dtype)
    if isinstance(v, VList):
        if v.building is not None:
            raise Unsupported("element of a list that is being built")
        if v.n is None:
            return VList([subst_value(x, s) for x in list.__iter__(v)], v.cls)
        x = T.var(f"$i{len(T.Atom.table)}", "int")
        at, = x.atoms()
        f = v.fn
        return VList((), v.cls, T.subst(v.n, s), lambda i: subst_value(f(x), {**s, at: i}))
    if isinstance(v, tuple):
        r = [subst_value(x, s) for x in v]
        return type(v)(*r) if hasattr(v, "_fields") else tuple(r)
    if isinstance(v, VObj):
        new = {n: subst_value(x, s) for n, x in v.attrs.items()}
        t = v.tag
        if isinstance(t, tuple):
            t = tuple(T.subst(x, s) if isinstance(x, T.P) else x for x in t)
        if t == v.tag and all(new[n] is v.attrs[n] for n in new):
            return v
        return VObj(v.cls, new, t)
    return v


def mentions(v, atoms):
    """Does a value depend on one of the atoms?"""
    if isinstance(v, Sym):
        return bool(v.p.fv() & atoms)
    if isinstance(v, SymBool):
        return bool(v.c.fv() & atoms)
    if isinstance(v, SArr):
        vs = tuple(T.var(f"$m{j}", "int") for j in range(v.ndim))
        return bool(v.snapshot()(vs).fv() & atoms) or any(d.fv() & atoms for d in v.dims)
    if isinstance(v, (tuple, VList)) and not Q.is_symlist(v):
        return any(mentions(x, atoms) for x in v)
    if isinstance(v, VObj):
        return any(mentions(x, atoms) for x in v.attrs.values())
    return isinstance(v, (VList, Poison))


def is_number(v):
    return isinstance(v, (int, bool, Sym, SymBool)) and not isinstance(v, SArr)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (Sym, SymBool, int, bool)) and isinstance(b, (Sym, SymBool, int, bool)):
        x, y = S.lift(a), S.lift(b)
        return x == y
    return False


SORT = {"bool": "int", "int": "int", "npint": "int", "float": "real", "complex": "complex"}


# ------------------------------------------------------------------------------------------------ state
class State:
    """Everything a loop body can change: the variables of its frame and the objects that existed before the loop."""

    def __init__(self, fr, heap):
        self.fr, self.heap = fr, list(heap)
        self.take()

    def take(self):
        self.loc = dict(self.fr.locals)
        self.obj = [o.save() for o in self.heap]

    def put(self):
        self.fr.locals.clear()
        self.fr.locals.update(self.loc)
        for o, s in zip(self.heap, self.obj):
            o.restore(s)

    def get(self, key):
        """Current value at a location."""
        if key[0] == "local":
            return self.fr.locals.get(key[1], ABSENT)
        if key[0] == "attr":
            return self.heap[key[1]].save().get(key[2], ABSENT)
        return self.heap[key[1]].save()

    def initial(self, key):
        if key[0] == "local":
            return self.loc.get(key[1], ABSENT)
        if key[0] == "attr":
            v = self.obj[key[1]].get(key[2], ABSENT)
            o = self.heap[key[1]]
            if v is ABSENT and isinstance(o, VObj) and o.cls is not None and is_number(o.cls.lookup(key[2])):
                return o.cls.lookup(key[2])          # read from the class as long as the object does not have its own
            return v
        return self.obj[key[1]]

    def set(self, key, v):
        if key[0] == "local":
            if v is ABSENT:
                self.fr.locals.pop(key[1], None)
            else:
                self.fr.locals[key[1]] = v
        elif key[0] == "attr":
            o = self.heap[key[1]]
            d = o.save()
            d[key[2]] = v
            o.restore(d)
        else:
            self.heap[key[1]].restore(v)

    def changes(self):
        out = []
        for n in set(self.fr.locals) | set(self.loc):
            if not same(self.fr.locals.get(n, ABSENT), self.loc.get(n, ABSENT)):
                out.append(("local", n))
        for i, (o, s) in enumerate(zip(self.heap, self.obj)):
            now = o.save()
            if isinstance(s, dict):
                for n in set(now) | set(s):
                    if not same(now.get(n, ABSENT), s.get(n, ABSENT)):
                        out.append(("attr", i, n))
            elif isinstance(s, set):
                if now != s:
                    raise Unsupported("set changed in a loop")
            elif isinstance(o, VList):
                if now[1] is not s[1] or now[2] is not s[2] or len(now[0]) != len(s[0]) or any(not same(x, y) for x, y in zip(now[0], s[0])) or len(now[3] or ()) != len(s[3] or ()):
                    out.append(("list", i))
            elif now is not s:
                out.append(("arr", i))
        return sorted(out, key=str)


class Absent:
    def __repr__(self):
        return "<unbound>"


ABSENT = Absent()


# ------------------------------------------------------------------------------------------------ the loop
def for_loop(interp, node, fr, it):
    from .interp import Continue

    def body():
        try:
            interp.block(node.body, fr)
        except Continue:
            pass
    place = (str(getattr(fr.module, "name", "")), node.lineno, node.col_offset)
    generic(interp, fr, it, lambda x: interp.assign(node.target, x, fr), body, (lambda: interp.block(node.orelse, fr)) if node.orelse else None, None, place)


PEEL = set()         # loops of which the first iteration is run on its own


class NeedsFirst(Unsupported):
    """A variable that gets its value in the first iteration only: the contract starts again, the first iteration is run on its own."""

    def __init__(self, why, place):
        super().__init__(why)
        self.place = place


def generic(interp, fr, it, assign_target, body, else_body, names, place=None):
    c = S.ctx()
    n, fn = it.n, it.fn
    if not c.entails(T.lt(T.ZERO, n)):
        if not c.branch(T.lt(T.ZERO, n)):
            if else_body:
                else_body()
            return
    if place in PEEL:
        from .interp import Break
        try:
            assign_target(fn(T.ZERO))
            body()
        except Break:
            return
        n, fn = T.sub(n, T.ONE), (lambda kk, f=fn: f(T.add(kk, T.ONE)))
        if not c.branch(T.lt(T.ZERO, n)):
            if else_body:
                else_body()
            return
    k = c.freshvar("k", "int")
    loop = Loop(interp, fr, k, n, lambda kk: assign_target(fn(kk)), body, else_body)
    loop.place = place
    loop.run()


def truth(p):
    """The condition that a value of 0 or 1 is 1."""
    c = T.eq(p, T.ONE)
    while c.op == "eq":
        (a,) = [x for x in c.args[0].atoms() if x.op == "ind"] if sum(x.op == "ind" for x in c.args[0].atoms()) == 1 else (None,)
        if a is None:
            break
        at = lambda x: T.subst(c.args[0], {a: x})
        if at(T.ONE) == T.ZERO and at(T.ZERO).is_const() and at(T.ZERO) != T.ZERO:
            c = a.args[0]
        else:
            break
    return c


class Loop:
    def __init__(self, interp, fr, k, n, enter, body, else_body):
        self.interp, self.fr, self.k, self.n, self.enter, self.body, self.else_body = interp, fr, k, n, enter, body, else_body
        self.kat, = k.atoms()
        self.c = S.ctx()
        self.broke = False
        self.place = None
        self.endless = False          # only its exits end the loop
        self.tested = None            # tests of a while loop

    # ---------- running the body from a given state
    def outcome(self):
        from .interp import Break, Return
        c = self.c
        mark = len(c.heap)
        try:
            self.enter(self.k)
            self.body()
            res = ("next", None)
        except Break:
            res = ("break", None)
        except Return as r:
            res = ("return", r.v)
        except Raised as e:
            res = ("raise", e)
        return res, mark

    def probe(self, setup, collect, quiet):
        """All local paths of the body from the state made by setup: [(conds, outcome, collected, decisions)]."""
        c = self.c
        n0, o0 = c.n, c.objs
        hi = [n0]

        def thunk():
            c.n, c.objs = n0, o0
            setup()
            res, mark = self.outcome()
            col = collect(res) if res[0] == "next" else None
            hi[0] = later(hi[0], c.n)
            del c.heap[mark:]
            return res, col
        c.quiet += 1 if quiet else 0
        c.loopvars.append(self.k)
        depth, warned = self.interp.depth, len(c.warned)
        try:
            out = c.explore(thunk)
        finally:
            c.loopvars.pop()
            c.quiet -= 1 if quiet else 0
            self.interp.depth = depth
            c.n = n0
        self.hi = later(getattr(self, "hi", {}), hi[0])
        self.n0 = n0
        return [(conds, r[0], r[1], pre, facts) for conds, r, pre, facts in out]

    def run(self):
        c, k = self.c, self.k
        st = State(self.fr, c.heap)
        npc = len(c.pc)
        c.assume(T.cand(T.ge0(k), T.lt(k, self.n)))
        try:
            # which locations change
            changed = {}
            for _ in range(8):
                paths = self.probe(lambda: self.havoc(st, changed), lambda res: self.final(st), True)
                new = False
                for conds, res, fin, pre, facts in paths:
                    if res[0] != "next":
                        continue
                    for key, v in fin.items():
                        new |= self.note(st, changed, key, v)
                if not new:
                    break
            else:
                raise Unsupported("changes of a loop do not settle")
            first = [(conds, fin) for conds, res, fin, pre, _ in paths if res[0] == "next"]
            self.wrong = set()
            keep = {}
            sols = self.solve(st, changed, first)
            open_ = {key for key in changed if changed[key][0] == "arr" and key in self.guessed | self.unknowns}
            known = {key: sols[key] for key in changed if changed[key][0] == "num" and key not in self.unknowns}
            if known and any(st.heap[key[1]].ndim == 1 for key in open_):      # once more, with the numbers known
                def partly():
                    self.havoc(st, changed)
                    for key, f in known.items():
                        st.set(key, f(k))
                paths = self.probe(partly, lambda res: self.final(st), True)
                if not any(self.note(st, dict(changed), key, v) for _, res, fin, _, _ in paths if res[0] == "next" for key, v in fin.items()):
                    first = [(conds, fin) for conds, res, fin, pre, _ in paths if res[0] == "next"]
                    keep = known
            while True:
                sols = self.solve(st, changed, first, keep)

                def setup(kk=k):
                    st.put()
                    for key, f in sols.items():
                        v = f(kk)
                        if v is not SKIP:
                            st.set(key, v)
                guessed = [key for key in sols if key in self.guessed]
                if guessed:          # the guesses are checked first, without obligations of the body
                    paths = self.probe(setup, lambda res: self.final(st), True)
                    bad = [key for key in guessed if not all(self.inductive(st, key, fin.get(key, st.initial(key)), sols[key], conds + facts)
                                                             for conds, res, fin, pre, facts in paths if res[0] == "next")]
                    if bad:
                        self.wrong.update(bad)
                        continue
                break
            # generic iteration from the solved state, with obligations
            if self.endless:         # none of the iterations before was the last one
                if not guessed:
                    paths = self.probe(setup, lambda res: self.final(st), True)
                noexit = T.cor(*[self.global_only(conds) for conds, res, fin, pre, facts in paths if res[0] == "next"])
                j = T.var(f"$q{len(T.Atom.table)}", "int")
                c.assume(T.forall(j, k, T.subst(noexit, {self.kat: j})))
            elif self.tested is not None:      # the test held before each of the iterations made so far
                if not guessed:
                    paths = self.probe(setup, lambda res: self.final(st), True)
                j, done = T.var(f"$q{len(T.Atom.table)}", "int"), set()
                tests = {x for t in self.tested for x in PR.conjuncts(t)}
                for conds, res, fin, pre, facts in paths:
                    if res[0] == "next" and not any(self.inner(x) for x in conds):
                        for f in facts:
                            if f in tests and self.kat in f.fv() and not self.inner(f):
                                for x in PR.conjuncts(f):
                                    x = T.implies(T.cand(*conds), x)
                                    if x not in done:
                                        done.add(x)
                                        c.assume(T.forall(j, k, T.subst(x, {self.kat: j})))
            paths = self.probe(setup, lambda res: self.final(st), False)
        finally:
            st.put()
            del c.pc[npc:]
        exits = [(conds, pre, res) for conds, res, fin, pre, _ in paths if res[0] != "next"]
        stays = [(conds, facts) for conds, res, fin, pre, facts in paths if res[0] == "next"]
        self.finish(st, sols, setup, exits, stays, paths)

    # ---------- locations
    def final(self, st):
        d = {}
        cur = State.__new__(State)
        for key in st.changes():
            d[key] = self.capture(st, key)
        for key in getattr(self, "havocked", ()):
            d.setdefault(key, self.capture(st, key))
        return d

    def capture(self, st, key):
        if key[0] == "list":
            o = st.heap[key[1]]
            return ("list", list(list.__iter__(o)), o.n, o.fn, None if o.building is None else list(o.building))
        v = st.get(key)
        if isinstance(v, SArr):          # its content now
            f = v.snapshot()
            v2 = SArr.__new__(SArr)
            v2.__dict__.update(v.__dict__)
            v2.base, v2._fn = None, f
            return v2
        return v

    def note(self, st, changed, key, v):
        """Record that a location changes to v; True if something new was learnt."""
        old = changed.get(key)
        init = st.initial(key)
        if key[0] == "list":
            o = st.heap[key[1]]
            n0 = T.pc(len(init[0])) if init[1] is None else init[1]
            if init[3] is not None:          # appended to in an outer loop
                if old is None:
                    changed[key] = ("append",)
                return old is None
            if old is not None and old[0] == "append":
                return False
            n1 = T.pc(len(v[1])) if v[2] is None else v[2]
            if old is None:
                changed[key] = ("append",) if n1 != n0 else ("content", f"h{self.k}_{len(changed)}", n0)
                return True
            if n1 != n0:
                raise Unsupported("list changed in several ways in a loop")
            return False
        if key[0] == "arr":
            if old is None:
                changed[key] = ("arr", f"h{self.k}_{len(changed)}")
                return True
            return False
        # variables and attributes
        if init is ABSENT or isinstance(init, Poison):
            kind = ("temp",)
        elif is_number(init) and is_number(v):
            kd = S.lift(init)[1]
            kv = S.lift(v)[1]
            if kd != kv:
                kd = S.join(kd, kv)
            if old is not None and old[0] == "num":
                kd = kd if kd == old[2] else S.join(kd, old[2])
            kind = ("num", old[1] if old is not None and old[0] == "num" else T.var(f"h{self.k}_{len(changed)}", SORT[kd]), kd)
            if kind[1].atoms() and next(iter(kind[1].atoms())).sort != SORT[kd]:
                kind = ("num", T.var(f"h{self.k}_{len(changed)}x", SORT[kd]), kd)
        elif is_number(init) and isinstance(v, SArr) and v.ndim and not any(d.fv() & {self.kat} for d in v.dims):
            kind = ("arrval", old[1] if old is not None else f"h{self.k}_{len(changed)}", S.join(S.lift(init)[1], v.kind), v.dims)
        elif isinstance(init, SArr) and isinstance(v, SArr) and len(init.dims) == len(v.dims) and all(a == b for a, b in zip(init.dims, v.dims)):
            kd = S.join(init.kind, v.kind) if init.kind != v.kind else v.kind
            kind = ("arrval", old[1] if old is not None else f"h{self.k}_{len(changed)}", kd)
        else:
            kind = ("temp",)
        if old is not None and old[0] == "temp":
            return False
        if old == kind:
            return False
        changed[key] = kind
        return True

    def havoc(self, st, changed):
        """The state before iteration k with unknown values at the changed locations."""
        st.put()
        self.havocked = list(changed)
        for key, d in changed.items():
            if d[0] == "temp":
                st.set(key, Poison("was assigned in an earlier iteration of a loop", self.place))
            elif d[0] == "num":
                st.set(key, S.mkbool(T.eq(d[1], T.ONE)) if d[2] == "bool" else Sym(d[1], d[2]))
            elif d[0] == "arrval":
                init = self.array0(st, key, d)
                nm = d[1]
                st.set(key, SArr(init.dims, lambda ix, nm=nm, kd=d[2]: T.app(nm, tuple(ix), SORT[kd]), d[2]))
            elif d[0] == "arr":
                o = st.heap[key[1]]
                nm = d[1]
                o._fn = lambda ix, nm=nm, kd=o.kind: T.app(nm, tuple(ix), SORT[kd])
            elif d[0] == "append":
                st.heap[key[1]].building = []
            elif d[0] == "content":
                o = st.heap[key[1]]
                nm = d[1]
                kd = self.list_kind(st, key)
                o.restore(([], d[2], lambda i, nm=nm, kd=kd: Sym(T.app(nm, (i,), SORT[kd]), kd), None))

    def array0(self, st, key, d):
        """The array a variable holds before the loop (a number that becomes an array counts as a constant array)."""
        a = st.initial(key)
        if isinstance(a, SArr):
            return a
        p = S.term(a)
        return SArr(d[3], lambda ix: p, d[2])

    def list_kind(self, st, key):
        s = st.initial(key)
        if s[1] is None:
            ks = [S.lift(x) for x in s[0]]
            if any(x is None for x in ks):
                raise Unsupported("list of objects changed in a loop")
            k = "int"
            for x in ks:
                k = S.join(k, x[1])
            return "float" if k == "int" else k
        x = S.lift(s[2](T.var("$probe", "int")))
        if x is None:
            raise Unsupported("list of objects changed in a loop")
        return "float" if x[1] == "int" else x[1]

    # ---------- recurrences
    def solve(self, st, changed, paths, keep=()):
        """For each changed location a function of the number of iterations done."""
        self.guessed, self.unknowns = set(), set()
        names = {}
        for key, d in changed.items():
            if d[0] == "num":
                names[next(iter(d[1].atoms()))] = key
            elif d[0] in ("arr", "arrval", "content"):
                names[d[1]] = key
        hv = set(names)
        merged = {}
        for key, d in changed.items():
            merged[key] = self.merge(st, key, d, paths)
        sols, forms = {}, dict(keep)
        todo = [key for key in changed if key not in forms]
        progress = True
        while todo and progress:
            progress = False
            for key in list(todo):
                others = self.deps(merged[key], changed[key], hv, names) - {key}
                if others - set(forms):
                    continue
                forms[key] = self.closed(st, key, changed[key], merged[key], forms, changed, names)
                todo.remove(key)
                progress = True
        for key in todo:                 # mutually dependent: unknown
            forms[key] = self.unknown(st, key, changed[key])
        for key in todo:
            pass
        for key in changed:
            sols[key] = forms[key]
        return sols

    def merge(self, st, key, d, paths):
        """New value at the location after iteration k, as one value over all local paths."""
        vals = [(conds, fin.get(key, MISSING)) for conds, fin in paths]
        if not vals:
            return None
        if d[0] == "append":
            counts = {len(v[4]) if v is not MISSING and v[4] is not None else 0 for _, v in vals}
            if len(counts) != 1:
                return ("conditional",)
            return ("append", [(conds, v[4]) for conds, v in vals])
        if d[0] == "num":
            def get(v):
                return d[1] if v is MISSING else (S.lift(v)[0] if is_number(v) else None)
            ts = [(conds, get(v)) for conds, v in vals]
            if any(t is None for _, t in ts):
                return None
            return fold(ts)
        if d[0] in ("arr", "arrval", "content"):
            o = st.heap[key[1]] if key[0] != "local" and d[0] != "arrval" else None
            nd = 1 if d[0] == "content" else (o.ndim if d[0] == "arr" else self.array0(st, key, d).ndim)
            ix = tuple(T.var(f"$x{i}", "int") for i in range(nd))
            kd = self.list_kind(st, key) if d[0] == "content" else (o.kind if d[0] == "arr" else d[2])

            def get(v):
                if v is MISSING:
                    return T.app(d[1], ix, SORT[kd])
                if d[0] == "content":
                    f = v[3] if v[2] is not None else VList(v[1]).elem
                    x = S.lift(f(ix[0]))
                    return None if x is None else x[0]
                if d[0] == "arr":
                    return v(ix)
                return v.at(*ix) if isinstance(v, SArr) else None
            ts = [(conds, get(v)) for conds, v in vals]
            if any(t is None for _, t in ts):
                return None
            return (ix, fold(ts))
        # temporaries: the value on each path
        return ("temp", vals)

    def deps(self, m, d, hv, names):
        if m is None:
            return set()
        if isinstance(m, tuple) and m and m[0] in ("append", "temp", "conditional"):
            return set(names.values()) if m[0] == "append" or (m[0] == "temp" and all(is_number(v) for _, v in m[1])) else set()
        t = m[1] if isinstance(m, tuple) else m
        return self.hdeps(t, names)

    def hdeps(self, t, names):
        out = set()
        for a in T.all_atoms(t):
            if a in names:
                out.add(names[a])
            elif a.op == "app" and a.args[0] in names:
                out.add(names[a.args[0]])
        return out

    def resolver(self, forms, changed, names):
        """Replaces unknown values before iteration k by the closed forms."""
        memo = {}

        def res(t):
            def f(a, args):
                if a in names:
                    key = names[a]
                    if key in forms:
                        v = forms[key](self.k)
                        return S.lift(v)[0] if is_number(v) else None
                if a.op == "app" and args[0] in names:
                    key = names[args[0]]
                    if key in forms:
                        v = forms[key](self.k)
                        d = changed[key]
                        if d[0] == "arr":
                            return v(tuple(args[1:]))
                        if d[0] == "arrval":
                            return v.at(*args[1:])
                        return S.lift(v[2](args[1]))[0]
                return None
            return T.rewrite(t, f)
        return res

    def closed(self, st, key, d, m, forms, changed, names):
        k, kat, n, c = self.k, self.kat, self.n, self.c
        res = self.resolver(forms, changed, names)
        if m is None:
            return self.unknown(st, key, d)
        if d[0] == "append":
            if m[0] == "conditional":
                return self.unknown(st, key, d)
            return self.appended(st, key, [([res(x) for x in conds], elems) for conds, elems in m[1]])
        if d[0] == "temp":
            return self.temporary(st, key, m[1], res, set(names))
        if d[0] == "num":
            h = d[1]
            hat, = h.atoms()
            init, kd = S.lift(st.initial(key))[0], d[2]

            def wrap(f):
                def g(kk):
                    p = f(kk)
                    return S.mkbool(T.eq(p, T.ONE)) if kd == "bool" else S.mk(p, kd)
                return g
            t = res(m)
            if kd == "bool":         # the number of the truth value h == 1 is h
                t = T.subst(t, {next(iter(T.ite(T.eq(h, T.ONE), T.ONE, T.ZERO).atoms())): h})
                if hat in t.fv():
                    yes, no = T.subst(t, {hat: T.ONE}), T.subst(t, {hat: T.ZERO})
                    if yes == T.ONE:
                        t = T.ite(truth(no), T.ONE, h)
                    elif no == T.ZERO:
                        t = T.ite(truth(yes), h, T.ZERO)
            D = T.sub(t, h)
            free = lambda x: hat not in x.fv()
            if free(t):
                return wrap(lambda kk: T.ite(T.eq(kk, T.ZERO), init, T.subst(t, {kat: T.sub(kk, T.ONE)})) if not positive(self, kk)
                            else T.subst(t, {kat: T.sub(kk, T.ONE)}))
            if free(D):
                j = T.var(f"$j{len(T.Atom.table)}", "int")
                jat, = j.atoms()
                B = T.subst(D, {kat: j})
                return wrap(lambda kk: T.add(init, T.bsum(j, kk, B)))
            B = self.first_apart(t, h, {hat: init}, lambda x: hat in x.fv())
            if B is not None:
                j, B = B
                return wrap(lambda kk: T.add(init, T.bsum(j, kk, B)))
            r = self.running(t, h, hat)
            if r is not None:
                j = T.var(f"$j{len(T.Atom.table)}", "int")
                tag, B = r[0], T.subst(r[1], {hat: init, kat: j})
                return wrap(lambda kk: T.ite(T.lt(T.ZERO, kk), T.extremum(tag, j, kk, B), init))
            r = self.guarded_update(t, h, hat)
            if r is not None:
                cond, val = r
                j = T.var(f"$j{len(T.Atom.table)}", "int")
                if hat not in cond.fv() and not (val.fv() & {kat}):
                    C = T.subst(cond, {kat: j})
                    return wrap(lambda kk: T.ite(T.exists(j, kk, C), val, init))
                for tag, want in (("max", T.lt(h, val)), ("max", T.le(h, val)), ("min", T.lt(val, h)), ("min", T.le(val, h))):
                    if cond is want:
                        V = T.subst(val, {kat: j})

                        def f(kk, tag=tag, V=V):
                            M = T.extremum(tag, j, kk, V)
                            better = T.lt(init, M) if tag == "max" else T.lt(M, init)
                            return T.ite(T.cand(T.lt(T.ZERO, kk), better), M, init)
                        return wrap(f)
            return self.unknown(st, key, d)
        # arrays and lists of numbers
        ix, t = m
        nm = d[1]
        xs = [next(iter(x.atoms())) for x in ix]
        if d[0] == "content":
            s = st.initial(key)
            f0 = VList(s[0]).elem if s[1] is None else s[2]
            init = lambda i: S.term(f0(i[0]))
            kd = self.list_kind(st, key)
        elif d[0] == "arr":
            init = st.initial(key)
            kd = st.heap[key[1]].kind
        else:
            a0 = self.array0(st, key, d)
            init, kd = a0.snapshot(), d[2]
        h = T.app(nm, ix, SORT[kd])
        hat, = h.atoms()
        t = under_equations(res(t), kat, xs)
        if any(a.op == "app" and a.args[0].startswith("u!") for a in T.all_atoms(t)):        # from a loop within this one
            self.unknowns.add(key)
        D = T.sub(t, h)

        def mentions_h(x):
            return any(a.op == "app" and a.args[0] == nm for a in T.all_atoms(x))
        j = T.var(f"$j{len(T.Atom.table)}", "int")
        at0 = init(ix)

        def wrap(f):
            if d[0] == "arr":
                return lambda kk: functools.lru_cache(maxsize=None)(lambda i: f(kk, i))
            if d[0] == "arrval":
                return lambda kk: SArr(a0.dims, functools.lru_cache(maxsize=None)(lambda i: f(kk, i)), kd)
            return lambda kk: ([], d[2], lambda i: S.mk(f(kk, (i,)), kd), None)
        if not mentions_h(t):

            def f(kk, i):
                v = T.subst(t, {**dict(zip(xs, i)), kat: T.sub(kk, T.ONE)})
                return v if positive(self, kk) else T.ite(T.eq(kk, T.ZERO), init(i), v)
            return wrap(f)
        if not mentions_h(D):
            B = T.subst(D, {kat: j})
        elif len(ix) == 1 and d[0] in ("arr", "arrval") and (w := self.windows(ix[0], t, h, hat)) is not None:
            lo, V = w
            lv, xat = tuple(c.loopvars), xs[0]
            finders = c.ghost.setdefault("finders", {})
            name = next((y for y, q in finders.items() if q == (lv, k, lo, n)), f"find!{k}!{len(finders)}")
            finders[name] = (lv, k, lo, n)
            start = T.subst(lo, {kat: T.ZERO})

            def g(kk, i):
                x = i[0]
                val = T.subst(V, {xat: x, kat: T.app(name, lv + (x,), "int")})
                return T.ite(T.cand(T.le(start, x), T.lt(x, T.subst(lo, {kat: kk}))), val, init(i))
            return wrap(g)
        else:
            B = self.first_apart(t, h, {hat: at0}, mentions_h)
            if B is not None:
                j, B = B
                return wrap(lambda kk, i: T.add(init(i), T.bsum(j, kk, T.subst(B, dict(zip(xs, i))))))
            others = [a for a in T.all_atoms(D) if a.op == "app" and a.args[0] == nm and a is not hat]
            if others:
                return self.unknown(st, key, d)
            if key in self.wrong or self.c.ghost.get("guess", len(ix)) != len(ix):      # the contract needs other arrays only: unknown
                return self.unknown(st, key, d)
            self.guessed.add(key)
            B = T.subst(T.subst(D, {hat: at0}), {kat: j})

        def f(kk, i):
            return T.add(init(i), T.bsum(j, kk, T.subst(B, dict(zip(xs, i)))))
        return wrap(f)

    def windows(self, x, t, h, hat):
        """(lo, V) if iteration k sets the elements x with lo(k) <= x < lo(k + 1) to V(k, x), and no others; lo is ascending.

        The iteration that has set element x is then find(x), with find(x) == j for lo(j) <= x < lo(j + 1): see resolve()."""
        r = self.guarded_update(t, h, hat)
        if r is None:
            return None
        c, (xat,) = self.c, x.atoms()
        lo = hi = None
        rest = []
        for y in PR.conjuncts(r[0]):
            if xat not in y.fv():
                rest.append(y)
                continue
            a = y.args[0].d.get(((xat, 1),)) if y.op in ("eq", "ge", "gt") else None
            if a is None or abs(a) != 1:
                return None
            q = T.scale(T.sub(y.args[0], T.scale(x, a)), -a)          # x compared with q
            if xat in q.fv():
                return None
            if y.op == "eq" and self.kat not in T.sub(q, self.k).fv():      # its own iteration for each element: see closed()
                return None
            if y.op == "eq" and lo is None and hi is None:
                lo, hi = q, T.add(q, T.ONE)
            elif a > 0 and lo is None:
                lo = q if y.op == "ge" else T.add(q, T.ONE)
            elif a < 0 and hi is None:
                hi = q if y.op == "gt" else T.add(q, T.ONE)
            else:
                return None
        if lo is None or hi is None or not T.is_int(lo) or not T.is_int(hi):
            return None
        ends = T.ite(T.cand(*rest), hi, lo)
        step = T.sub(ends, lo)
        if not PR.nonnegative(step) and not c.entails(T.ge0(step)):
            return None
        if PR.prove_eq(c.all(), T.subst(lo, {self.kat: T.add(self.k, T.ONE)}), ends) != "proved":
            return None
        return lo, r[1]

    def first_apart(self, t, h, start, mentions_h):
        """(j, B) with the value after k iterations == the initial value + sum over j < k of B(j), for a first iteration of its
        own and an accumulation in all the others."""
        k, kat, c = self.k, self.kat, self.c
        rest = t
        npc = len(c.pc)
        c.assume(T.lt(T.ZERO, k))
        try:
            for a in sorted((a for a in T.all_atoms(t) if a.op == "ind" and a.args[0].fv() <= {kat}), key=lambda z: z.id):
                for cond, truth in ((a.args[0], T.TRUE), (T.cnot(a.args[0]), T.FALSE)):
                    if c.entails(cond):
                        rest = PR.replace_guard(rest, a.args[0], truth)
        finally:
            del c.pc[npc:]
        D = T.sub(rest, h)
        if mentions_h(D):
            return None
        h0 = start[next(iter(start))]
        first = T.sub(T.subst(T.subst(t, start), {kat: T.ZERO}), h0)
        if mentions_h(first):
            return None
        j = T.var(f"$j{len(T.Atom.table)}", "int")
        B = T.subst(D, {kat: j})
        D0 = T.subst(D, {kat: T.ZERO})
        if D0 != first and PR.prove_eq(c.all(), D0, first) != "proved":
            B = T.ite(T.eq(j, T.ZERO), first, B)
        return j, B

    def running(self, t, h, hat):
        """(tag, B) with t == max(h, M) (or min, or h itself under a condition) for an M free of h and B == max(init, M) for h == init."""
        r = self.guarded_update(t, h, hat)
        if r is not None:
            cond, val = r
            parts = list(cond.args) if cond.op == "and" else [cond]
            for tag in ("max", "min"):
                for want in ((T.lt(h, val), T.le(h, val)) if tag == "max" else (T.lt(val, h), T.le(val, h))):
                    rest = [x for x in parts if x is not want]
                    if len(rest) == len(parts) - 1 and rest and not any(hat in x.fv() for x in rest) and hat not in val.fv():
                        return tag, t
            return None
        inner = [a for a in T.all_atoms(t) if a.op == "arrkey" and a.args[3] in ("max", "min") and hat in a.fv]
        if len(inner) == 1:          # an extremum of a loop within this one that starts with h
            a, = inner
            ks, shape, body, tag = a.args
            own = {next(iter(k.atoms())): T.var(f"$o{len(T.Atom.table)}_{n}", "int") for n, k in enumerate(ks)}
            if any(hat in n.fv() for n in shape):
                return None
            b = self.running(T.subst(body, own), h, hat)
            if b is None or b[0] != tag:
                return None
            e = T.var(f"$e{a.id}", a.sort)
            t2 = T.subst(t, {a: e})
            if t2 == e:
                return tag, t
            r = self.guarded_update(t2, h, hat)
            if r is not None and r[1] == e and hat not in r[0].fv() and not (r[0].fv() & e.fv()):
                return tag, t
        return None

    def guarded_update(self, t, h, hat):
        """(c, v) with t == if c then v else h."""
        guards = [a for a in T.all_atoms(t) if a.op == "ind" and not any(f.args[0].startswith("$k") for f in a.fv)]
        for a in sorted(guards, key=lambda z: z.id):
            for c in (a.args[0], T.cnot(a.args[0])):
                no = PR.replace_guard(t, c, T.FALSE)
                if no == h:
                    v = PR.replace_guard(t, c, T.TRUE)
                    if hat not in T.all_atoms(v):
                        return c, v
                    if v != t:
                        r = self.guarded_update(v, h, hat)
                        if r is not None:
                            return T.cand(c, r[0]), r[1]
        return None

    def unknown(self, st, key, d):
        c = self.c
        self.unknowns.add(key)
        if d[0] == "append":
            if d[0] == "append":
                raise Unsupported("elements appended to a list under a condition in a loop")
        nm = f"u!{self.k}{key}"
        if d[0] == "num":
            init, kd = S.lift(st.initial(key))[0], d[2]
            return lambda kk: (lambda p: S.mkbool(T.eq(p, T.ONE)) if kd == "bool" else S.mk(p, kd))(T.ite(T.eq(kk, T.ZERO), init, T.app(nm, (kk,) + tuple(c.loopvars), SORT[kd])))
        lv = tuple(c.loopvars)
        if d[0] == "arr":
            o = st.heap[key[1]]
            return lambda kk: (lambda ix: T.app(nm, (kk,) + lv + tuple(ix), SORT[o.kind]))
        if d[0] == "arrval":
            a0 = self.array0(st, key, d)
            return lambda kk: SArr(a0.dims, lambda ix: T.app(nm, (kk,) + lv + tuple(ix), SORT[d[2]]), d[2])
        if d[0] == "content":
            kd = self.list_kind(st, key)
            return lambda kk: ([], d[2], lambda i: Sym(T.app(nm, (kk,) + lv + (i,), SORT[kd]), kd), None)
        return lambda kk: Poison("is not known after a loop")

    def temporary(self, st, key, vals, res, names):
        """A variable assigned anew in each iteration."""
        kat = self.kat
        if all(is_number(v) for _, v in vals):
            ks = [S.lift(v)[1] for _, v in vals]
            kd = ks[0]
            for x in ks[1:]:
                kd = S.join(kd, x) if x != kd else kd
            t = res(fold([(conds, S.lift(v)[0]) for conds, v in vals]))
            if not self.hdeps(t, {x: None for x in names}):

                def f(kk):
                    if not positive(self, kk):
                        return Poison("was assigned in an earlier iteration of a loop", self.place)
                    p = T.subst(t, {kat: T.sub(kk, T.ONE)})
                    return S.mkbool(T.eq(p, T.ONE)) if kd == "bool" else S.mk(p, kd)
                return f
        if len(vals) == 1 and isinstance(vals[0][1], (SArr, tuple, str, VObj, type(None))) and not self.depends(vals[0][1], names):
            v = vals[0][1]

            def g(kk):
                if not positive(self, kk):
                    return Poison("was assigned in an earlier iteration of a loop", self.place)
                return subst_value(v, {kat: T.sub(kk, T.ONE)})
            return g
        return lambda kk: Poison("was assigned in a loop")

    def depends(self, v, names):
        if isinstance(v, Sym):
            return bool(self.hdeps(v.p, {x: None for x in names}))
        if isinstance(v, SArr):
            vs = tuple(T.var(f"$m{j}", "int") for j in range(v.ndim))
            return bool(self.hdeps(v.snapshot()(vs), {x: None for x in names}))
        if isinstance(v, tuple):
            return any(self.depends(x, names) for x in v)
        if isinstance(v, VObj):
            return any(self.depends(x, names) for x in v.attrs.values())
        return isinstance(v, (VList, SymBool, Poison))

    def appended(self, st, key, elems):
        """The list during and after the loop: while the loop runs it is only appended to."""
        s = st.initial(key)
        self.appends = getattr(self, "appends", set()) | {key}
        return lambda kk: (list(s[0]), s[1], s[2], []) if kk == self.k else SKIP

    # ---------- the inductive step for guessed forms
    def inductive(self, st, key, fin, sol, conds):
        c = self.c
        kk = T.add(self.k, T.ONE)
        want = sol(kk)
        if key[0] == "arr":
            o = st.heap[key[1]]
            nd = o.ndim
            dims = o.dims
        elif key[0] == "list":
            nd, dims = 1, (want[1],)
        else:
            nd, dims = want.ndim, want.dims
        names = c.n
        ix = tuple(c.freshvar("x", "int") for _ in range(nd))
        n = len(c.pc)
        for x in conds:
            c.assume(x)
        for x, m in zip(ix, dims):
            c.assume(T.cand(T.ge0(x), T.lt(x, m)))
        try:
            if key[0] == "arr":
                a, b = fin(ix), want(ix)
            elif key[0] == "list":
                f = fin[3] if fin[2] is not None else VList(fin[1]).elem
                a, b = S.term(f(ix[0])), S.term(want[2](ix[0]))
            else:
                a, b = fin.at(*ix), want.at(*ix)
            return PR.prove_eq(c.all(), a, b) == "proved"
        finally:
            del c.pc[n:]
            c.n = names

    # ---------- after the loop
    def global_only(self, conds):
        """Without the conditions on values that exist within one run of the body only."""
        return T.cand(*[x for x in conds if not self.inner(x)])

    def inner(self, x):
        """Does it mention a value of one run of the body?"""
        return any(a.op == "var" and "!" in a.args[0] and a is not self.kat and self.newer(a.args[0]) for a in x.fv())

    def newer(self, name):
        if name.startswith("hk!"):          # the unknown state before an iteration of a loop
            return name.startswith(f"h{self.k}_")
        base, _, i = name.rpartition("!")
        return int(i) > self.n0.get(base, 0)

    def finish(self, st, sols, setup, exits, stays, paths):
        from .interp import Break
        c, k, kat = self.c, self.k, self.kat
        c.n = later(c.n, self.hi)
        noexit = T.cor(*[self.global_only(conds) for conds, _ in stays]) if exits else T.TRUE
        common = [f for f in (stays[0][1] if stays else []) if all(f in g for _, g in stays)]
        facts = [f for f in common if self.kat in f.fv()]
        for conds, g in stays:          # facts of some of the paths, under their conditions
            for f in g:
                if f not in common and self.kat in f.fv() and not self.inner(f) and not any(self.inner(x) for x in conds):
                    f = T.implies(T.cand(*conds), f)
                    if f not in facts:
                        facts.append(f)
        for f in common:
            if self.kat not in f.fv():
                c.fact(f)
        j = T.var(f"$q{len(T.Atom.table)}", "int")

        def quantify(count):
            if noexit is not T.TRUE:
                c.assume(T.forall(j, count, T.subst(noexit, {kat: j})))
            for f in facts:
                c.fact(T.forall(j, count, T.subst(f, {kat: j})))
        options = ["done"] + list(range(len(exits)))
        if noexit is T.FALSE or self.endless:
            options.remove("done")
        if not options:
            raise PathEnd()           # no iteration ends the loop
        o = c.decide(options) if len(options) > 1 else options[0]
        if o != "done":
            conds, pre, res = exits[o]
            c.assume(T.cand(T.ge0(k), T.lt(k, self.n)))
            for x in conds:
                c.assume(x)
            quantify(k)
            for f in facts:
                c.fact(f)
            if PR.consistent(c.all()) == "unsat":
                raise PathEnd()
            setup(k)
            for key in getattr(self, "appends", ()):
                self.set_appended(st, key, paths, k)
            self.enter_exit = True
            c.loopvars.append(k)
            try:
                def thunk():
                    self.enter(k)
                    self.body()
                try:
                    c.replay(pre, thunk)
                except Break:
                    self.broke = True
                    return
            finally:
                c.loopvars.pop()
            raise Unsupported("the exit of a loop was not reproduced")
        quantify(self.n)
        if noexit is not T.TRUE and PR.consistent(c.all()) == "unsat":
            raise PathEnd()
        st.put()
        for key, f in sols.items():
            v = f(self.n)
            if v is not SKIP:
                st.set(key, v)
        for key in getattr(self, "appends", ()):
            self.set_appended(st, key, paths, self.n)
        if self.else_body:
            self.else_body()

    def set_appended(self, st, key, paths, count):
        o = st.heap[key[1]]
        s = st.initial(key)
        elems = [(conds, fin[key][4]) for conds, res, fin, pre, facts in paths if res[0] == "next"]
        per = len(elems[0][1]) if elems else 0
        kat, c = self.kat, self.c
        m = T.pc(len(s[0])) if s[1] is None else s[1]
        f0 = VList(s[0]).elem if s[1] is None else s[2]
        if per != 1:
            raise Unsupported("several elements appended per iteration")
        if any(isinstance(e[0], Segment) for _, e in elems):
            total, fn = self.segments(elems, m, f0, count)
            return o.restore(([], T.add(m, total), fn, None) if s[3] is None else (s[0], s[1], s[2], s[3] + [Segment(total, lambda i: fn(T.add(m, i)))]))

        def el(i):
            j = T.sub(i, m)
            sub = {kat: j}
            if len(elems) == 1:
                return subst_value(elems[0][1][0], sub)
            vals = [e[0] for _, e in elems]
            if all(is_number(v) for v in vals):
                kd = S.lift(vals[0])[1]
                for v in vals[1:]:
                    kd = S.join(kd, S.lift(v)[1]) if S.lift(v)[1] != kd else kd
                t = fold([(conds, S.lift(v)[0]) for (conds, _), v in zip(elems, vals)])
                p = T.subst(t, sub)
                return S.mkbool(T.eq(p, T.ONE)) if kd == "bool" else S.mk(p, kd)
            for conds, e in elems[:-1]:
                cc = T.subst_c(T.cand(*conds), sub, {}) if conds else T.TRUE
                if cc is T.TRUE or S.ctx().entails(cc) or (not S.ctx().entails(T.cnot(cc)) and S.ctx().branch(cc)):
                    return subst_value(e[0], sub)
            return subst_value(elems[-1][1][0], sub)

        def fn(i):
            if m == T.ZERO:
                return el(i)
            cc = T.lt(i, m)
            if cc is T.FALSE or cc is not T.TRUE and S.ctx().entails(T.cnot(cc)):
                return el(i)
            if cc is T.TRUE or S.ctx().entails(cc):
                return f0(i)
            a, b = None, None
            try:
                a, b = S.lift(f0(i)), S.lift(el(i))
            except (Unsupported, IndexError):
                pass
            if a and b:
                return S.mk(T.ite(cc, a[0], b[0]), S.join(a[1], b[1]))
            return f0(i) if S.ctx().branch(cc) else el(i)
        if s[3] is None:
            o.restore(([], T.add(m, count), fn, None))
        else:
            o.restore((s[0], s[1], s[2], s[3] + [Segment(count, lambda i: el(T.add(m, i)))]))

    def segments(self, elems, m, f0, count):
        """Appended runs of elements: element i belongs to the iteration row(i) with prefix(row) <= i < prefix(row + 1)."""
        if len(elems) != 1:
            raise Unsupported("runs of elements appended under a condition")
        seg = elems[0][1][0]
        kat, c = self.kat, self.c
        j = T.var(f"$s{len(T.Atom.table)}", "int")
        C = T.subst(seg.count, {kat: j})
        jat, = j.atoms()
        prefix = lambda kk: T.bsum(j, kk, C)
        total = prefix(count)
        name, lv = f"row!{self.k}", tuple(c.loopvars)

        def fn(i):
            i2 = T.sub(i, m)
            if m != T.ZERO:
                cc = T.lt(i, m)
                if cc is T.TRUE or c.entails(cc) or (cc is not T.FALSE and not c.entails(T.cnot(cc)) and c.branch(cc)):
                    return f0(i)
            row = T.app(name, lv + (i2,), "int")
            start = prefix(row)
            at = {kat: row}
            c.fact(T.implies(T.cand(T.ge0(i2), T.lt(i2, total)),
                             T.cand(T.ge0(row), T.lt(row, count), T.le(start, i2), T.lt(i2, T.add(start, T.subst(seg.count, at))))))
            return subst_value(seg.fn(T.sub(i2, start)), at)
        return total, fn


class Segment:
    """A run of elements appended by an inner loop."""

    def __init__(self, count, fn):
        self.count, self.fn = count, fn


def later(a, b):
    """Numbers of fresh names after both."""
    return {k: max(a.get(k, 0), b.get(k, 0)) for k in {**a, **b}}


class Skip:
    pass


SKIP, MISSING = Skip(), Absent()


def positive(loop, kk):
    """Is the number of iterations known to be at least one?"""
    if kk == loop.n:
        return True
    return T.lt(T.ZERO, kk) is T.TRUE or loop.c.entails(T.lt(T.ZERO, kk))


def under_equations(t, kat, xs):
    """In summands guarded by [k == x + ..] (x an index) k is replaced, so that the element x of an array is recognised."""
    out = T.ZERO
    for m, co in t.d.items():
        one = T.P({m: co})
        for a, e in m:
            if a.op == "ind":
                rest = T.P({tuple(x for x in m if x[0] is not a): co})
                new = rest
                for x in PR.conjuncts(a.args[0]):
                    if x.op == "eq" and x.args[0].fv() & set(xs):
                        new = T.subst(new, solved(x.args[0], kat, xs))
                if new is not rest and new != rest:
                    one = T.mul(T.pa(a), new)
                    break
        out = T.add(out, one)
    return out


def solved(p, kat, xs):
    """A variable other than the indices in terms of them (the iteration first), from p == 0."""
    for a in [kat] + sorted(p.fv() - {kat}, key=lambda z: z.id):
        b = p.d.get(((a, 1),), 0)
        if b in (1, -1) and a not in xs and (a is kat or a.sort == "int" and all(c in (1, -1) for c in p.d.values()) and len(p.d) == 2):
            sol = T.scale(T.P({mm: v for mm, v in p.d.items() if mm != ((a, 1),)}), -1/b)
            if a not in sol.fv() and (a is kat or sol.fv() <= set(xs)):
                return {a: sol}
    return {}


def fold(ts):
    """One term out of the values on the local paths."""
    if not ts:
        raise Unsupported("loop body without a normal end")
    r = ts[-1][1]
    if len(ts) > 1 and ts[0][0]:
        # the tests of the paths form a tree: [c and d, c and not d, not c] gives "if c then (if d ..) else .."
        c = ts[0][0][0]
        nc = T.cnot(c)
        yes = [(x[1:], t) for x, t in ts if x and x[0] is c]
        no = [(x[1:], t) for x, t in ts if x and x[0] is nc]
        if len(yes) == len(ts):      # all normal ends of the body have this in common
            return fold(yes)
        if no and len(yes) + len(no) == len(ts):
            a, b = fold(yes), fold(no)
            return a if a == b else T.ite(c, a, b)
    for conds, t in reversed(ts[:-1]):
        if t != r:
            r = T.ite(T.cand(*conds), t, r)
    return r


# ------------------------------------------------------------------------------------------------ while loops
def while_loop(interp, node, fr):
    """Partial correctness: an unknown number of iterations, the test holds before each of them and not after the last one."""
    from .interp import Continue, Break
    c = S.ctx()
    if not interp.truth(interp.ev(node.test, fr)):
        interp.block(node.orelse, fr)
        return
    n = c.freshvar("iterations", "int")
    c.fact(T.lt(T.ZERO, n))
    k = c.freshvar("k", "int")
    tests = []

    def body():
        # the test holds at the start of every iteration that is made
        v = interp.ev(node.test, fr)
        cond = S.cond_of(v) if isinstance(v, (bool, SymBool, Sym, int)) else None
        if cond is None:
            raise Unsupported("test of a while loop")
        if cond is T.FALSE:
            raise PathEnd()
        tests.append(cond)
        c.fact(cond)
        try:
            interp.block(node.body, fr)
        except Continue:
            pass
    loop = Loop(interp, fr, k, n, lambda kk: None, body, None)
    loop.tested = tests
    loop.run()
    if loop.broke:
        return
    c.fact(iterations(loop, tests, n, k))
    v = interp.ev(node.test, fr)
    cond = S.cond_of(v)
    c.assume(T.cnot(cond))
    if PR.consistent(c.all()) == "unsat":
        raise PathEnd()
    interp.block(node.orelse, fr)


def rotated_loop(interp, node, fr):
    """A loop whose test holds now, and whose body decides whether there is another iteration: { body; if not test: break } without end
    (partial correctness: one of the iterations is the last one)."""
    from .interp import Continue, Break
    c = S.ctx()
    n = c.freshvar("iterations", "int")
    c.fact(T.lt(T.ZERO, n))
    k = c.freshvar("k", "int")
    kind = []

    def body():
        del kind[:]
        kind.append("break")
        try:
            interp.block(node.body, fr)
        except Continue:
            pass
        if not interp.truth(interp.ev(node.test, fr)):
            kind[:] = ["ended"]
            raise Break()
    loop = Loop(interp, fr, k, n, lambda kk: None, body, None)
    loop.endless = True
    loop.run()
    if kind == ["ended"]:
        interp.block(node.orelse, fr)


def iterations(loop, tests, n, k):
    """The number of iterations where the test is linear in it: n == floor(a/b) + 1 for the test a - b*k >= 0."""
    kat, = k.atoms()
    if not tests or tests[-1].op not in ("ge", "gt"):
        return T.TRUE
    p = tests[-1].args[0]
    m = ((kat, 1),)
    b = -p.d.get(m, 0)
    a = T.P({mm: v for mm, v in p.d.items() if mm != m})
    if b <= 0 or kat in a.fv() or any(x.args[0].startswith("h") and "k!" in x.args[0] for x in a.fv()):
        return T.TRUE
    if tests[-1].op == "ge":
        return T.eq(n, T.add(T.fdiv(a, b), T.ONE))
    return T.eq(n, T.ceil(T.scale(a, 1/b)))


def resolve(term, candidates):
    """The term with the iterations that have set elements of arrays (find(x), see Loop.windows) where they are among the candidates."""
    c = S.ctx()
    finders = c.ghost.get("finders", {})
    while True:
        found = [a for a in T.all_atoms(term) if a.op == "app" and a.args[0] in finders and not any(f.args[0].startswith("$k") for f in a.fv)]
        found = [a for a in found if not any(b.op == "app" and b.args[0] in finders for y in a.args[1:] for b in T.all_atoms(y))]
        for a in sorted(found, key=lambda z: z.id):
            lv, k, lo, n = finders[a.args[0]]
            m = {next(iter(z.atoms())): y for z, y in zip(lv, a.args[1:])}
            lo, n, x = T.subst(lo, m), T.subst(n, m), a.args[-1]
            kat, = k.atoms()
            for q in sorted(candidates, key=lambda y: y in a.args[1:-1]):
                if (c.entails(T.cand(T.ge0(q), T.lt(q, n)))
                        and at_least(T.sub(x, T.subst(lo, {kat: q})), T.ZERO)
                        and at_least(T.sub(T.subst(lo, {kat: T.add(q, T.ONE)}), x), T.ONE)):
                    term = T.subst(term, {a: q})
                    break
            else:
                continue
            break
        else:
            break
    for a in sorted((a for a in T.all_atoms(term) if a.op == "ind" and not any(f.args[0].startswith("$k") for f in a.fv)), key=lambda z: z.id):
        parts = PR.conjuncts(a.args[0])
        if not any(b.op == "sum" for b in T.all_atoms(a.args[0])):
            continue
        if all(y.op == "ge" and at_least(y.args[0], T.ZERO) for y in parts):
            term = PR.replace_guard(term, a.args[0], T.TRUE)
        elif any(y.op == "ge" and PR.integral(y.args[0]) and at_least(T.neg(y.args[0]), T.ONE) for y in parts):
            term = PR.replace_guard(term, a.args[0], T.FALSE)
    return term


def at_least(p, m):
    """p >= m on the current path, where p has differences of partial sums of values that are not negative: a sum of n such values
    is not smaller than the one of the first k < n with value k."""
    c = S.ctx()
    p = T.sub(p, m)
    while True:
        sums = [(next(iter(q))[0], x) for q, x in p.d.items() if len(q) == 1 and next(iter(q))[1] == 1 and next(iter(q))[0].op == "sum"]
        for (a, x), (b, y) in itertools.permutations(sums, 2):
            if x == 1 and y == -1 and a.args[0] == b.args[0] and a.args[2] == b.args[2] and PR.nonnegative(a.args[2]):
                k, n = b.args[1], a.args[1]
                if c.entails(T.cand(T.ge0(k), T.lt(k, n))):
                    p = T.add(T.sub(T.sub(p, T.pa(a)), T.scale(T.pa(b), -1)), T.subst(a.args[2], {next(iter(a.args[0].atoms())): k}))
                    break
        else:
            return PR.nonnegative(p) or not any(a.op == "sum" for a in T.all_atoms(p)) and c.entails(T.ge0(p))
