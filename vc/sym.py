"""Symbolic values: exact scalars, conditions, arrays and sequences; the execution context with path exploration."""
import builtins
import functools
from fractions import Fraction as Fr

from . import terms as T
from . import prove as PR
from .terms import P, C, Unsupported

b_len, b_range, b_isinstance, b_abs, b_max, b_min, b_sum, b_round = (len, range, isinstance, abs, max, min, sum, round)


class Raised(Exception):
    """An exception of the verified program."""

    def __init__(self, cls, msg="", exc=None):
        Exception.__init__(self, cls, msg)
        self.exc = exc if exc is not None else cls(msg)

    @property
    def cls(self):
        return type(self.exc)


class PathEnd(BaseException):
    """The current path is finished (infeasible, or a probe of a loop body came to its end)."""


class Ctx:
    """One run along one path of the function under verification."""
    cur = None

    def __init__(self, explorer, prefix):
        self.ex, self.prefix, self.pos = explorer, list(prefix), 0
        self.sched = explorer.schedule
        self.pc, self.facts, self.n, self.objs = [], [], {}, 0       # n: the number of fresh values of each name
        self.replaying = False
        self.quiet = 0                              # > 0 while loop bodies are probed: no obligations
        self.foralls, self.warned, self.io = [], [], []
        self.heap = []
        self.ghost = {}
        self.loopvars = []

    # -------------------------------------------------------------- decisions
    def decide(self, options):
        """Choose one of the options (labels), scheduling the other ones for later runs."""
        if self.pos < b_len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            return d
        for o in reversed(options[1:]):
            self.sched(self.prefix + [o])
        self.prefix.append(options[0])
        self.pos += 1
        return options[0]

    def all(self):
        return self.facts + self.pc

    def branch(self, c):
        if c is T.TRUE:
            return True
        if c is T.FALSE:
            return False
        if self.replaying:
            return self.known(c)
        if self.pos < b_len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
        else:
            self.ex.tick()
            nc = T.cnot(c)
            pcs = self.all()
            ms = self.ghost.get("branch ms")          # a branch that is not decided in time is explored
            can_t = PR.consistent(PR.relevant(pcs, c) + [c], ms) != "unsat"
            can_f = not can_t or PR.consistent(PR.relevant(pcs, nc) + [nc], ms) != "unsat"
            if can_t and can_f:
                d = True
                self.sched(self.prefix + [False])
            elif can_t:
                d = True
            elif can_f:
                d = False
            else:
                raise PathEnd()
            self.prefix.append(d)
            self.pos += 1
        self.assume(c if d else T.cnot(c))
        return d

    def known(self, c):
        """The decision that follows from the conditions of the path that is replayed."""
        pcs = set(self.all())
        for x, d in ((c, True), (T.cnot(c), False)):
            if all(y in pcs for y in (x.args if x.op == "and" else (x,))):
                return d
        for x, d in ((c, True), (T.cnot(c), False)):
            if PR.entails(self.all(), x):
                return d
        raise Unsupported("the exit of a loop was not reproduced")

    def assume(self, c):
        if c is T.FALSE:
            raise PathEnd()
        for x in (c.args if c.op == "and" else (c,)):
            if x is not T.TRUE and x not in self.pc and x not in self.facts:
                self.pc.append(x)

    def fact(self, c):
        """A condition that holds by contract (not by a decision of the program)."""
        for x in (c.args if c.op == "and" else (c,)):
            if x is not T.TRUE and x not in self.facts:
                self.facts.append(x)

    def entails(self, c):
        return PR.entails(self.all(), c)

    def explore(self, thunk, limit=200):
        """Run the thunk along all of its local paths: [(conditions, result, decisions, facts)]; the state must be reset by it."""
        out, work = [], [[]]
        replaying, self.replaying = self.replaying, False
        try:
            return self.explore_all(thunk, limit, out, work)
        finally:
            self.replaying = replaying

    def explore_all(self, thunk, limit, out, work):
        while work:
            prefix = work.pop()
            if b_len(out) > limit:
                raise Unsupported("too many paths through a loop body")
            saved = self.prefix, self.pos, self.sched
            self.prefix, self.pos, self.sched = list(prefix), 0, work.append
            n, nf = b_len(self.pc), b_len(self.facts)
            try:
                res = thunk()
                out.append((self.pc[n:], res, self.prefix, self.facts[nf:]))
            except PathEnd:
                pass
            finally:
                del self.pc[n:]
                del self.facts[nf:]
                self.prefix, self.pos, self.sched = saved
        return out

    def replay(self, prefix, thunk):
        """Run the thunk along one local path; its conditions stay assumed."""
        saved = self.prefix, self.pos, self.sched, self.replaying
        self.prefix, self.pos = [d for d in prefix if not isinstance(d, bool)], 0
        self.replaying = True
        try:
            return thunk()
        finally:
            self.prefix, self.pos, self.sched, self.replaying = saved

    # -------------------------------------------------------------- names, obligations
    def fresh(self, name, sort="int"):
        """A new unknown value; within the body of a summarised loop: one for each iteration."""
        name = self.newname(name)
        return T.app(name, tuple(self.loopvars), sort) if self.loopvars else T.var(name, sort)

    def newname(self, name):
        self.n = {**self.n, name: self.n.get(name, 0) + 1}
        return f"{name}!{self.n[name]}"

    def freshvar(self, name, sort="int"):
        return T.var(self.newname(name), sort)

    def newid(self):
        self.objs += 1
        return self.objs

    def check(self, name, goal):
        """An obligation: the condition must follow from the path condition."""
        if not self.quiet:
            self.ex.obligation(self, name, goal)

    def check_eq(self, name, a, b):
        if not self.quiet:
            self.ex.obligation_eq(self, name, a, b)

    def fail(self, name, why):
        """A definite failure on this path (a feasible one)."""
        if not self.quiet:
            self.ex.failed(self, name, why)


def ctx():
    c = Ctx.cur
    if c is None:
        raise Unsupported("symbolic value used outside of the verification of a function")
    return c


# ------------------------------------------------------------------------------------------------ scalars
RANK = {"bool": 0, "int": 1, "npint": 2, "float": 3, "complex": 4}


def mk(p, kind):
    if kind in ("bool", "int") and p.is_const() and p.const().denominator == 1:
        return int(p.const())
    return Sym(p, kind)


def flt(x):
    """A constant of the type float, exactly."""
    if b_isinstance(x, complex):
        return Sym(T.add(T.pc(Fr(repr(x.real))), T.mul(T.pc(Fr(repr(x.imag))), T.IMAG)), "complex")
    return Sym(T.pc(Fr(repr(x)) if b_isinstance(x, float) else Fr(x)), "float")


def lift(x):
    """(term, kind) of a scalar, or None."""
    if b_isinstance(x, Sym):
        return x.p, x.kind
    if b_isinstance(x, SymBool):
        return T.ite(x.c, T.ONE, T.ZERO), "bool"
    if b_isinstance(x, bool):
        return T.pc(int(x)), "bool"
    if b_isinstance(x, int):
        return T.pc(x), "int"
    if b_isinstance(x, Fr):
        return T.pc(x), "float"
    if b_isinstance(x, (float, complex)):
        s = flt(x)
        return s.p, s.kind
    if b_isinstance(x, SArr) and x.ndim == 0:
        return x.snapshot()(()), x.kind
    return None


def term(x):
    r = lift(x)
    if r is None:
        raise Unsupported(f"not a number: {type(x).__name__}")
    return r[0]


def join(a, b):
    k = a if RANK[a] >= RANK[b] else b
    return "int" if k == "bool" else k


class SymBool:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return ctx().branch(self.c)

    def __and__(self, o):
        return mkbool(T.cand(self.c, cond_of(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(T.cor(self.c, cond_of(o)))
    __ror__ = __or__

    def __invert__(self):
        return mkbool(T.cnot(self.c))

    def __eq__(self, o):
        a, b = self.c, cond_of(o)
        return mkbool(T.cor(T.cand(a, b), T.cand(T.cnot(a), T.cnot(b))))

    def __ne__(self, o):
        return mkbool(T.cnot(cond_of(self == o)))

    def _num(self):
        return Sym(T.ite(self.c, T.ONE, T.ZERO), "int")

    def __add__(self, o):
        return self._num() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __mul__(self, o):
        return self._num()*o
    __rmul__ = __mul__

    __hash__ = None


def mkbool(c):
    if c is T.TRUE:
        return True
    if c is T.FALSE:
        return False
    return SymBool(c)


def cond_of(x):
    if b_isinstance(x, SymBool):
        return x.c
    if b_isinstance(x, bool):
        return T.TRUE if x else T.FALSE
    r = lift(x)
    if r is not None:
        return T.cnot(T.eq0(r[0]))
    raise Unsupported("truth value")


def _bin(name):
    def f(self, o):
        if b_isinstance(o, SArr) and o.ndim > 0:
            return NotImplemented
        r = lift(o)
        if r is None:
            if b_isinstance(o, (list, tuple, str, type(None), dict, set)):
                return NotImplemented
            return NotImplemented
        return scalar_op(name, self.p, self.kind, r[0], r[1])

    def g(self, o):
        r = lift(o)
        if r is None:
            return NotImplemented
        return scalar_op(name, r[0], r[1], self.p, self.kind)
    return f, g


def nonzero(p, what="division by zero"):
    """Safety of a division: recorded as an assumption unless it follows from the path condition."""
    if p.is_const():
        if not p.d:
            raise Raised(ZeroDivisionError, what)
        return
    c = Ctx.cur
    if c is not None:
        c.ex.denominator(c, p)


def scalar_op(name, a, ka, b, kb):
    k = join(ka, kb)
    if name == "add":
        return mk(T.add(a, b), k)
    if name == "sub":
        return mk(T.sub(a, b), k)
    if name == "mul":
        return mk(T.mul(a, b), k)
    if name == "div":
        nonzero(b)
        return Sym(T.div(a, b), "complex" if k == "complex" else "float")
    if name in ("floordiv", "mod"):
        if k == "complex":
            raise Raised(TypeError, "floor of complex")
        if not b.d:
            raise Raised(ZeroDivisionError, "integer division or modulo by zero")
        if b.is_const() and b.const() > 0:
            q = T.fdiv(a, b.const())
        else:
            nonzero(b)
            q = T.floor(T.div(a, b))
        if name == "floordiv":
            return mk(q, k)
        return mk(T.sub(a, T.mul(q, b)), k)
    if name == "pow":
        return scalar_pow(a, ka, b, kb)
    raise Unsupported(name)


def scalar_pow(a, ka, b, kb):
    k = join(ka, kb)
    if b.is_const():
        e = b.const()
        if e.denominator == 1:
            e = int(e)
            if e < 0:
                if ka == "int" and kb == "int" and k != "npint":
                    k = "float"
                nonzero(a)
            if abs(e) > 400:
                raise Unsupported("large power")
            return mk(T.power(a, e), k)
        if e == Fr(1, 2):
            return Sym(T.sqrt(a), "float")
    if a.is_const() and a.const() == -1 and T.is_int(b):       # (-1)**k
        h = T.fdiv(b, 2)
        par = T.sub(b, T.scale(h, 2))
        return mk(T.sub(T.ONE, T.scale(par, 2)), k)
    if not T.is_complex(a) and not T.is_complex(b):
        return Sym(T.app("pow", (a, b)), k)
    raise Unsupported("power")


def _cmp(name):
    def f(self, o):
        if b_isinstance(o, SArr) and o.ndim > 0:
            return NotImplemented
        r = lift(o)
        if r is None:
            if name == "eq":
                return False
            if name == "ne":
                return True
            return NotImplemented
        return compare(name, self.p, r[0])
    return f


def compare(name, a, b):
    if name in ("lt", "le", "gt", "ge") and (T.is_complex(a) or T.is_complex(b)):
        raise Raised(TypeError, "ordering of complex numbers")
    c = {"lt": lambda: T.lt(a, b), "le": lambda: T.le(a, b), "gt": lambda: T.lt(b, a), "ge": lambda: T.le(b, a),
         "eq": lambda: T.eq(a, b), "ne": lambda: T.cnot(T.eq(a, b))}[name]()
    return mkbool(c)


class Sym:
    """An exact number with its Python/numpy kind."""
    __slots__ = ("p", "kind")
    __array_priority__ = 1000

    def __init__(self, p, kind):
        self.p, self.kind = p, kind

    __add__, __radd__ = _bin("add")
    __sub__, __rsub__ = _bin("sub")
    __mul__, __rmul__ = _bin("mul")
    __truediv__, __rtruediv__ = _bin("div")
    __floordiv__, __rfloordiv__ = _bin("floordiv")
    __mod__, __rmod__ = _bin("mod")
    __pow__, __rpow__ = _bin("pow")
    __lt__, __le__, __gt__, __ge__, __eq__, __ne__ = (_cmp("lt"), _cmp("le"), _cmp("gt"), _cmp("ge"), _cmp("eq"), _cmp("ne"))

    def __neg__(self):
        return mk(T.neg(self.p), self.kind)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk(T.pabs(self.p), "float" if self.kind == "complex" else self.kind)

    def __divmod__(self, o):
        return self // o, self % o

    def __bool__(self):
        return ctx().branch(T.cnot(T.eq0(self.p)))

    def __hash__(self):
        if self.p.is_const():
            return hash(self.p.const())
        raise Unsupported("symbolic key")

    def __index__(self):
        if self.kind in ("int", "npint") and self.p.is_const():
            return int(self.p.const())
        raise Unsupported("symbolic index used as a native integer")

    def __int__(self):
        if self.p.is_const():
            return int(self.p.const())
        raise Unsupported("native int() of a symbolic value")

    def __float__(self):
        raise Unsupported("native float() of a symbolic value")

    def __round__(self, nd=None):
        return round_(self, nd)

    def __repr__(self):
        return f"<{self.p}>"

    def __format__(self, spec):
        return "<value>"

    # numpy scalar attributes
    shape, ndim, size = (), 0, 1

    @property
    def real(self):
        return real_(self)

    @property
    def imag(self):
        return imag_(self)

    def conjugate(self):
        return Sym(conj(self.p), self.kind)

    def item(self):
        return Sym(self.p, "int") if self.kind == "npint" else self

    def copy(self):
        return self

    def is_integer(self):
        return mkbool(T.eq(T.floor(self.p), self.p))


def conj(p):
    memo = {}

    def at(a):
        if a.op == "I":
            return T.neg(T.IMAG)
        if a.sort != "complex":
            return T.pa(a)
        if a in memo:
            return memo[a]
        if a.op == "exp":
            r = T.exp(go(a.args[0]))
        elif a.op == "sum":
            fresh = T.var(f"$c{a.id}", "int")
            k, = a.args[0].atoms()
            r = T.bsum(fresh, a.args[1], T.subst(go(a.args[2]), {k: fresh}))
        elif a.op == "inv":
            r = T.inv(go(a.args[0]))
        else:
            raise Unsupported("conjugate")
        memo[a] = r
        return r

    def go(q):
        r = T.ZERO
        for m, c in q.d.items():
            t = T.pc(c)
            for a, e in m:
                t = T.mul(t, T.power(at(a), e))
            r = T.add(r, t)
        return r
    return go(p)


def real_(x):
    p, k = lift(x)
    if k != "complex":
        return x
    return Sym(T.scale(T.add(p, conj(p)), Fr(1, 2)), "float")


def imag_(x):
    p, k = lift(x)
    if k != "complex":
        return mk(T.ZERO, k)
    return Sym(T.mul(T.scale(T.sub(p, conj(p)), Fr(1, 2)), T.neg(T.IMAG)), "float")


def round_(x, nd=None):
    p, k = lift(x)
    if nd is None:
        return mk(T.rnd(p, 0), "int")
    if b_isinstance(nd, int):
        return mk(T.rnd(p, nd), k if k != "bool" else "int")
    return Sym(T.app("round", (p, term(nd))), k)


# ------------------------------------------------------------------------------------------------ arrays
def dim(x):
    """A dimension as a term."""
    return T.pc(x) if b_isinstance(x, int) else term(x)


def undim(p):
    return int(p.const()) if p.is_const() else Sym(p, "int")


class SArr:
    """A numpy array: dimensions (terms) and the current element function; views write through to their base."""
    __array_priority__ = 1000

    def __init__(self, shape, fn, kind="float", base=None, imap=None, wmap=None, name=None, frozen=None, dtype=None):
        self.dims = tuple(shape)
        self._fn, self.kind, self.base, self.imap, self.wmap = fn, kind, base, imap, wmap
        self.name, self.frozen, self._dtype = name, frozen, dtype
        self.filt = None
        c = Ctx.cur
        self.oid = c.newid() if c is not None else 0
        if c is not None and base is None:
            c.heap.append(self)

    # ---------- shape
    @property
    def shape(self):
        return tuple(undim(d) for d in self.dims)

    @property
    def ndim(self):
        return b_len(self.dims)

    @property
    def size(self):
        p = T.ONE
        for d in self.dims:
            p = T.mul(p, d)
        return undim(p)

    @property
    def dtype(self):
        return self._dtype or DType(self.kind)

    @property
    def T(self):
        return self.view(self.dims[::-1], lambda ix: tuple(ix)[::-1], lambda ix: tuple(ix)[::-1])

    def view(self, dims, there, back):
        """The same elements in another order of the dimensions (or with dimensions of one element)."""
        return SArr(dims, None, self.kind, base=self, imap=there, wmap=(lambda ix: T.TRUE, back), dtype=self._dtype)

    def spread(self, new):
        """A view with dimensions of one element at the given places."""
        old = list(self.dims)
        dims = [T.ONE if i in new else old.pop(0) for i in b_range(b_len(old) + b_len(new))]

        def back(ix):
            ix = list(ix)
            return tuple(T.ZERO if i in new else ix.pop(0) for i in b_range(b_len(dims)))
        return self.view(tuple(dims), lambda ix: tuple(x for i, x in enumerate(ix) if i not in new), back)

    def __len__(self):
        if self.dims[0].is_const():
            return int(self.dims[0].const())
        raise Unsupported("native len() of a symbolic array")

    def save(self):
        return self._fn

    def restore(self, s):
        self._fn = s

    def snapshot(self):
        if self.base is not None:
            f, m = self.base.snapshot(), self.imap
            return lambda ix: f(m(ix))
        return self._fn

    def at(self, *ix):
        return self.snapshot()(tuple(ix))

    # ---------- writes
    def write(self, cond, val):
        """Elements with cond(ix) become val(ix) (terms)."""
        if self.base is not None:
            inside, back = self.wmap
            self.base.write(lambda ix: T.cand(inside(ix), cond(back(ix))), lambda ix: val(back(ix)))
            return
        c = Ctx.cur
        if self.frozen is not None and c is not None:
            c.fail("input not modified", f"the argument {self.frozen} is written to")
        old = self._fn

        def fn(ix):
            g = cond(ix)
            if g is T.FALSE:
                return old(ix)
            if g is T.TRUE:
                return val(ix)
            return T.ite(g, val(ix), old(ix))
        self._fn = functools.lru_cache(maxsize=None)(fn)

    # ---------- indexing
    def _index(self, key):
        """(kept dims, imap from view index to base index, (inside, back)) for basic indexing."""
        if not b_isinstance(key, tuple):
            key = (key,)
        if any(k is Ellipsis for k in key):
            i = [j for j, k in enumerate(key) if k is Ellipsis][0]
            key = key[:i] + (slice(None),)*(self.ndim - b_len(key) + 1) + key[i+1:]
        if b_len([k for k in key if k is not None]) > self.ndim:
            raise Raised(IndexError, "too many indices for array")
        if any(k is None for k in key):
            raise Unsupported("newaxis")
        key = key + (slice(None),)*(self.ndim - b_len(key))
        spec, dims = [], []
        for k, n in zip(key, self.dims):
            if b_isinstance(k, slice):
                st = k.step
                if st is not None and not (b_isinstance(st, int) and st in (1, -1)):
                    if not (b_isinstance(st, int) and st > 1):
                        raise Unsupported("slice step")
                    a = self._bound(k.start, n, T.ZERO)
                    b = self._bound(k.stop, n, n)
                    cnt = T.ceil(T.div(T.sub(b, a), T.pc(st)))
                    spec.append(("s", a, st, cnt))
                    dims.append(cnt)
                    continue
                if st == -1:
                    if k.start is not None or k.stop is not None:
                        raise Unsupported("reversed slice with bounds")
                    spec.append(("s", T.sub(n, T.ONE), -1, n))
                    dims.append(n)
                    continue
                a = self._bound(k.start, n, T.ZERO)
                b = self._bound(k.stop, n, n)
                cnt = T.sub(b, a)
                if not cnt.is_const() and cnt != n:
                    c = ctx()
                    if not c.entails(T.ge0(cnt)):
                        if not c.branch(T.ge0(cnt)):
                            cnt = T.ZERO
                elif cnt.is_const() and cnt.const() < 0:
                    cnt = T.ZERO
                spec.append(("s", a, 1, cnt))
                dims.append(cnt)
            elif b_isinstance(k, (SArr, list)):
                raise Unsupported("array index")
            else:
                r = lift(k)
                if r is None or r[1] not in ("int", "npint"):
                    if r is not None and r[1] in ("bool",):
                        raise Unsupported("boolean index")
                    raise Raised(IndexError, "only integers and slices are valid indices")
                p = r[0]
                if p.is_const():
                    if p.const() < 0:
                        p = T.add(n, p)
                elif Ctx.cur is not None and not ctx().entails(T.ge0(p)):
                    if not ctx().branch(T.ge0(p)):
                        p = T.add(p, n)
                self._bounds_check(p, n)
                spec.append(("i", p))
        def imap(ix):
            ix = list(ix)
            out = []
            for s in spec:
                if s[0] == "i":
                    out.append(s[1])
                else:
                    x = ix.pop(0)
                    out.append(T.add(s[1], T.scale(x, s[2])))
            return tuple(out)

        def inside(ix):
            cs = []
            for s, x in zip(spec, ix):
                if s[0] == "i":
                    cs.append(T.eq(x, s[1]))
                elif s[2] == 1:
                    if not (s[1] == T.ZERO):
                        cs.append(T.le(s[1], x))
                    if not (s[1] == T.ZERO and s[3] in self.dims):
                        cs.append(T.lt(x, T.add(s[1], s[3])))
                else:
                    raise Unsupported("write through a strided slice")
            return T.cand(*cs)

        def back(ix):
            return tuple(T.sub(x, s[1]) for s, x in zip(spec, ix) if s[0] == "s")
        return tuple(dims), imap, (inside, back)

    def _bound(self, x, n, default):
        if x is None:
            return default
        p = term(x)
        if p.is_const() and n.is_const():
            v, m = int(p.const()), int(n.const())
            if v < 0:
                v += m
            return T.pc(b_max(0, b_min(v, m)))
        if p.is_const() and p.const() < 0:
            q = T.add(n, p)
            return q if ctx().entails(T.ge0(q)) or ctx().branch(T.ge0(q)) else T.ZERO
        if p.is_const() and p.const() == 0:
            return p
        c = ctx()
        if c.entails(T.cand(T.ge0(p), T.le(p, n))):
            return p
        if c.branch(T.le(n, p)):
            return n
        if not c.branch(T.ge0(p)):
            q = T.add(p, n)
            return q if c.branch(T.ge0(q)) else T.ZERO
        return p

    def _bounds_check(self, p, n):
        c = Ctx.cur
        ok = T.cand(T.ge0(p), T.lt(p, n))
        if ok is T.TRUE:
            return
        if ok is T.FALSE:
            raise Raised(IndexError, "index out of bounds")
        if c is not None:
            c.check("index within the array", ok)

    def __getitem__(self, key):
        if b_isinstance(key, SArr) and key.kind == "bool":
            return self._mask_get(key)
        if self.filt is not None:
            r = self.filt.getitem(self, key)
            if r is not None:
                return r
        if key is None or b_isinstance(key, tuple) and any(k is None for k in key) and not any(k is Ellipsis for k in key):
            return self._new_dims(key if b_isinstance(key, tuple) else (key,))
        dims, imap, w = self._index(key)
        if not dims:
            k = "npint" if self.kind == "int" else self.kind
            p = self.snapshot()(imap(()))
            if self.kind == "bool":
                return mkbool(T.cnot(T.eq0(p)))
            return mk(p, k)
        return SArr(dims, None, self.kind, base=self, imap=imap, wmap=w, dtype=self._dtype)

    def _new_dims(self, key):
        r, new, at = self[tuple(k for k in key if k is not None)], set(), 0
        if not b_isinstance(r, SArr):
            r = asarray(r)
        for k in key:
            if k is None:
                new.add(at)
            if k is None or b_isinstance(k, slice):
                at += 1
        return r.spread(new)

    def scalar(self, i, f=None):
        """Element i of a vector, 0 <= i < length (no check, no counting from the end)."""
        p = (f or self.snapshot())((i,))
        return mkbool(T.cnot(T.eq0(p))) if self.kind == "bool" else mk(p, "npint" if self.kind == "int" else self.kind)

    def _mask_get(self, key):
        raise Unsupported("boolean mask")

    def __setitem__(self, key, val):
        if b_isinstance(key, SArr) and key.kind == "bool":
            self._mask_set(key, val)
            return
        dims, imap, (inside, back) = self._index(key)
        self._check_kind(val)
        if not dims:
            p = term(val)
            self.write(inside, lambda ix: p)
            return
        f = broadcast_to(val, dims)
        self.write(inside, lambda ix: f(back(ix)))

    def _mask_set(self, mask, val):
        mf = broadcast_to(mask, self.dims)
        f = broadcast_to(val, self.dims)
        self._check_kind(val)
        self.write(lambda ix: T.cnot(T.eq0(mf(ix))), f)

    def _check_kind(self, val):
        k = kind_of(val)
        if self.kind in ("int", "bool") and k in ("float", "complex"):
            raise Unsupported("value converted on assignment to an integer array")
        if self.kind == "float" and k == "complex":
            raise Raised(TypeError, "complex value assigned to a float array")

    def __iter__(self):
        if not self.dims:
            raise Raised(TypeError, "iteration over a 0-d array")
        if not self.dims[0].is_const():
            raise Unsupported("native iteration over a symbolic array")
        return iter([self[i] for i in b_range(int(self.dims[0].const()))])

    # ---------- arithmetic
    def __neg__(self):
        f = self.snapshot()
        return SArr(self.dims, lambda ix: T.neg(f(ix)), self.kind)

    def __pos__(self):
        return self

    def __abs__(self):
        f = self.snapshot()
        return SArr(self.dims, lambda ix: T.pabs(f(ix)), "float" if self.kind == "complex" else self.kind)

    def __bool__(self):
        if self.size == 1:
            return bool(self[(0,)*self.ndim])
        raise Raised(ValueError, "The truth value of an array with more than one element is ambiguous")

    def _inplace(self, name, o):
        r = arr_op(name, self, o)
        if tuple(r.dims) != tuple(self.dims):
            raise Raised(ValueError, "non-broadcastable output operand")
        if RANK[r.kind] > RANK[self.kind] and not (self.kind == "npint"):
            if self.kind in ("int", "bool", "npint"):
                raise Raised(TypeError, "Cannot cast ufunc output from float to int")
            raise Raised(TypeError, "Cannot cast ufunc output to the type of the array")
        f = functools.lru_cache(maxsize=None)(r.snapshot())
        self.write(lambda ix: T.TRUE, f)
        return self

    def __iadd__(self, o):
        return self._inplace("add", o)

    def __isub__(self, o):
        return self._inplace("sub", o)

    def __imul__(self, o):
        return self._inplace("mul", o)

    def __itruediv__(self, o):
        return self._inplace("div", o)

    def __ipow__(self, o):
        return self._inplace("pow", o)

    __hash__ = None

    # ---------- methods
    def copy(self):
        return SArr(self.dims, self.snapshot(), self.kind, dtype=self._dtype)

    def astype(self, dtype=None, **kw):
        return astype(self, dtype)

    def tolist(self):
        from . import seq
        return seq.tolist(self)

    def max(self, axis=None):
        return extremum(self, "max", axis)

    def min(self, axis=None):
        return extremum(self, "min", axis)

    def sum(self, axis=None):
        return asum(self, axis)

    def mean(self):
        return asum(self)/self.size

    def flatten(self):
        """A copy in one dimension (rows of a constant length)."""
        f = self.snapshot()
        if self.ndim == 1:
            return SArr(self.dims, f, self.kind, dtype=self._dtype)
        if self.ndim == 2 and self.dims[1].is_const() and self.dims[1].const() > 0:
            m = self.dims[1].const()

            def at(ix):
                q = T.fdiv(ix[0], m)
                return f((q, T.sub(ix[0], T.scale(q, m))))
            return SArr((T.scale(self.dims[0], m),), at, self.kind, dtype=self._dtype)
        raise Unsupported("flatten")

    def reshape(self, *shape):
        if b_len(shape) == 1 and b_isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if self.ndim == 1:
            long = [i for i, x in enumerate(shape) if not (b_isinstance(x, int) and x == 1)]
            if b_len(long) == 1 and (b_isinstance(shape[long[0]], int) and shape[long[0]] == -1 or term(shape[long[0]]) == self.dims[0]):
                return self.spread(set(b_range(b_len(shape))) - set(long))
        raise Unsupported("reshape")

    def ravel(self):
        return self.view(self.dims, lambda ix: ix, lambda ix: ix) if self.ndim == 1 else self.flatten()

    @property
    def real(self):
        return elementwise1(self, lambda p, k: (real_(Sym(p, k)).p, "float" if k == "complex" else k))

    @property
    def imag(self):
        return elementwise1(self, lambda p, k: (lift(imag_(Sym(p, k)))[0], "float" if k == "complex" else k))

    def __repr__(self):
        return f"<array {self.name or ''} {self.shape}>"

    def __format__(self, spec):
        return "<array>"


class DType:
    def __init__(self, kind, name=None):
        self.kind_, self.name = kind, name or {"float": "float64", "int": "int64", "bool": "bool", "complex": "complex128", "npint": "int64"}.get(kind, kind)
        self.kind = {"float": "f", "int": "i", "bool": "b", "complex": "c", "npint": "i"}.get(kind, "O") if not str(self.name).startswith("uint") else "u"

    def __eq__(self, o):
        return b_isinstance(o, DType) and o.name == self.name or o == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return self.name


def dtype_kind(d):
    if d is None:
        return "float"
    if b_isinstance(d, DType):
        return d.kind_
    if b_isinstance(d, str):
        if d.startswith(("uint", "int")):
            return "int"
        if d.startswith("float"):
            return "float"
        if d.startswith("complex"):
            return "complex"
        if d.startswith("bool"):
            return "bool"
    n = (getattr(d, "__name__", "") or str(getattr(d, "name", ""))).lower()
    if "complex" in n:
        return "complex"
    if "bool" in n:
        return "bool"
    if "float" in n or "double" in n:
        return "float"
    if "int" in n:
        return "int"
    raise Unsupported(f"dtype {d}")


def kind_of(x):
    if b_isinstance(x, SArr):
        return x.kind
    if b_isinstance(x, (list, tuple)):
        k = "bool"
        for y in x:
            k2 = kind_of(y)
            k = k2 if RANK[k2] > RANK[k] else k
        return k
    r = lift(x)
    if r is None:
        raise Unsupported("type of " + type(x).__name__)
    return r[1]


def same_dims(a, b):
    """Broadcast shape of two dims tuples; forks / raises ValueError if the dimensions may differ."""
    out = []
    n = b_max(b_len(a), b_len(b))
    for i in b_range(1, n + 1):
        x = a[-i] if i <= b_len(a) else T.ONE
        y = b[-i] if i <= b_len(b) else T.ONE
        if x == y:
            out.append(x)
        elif x == T.ONE and x.is_const():
            out.append(y)
        elif y == T.ONE and y.is_const():
            out.append(x)
        else:
            c = T.eq(x, y)
            if c is T.FALSE:
                raise Raised(ValueError, "operands could not be broadcast together")
            if ctx().entails(c) or ctx().branch(c):
                out.append(x)
            elif ctx().branch(T.eq(x, T.ONE)):
                out.append(y)
            elif ctx().branch(T.eq(y, T.ONE)):
                out.append(x)
            else:
                raise Raised(ValueError, "operands could not be broadcast together")
    return tuple(reversed(out))


def broadcast_to(v, dims):
    """Element function of v broadcast to the dims."""
    if b_isinstance(v, (list, tuple)):
        v = asarray(v)
    if b_isinstance(v, SArr):
        if v.ndim == 0:
            p = v.snapshot()(())
            return lambda ix: p
        f = v.snapshot()
        if tuple(v.dims) == tuple(dims):
            return f
        d = same_dims(v.dims, dims)
        if b_len(d) != b_len(dims):
            raise Raised(ValueError, "could not broadcast input array")
        off = b_len(dims) - v.ndim
        ones = [x == T.ONE for x in v.dims]

        def g(ix):
            ix = ix[off:]
            return f(tuple(T.ZERO if o else x for x, o in zip(ix, ones)))
        return g
    p = term(v)
    return lambda ix: p


def arr_op(name, a, b):
    if b_isinstance(a, (list, tuple)):
        a = asarray(a)
    if b_isinstance(b, (list, tuple)):
        b = asarray(b)
    da = a.dims if b_isinstance(a, SArr) else ()
    db = b.dims if b_isinstance(b, SArr) else ()
    d = same_dims(da, db)
    ka, kb = kind_of(a), kind_of(b)
    fa, fb = broadcast_to(a, d), broadcast_to(b, d)
    if name in ("lt", "le", "gt", "ge", "eq", "ne"):
        def fn(ix):
            return T.ite(cond_of(compare(name, fa(ix), fb(ix))), T.ONE, T.ZERO)
        return SArr(d, functools.lru_cache(maxsize=None)(fn), "bool")
    k = join(ka, kb)
    if name == "div":
        k = "complex" if k == "complex" else "float"
    if name == "pow" and ka in ("int", "npint") and kb in ("int", "npint"):
        r = lift(b) if not b_isinstance(b, SArr) else None
        if r is not None and r[0].is_const() and r[0].const() < 0:
            raise Raised(ValueError, "Integers to negative integer powers are not allowed.")
    if name == "div" and not b_isinstance(b, SArr):
        nonzero(term(b))

    def fn(ix):
        return lift(scalar_op(name, fa(ix), ka, fb(ix), kb))[0]
    if not d:
        return mk(fn(()), k)
    return SArr(d, functools.lru_cache(maxsize=None)(fn), k)


def _abin(name):
    return (lambda self, o: arr_op(name, self, o)), (lambda self, o: arr_op(name, o, self))


for _n, _m in (("add", "add"), ("sub", "sub"), ("mul", "mul"), ("truediv", "div"), ("floordiv", "floordiv"), ("mod", "mod"), ("pow", "pow")):
    _f, _g = _abin(_m)
    setattr(SArr, f"__{_n}__", _f)
    setattr(SArr, f"__r{_n}__", _g)
for _n in ("lt", "le", "gt", "ge", "eq", "ne"):
    setattr(SArr, f"__{_n}__", (lambda nn: lambda self, o: arr_op(nn, self, o))(_n))


def _logic(op):
    def f(self, o):
        d = same_dims(self.dims, o.dims if b_isinstance(o, SArr) else ())
        fa, fb = broadcast_to(self, d), broadcast_to(o, d)
        def fn(ix):
            a, b = T.cnot(T.eq0(fa(ix))), T.cnot(T.eq0(fb(ix)))
            return T.ite(T.cand(a, b) if op == "and" else T.cor(a, b), T.ONE, T.ZERO)
        return SArr(d, fn, "bool")
    return f


SArr.__and__ = _logic("and")
SArr.__or__ = _logic("or")


def _invert(self):
    f = self.snapshot()
    return SArr(self.dims, lambda ix: T.sub(T.ONE, f(ix)), "bool")


SArr.__invert__ = _invert


def elementwise1(x, f):
    """f(term, kind) -> (term, kind) over a scalar, list or array."""
    if b_isinstance(x, (list, tuple)):
        x = asarray(x)
    if b_isinstance(x, SArr) and x.ndim > 0:
        g, k = x.snapshot(), x.kind
        probe = f(T.var("$probe", "int" if k in ("int", "npint", "bool") else "real"), k)[1]
        return SArr(x.dims, functools.lru_cache(maxsize=None)(lambda ix: f(g(ix), k)[0]), probe)
    p, k = lift_strict(x)
    r = f(p, k)
    return mk(r[0], r[1]) if r[1] not in ("int", "bool") else Sym(r[0], "npint")


def lift_strict(x):
    r = lift(x)
    if r is None:
        raise Raised(TypeError, f"unsupported operand of a numpy function: {type(x).__name__}")
    return r


def asarray(x, dtype=None):
    from . import seq
    if b_isinstance(x, SArr):
        return x if dtype is None else astype(x, dtype)
    if seq.is_symlist(x):
        return seq.to_array(x)
    if b_isinstance(x, (list, tuple)):
        els = list(x)
        if any(seq.is_symlist(e) for e in els):
            raise Unsupported("nested symbolic list")
        if any(b_isinstance(e, (list, tuple, SArr)) and not (b_isinstance(e, SArr) and e.ndim == 0) for e in els):
            arrs = [asarray(e) for e in els]
            d = arrs[0].dims
            if any(a.dims != d for a in arrs):
                raise Raised(ValueError, "inhomogeneous shape")
            fs = [a.snapshot() for a in arrs]
            k = kind_of(els)

            def fn(ix):
                return select(ix[0], [lambda i=i: fs[i](ix[1:]) for i in b_range(b_len(fs))])
            return SArr((T.pc(b_len(els)),) + d, fn, "int" if k == "npint" else k)
        if any(b_isinstance(e, str) for e in els):
            a = SArr((T.pc(b_len(els)),), lambda ix: T.ZERO, "float")
            a.text = True
            return a
        ps = [term(e) for e in els]
        k = kind_of(els) if els else "float"
        k = "int" if k == "npint" else k
        if dtype is not None:
            k = dtype_kind(dtype)
        return SArr((T.pc(b_len(els)),), lambda ix: select(ix[0], [lambda p=p: p for p in ps]), k)
    r = lift(x)
    if r is not None:
        p = r[0]
        return SArr((), lambda ix: p, r[1])
    raise Unsupported("asarray of " + type(x).__name__)


def select(i, thunks):
    if i.is_const():
        return thunks[int(i.const())]()
    if not thunks:
        return T.ZERO
    r = thunks[-1]()
    for j in reversed(b_range(b_len(thunks) - 1)):
        r = T.ite(T.eq(i, T.pc(j)), thunks[j](), r)
    return r


def as_dtype(d):
    """The dtype of a name or type."""
    if d is None or b_isinstance(d, DType):
        return d
    n = d if b_isinstance(d, str) else (getattr(d, "__name__", "") or str(getattr(d, "name", ""))).lower()
    return DType(dtype_kind(d), n if n[-1:].isdigit() else None)


def astype(x, dtype):
    k = dtype_kind(dtype)
    dtype = as_dtype(dtype)
    if RANK[k] >= RANK[x.kind] or k == x.kind:
        return SArr(x.dims, x.snapshot(), k, dtype=dtype if b_isinstance(dtype, DType) else None)
    if k in ("int", "npint") and x.kind == "bool":
        return SArr(x.dims, x.snapshot(), "int")
    if k == "int" and x.kind == "float":
        f = x.snapshot()
        return SArr(x.dims, lambda ix: trunc(f(ix)), "int", dtype=dtype if b_isinstance(dtype, DType) else None)
    raise Unsupported("conversion of an array to " + str(k))


def trunc(p):
    if p.is_const():
        return T.pc(int(p.const()))
    if T.is_int(p):
        return p
    return T.ite(T.ge0(p), T.floor(p), T.ceil(p))


def _arrkey(x, tag):
    ks = tuple(T.var(f"$a{b_len(T.Atom.table)}_{i}", "int") for i in b_range(x.ndim))
    return T.arrkey_atom(ks, x.dims, x.snapshot()(ks), tag)


def extremum(x, tag, axis=None):
    if axis is not None:
        raise Unsupported("axis of an extremum")
    from . import seq
    if b_isinstance(x, (list, tuple)) or seq.is_symlist(x):
        x = asarray(x)
    r = lift(x)
    if r is not None:
        return x
    if getattr(x, "text", False):
        raise Raised(TypeError, "ufunc 'minimum' did not contain a loop for strings")
    if x.kind == "complex":
        raise Unsupported("extremum of complex values")
    if any(d == T.ZERO for d in x.dims):
        raise Raised(ValueError, "zero-size array to reduction operation which has no identity")
    kind = "npint" if x.kind in ("int", "bool") else "float"
    if all(d.is_const() for d in x.dims):
        import itertools
        vals = [x.snapshot()(tuple(T.pc(i) for i in ix)) for ix in itertools.product(*[b_range(int(d.const())) for d in x.dims])]
        if all(v.is_const() for v in vals):
            return mk(T.pc((b_max if tag == "max" else b_min)(v.const() for v in vals)), kind)
        if b_len(vals) <= 6:
            r = vals[0]
            for v in vals[1:]:
                r = T.larger(r, v, tag)
            return Sym(r, kind)
    a = _arrkey(x, tag)
    ks, shape, body, _ = a.args
    if not any(next(iter(k.atoms())) in body.fv() for k in ks):
        return Sym(body, kind)
    # a positive factor independent of the index comes out; abs bodies etc. are left as they are
    return Sym(T.pa(a), kind)


def asum(x, axis=None):
    from . import seq
    if b_isinstance(x, (list, tuple)) or seq.is_symlist(x):
        x = asarray(x)
    if axis is not None:
        if not (b_isinstance(axis, int) and b_isinstance(x, SArr)):
            raise Unsupported("axis")
        ax = axis % x.ndim
        f, n = x.snapshot(), x.dims[ax]
        if x.ndim == 1:
            return asum(x)

        def fn(ix):
            k = T.var("$sum", "int")
            return T.bsum(k, n, f(ix[:ax] + (k,) + ix[ax:]))
        return SArr(x.dims[:ax] + x.dims[ax+1:], fn, x.kind)
    if lift(x) is not None:
        return x
    ks = tuple(T.var(f"$sum{i}", "int") for i in b_range(x.ndim))
    body = x.snapshot()(ks)
    for k, n in reversed(list(zip(ks, x.dims))):
        body = T.bsum(k, n, body)
    kind = "npint" if x.kind in ("int", "bool") else x.kind
    return Sym(body, kind)
