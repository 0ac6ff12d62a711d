"""Sequences of the verified program: lists (possibly of symbolic length), ranges, and objects of classes."""
from . import terms as T
from . import sym as S
from .sym import Raised, Sym, SArr, Unsupported


class VList(list):
    """A list of the program; with n set: a sequence of n elements fn(k), n a term (cls: list, tuple or set)."""

    def __init__(self, items=(), cls="list", n=None, fn=None):
        list.__init__(self, items)
        self.cls, self.n, self.fn = cls, n, fn
        self.building = None
        self.frozen = None
        c = S.Ctx.cur
        if c is not None:
            c.heap.append(self)

    __hash__ = None

    def is_sym(self):
        return self.n is not None

    def length(self):
        if self.building is not None:
            raise Unsupported("length of a list that is being built in a loop")
        return list.__len__(self) if self.n is None else S.undim(self.n)

    def elem(self, i):
        """Element at the term i (no bounds check)."""
        if self.building is not None:
            raise Unsupported("element of a list that is being built in a loop")
        if self.n is not None:
            return self.fn(i)
        if i.is_const():
            return list.__getitem__(self, int(i.const()))
        vals = list(self)
        if all(S.lift(v) is not None for v in vals):
            kinds = [S.lift(v)[1] for v in vals]
            k = kinds[0]
            for x in kinds[1:]:
                k = S.join(k, x)
            return S.mk(S.select(i, [lambda v=v: S.lift(v)[0] for v in vals]), k)
        if len(vals) == 1 or (vals and S.Ctx.cur is not None and len(vals) <= 100):
            for q, v in enumerate(vals):
                if q == len(vals) - 1 or S.ctx().branch(T.eq(i, T.pc(q))):
                    return v
        raise Unsupported("symbolic index of a list of objects")

    def get(self, key):
        if isinstance(key, slice):
            if self.n is None and all(x is None or isinstance(x, int) for x in (key.start, key.stop, key.step)):
                return VList(list.__getitem__(self, key), self.cls)
            return self._slice(key)
        r = S.lift(key)
        if r is None or r[1] not in ("int", "npint", "bool"):
            raise Raised(TypeError, "list indices must be integers or slices")
        p, n = r[0], S.dim(self.length())
        if p.is_const() and n.is_const():
            i, m = int(p.const()), int(n.const())
            if not -m <= i < m:
                raise Raised(IndexError, "list index out of range")
            return self.elem(T.pc(i % m if m else i))
        if p.is_const() and p.const() < 0:
            p = T.add(n, p)
        c = S.ctx()
        ok = T.cand(T.ge0(p), T.lt(p, n))
        if not c.entails(ok):
            if not c.branch(ok):
                if c.branch(T.cand(T.lt(p, T.ZERO), T.ge0(T.add(p, n)))):
                    return self.elem(T.add(p, n))
                raise Raised(IndexError, "list index out of range")
        return self.elem(p)

    def _slice(self, key):
        if key.step == -1 and key.start is None and key.stop is None:
            f, n = self.elem, S.dim(self.length())
            return VList((), self.cls, n, lambda i: f(T.sub(T.sub(n, T.ONE), i)))
        if key.step is not None:
            raise Unsupported("step of a slice of a symbolic list")
        n = S.dim(self.length())
        a = SArr((n,), None)._bound(key.start, n, T.ZERO)
        b = SArr((n,), None)._bound(key.stop, n, n)
        cnt = T.sub(b, a)
        c = S.ctx()
        if not c.entails(T.ge0(cnt)) and not c.branch(T.ge0(cnt)):
            cnt = T.ZERO
        f = self.elem
        return VList((), self.cls, cnt, lambda i: f(T.add(i, a)))

    def _modify(self, what="modified"):
        if self.frozen is not None:
            S.ctx().fail("input not modified", f"the argument {self.frozen} is {what}")

    def append(self, x):
        self._modify()
        if self.building is not None:
            self.building.append(x)
        elif self.n is not None:
            f, n = self.fn, self.n

            def g(i):
                c = T.eq(i, n)
                if c is T.TRUE:
                    return x
                if c is T.FALSE or T.lt(i, n) is T.TRUE or T.lt(n, i) is T.TRUE:
                    return f(i)
                v = f(i)
                a, b = S.lift(v), S.lift(x)
                if a and b:
                    return S.mk(T.ite(c, b[0], a[0]), S.join(a[1], b[1]))
                return x if S.ctx().branch(c) else v
            self.fn, self.n = g, T.add(n, T.ONE)
        else:
            list.append(self, x)

    def extend(self, xs):
        for x in native(xs):
            self.append(x)

    def pop(self, *a):
        self._modify()
        if self.n is not None or self.building is not None:
            raise Unsupported("pop")
        return list.pop(self, *a)

    def put(self, key, v):
        self._modify()
        if self.n is None and self.building is None and isinstance(key, int):
            m = list.__len__(self)
            if not -m <= key < m:
                raise Raised(IndexError, "list assignment index out of range")
            list.__setitem__(self, key, v)
            return
        if self.n is None and self.building is None and isinstance(key, slice) and all(x is None or isinstance(x, int) for x in (key.start, key.stop, key.step)):
            list.__setitem__(self, key, native(v))
            return
        r, x = S.lift(key), S.lift(v)
        if r is None or x is None or self.building is not None:
            raise Unsupported("assignment to an element of a symbolic list")
        p, n = r[0], S.dim(self.length())
        if p.is_const() and p.const() < 0:
            p = T.add(n, p)
        S.ctx().check("list index within the list", T.cand(T.ge0(p), T.lt(p, n)))
        f = self.fn if self.n is not None else VList(list(self)).elem

        def g(i):
            a = S.lift(f(i))
            return S.mk(T.ite(T.eq(i, p), x[0], a[0]), S.join(a[1], x[1]))
        list.clear(self)
        self.n, self.fn = n, g

    def save(self):
        return (list(list.__iter__(self)), self.n, self.fn, None if self.building is None else list(self.building))

    def restore(self, s):
        list.__init__(self, s[0])
        self.n, self.fn, self.building = s[1], s[2], None if s[3] is None else list(s[3])

    def copy(self):
        r = VList(list(self) if self.n is None else (), "list", self.n, self.fn)
        return r

    def insert(self, i, x):
        self._modify()
        if self.n is not None or self.building is not None or not isinstance(i, int):
            raise Unsupported("insert")
        list.insert(self, i, x)

    def sort(self, **kw):
        raise Unsupported("sort")

    def clear(self):
        self._modify()
        list.clear(self)
        self.n = self.fn = None

    def reverse(self):
        self._modify()
        if self.n is not None:
            f, n = self.fn, self.n
            self.fn = lambda i: f(T.sub(T.sub(n, T.ONE), i))
        else:
            list.reverse(self)

    remove = index = count = sort


def is_symlist(x):
    return isinstance(x, VList) and (x.n is not None or x.building is not None)


class SymIter:
    """An iterable with a symbolic number of elements."""

    def __init__(self, n, fn):
        self.n, self.fn = n, fn


def native(x):
    """Elements of a concrete iterable."""
    if isinstance(x, VList):
        if x.building is not None or x.n is not None:
            if x.n is not None and x.n.is_const():
                return [x.fn(T.pc(i)) for i in range(int(x.n.const()))]
            raise Unsupported("iteration over a symbolic list")
        return list(list.__iter__(x))
    if isinstance(x, SymIter):
        raise Unsupported("iteration over a symbolic iterable")
    if isinstance(x, SArr):
        return list(x)
    if isinstance(x, (list, tuple, set, frozenset, dict, str, range, type({}.keys()), type({}.values()), type({}.items()))):
        return list(x)
    raise Unsupported("iteration over " + type(x).__name__)


def iteration(x):
    """A list of elements, or a SymIter."""
    if isinstance(x, SymIter):
        return [x.fn(T.pc(i)) for i in range(int(x.n.const()))] if x.n.is_const() else x
    if isinstance(x, VList):
        if x.building is not None:
            raise Unsupported("iteration over a list that is being built")
        if x.n is None:
            return list(list.__iter__(x))
        if x.n.is_const():
            return [x.fn(T.pc(i)) for i in range(int(x.n.const()))]
        return SymIter(x.n, x.elem)
    if isinstance(x, SArr):
        if not x.dims:
            raise Raised(TypeError, "iteration over a 0-d array")
        if x.dims[0].is_const():
            return list(x)
        f = x

        def el(i):
            if f.ndim == 1 and f.filt is None:
                return f.scalar(i)
            return f[S.undim(i) if i.is_const() else Sym(i, "int")]
        return SymIter(x.dims[0], el)
    if isinstance(x, (Sym, S.SymBool, int, type(None), bool)):
        raise Raised(TypeError, f"{type(x).__name__} object is not iterable")
    if isinstance(x, VObj):
        raise Unsupported("iteration over an object")
    return native(x)


def to_array(x):
    """numpy array of a symbolic list of numbers (or of tuples of numbers)."""
    if x.building is not None:
        raise Unsupported("array of a list that is being built")
    probe = x.fn(T.var("$elem", "int"))
    if isinstance(probe, (tuple, list)) and not is_symlist(probe):
        m = len(probe)
        f = x.fn

        def fn2(ix):
            row = f(ix[0])
            return S.select(ix[1], [lambda j=j: S.term(row[j]) for j in range(m)])
        return SArr((x.n, T.pc(m)), fn2, S.kind_of(list(probe)))
    if isinstance(probe, SArr):
        f = x.fn
        return SArr((x.n,) + tuple(probe.dims), lambda ix: f(ix[0]).snapshot()(ix[1:]), probe.kind)
    if isinstance(probe, VList) and probe.building is None and probe.n is not None and not any("$elem" in str(a) for a in probe.n.fv()):
        rows = to_array(probe)                # rows of the same length
        f = x.fn
        return SArr((x.n,) + tuple(rows.dims), lambda ix: to_array(f(ix[0])).snapshot()(ix[1:]), rows.kind)
    r = S.lift(probe)
    if r is None:
        raise Unsupported("array of objects")
    k = "int" if r[1] == "npint" else r[1]
    f = x.fn
    return SArr((x.n,), lambda ix: S.term(f(ix[0])), k)


def tolist(a):
    if not a.dims:
        return a[()]
    f = a.snapshot()
    k = a.kind
    if len(a.dims) == 1:
        if a.dims[0].is_const():
            return VList([S.mk(f((T.pc(i),)), k) for i in range(int(a.dims[0].const()))])
        return VList((), "list", a.dims[0], lambda i: S.mk(f((i,)), k))
    if len(a.dims) == 2:
        return VList((), "list", a.dims[0], lambda i: VList((), "list", a.dims[1], lambda j: S.mk(f((i, j)), k)))
    raise Unsupported("tolist")


# ------------------------------------------------------------------------------------------------ objects
class VObj:
    """An instance of a class of the program (or of an unknown class: cls None)."""

    def __init__(self, cls, attrs=None, tag=None):
        self.__dict__["cls"], self.__dict__["attrs"], self.__dict__["tag"] = cls, dict(attrs or {}), tag
        self.__dict__["frozen"] = None
        c = S.Ctx.cur
        if c is not None:
            c.heap.append(self)

    def save(self):
        return dict(self.attrs)

    def restore(self, s):
        self.attrs.clear()
        self.attrs.update(s)

    def __repr__(self):
        return f"<object {self.cls.name if self.cls else ''} {self.tag or ''}>"

    def __format__(self, spec):
        return repr(self)

    __hash__ = object.__hash__


class VClass:
    def __init__(self, name, bases, ns, module):
        self.name, self.bases, self.ns, self.module = name, bases, ns, module

    def save(self):
        return dict(self.ns)

    def restore(self, s):
        self.ns.clear()
        self.ns.update(s)

    def lookup(self, n):
        if n in self.ns:
            return self.ns[n]
        for b in self.bases:
            if isinstance(b, VClass):
                r = b.lookup(n)
                if r is not None:
                    return r
        return None

    def subclass_of(self, c):
        return self is c or any(isinstance(b, VClass) and b.subclass_of(c) for b in self.bases)

    def __repr__(self):
        return f"<class {self.name}>"


class Opaque:
    """A value the engine knows nothing about (external modules, figures): attributes are opaque, calls do nothing."""

    def __init__(self, name="opaque"):
        self.name = name

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        return Opaque(self.name + "." + n)

    def __call__(self, *a, **k):
        return Opaque(self.name + "()")

    def __getitem__(self, k):
        return Opaque(self.name + "[]")

    def __setitem__(self, k, v):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Poison:
    """The unknown value of a variable at the start of a generic iteration."""

    def __init__(self, why, place=None):
        self.why, self.place = why, place

    def used(self, name):
        from .loops import NeedsFirst, PEEL
        if self.place is not None and self.place not in PEEL:
            raise NeedsFirst(f"value of {name} {self.why}", self.place)
        raise Unsupported(f"value of {name} {self.why}")


def equal_terms(a, b):
    """Equality of numbers or of tuples of numbers."""
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b)):
            return T.FALSE
        return T.cand(*[equal_terms(x, y) for x, y in zip(a, b)])
    return T.eq(a, b)


class SymSet:
    """The set of the numbers of a sequence of any length: its size, and membership."""
    _vc_native = True

    def __init__(self, n, fn, kind):
        self.n, self.fn, self.kind, self.count = n, fn, kind, None

    def length(self):
        """The number of different elements: all of them, unless there are two equal ones."""
        c = S.ctx()
        if self.count is None:
            if c.loopvars:
                raise Unsupported("size of a set in a loop")
            n, e = self.n, self.fn
            u, i, j = (c.freshvar(x, "int") for x in ("different", "first", "second"))
            c.fact(T.cand(T.ge0(u), T.le(u, n), T.cor(T.le(n, T.ZERO), T.lt(T.ZERO, u))))
            c.fact(T.implies(T.lt(u, n), T.cand(T.ge0(i), T.lt(i, j), T.lt(j, n), equal_terms(e(i), e(j)))))
            for f in c.ghost.get("places", ()):     # preconditions of the contract on any two places
                c.fact(f(i, j))
            for a, b in c.ghost.get("pairs", ()):   # two places the contract is about
                c.fact(T.implies(T.cand(T.ge0(a), T.lt(a, b), T.lt(b, n), equal_terms(e(a), e(b))), T.lt(u, n)))
            self.count = u
        return S.mk(self.count, "int")

    def has(self, x):
        k = T.var(f"$e{len(T.Atom.table)}", "int")
        return S.mkbool(T.exists(k, self.n, equal_terms(self.fn(k), x)))
