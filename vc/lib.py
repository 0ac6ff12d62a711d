"""Builtins and external modules of the program: exact counterparts over symbolic values.

Everything that is not listed here is either an opaque object (modules that only draw or print) or outside the reach of the
verifier (Unsupported)."""
import builtins
import collections
import itertools
import pathlib
import types
from fractions import Fraction as Fr

from . import terms as T
from . import sym as S
from . import seq as Q
from .sym import Sym, SymBool, SArr, Raised, Unsupported, flt
from .seq import VList, VObj, VClass, Opaque


class Marker:
    def __init__(self, name):
        self.name = name


STATICMETHOD, CLASSMETHOD, PROPERTY, EXC_BASE = Marker("staticmethod"), Marker("classmethod"), Marker("property"), Marker("exc")


class NDARRAY:          # the type numpy.ndarray
    _vc_native = True


class FLOAT64:          # the type numpy.float64
    _vc_native = True


class INT64:
    _vc_native = True


class SEQUENCE:         # typing.Sequence / collections.abc.Sequence
    _vc_native = True


class IdentityDecorator:
    """A decorator that does not change what the function computes (numba.njit, lru_cache, property setters)."""
    _vc_native = True

    def __init__(self, name="identity"):
        self.name = name

    def __call__(self, *a, **k):
        if len(a) == 1 and not k and not isinstance(a[0], (int, str)):
            return a[0]
        return self


class Typing:
    """Type expressions: subscripting and combining them gives type expressions."""
    _vc_native = True

    def __getitem__(self, k):
        return self

    def __or__(self, o):
        return self
    __ror__ = __or__


# ------------------------------------------------------------------------------------------------ classes of values
def type_of(x):
    if isinstance(x, VObj):
        return x.cls
    if isinstance(x, SymBool):
        return bool
    if isinstance(x, Sym):
        return {"bool": bool, "int": int, "npint": INT64, "float": float, "complex": complex}[x.kind]
    if isinstance(x, SArr):
        return NDARRAY
    if isinstance(x, VList):
        return {"list": list, "tuple": tuple, "set": set}[x.cls]
    if isinstance(x, Q.SymIter):
        return getattr(x, "pytype", range)
    return getattr(x, "_vc_type", None) or type(x)


def is_instance(interp, x, cls):
    if isinstance(cls, (tuple, VList)):
        return any(is_instance(interp, x, c) for c in (cls if isinstance(cls, tuple) else Q.native(cls)))
    if isinstance(cls, Opaque) or isinstance(cls, Typing):
        if isinstance(x, Opaque):
            raise Unsupported("isinstance of an opaque object")
        return False
    if isinstance(x, Opaque):
        raise Unsupported("isinstance of an opaque object")
    if getattr(x, "foreign", False):        # an object that is none of the classes of the program
        return cls is object
    t = type_of(x)
    if cls is object:
        return True
    if isinstance(cls, VClass):
        return isinstance(t, VClass) and t.subclass_of(cls)
    if isinstance(t, VClass):
        return False
    if cls is FLOAT64:
        raise Unsupported("distinction of float and numpy.float64")
    if cls is SEQUENCE:
        return t in (list, tuple, str, range)
    if cls is int:
        return t in (int, bool)
    if cls in (NDARRAY, INT64):
        return t is cls
    if isinstance(cls, type):
        return isinstance(t, type) and issubclass(t, cls)
    raise Unsupported("isinstance")


# ------------------------------------------------------------------------------------------------ builtins
def rng(interp, *a):
    vals = []
    for x in a:
        r = S.lift(x)
        if r is None or r[1] not in ("int", "npint", "bool"):
            raise Raised(TypeError, "'float' object cannot be interpreted as an integer")
        vals.append(r[0])
    lo, hi, st = (T.ZERO, vals[0], T.ONE) if len(vals) == 1 else (vals[0], vals[1], vals[2] if len(vals) > 2 else T.ONE)
    if all(v.is_const() for v in (lo, hi, st)):
        if st.const() == 0:
            raise Raised(ValueError, "range() arg 3 must not be zero")
        return range(int(lo.const()), int(hi.const()), int(st.const()))
    if not st.is_const():
        raise Unsupported("symbolic step of a range")
    if st.const() == 0:
        raise Raised(ValueError, "range() arg 3 must not be zero")
    d = T.sub(hi, lo)
    s = st.const()
    n = d if s == 1 else (T.ceil(T.scale(d, 1/s)))
    c = S.ctx()
    if not c.entails(T.ge0(n)) and not c.branch(T.ge0(n)):
        n = T.ZERO
    it = Q.SymIter(n, lambda k: S.mk(T.add(lo, T.scale(k, s)), "int"))
    it.pytype = range
    return it


def digest(x, **k):
    """Only for objects of contracts that give their digest."""
    f = getattr(x, "_vc_digest", None)
    if f is None:
        raise Unsupported("hash of data")
    return f()


def length(interp, x):
    if isinstance(x, VList):
        return x.length()
    if isinstance(x, SArr):
        if not x.dims:
            raise Raised(TypeError, "len() of unsized object")
        return S.undim(x.dims[0])
    if isinstance(x, Q.SymSet):
        return x.length()
    if isinstance(x, Q.SymIter):
        if getattr(x, "pytype", None) is not range:
            raise Raised(TypeError, "object of this type has no len()")
        return S.undim(x.n)
    if isinstance(x, VObj):
        if x.cls is None:
            if getattr(x, "foreign", False):
                raise Raised(TypeError, "object has no len()")
            raise Unsupported("len of an unknown object")
        m = x.cls.lookup("__len__")
        if m is None:
            raise Raised(TypeError, f"object of type '{x.cls.name}' has no len()")
        from .interp import Bound
        return interp.call(Bound(m, x), [], {})
    if isinstance(x, (str, tuple, dict, set, frozenset, range, type({}.keys()), type({}.values()), type({}.items()))):
        return len(x)
    if isinstance(x, Opaque):
        raise Unsupported("len of an opaque object")
    if hasattr(x, "_vc_len"):
        return x._vc_len()
    raise Raised(TypeError, f"object of type '{type(x).__name__}' has no len()")


def has_attr(interp, o, n):
    if isinstance(o, VObj) and o.cls is None:
        if getattr(o, "foreign", False):
            return False
        raise Unsupported("attribute of an unknown object")
    if isinstance(o, VObj):
        return n in o.attrs or o.cls.lookup(n) is not None
    if isinstance(o, VList):
        return hasattr({"list": [], "tuple": (), "set": set()}[o.cls], n)
    if isinstance(o, Sym):
        probe = {"int": 1, "bool": True, "float": 1.0, "complex": 1j}.get(o.kind)
        if probe is None:
            raise Unsupported("hasattr of a numpy integer")
        if o.kind == "float" and n in ("shape", "dtype", "ndim", "size", "astype", "tolist", "item"):
            raise Unsupported("distinction of float and numpy.float64")
        return hasattr(probe, n)
    if isinstance(o, SymBool):
        return hasattr(True, n)
    if isinstance(o, SArr):
        if n == "__len__":
            return True
        return hasattr(o, n) or n in ("__iter__", "__array__")
    if isinstance(o, Opaque):
        raise Unsupported("hasattr of an opaque object")
    try:
        interp.getattr(o, n)
        return True
    except Raised as e:
        if issubclass(e.cls, AttributeError):
            return False
        raise


def to_int(interp, x=0, base=None):
    if isinstance(x, str):
        try:
            return int(x) if base is None else int(x, base)
        except ValueError as e:
            raise Raised(ValueError, str(e))
    if isinstance(x, SArr) and x.ndim > 0:
        if S.ctx().entails(T.eq(S.dim(x.size), T.ONE)):
            x = x[(0,)*x.ndim]
        else:
            raise Raised(TypeError, "only length-1 arrays can be converted to Python scalars")
    r = S.lift(x)
    if r is None or r[1] == "complex":
        if isinstance(x, (Opaque,)):
            raise Unsupported("int of an opaque value")
        raise Raised(TypeError, "int() argument must be a string or a number")
    return S.mk(S.trunc(r[0]), "int")


def to_float(interp, x=0):
    if isinstance(x, str):
        try:
            return flt(float(x))
        except ValueError as e:
            raise Raised(ValueError, str(e))
    if isinstance(x, SArr) and x.ndim > 0:
        if S.ctx().entails(T.eq(S.dim(x.size), T.ONE)):
            x = x[(0,)*x.ndim]
        else:
            raise Raised(TypeError, "only length-1 arrays can be converted to Python scalars")
    r = S.lift(x)
    if r is None or r[1] == "complex":
        if isinstance(x, Opaque):
            raise Unsupported("float of an opaque value")
        raise Raised(TypeError, "float() argument must be a string or a real number")
    return Sym(r[0], "float")


def np_scalar_type(kind, scalar):
    """numpy.float64(x), numpy.int64(x): element-wise for arrays and sequences."""
    def convert(interp, x=0):
        if isinstance(x, (list, tuple)) or Q.is_symlist(x) or isinstance(x, SArr) and x.ndim > 0:
            return S.astype(arr(x), S.DType(kind))
        return scalar(interp, x)
    return convert


def to_bool(interp, x=False):
    if isinstance(x, SymBool):
        return x
    r = S.lift(x)
    if r is not None:
        return S.mkbool(T.cnot(T.eq0(r[0])))
    return interp.truth(x)


def sequence(cls):
    def f(interp, x=()):
        if isinstance(x, VList) and Q.is_symlist(x):
            if cls == "set":
                return sym_set(x.n, x.fn)
            r = x.copy()
            r.cls = cls
            return r
        it = Q.iteration(x)
        if isinstance(it, Q.SymIter):
            if cls == "set":
                return sym_set(it.n, it.fn)
            if isinstance(x, SArr) and x.ndim == 1 and x.filt is None:
                f = x.snapshot()          # the elements of now
                return VList((), cls, it.n, lambda i: x.scalar(i, f))
            return VList((), cls, it.n, it.fn)
        if cls == "tuple":
            return tuple(it)
        if cls == "set":
            return to_set(interp, it)
        return VList(it)
    return f


def sym_set(n, fn):
    kinds = []

    def terms(x):
        if isinstance(x, tuple):
            return tuple(terms(y) for y in x)
        r = S.lift(x)
        if r is None or r[1] == "complex":
            raise Unsupported("set of a symbolic list of objects")
        kinds.append(r[1])
        return r[0]
    probe = fn(T.var("$probe", "int"))
    terms(probe)
    return Q.SymSet(n, lambda i: terms(fn(i)), None if isinstance(probe, tuple) else kinds[0])


class Iterator:
    """iter(x) of a sequence or an array."""
    _vc_native = True

    def __init__(self, interp, x):
        it = Q.iteration(x)
        self._n, self._fn = (it.n, it.fn) if isinstance(it, Q.SymIter) else (T.pc(len(it)), lambda i: it[int(i.const())])
        self._at = 0

    def following(self, *default):
        c = S.ctx()
        if c.loopvars:
            raise Unsupported("iterator in a loop")
        more = T.lt(T.pc(self._at), self._n)
        if more is T.TRUE or c.entails(more) or (more is not T.FALSE and not c.entails(T.cnot(more)) and c.branch(more)):
            self._at += 1
            return self._fn(T.pc(self._at - 1))
        if default:
            return default[0]
        raise Raised(StopIteration, "")


def next_(interp, x, *default):
    if isinstance(x, Iterator):
        return x.following(*default)
    raise Unsupported("next")


def iter_(interp, x):
    if isinstance(x, (int, Sym, type(None), SymBool)) or isinstance(x, VObj):
        raise Raised(TypeError, "object is not iterable")
    return Iterator(interp, x)


def to_set(interp, it):
    for x in it:
        if isinstance(x, (VList, SArr, dict, set)):
            raise Raised(TypeError, "unhashable type")
        if isinstance(x, VObj) and x.cls is not None and x.cls.lookup("__eq__") is not None and x.cls.lookup("__hash__") is None:
            raise Raised(TypeError, f"unhashable type: '{x.cls.name}'")
        if isinstance(x, (SymBool,)) or interp.has_sym(x):
            vals = list(it)
            if all(S.lift(y) is not None for y in vals):
                return sym_set(T.pc(len(vals)), VList(vals).elem)
            raise Unsupported("set of symbolic values")
    return interp.reg(set(it))


def enum(interp, x, start=0):
    it = Q.iteration(x)
    if isinstance(it, Q.SymIter):
        return Q.SymIter(it.n, lambda k: (S.undim(k) + start, it.fn(k)))
    return [(i + start, y) for i, y in enumerate(it)]


def zip_(interp, *xs):
    its = [Q.iteration(x) for x in xs]
    if not any(isinstance(i, Q.SymIter) for i in its):
        return list(zip(*its))
    c = S.ctx()
    n = None
    for i in its:
        m = i.n if isinstance(i, Q.SymIter) else T.pc(len(i))
        if n is None or m == n:
            n = m
        elif c.entails(T.le(m, n)):
            n = m
        elif not c.entails(T.le(n, m)):
            n = m if c.branch(T.le(m, n)) else n

    def el(i):
        if isinstance(i, Q.SymIter):
            return i.fn
        return VList(i).elem
    fs = [el(i) for i in its]
    return Q.SymIter(n, lambda k: tuple(f(k) for f in fs))


def map_(interp, f, *xs):
    it = zip_(interp, *xs)
    if isinstance(it, Q.SymIter):
        return Q.SymIter(it.n, lambda k: interp.call(f, list(it.fn(k)), {}))
    return [interp.call(f, list(x), {}) for x in it]


def extremum(tag):
    def f(interp, *a, **kw):
        if kw:
            raise Unsupported(tag + " with keywords")
        xs = a
        if len(a) == 1:
            x = a[0]
            if isinstance(x, SArr) or Q.is_symlist(x):
                r = S.extremum(x, tag)
                return r
            it = Q.iteration(x)
            if isinstance(it, Q.SymIter):
                return S.extremum(VList((), "list", it.n, it.fn), tag)
            xs = it
            if not xs:
                raise Raised(ValueError, f"{tag}() arg is an empty sequence")
        r = xs[0]
        for x in xs[1:]:
            a1, b1 = S.lift(r), S.lift(x)
            if a1 is None or b1 is None:
                if isinstance(r, str) and isinstance(x, str):
                    r = (max if tag == "max" else min)(r, x)
                    continue
                raise Raised(TypeError, "unorderable types")
            c = T.lt(a1[0], b1[0]) if tag == "max" else T.lt(b1[0], a1[0])
            if c is T.TRUE:
                r = x
            elif c is not T.FALSE:
                if S.ctx().entails(c):
                    r = x
                elif not S.ctx().entails(T.cnot(c)):
                    r = Sym(T.larger(a1[0], b1[0], tag), S.join(a1[1], b1[1]))
        return r
    return f


def sum_(interp, x, start=0):
    import ast
    if isinstance(x, SArr) and x.ndim == 1 or Q.is_symlist(x):
        r = S.asum(x)
        return r if isinstance(start, int) and start == 0 else interp.binop(ast.Add(), start, r)
    it = Q.iteration(x)
    if isinstance(it, Q.SymIter):
        return S.asum(VList((), "list", it.n, it.fn)) + start
    r = start
    for y in it:
        r = interp.binop(ast.Add(), r, y)
    return r


def any_(interp, x):
    return quantified(interp, x, True)


def all_(interp, x):
    return quantified(interp, x, False)


def quantified(interp, x, some):
    it = Q.iteration(x)
    if isinstance(it, Q.SymIter):
        def cond(k):
            v = it.fn(k)
            return T.ite(S.cond_of(v), T.ONE, T.ZERO)
        a = SArr((it.n,), lambda ix: cond(ix[0]), "int")
        c = S.ctx()
        if not c.entails(T.lt(T.ZERO, it.n)) and not c.branch(T.lt(T.ZERO, it.n)):
            return not some
        m = S.extremum(a, "max" if some else "min")
        return S.mkbool(T.cnot(T.eq0(S.term(m))))
    for y in it:
        if isinstance(y, (bool, SymBool)):
            pass
        if interp.truth(y) == some:
            return some
    return not some


def sorted_(interp, x, **kw):
    it = Q.iteration(x)
    if isinstance(it, Q.SymIter):
        raise Unsupported("sorting of a symbolic sequence")
    key = kw.get("key")
    ks = [interp.call(key, [y], {}) if key is not None else y for y in it]
    if not all(isinstance(k, (int, str)) or (isinstance(k, Sym) and k.p.is_const()) for k in ks):
        raise Unsupported("sorting of symbolic values")
    ks = [k.p.const() if isinstance(k, Sym) else k for k in ks]
    order = sorted(range(len(it)), key=lambda i: ks[i], reverse=bool(kw.get("reverse", False)))
    return VList([it[i] for i in order])


def reversed_(interp, x):
    it = Q.iteration(x)
    if isinstance(it, Q.SymIter):
        return Q.SymIter(it.n, lambda k: it.fn(T.sub(T.sub(it.n, T.ONE), k)))
    return list(reversed(it))


def abs_(interp, x):
    if isinstance(x, (VList, tuple, str, dict, type(None))):
        raise Raised(TypeError, "bad operand type for abs()")
    return abs(x if not isinstance(x, SymBool) else x._num())


def round_(interp, x, nd=None):
    if isinstance(nd, Sym) and nd.p.is_const():
        nd = int(nd.p.const())
    if isinstance(x, SArr):
        raise Unsupported("round() of an array")
    if S.lift(x) is None:
        raise Raised(TypeError, "type does not define __round__ method")
    if isinstance(x, int) and nd is None:
        return x
    r = S.round_(x, nd)
    if nd is not None and isinstance(x, (int,)):
        return x
    return r


def make_builtins(interp):
    def b(f):
        return lambda *a, **k: f(interp, *a, **k)
    ns = {n: getattr(builtins, n) for n in dir(builtins) if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}
    ns.update({"isinstance": b(is_instance), "len": b(length), "range": b(rng), "abs": b(abs_), "max": b(extremum("max")), "min": b(extremum("min")),
               "sum": b(sum_), "round": b(round_), "enumerate": b(enum), "zip": b(zip_), "map": b(map_), "any": b(any_), "all": b(all_), "sorted": b(sorted_),
               "reversed": b(reversed_), "hasattr": b(has_attr), "print": lambda *a, **k: None, "type": lambda x: type_of(x),
               "int": int, "float": float, "bool": bool, "str": str, "list": list, "tuple": tuple, "dict": dict, "set": set, "complex": complex,
               "frozenset": frozenset, "object": object, "slice": slice, "bytes": bytes,
               "staticmethod": STATICMETHOD, "classmethod": CLASSMETHOD, "property": PROPERTY,
               "True": True, "False": False, "None": None, "NotImplemented": NotImplemented, "Ellipsis": Ellipsis,
               "iter": b(iter_), "next": b(next_), "repr": lambda x: interp.to_text(x), "id": lambda x: id(x)})

    def getattr_(o, n, *d):
        try:
            return interp.getattr(o, n)
        except Raised as e:
            if d and issubclass(e.cls, AttributeError):
                return d[0]
            raise
    from .interp import Func, Bound
    ns["getattr"] = getattr_
    ns["setattr"] = lambda o, n, v: interp.setattr(o, n, v)
    ns["callable"] = lambda o: isinstance(o, (Func, Bound, VClass, type)) or callable(o) and not isinstance(o, (VObj, Sym, SArr, VList))
    ns["pow"] = lambda a, b_: interp.binop(__import__("ast").Pow(), a, b_)
    ns["divmod"] = lambda a, b_: divmod(a, b_)

    def open_(*a, **k):
        h = getattr(interp, "open_handler", None)
        if h is None:
            raise Unsupported("open")
        return h(*a, **k)
    ns["open"] = open_

    def filter_(f, xs):
        return [x for x in Q.native(xs) if interp.truth(interp.call(f, [x], {}))]
    ns["filter"] = filter_

    def input_(*a):
        raise Unsupported("input")
    ns["input"] = input_
    return ns


def _dict(interp, *a, **k):
    d = {}
    if a:
        if isinstance(a[0], dict):
            d.update(a[0])
        else:
            for x in Q.native(a[0]):
                kk, v = Q.native(x)
                d[kk] = v
    d.update(k)
    return interp.reg(d)


def _str(interp, x=""):
    return interp.to_text(x)


def _path(interp, *a):
    h = getattr(interp, "path_handler", None)
    if h is not None:
        return h(*a)
    return VPath(*[str(x) if isinstance(x, VPath) else x for x in a])


class VPath(pathlib.PurePosixPath):
    _vc_native = True

    def absolute(self):
        return self

    def _no(self, *a, **k):
        raise Unsupported("file system")
    exists = is_dir = is_file = mkdir = cwd = iterdir = unlink = open = read_text = write_text = _no


TYPE_CALLS = {int: to_int, float: to_float, bool: to_bool, list: sequence("list"), tuple: sequence("tuple"), set: sequence("set"),
              frozenset: sequence("set"), dict: _dict, str: _str, FLOAT64: np_scalar_type("float", to_float), INT64: np_scalar_type("int", to_int), pathlib.Path: _path,
              complex: lambda interp, re=0, im=0: S.Sym(T.add(S.term(re), T.mul(S.term(im), T.IMAG)), "complex"),
              slice: lambda interp, *a: slice(*a), object: lambda interp: VObj(None)}


# ------------------------------------------------------------------------------------------------ numpy
def arr(x, dtype=None):
    return S.asarray(x, dtype)


def shape_of(s):
    if isinstance(s, Q.VList):
        s = tuple(Q.native(s))
    if not isinstance(s, tuple):
        s = (s,)
    out = []
    c = S.ctx()
    for x in s:
        r = S.lift(x)
        if r is None or r[1] not in ("int", "npint"):
            raise Raised(TypeError, "'float' object cannot be interpreted as an integer")
        p = r[0]
        if not c.entails(T.ge0(p)) and not c.branch(T.ge0(p)):
            raise Raised(ValueError, "negative dimensions are not allowed")
        out.append(p)
    return tuple(out)


def const_array(v):
    p = T.pc(v)

    def f(shape, dtype=None, order=None):
        return SArr(shape_of(shape), lambda ix: p, S.dtype_kind(dtype), dtype=S.as_dtype(dtype))
    return f


def empty(shape, dtype=None):
    i = S.ctx().newid()
    return SArr(shape_of(shape), lambda ix: T.app(f"uninitialised{i}", tuple(ix)), S.dtype_kind(dtype))


def like(v):
    p = T.pc(v)

    def f(a, dtype=None):
        a = arr(a)
        return SArr(a.dims, lambda ix: p, S.dtype_kind(dtype) if dtype is not None else a.kind)
    return f


def full(shape, val, dtype=None):
    r = S.lift(val)
    if r is None:
        raise Unsupported("full")
    return SArr(shape_of(shape), lambda ix: r[0], S.dtype_kind(dtype) if dtype is not None else ("int" if r[1] == "npint" else r[1]))


def unary(f, keep=False):
    def g(x, out=None, dtype=None):
        if out is not None or dtype is not None:
            raise Unsupported("out argument")
        if isinstance(x, (str, type(None), dict, set, VObj)):
            raise Raised(TypeError, "ufunc not supported for the input types")
        x = x._num() if isinstance(x, SymBool) else x
        if isinstance(x, SArr) and getattr(x, "text", False):
            raise Raised(TypeError, "ufunc not supported for the input types")

        def h(p, k):
            if k == "complex" and f in (T.cos, T.sin, T.sqrt):
                raise Unsupported("complex argument")
            return f(p), ("complex" if k == "complex" else "float") if not keep else ("float" if k == "complex" else k)
        return S.elementwise1(x, h)
    return g


def binary(name):
    def g(a, b, out=None, dtype=None):
        if out is not None or dtype is not None:
            raise Unsupported("out argument")
        a, b = [arr(x) if isinstance(x, (VList, tuple, list)) else x for x in (a, b)]
        for x in (a, b):
            if S.lift(x) is None and not isinstance(x, SArr):
                raise Raised(TypeError, "ufunc not supported for the input types")
        if not isinstance(a, SArr) and not isinstance(b, SArr):
            (pa, ka), (pb, kb) = S.lift(a), S.lift(b)
            np_ = {"int": "npint", "bool": "npint"}
            if name == "pow" and ka in ("int", "bool", "npint") and kb in ("int", "bool", "npint"):
                if pb.is_const():
                    if pb.const() < 0:
                        raise Raised(ValueError, "Integers to negative integer powers are not allowed.")
                elif not S.ctx().entails(T.ge0(pb)) and not S.ctx().branch(T.ge0(pb)):
                    raise Raised(ValueError, "Integers to negative integer powers are not allowed.")
            if name in ("lt", "le", "gt", "ge", "eq", "ne"):
                return S.compare(name, pa, pb)
            r = S.scalar_op(name, pa, ka, pb, kb)
            if isinstance(r, int):
                return Sym(T.pc(r), "npint")
            return Sym(r.p, np_.get(r.kind, r.kind))
        return S.arr_op(name, a, b)
    return g


def minmax2(tag):
    def g(a, b):
        a, b = [arr(x) if isinstance(x, (VList, tuple, list)) else x for x in (a, b)]
        d = S.same_dims(a.dims if isinstance(a, SArr) else (), b.dims if isinstance(b, SArr) else ())
        fa, fb = S.broadcast_to(a, d), S.broadcast_to(b, d)
        k = S.join(S.kind_of(a), S.kind_of(b))

        def fn(ix):
            x, y = fa(ix), fb(ix)
            return T.larger(x, y, tag)
        if not d:
            return Sym(fn(()), "npint" if k == "int" else k)
        return SArr(d, fn, k)
    return g


def np_round(x, decimals=0):
    if isinstance(decimals, Sym) and decimals.p.is_const():
        decimals = int(decimals.p.const())
    if isinstance(decimals, int):
        return S.elementwise1(x, lambda p, k: (T.rnd(p, decimals), k))
    d = S.term(decimals)
    return S.elementwise1(x, lambda p, k: (T.app("round", (p, d)), k))


def arange(*a, dtype=None, **kw):
    if kw:
        raise Unsupported("arange keywords")
    rs = [S.lift(x) for x in a]
    if any(r is None for r in rs):
        raise Raised(TypeError, "arange arguments must be numbers")
    lo, hi, st = (T.ZERO, rs[0][0], T.ONE) if len(rs) == 1 else (rs[0][0], rs[1][0], rs[2][0] if len(rs) > 2 else T.ONE)
    k = "int"
    for r in rs:
        k = S.join(k, r[1])
    k = "int" if k in ("npint", "bool") else k
    if dtype is not None:
        k = S.dtype_kind(dtype)
    if st.is_const() and st.const() == 0:
        raise Raised(ZeroDivisionError, "division by zero")
    S.nonzero(st)
    n = T.ceil(T.div(T.sub(hi, lo), st))
    c = S.ctx()
    if not c.entails(T.ge0(n)) and not c.branch(T.ge0(n)):
        n = T.ZERO
    c.ghost.setdefault("arange", []).append((n, lo, hi, st))
    # what the length means: lo + (n-1)*st < hi <= lo + n*st for a positive step
    if not st.is_const():
        last = T.add(lo, T.mul(T.sub(n, T.ONE), st))
        c.fact(T.implies(T.cand(T.gt0(st), T.gt0(n)), T.cand(T.lt(last, hi), T.le(hi, T.add(last, st)))))
    return SArr((n,), lambda ix: T.add(lo, T.mul(ix[0], st)), k)


def linspace(lo, hi, num=50, endpoint=True, **kw):
    if kw:
        raise Unsupported("linspace keywords")
    a, b = S.term(lo), S.term(hi)
    n, = shape_of(num)
    if n.is_const() and n.const() == 1 and endpoint:
        return SArr((n,), lambda ix: a, "float")
    m = T.sub(n, T.ONE) if endpoint else n
    S.nonzero(m)
    step = T.div(T.sub(b, a), m)
    return SArr((n,), lambda ix: T.add(a, T.mul(ix[0], step)), "float")


def meshgrid(x, y, **kw):
    ix_ = kw.get("indexing", "xy")
    x, y = arr(x), arr(y)
    fx, fy = x.snapshot(), y.snapshot()
    if ix_ == "ij":
        d = (x.dims[0], y.dims[0])
        return VList([SArr(d, lambda ix: fx((ix[0],)), x.kind), SArr(d, lambda ix: fy((ix[1],)), y.kind)])
    d = (y.dims[0], x.dims[0])
    return VList([SArr(d, lambda ix: fx((ix[1],)), x.kind), SArr(d, lambda ix: fy((ix[0],)), y.kind)])


def key_of(a):
    """A term that identifies the content of an array."""
    a = arr(a)
    if not a.dims:
        return a.snapshot()(())
    return T.pa(S._arrkey(a, "array"))


def lstsq(a, b, rcond=None):
    a, b = arr(a), arr(b)
    if a.ndim != 2 or b.ndim != 1:
        raise Unsupported("lstsq of these dimensions")
    if a.dims[0] != b.dims[0]:
        c = T.eq(a.dims[0], b.dims[0])
        if not S.ctx().entails(c) and not S.ctx().branch(c):
            raise Raised(ValueError, "Incompatible dimensions")
    ka, kb = key_of(a), key_of(b)
    return (SArr((a.dims[1],), lambda ix: T.app("lstsq", (ka, kb, ix[0])), "float"), Opaque("residuals"), Opaque("rank"), Opaque("sv"))


def norm(x):
    x = arr(x)
    f = x.snapshot()
    s = S.asum(SArr(x.dims, lambda ix: T.power(f(ix), 2), "float"))
    return Sym(T.sqrt(S.term(s)), "float")


def where(c, a=None, b=None):
    if a is None:
        raise Unsupported("where with one argument")
    c, a, b = [arr(x) if isinstance(x, (VList, tuple, list)) else x for x in (c, a, b)]
    d = ()
    for x in (c, a, b):
        d = S.same_dims(d, x.dims if isinstance(x, SArr) else ())
    fc, fa, fb = [S.broadcast_to(x, d) for x in (c, a, b)]
    k = S.join(S.kind_of(a), S.kind_of(b))

    def fn(ix):
        return T.ite(T.cnot(T.eq0(fc(ix))), fa(ix), fb(ix))
    return SArr(d, fn, k) if d else S.mk(fn(()), k)


def arctan2(y, x):
    a, b = [arr(z) if isinstance(z, (VList, tuple, list)) else z for z in (y, x)]
    if isinstance(a, SArr) or isinstance(b, SArr):
        d = S.same_dims(a.dims if isinstance(a, SArr) else (), b.dims if isinstance(b, SArr) else ())
        fa, fb = S.broadcast_to(a, d), S.broadcast_to(b, d)
        return SArr(d, lambda ix: atan2(fa(ix), fb(ix)), "float")
    return Sym(atan2(S.term(a), S.term(b)), "float")


def atan2(y, x):
    if not y.d and x.is_const() and x.const() >= 0:
        return T.ZERO
    return T.app("arctan2", (y, x))


def np_any(x, axis=None):
    x = arr(x)
    f = x.snapshot()
    m = S.extremum(SArr(x.dims, lambda ix: T.ite(T.cnot(T.eq0(f(ix))), T.ONE, T.ZERO), "int"), "max", axis)
    return S.mkbool(T.cnot(T.eq0(S.term(m))))


def np_all(x, axis=None):
    x = arr(x)
    f = x.snapshot()
    m = S.extremum(SArr(x.dims, lambda ix: T.ite(T.cnot(T.eq0(f(ix))), T.ONE, T.ZERO), "int"), "min", axis)
    return S.mkbool(T.cnot(T.eq0(S.term(m))))


def flip(x, axis=None):
    x = arr(x)
    f = x.snapshot()
    ax = range(x.ndim) if axis is None else [axis % x.ndim]
    return SArr(x.dims, lambda ix: f(tuple(T.sub(T.sub(n, T.ONE), i) if j in ax else i for j, (i, n) in enumerate(zip(ix, x.dims)))), x.kind)


def np_copy(x):
    x = arr(x)
    return x.copy()


def np_size(x, axis=None):
    if axis is not None:
        x = arr(x)
        if not isinstance(axis, int) or not -x.ndim <= axis < x.ndim:
            raise Raised(IndexError, "tuple index out of range") if isinstance(axis, int) else Unsupported("axis")
        return x.shape[axis]
    if isinstance(x, SArr):
        return x.size
    if isinstance(x, (VList, tuple)):
        return arr(x).size
    return 1


def pow_any(a, b):
    return binary("pow")(a, b)


def outer(a, b):
    a, b = arr(a), arr(b)
    fa, fb = a.snapshot(), b.snapshot()
    return SArr((a.dims[0], b.dims[0]), lambda ix: T.mul(fa((ix[0],)), fb((ix[1],))), S.join(a.kind, b.kind))


def clip(x, lo, hi):
    return minmax2("min")(minmax2("max")(x, lo), hi)


def isclose(a, b, **kw):
    raise Unsupported("isclose")


def isfinite(x):
    return S.elementwise1(x, lambda p, k: (T.ONE, "bool")) if isinstance(x, (SArr, VList, tuple)) else True


def isnan(x):
    return S.elementwise1(x, lambda p, k: (T.ZERO, "bool")) if isinstance(x, (SArr, VList, tuple)) else False


def sign(p):
    return T.ite(T.gt0(p), T.ONE, T.ite(T.eq0(p), T.ZERO, T.pc(-1)))


def np_sum(x, axis=None):
    return S.asum(x, axis)


def np_mean(x, axis=None):
    x = arr(x)
    return S.asum(x)/x.size


class Shim:
    _vc_native = True

    def __init__(self, name, **ns):
        self.__dict__["_name"] = name
        self.__dict__.update(ns)

    def __getattr__(self, n):
        if n.startswith("__") or n == "maybe_none":
            raise AttributeError(n)
        raise Unsupported(f"{self._name}.{n}")


def _np_shape(x):
    return arr(x).shape


def numpy_shim():
    f = unary
    return Shim("numpy", zeros=const_array(0), ones=const_array(1), empty=empty, zeros_like=like(0), ones_like=like(1), empty_like=lambda a, dtype=None: empty(arr(a).shape, dtype),
                full=full, asarray=lambda x, dtype=None: arr(x, dtype), array=lambda x, dtype=None, **k: arr(x, dtype).copy(),
                asfarray=lambda x: arr(x, S.DType("float")), atleast_1d=lambda x: arr(x) if isinstance(x, SArr) and x.ndim else arr(VList([x]) if S.lift(x) else x),
                arange=arange, linspace=linspace, meshgrid=meshgrid, max=lambda x, axis=None: S.extremum(x, "max", axis),
                min=lambda x, axis=None: S.extremum(x, "min", axis), amax=lambda x, axis=None: S.extremum(x, "max", axis),
                amin=lambda x, axis=None: S.extremum(x, "min", axis), abs=f(T.pabs, True), absolute=f(T.pabs, True), fabs=f(T.pabs),
                round=np_round, around=np_round, sqrt=f(T.sqrt), sin=f(T.sin), cos=f(T.cos), exp=f(T.exp), square=f(lambda p: T.power(p, 2), True),
                negative=f(T.neg, True), floor=f(T.floor), ceil=f(T.ceil), sign=f(sign, True), power=pow_any, float_power=pow_any,
                add=binary("add"), subtract=binary("sub"), multiply=binary("mul"), divide=binary("div"), true_divide=binary("div"), mod=binary("mod"), remainder=binary("mod"),
                floor_divide=binary("floordiv"), less=binary("lt"), less_equal=binary("le"), greater=binary("gt"), greater_equal=binary("ge"),
                equal=binary("eq"), not_equal=binary("ne"), maximum=minmax2("max"), minimum=minmax2("min"), clip=clip, arctan2=arctan2,
                hypot=lambda a, b: unary(T.sqrt)(S.arr_op("add", binary("pow")(a, 2), binary("pow")(b, 2)) if isinstance(a, SArr) or isinstance(b, SArr)
                                                 else binary("pow")(a, 2) + binary("pow")(b, 2)),
                pi=Sym(T.PI, "float"), e=Sym(T.exp(T.ONE), "float"), sum=np_sum, mean=np_mean, copy=np_copy, size=np_size, shape=_np_shape,
                ndim=lambda x: arr(x).ndim, where=where, any=np_any, all=np_all, flip=flip, transpose=lambda x: arr(x).T, outer=outer,
                isfinite=isfinite, isnan=isnan, conj=lambda x: S.elementwise1(x, lambda p, k: (S.conj(p), k)), real=lambda x: x.real, imag=lambda x: x.imag,
                isscalar=lambda x: S.lift(x) is not None and not isinstance(x, SArr),
                ndarray=NDARRAY, float64=FLOAT64, float_=FLOAT64, int64=INT64, int32=INT64, int_=INT64, uint8=Marker("uint8"), complex128=Marker("complex128"), newaxis=None,
                bool_=bool, linalg=Shim("numpy.linalg", norm=norm, lstsq=lstsq))


# ------------------------------------------------------------------------------------------------ other modules
def factorial(n):
    r = S.lift(n)
    if r is None or r[1] not in ("int", "npint", "bool"):
        raise Raised(TypeError, "'float' object cannot be interpreted as an integer")
    if r[0].is_const():
        if r[0].const() < 0:
            raise Raised(ValueError, "factorial() not defined for negative values")
        import math
        return math.factorial(int(r[0].const()))
    c = S.ctx()
    if not c.entails(T.ge0(r[0])) and not c.branch(T.ge0(r[0])):
        raise Raised(ValueError, "factorial() not defined for negative values")
    return Sym(T.app("factorial", (r[0],), "int"), "int")


def math1(f):
    def g(x):
        if isinstance(x, SArr) and x.ndim > 0:
            raise Raised(TypeError, "only length-1 arrays can be converted to Python scalars")
        r = S.lift(x)
        if r is None:
            raise Raised(TypeError, "must be real number")
        return Sym(f(r[0]), "float")
    return g


def math_sqrt(x):
    r = S.lift(x)
    if r is None or isinstance(x, SArr) and x.ndim:
        raise Raised(TypeError, "must be real number")
    c = S.ctx()
    if r[0].is_const():
        if r[0].const() < 0:
            raise Raised(ValueError, "math domain error")
    elif not c.entails(T.ge0(r[0])):
        if not c.branch(T.ge0(r[0])):
            raise Raised(ValueError, "math domain error")
    return Sym(T.sqrt(r[0]), "float")


def math_shim():
    return Shim("math", factorial=factorial, sqrt=math_sqrt, pi=Sym(T.PI, "float"), e=Sym(T.exp(T.ONE), "float"), cos=math1(T.cos), sin=math1(T.sin),
                exp=math1(T.exp), fabs=math1(T.pabs), floor=lambda x: S.mk(T.floor(S.term(x)), "int"), ceil=lambda x: S.mk(T.ceil(S.term(x)), "int"),
                trunc=lambda x: S.mk(S.trunc(S.term(x)), "int"), pow=lambda a, b: Sym(S.lift(S.scalar_op("pow", S.term(a), "float", S.term(b), "float"))[0], "float"),
                atan2=lambda y, x: Sym(atan2(S.term(y), S.term(x)), "float"), hypot=lambda a, b: Sym(T.sqrt(T.add(T.power(S.term(a), 2), T.power(S.term(b), 2))), "float"),
                tau=Sym(T.scale(T.PI, 2), "float"), comb=comb, isqrt=isqrt)


def comb(n, k):
    import math
    a, b = S.lift(n), S.lift(k)
    if a[0].is_const() and b[0].is_const():
        return math.comb(int(a[0].const()), int(b[0].const()))
    raise Unsupported("math.comb")


def isqrt(n):
    import math
    a = S.lift(n)
    if a[0].is_const():
        return math.isqrt(int(a[0].const()))
    raise Unsupported("math.isqrt")


def jv(v, x):
    p = S.term(v)
    return S.elementwise1(x, lambda q, k: (T.app("jv", (p, q)), "float"))


def ndi_convolve(img, weights, output=None, mode="reflect", cval=0.0, origin=0):
    """scipy.ndimage.convolve (assumed): output[i] = sum over a of weights[a]*image[i + size//2 - a], positions outside of the image being mapped by the mode;
    the output has the type of the image."""
    img, weights = arr(img), arr(weights)
    if output is not None or not (isinstance(origin, int) and origin == 0):
        raise Unsupported("convolve keywords")
    if img.ndim != weights.ndim:
        raise Raised(RuntimeError, "filter weights array has incorrect shape.")
    if "complex" in (img.kind, weights.kind) or not isinstance(mode, str):
        raise Unsupported("convolution of these arrays")
    f, g = img.snapshot(), weights.snapshot()
    whole = img.kind != "float"

    def value(ix):
        q = tuple(T.var(f"$conv{i}", "int") for i in range(weights.ndim))
        at = tuple(T.app("outside_" + mode, (T.sub(T.add(i, T.fdiv(n, 2)), a), d), "int") for i, a, n, d in zip(ix, q, weights.dims, img.dims))
        r = T.mul(g(q), f(at))
        for k, n in reversed(list(zip(q, weights.dims))):
            r = T.bsum(k, n, r)
        return S.trunc(r) if whole and not T.is_int(r) else r
    return SArr(img.dims, value, img.kind, dtype=img._dtype)


def make_externals(interp):
    import json as _json

    def warn(msg="", *a, **k):
        c = S.ctx()
        if not c.quiet:
            c.warned.append(msg)
    catch = lambda *a, **k: Opaque("catch_warnings")
    warnings_ = Shim("warnings", warn=warn, filterwarnings=lambda *a, **k: None, simplefilter=lambda *a, **k: None, catch_warnings=catch, resetwarnings=lambda *a, **k: None)

    def clock(*a):
        return Sym(S.ctx().fresh("time", "real"), "float")

    def uniform(a, b):
        c = S.ctx()
        x = c.fresh("uniform", "real")
        lo, hi = S.term(a), S.term(b)
        c.fact(T.cand(T.le(lo, x), T.le(x, hi)) if c.entails(T.le(lo, hi)) else T.cor(T.cand(T.le(lo, x), T.le(x, hi)), T.cand(T.le(hi, x), T.le(x, lo))))
        return Sym(x, "float")

    def randint(a, b):
        c = S.ctx()
        x = c.fresh("randint", "int")
        c.fact(T.cand(T.le(S.term(a), x), T.le(x, S.term(b))))
        return Sym(x, "int")

    def choice(xs):
        c = S.ctx()
        n = S.dim(length(interp, xs))
        if n.is_const() and n.const() == 0:
            raise Raised(IndexError, "Cannot choose from an empty sequence")
        i = c.fresh("choice", "int")
        c.fact(T.cand(T.ge0(i), T.lt(i, n)))
        if isinstance(xs, Q.SymIter):
            return xs.fn(i)
        if isinstance(xs, (tuple, range)):
            xs = VList(list(xs))
        if all(isinstance(x, bool) for x in list.__iter__(xs)) and not Q.is_symlist(xs):
            return S.mkbool(T.cor(*[T.eq(i, T.pc(j)) for j, x in enumerate(list.__iter__(xs)) if x]))
        return xs.get(Sym(i, "int"))
    rand = Shim("random", uniform=uniform, randint=randint, choice=choice, random=lambda: uniform(0, 1), seed=lambda *a: None)

    def namedtuple(name, fields, **k):
        cls = collections.namedtuple(name, fields if isinstance(fields, str) else Q.native(fields))
        return cls

    def partial(f, *a, **k):
        return lambda *b, **kk: interp.call(f, list(a) + list(b), {**k, **kk})

    def reduce_(f, xs, *init):
        it = Q.native(xs)
        r = init[0] if init else it.pop(0)
        for x in it:
            r = interp.call(f, [r, x], {})
        return r
    ident = IdentityDecorator
    cache = ident("lru_cache")
    typ = Typing()
    absent = ModuleNotFoundError("not installed")
    return {"numpy": numpy_shim(), "math": math_shim(), "warnings": warnings_, "random": rand,
            "time": Shim("time", time=clock, perf_counter=clock, sleep=lambda *a: None, monotonic=clock, perf_counter_ns=clock),
            "collections": Shim("collections", namedtuple=namedtuple),
            "functools": Shim("functools", lru_cache=cache, cache=cache, partial=partial, reduce=reduce_, wraps=lambda f: ident()),
            "typing": Shim("typing", Union=typ, Sequence=SEQUENCE, Callable=typ, Any=typ, Optional=typ, List=typ, Tuple=typ, Dict=typ, Iterable=typ),
            "collections.abc": Shim("collections.abc", Sequence=SEQUENCE),
            "pathlib": Shim("pathlib", Path=pathlib.Path), "scipy.special": Shim("scipy.special", jv=jv, j1=lambda x: jv(1, x)),
            "scipy.ndimage": Shim("scipy.ndimage", convolve=ndi_convolve), "numba": Shim("numba", njit=ident("njit"), jit=ident("jit"), prange=lambda *a: rng(interp, *a), __version__="0.60.0"),
            "joblib": absent, "os": Shim("os", cpu_count=lambda: Sym(S.ctx().fresh("cpus"), "int")), "json": getattr(interp, "json_shim", None) or Shim("json"),
            "itertools": Shim("itertools", product=lambda *a: list(itertools.product(*[Q.native(x) for x in a])), chain=lambda *a: list(itertools.chain(*[Q.native(x) for x in a]))),
            "operator": Shim("operator"), "hashlib": Shim("hashlib", **{x: digest for x in ("md5", "sha1", "sha256")}), "importlib.metadata": Shim("importlib.metadata", version=lambda n: "0"), "string": Shim("string")}
