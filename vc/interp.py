"""Symbolic interpreter for the Python code in /repo: statements and expressions over exact symbolic values.

The text that is interpreted is the current source of /repo (parsed on every run); nothing is dropped.  Functions with a
contract are replaced at their call sites by the contract; all other functions of the repository are executed in line.
"""
import ast
import builtins
import operator
import os
import sys

from . import terms as T
from . import sym as S
from . import seq as Q
from .sym import Sym, SymBool, SArr, Raised, Unsupported, flt
from .seq import VList, VObj, VClass, Opaque, Poison

sys.setrecursionlimit(30000)
REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "src", "zernpy")


class Return(BaseException):
    def __init__(self, v):
        self.v = v


class Break(BaseException):
    pass


class Continue(BaseException):
    pass


class Func:
    def __init__(self, name, qual, node, module, closure, cls, defaults, kwdefaults):
        self.name, self.qual, self.node, self.module, self.closure, self.cls = name, qual, node, module, closure, cls
        self.defaults, self.kwdefaults, self.kind = defaults, kwdefaults, ""
        self.locals = assigned(node)

    def __repr__(self):
        return f"<function {self.qual}>"


class Bound:
    def __init__(self, func, obj):
        self.func, self.obj = func, obj


class Static:
    def __init__(self, func, kind):
        self.func, self.kind = func, kind


class Prop:
    def __init__(self, func):
        self.func, self.setter_func = func, None


class Module:
    def __init__(self, name):
        self.name, self.ns = name, {}

    def save(self):
        return dict(self.ns)

    def restore(self, s):
        self.ns.clear()
        self.ns.update(s)


class DictCell:
    """Heap handle of a native dict or set of the program."""

    def __init__(self, d):
        self.d = d

    def save(self):
        return self.d.copy()

    def restore(self, s):
        self.d.clear()
        self.d.update(s)


def assigned(fn):
    r = getattr(fn, "_vc_assigned", None)
    if r is None:
        r = fn._vc_assigned = _assigned(fn)
    return r


def _assigned(fn):
    out, glob = set(), set()
    if isinstance(fn, ast.Lambda):
        return out

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                out.add(c.name)
                continue
            if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                out.add(c.id)
            if isinstance(c, ast.ExceptHandler) and c.name:
                out.add(c.name)
            if isinstance(c, (ast.Import, ast.ImportFrom)):
                for a in c.names:
                    out.add((a.asname or a.name).split(".")[0])
            if isinstance(c, ast.Global):
                glob.update(c.names)
            if isinstance(c, ast.Nonlocal):
                glob.update(c.names)
            walk(c)
    walk(fn)
    return out - glob


class Frame:
    def __init__(self, func, module, locals_, closure=None, cls=None):
        self.func, self.module, self.locals, self.closure, self.cls = func, module, locals_, closure, cls
        self.globals = set()


_ast_cache = {}


def parse(path):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    if key not in _ast_cache:
        with open(path, encoding="utf-8") as f:
            _ast_cache[key] = ast.parse(f.read(), path)
    return _ast_cache[key]


BINOPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv,
          ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor,
          ast.LShift: operator.lshift, ast.RShift: operator.rshift, ast.MatMult: operator.matmul}
IBINOPS = {ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul, ast.Div: operator.itruediv, ast.FloorDiv: operator.ifloordiv,
           ast.Mod: operator.imod, ast.Pow: operator.ipow, ast.BitAnd: operator.iand, ast.BitOr: operator.ior}
CMPOPS = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge, ast.Eq: operator.eq, ast.NotEq: operator.ne}
DUNDER = {ast.Lt: ("__lt__", "__gt__"), ast.LtE: ("__le__", "__ge__"), ast.Gt: ("__gt__", "__lt__"), ast.GtE: ("__ge__", "__le__"),
          ast.Eq: ("__eq__", "__eq__"), ast.NotEq: ("__ne__", "__ne__"), ast.Add: ("__add__", "__radd__"), ast.Sub: ("__sub__", "__rsub__"),
          ast.Mult: ("__mul__", "__rmul__"), ast.Div: ("__truediv__", "__rtruediv__")}
NATIVE_ERRORS = (KeyError, IndexError, ZeroDivisionError, ValueError, AttributeError)


def guard(f, *a, **k):
    """Run a native operation: its Python exceptions are exceptions of the program."""
    try:
        return f(*a, **k)
    except NATIVE_ERRORS as e:
        if isinstance(e, AttributeError) and "Sym" in str(e):
            raise Unsupported(str(e))
        raise Raised(type(e), exc=e)
    except TypeError as e:
        raise Unsupported("native operation: " + str(e))
    except RecursionError:
        raise Unsupported("recursion")


class Interp:
    def __init__(self):
        from . import lib
        self.lib = lib
        self.modules, self.stubs, self.base = {}, {}, []
        self.called, self.executed = set(), set()
        self.depth = 0
        self.builtins = lib.make_builtins(self)
        self.externals = lib.make_externals(self)

    # ------------------------------------------------------------------------------------------------ modules
    def load(self, name):
        """Module of the package by dotted name relative to zernpy ('' is the package itself)."""
        if name in self.modules:
            return self.modules[name]
        base = os.path.join(PKG, *name.split(".")) if name else PKG
        path = base + ".py" if os.path.isfile(base + ".py") else os.path.join(base, "__init__.py")
        if not os.path.isfile(path):
            raise Raised(ModuleNotFoundError, name)
        m = Module(name)
        m.is_pkg = path.endswith("__init__.py")
        self.modules[name] = m
        c = S.ctx()
        mark = len(c.heap)
        c.heap.append(m)
        m.ns["__name__"] = "zernpy" + ("." + name if name else "")
        m.ns["__file__"] = path
        fr = Frame(None, m, m.ns)
        try:
            for st in parse(path).body:
                self.stmt(st, fr)
        except BaseException:
            del self.modules[name]
            raise
        known = {id(o) for o, _ in self.base}
        self.base += [(o, o.save()) for o in c.heap[mark:] if id(o) not in known]
        return m

    def reset(self, stubs):
        """The state right after loading the modules."""
        c = S.ctx()
        for o, s in self.base:
            o.restore(s)
            c.heap.append(o)
        self.stubs = dict(stubs or {})
        self.called, self.executed, self.depth = set(), set(), 0
        self.open_handler = self.path_handler = None
        self.text_handler = None      # gives texts with unknown numbers in them their length and bytes
        self.summarise = 0                   # ranges longer than this are loops with a generic iteration (0: all are unrolled)

    def get(self, qual):
        """Function by qualified name 'module:Class.name' or 'module:name', or None."""
        mod, _, rest = qual.partition(":")
        try:
            o = self.load(mod)
        except Raised:
            return None
        v = None
        for i, p in enumerate(rest.split(".")):
            v = (o.ns if i == 0 else o.ns).get(p)
            if v is None:
                return None
            o = v
        if isinstance(v, Static):
            v = v.func
        return v

    def do_import(self, node, fr):
        for a in node.names:
            top = a.name.split(".")[0]
            m = self.external(a.name)
            if a.asname:
                self.store_name(a.asname, m, fr)
            else:
                self.store_name(top, self.external(top), fr)

    def external(self, name):
        if name == "zernpy" or name.startswith("zernpy."):
            return self.load(name[7:])
        if name in self.externals:
            v = self.externals[name]
            if isinstance(v, Exception):
                raise Raised(type(v), exc=v)
            return v
        return Opaque(name)

    def do_import_from(self, node, fr):
        if node.level:
            cur = fr.module.name
            parts = cur.split(".") if cur else []
            if not getattr(fr.module, "is_pkg", False):
                parts = parts[:-1]
            parts = parts[:len(parts) - (node.level - 1)] if node.level > 1 else parts
            base = ".".join(parts + (node.module.split(".") if node.module else []))
            m = self.load(base)
        else:
            m = self.external(node.module)
        for a in node.names:
            if a.name == "*":
                names = m.ns.get("__all__") or [k for k in m.ns if not k.startswith("_")]
                for n in Q.native(names):
                    self.store_name(n, m.ns[n], fr)
                continue
            if isinstance(m, Module):
                if a.name in m.ns:
                    v = m.ns[a.name]
                else:
                    try:
                        v = self.load((m.name + "." if m.name else "") + a.name)
                    except Raised:
                        raise Raised(ImportError, f"cannot import name {a.name}")
            else:
                v = self.getattr(m, a.name)
            self.store_name(a.asname or a.name, v, fr)

    # ------------------------------------------------------------------------------------------------ statements
    def block(self, body, fr):
        for st in body:
            self.stmt(st, fr)

    def stmt(self, node, fr):
        getattr(self, "s_" + type(node).__name__)(node, fr)

    def s_Expr(self, node, fr):
        if not isinstance(node.value, ast.Constant):
            self.ev(node.value, fr)

    def s_Pass(self, node, fr):
        pass

    def s_Import(self, node, fr):
        self.do_import(node, fr)

    def s_ImportFrom(self, node, fr):
        self.do_import_from(node, fr)

    def s_Global(self, node, fr):
        fr.globals.update(node.names)

    def s_Nonlocal(self, node, fr):
        raise Unsupported("nonlocal")

    def s_Assign(self, node, fr):
        v = self.ev(node.value, fr)
        for t in node.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, node, fr):
        if node.value is not None:
            self.assign(node.target, self.ev(node.value, fr), fr)

    def s_AugAssign(self, node, fr):
        t = node.target
        if isinstance(t, ast.Name):
            old = self.load_name(t.id, fr)
            new = self.inplace(node.op, old, self.ev(node.value, fr))
            self.store_name(t.id, new, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            old = self.getattr(o, self.mangle(t.attr, fr))
            self.setattr(o, self.mangle(t.attr, fr), self.inplace(node.op, old, self.ev(node.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev(t.slice, fr)
            old = self.getitem(o, k)
            new = self.inplace(node.op, old, self.ev(node.value, fr))
            if isinstance(new, SArr) and new is old and isinstance(o, SArr):
                return
            self.setitem(o, k, new)
        else:
            raise Unsupported("augmented assignment")

    def inplace(self, op, a, b):
        if isinstance(a, SArr) and a.ndim > 0 and type(op) in IBINOPS:
            return guard(IBINOPS[type(op)], a, b)
        if isinstance(a, VList) and isinstance(op, ast.Add):
            a.extend(b)
            return a
        return self.binop(op, a, b)

    def s_Return(self, node, fr):
        raise Return(self.ev(node.value, fr) if node.value is not None else None)

    def s_Break(self, node, fr):
        raise Break()

    def s_Continue(self, node, fr):
        raise Continue()

    def s_If(self, node, fr):
        if self.truth(self.ev(node.test, fr)):
            self.block(node.body, fr)
        else:
            self.block(node.orelse, fr)

    def s_Assert(self, node, fr):
        if not self.truth(self.ev(node.test, fr)):
            raise Raised(AssertionError, "")

    def s_Raise(self, node, fr):
        if node.exc is None:
            e = getattr(fr, "handling", None)
            if e is None:
                raise Raised(RuntimeError, "No active exception to reraise")
            raise e
        e = self.ev(node.exc, fr)
        if isinstance(e, type) and issubclass(e, BaseException):
            raise Raised(e, "")
        if isinstance(e, BaseException):
            raise Raised(type(e), exc=e)
        raise Unsupported("raise of " + type(e).__name__)

    def s_Delete(self, node, fr):
        for t in node.targets:
            if isinstance(t, ast.Name):
                fr.locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o, k = self.ev(t.value, fr), self.ev(t.slice, fr)
                if isinstance(o, dict):
                    guard(o.__delitem__, k)
                elif isinstance(o, VList) and not Q.is_symlist(o):
                    o._modify()
                    guard(list.__delitem__, o, k)
                else:
                    raise Unsupported("del")
            else:
                raise Unsupported("del")

    def s_Try(self, node, fr):
        try:
            try:
                self.block(node.body, fr)
            except Raised as e:
                for h in node.handlers:
                    if h.type is None or self.matches(e, self.ev(h.type, fr)):
                        if h.name:
                            self.store_name(h.name, e.exc, fr)
                        old = getattr(fr, "handling", None)
                        fr.handling = e
                        try:
                            self.block(h.body, fr)
                        finally:
                            fr.handling = old
                        break
                else:
                    raise
            else:
                self.block(node.orelse, fr)
        except (Raised, Return, Break, Continue):
            self.block(node.finalbody, fr)
            raise
        else:
            self.block(node.finalbody, fr)

    def matches(self, e, cls):
        cs = cls if isinstance(cls, tuple) else (cls,)
        return any(isinstance(c, type) and issubclass(e.cls, c) for c in cs)

    def s_With(self, node, fr):
        mgrs = []
        for it in node.items:
            m = self.ev(it.context_expr, fr)
            v = self.call(self.getattr(m, "__enter__"), [], {})
            mgrs.append(m)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        try:
            self.block(node.body, fr)
        finally:
            for m in reversed(mgrs):
                self.call(self.getattr(m, "__exit__"), [None, None, None], {})

    def s_FunctionDef(self, node, fr):
        f = self.make_func(node, fr)
        v = f
        for d in reversed(node.decorator_list):
            v = self.decorate(self.ev(d, fr), v)
        self.store_name(node.name, v, fr)

    def decorate(self, d, v):
        if d is self.lib.STATICMETHOD:
            return Static(v, "static")
        if d is self.lib.CLASSMETHOD:
            return Static(v, "class")
        if d is self.lib.PROPERTY:
            return Prop(v)
        if isinstance(d, self.lib.IdentityDecorator):
            return v
        if isinstance(d, Opaque):
            return v if "njit" in d.name or "jit" in d.name or "lru_cache" in d.name else d
        return self.call(d, [v], {})

    def make_func(self, node, fr, name=None):
        a = node.args
        defaults = [self.ev(x, fr) for x in a.defaults]
        kwd = [self.ev(x, fr) if x is not None else None for x in a.kw_defaults]
        nm = name or node.name
        cls = fr.cls
        mod = fr.module.name
        qual = f"{mod}:{cls.name + '.' if cls is not None and fr.func is None else ''}{nm}"
        if fr.func is not None:
            qual = fr.func.qual + "." + nm
        closure = None if (fr.func is None and not getattr(fr, "comp", False)) else fr
        return Func(nm, qual, node, fr.module, closure, cls, defaults, kwd)

    def s_ClassDef(self, node, fr):
        bases = [self.ev(b, fr) for b in node.bases]
        c = VClass(node.name, bases, {}, fr.module)
        S.ctx().heap.append(c)
        f2 = Frame(None, fr.module, c.ns, None, c)
        f2.classbody = True
        f2.outer = fr
        for st in node.body:
            self.stmt(st, f2)
        self.store_name(node.name, c, fr)

    def s_For(self, node, fr):
        it = self.ev(node.iter, fr)
        if self.summarise and isinstance(it, range) and len(it) > self.summarise:
            a, d = it.start, it.step
            it = Q.SymIter(T.pc(len(it)), lambda i: S.mk(T.add(T.pc(a), T.scale(i, d)), "int"))
        else:
            it = Q.iteration(it)
        if isinstance(it, Q.SymIter):
            from . import loops
            loops.for_loop(self, node, fr, it)
            return
        for x in it:
            self.assign(node.target, x, fr)
            try:
                self.block(node.body, fr)
            except Break:
                return
            except Continue:
                continue
        self.block(node.orelse, fr)

    def s_While(self, node, fr):
        ended_known = False
        for _ in range(3000):
            if self.symbolic_test(node.test, fr):
                from . import loops
                loops.while_loop(self, node, fr)
                return
            if not ended_known and self.ends_somewhere(node, fr):
                from . import loops
                loops.rotated_loop(self, node, fr)
                return
            ended_known = True
            if not self.truth(self.ev(node.test, fr)):
                break
            try:
                self.block(node.body, fr)
            except Break:
                return
            except Continue:
                continue
        else:
            raise Unsupported("long concrete while loop")
        self.block(node.orelse, fr)

    def symbolic_test(self, test, fr):
        """Does the test of the while loop depend on symbolic values?"""
        c = S.ctx()

        class Stop(BaseException):
            pass

        def br(cond):
            if cond is T.TRUE:
                return True
            if cond is T.FALSE:
                return False
            if c.entails(cond):
                return True
            if c.entails(T.cnot(cond)):
                return False
            raise Stop()
        c.branch, c.quiet = br, c.quiet + 1
        heap = c.heap
        try:
            self.truth(self.ev(test, fr))
            return False
        except Stop:
            return True
        except Raised:
            return False
        finally:
            del c.branch
            c.quiet -= 1

    def ends_somewhere(self, node, fr):
        """Does the loop end after an iteration on some paths of its body and go on on other ones (a flag, or a break)?"""
        from . import loops
        try:
            if not self.truth(self.ev(node.test, fr)):
                return False
        except Raised:
            return False
        if not any(isinstance(x, (ast.If, ast.BoolOp, ast.IfExp, ast.Compare)) for x in ast.walk(node)):
            return False
        c = S.ctx()
        st, n0, o0, mark = loops.State(fr, c.heap), c.n, c.objs, len(c.heap)

        def thunk():
            st.put()
            c.n, c.objs = n0, o0
            try:
                self.block(node.body, fr)
            except Break:
                return True
            except Continue:
                pass
            except (Return, Raised):
                return True
            try:
                return not self.truth(self.ev(node.test, fr))
            finally:
                del c.heap[mark:]
        c.quiet += 1
        depth, warned = self.depth, len(c.warned)
        try:
            ends = {r for _, r, _, _ in c.explore(thunk)}
        except Unsupported:
            return False
        finally:
            c.quiet -= 1
            self.depth = depth
            del c.warned[warned:]
            c.n, c.objs = n0, o0
            st.put()
        return len(ends) == 2

    # ------------------------------------------------------------------------------------------------ names
    def mangle(self, n, fr):
        if fr.cls is not None and n.startswith("__") and not n.endswith("__"):
            return "_" + fr.cls.name.lstrip("_") + n
        return n

    def load_name(self, n, fr):
        n = self.mangle(n, fr)
        f = fr
        while f is not None:
            if n in f.locals and not (n in f.globals):
                v = f.locals[n]
                if isinstance(v, Poison):
                    v.used(n)
                return v
            if f.func is not None and n in f.func.locals and n not in f.globals and not getattr(f, "comp", False):
                raise Raised(UnboundLocalError, f"cannot access local variable '{n}'")
            if getattr(f, "classbody", False):
                f = f.outer
            else:
                f = f.closure
        if n in fr.module.ns:
            return fr.module.ns[n]
        if n in self.builtins:
            return self.builtins[n]
        raise Raised(NameError, f"name '{n}' is not defined")

    def store_name(self, n, v, fr):
        n = self.mangle(n, fr)
        if n in fr.globals:
            fr.module.ns[n] = v
        else:
            fr.locals[n] = v

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = Q.iteration(v)
            if isinstance(vs, Q.SymIter):
                c = S.ctx()
                ok = T.eq(vs.n, T.pc(len(t.elts)))
                if not c.entails(ok) and not c.branch(ok):
                    raise Raised(ValueError, "not enough values to unpack")
                vs = [vs.fn(T.pc(i)) for i in range(len(t.elts))]
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(vs) < len(t.elts) - 1:
                    raise Raised(ValueError, "not enough values to unpack")
                parts = list(vs[:i]) + [VList(vs[i:len(vs)-after])] + list(vs[len(vs)-after:])
                for e, x in zip(t.elts, parts):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
                return
            if len(vs) != len(t.elts):
                raise Raised(ValueError, "wrong number of values to unpack")
            for e, x in zip(t.elts, vs):
                self.assign(e, x, fr)
        else:
            raise Unsupported("assignment target")

    # ------------------------------------------------------------------------------------------------ attributes and items
    def getattr(self, o, n):
        if isinstance(o, VObj):
            if n in o.attrs:
                v = o.attrs[n]
                if isinstance(v, Poison):
                    v.used(n)
                return v
            if o.cls is None:
                raise Unsupported("attribute of an unknown object")
            v = o.cls.lookup(n)
            if v is None:
                if n == "__class__":
                    return o.cls
                raise Raised(AttributeError, f"'{o.cls.name}' object has no attribute '{n}'")
            if isinstance(v, Func):
                return Bound(v, o)
            if isinstance(v, Static):
                return v.func if v.kind == "static" else Bound(v.func, o.cls)
            if isinstance(v, Prop):
                return self.call(Bound(v.func, o), [], {})
            return v
        if isinstance(o, VClass):
            v = o.lookup(n)
            if v is None:
                if n == "__name__":
                    return o.name
                raise Raised(AttributeError, f"type object '{o.name}' has no attribute '{n}'")
            if isinstance(v, Static):
                return v.func if v.kind == "static" else Bound(v.func, o)
            return v
        if isinstance(o, Module):
            if n in o.ns:
                return o.ns[n]
            try:
                return self.load((o.name + "." if o.name else "") + n)
            except Raised:
                raise Raised(AttributeError, f"module has no attribute '{n}'")
        if isinstance(o, Prop) and n == "setter":
            return self.lib.IdentityDecorator()
        if isinstance(o, (Func, Bound)):
            if n in ("__name__", "__doc__"):
                return o.name if isinstance(o, Func) else o.func.name
            raise Unsupported("attribute of a function")
        if isinstance(o, (Sym, SArr, SymBool, int, str, tuple, list, dict, set, Opaque, BaseException, type(None))) or hasattr(o, "_vc_native"):
            if isinstance(o, SymBool):
                o = o._num()
            if isinstance(o, int) and not isinstance(o, bool) and n in ("shape", "dtype", "ndim", "size"):
                raise Raised(AttributeError, f"'int' object has no attribute '{n}'")
            if isinstance(o, Sym) and n in ("shape", "dtype", "ndim", "size") and o.kind in ("int",):
                raise Raised(AttributeError, f"'int' object has no attribute '{n}'")
            if isinstance(o, Sym) and not hasattr(type(o), n):
                if n in ("astype", "tolist", "dtype", "flatten", "sum", "max", "min", "append", "keys", "items"):
                    raise Raised(AttributeError, f"'float' object has no attribute '{n}'")
                raise Unsupported("attribute " + n + " of a number")
            if isinstance(o, SArr) and not hasattr(o, n):
                raise Unsupported("attribute " + n + " of an array")
            if type(o) is str and self.text_handler is not None:
                o = self.text_handler(o)
            return guard(getattr, o, n)
        return guard(getattr, o, n)

    def setattr(self, o, n, v):
        if isinstance(o, VObj):
            if o.frozen is not None:
                S.ctx().fail("input not modified", f"attribute {n} of the argument {o.frozen} is changed")
            if o.cls is None:
                raise Unsupported("attribute of an unknown object")
            p = o.cls.lookup(n)
            if isinstance(p, Prop):
                raise Unsupported("property setter")
            o.attrs[n] = v
        elif isinstance(o, VClass):
            o.ns[n] = v
        elif isinstance(o, Module):
            o.ns[n] = v
        elif isinstance(o, Opaque):
            pass
        elif hasattr(o, "_vc_native"):
            setattr(o, n, v)
        else:
            raise Unsupported("assignment to an attribute of " + type(o).__name__)

    def getitem(self, o, k):
        if isinstance(o, VList):
            return o.get(k)
        if isinstance(o, (tuple, str)):
            if isinstance(k, Sym) and k.p.is_const():
                k = int(k.p.const())
            if isinstance(k, Sym):
                return VList(o).get(k)
            return guard(operator.getitem, o, k)
        if isinstance(o, VObj):
            if o.cls is None:
                raise Unsupported("item of an unknown object")
            m = o.cls.lookup("__getitem__")
            if m is None:
                raise Raised(TypeError, f"'{o.cls.name}' object is not subscriptable")
            return self.call(Bound(m, o), [k], {})
        if isinstance(o, (int, Sym, type(None), bool)):
            raise Raised(TypeError, f"'{type(o).__name__}' object is not subscriptable")
        if isinstance(o, dict) and self.has_sym(k):
            return self.symbolic_key(o, k, None)
        return guard(operator.getitem, o, k)

    def symbolic_key(self, d, k, default):
        """Item of a dictionary for a key that is not known: one path for each key it can be."""
        for q, v in d.items():
            c = S.cond_of(self.compare(ast.Eq(), k, q))
            if c is T.TRUE or c is not T.FALSE and (S.ctx().entails(c) or not S.ctx().entails(T.cnot(c)) and S.ctx().branch(c)):
                return v
        if default is not None:
            return default[0]
        raise Raised(KeyError, "symbolic key")

    def setitem(self, o, k, v):
        if isinstance(o, VList):
            o.put(k, v)
        elif isinstance(o, (SArr, dict, Opaque)) or hasattr(o, "__setitem__"):
            guard(operator.setitem, o, k, v)
        elif isinstance(o, (tuple, str, int, Sym, type(None))):
            raise Raised(TypeError, f"'{type(o).__name__}' object does not support item assignment")
        else:
            raise Unsupported("item assignment")

    # ------------------------------------------------------------------------------------------------ expressions
    def ev(self, node, fr):
        return getattr(self, "e_" + type(node).__name__)(node, fr)

    def e_Constant(self, node, fr):
        v = node.value
        if isinstance(v, (float, complex)):
            return flt(v)
        return v

    def e_Name(self, node, fr):
        return self.load_name(node.id, fr)

    def e_Attribute(self, node, fr):
        return self.getattr(self.ev(node.value, fr), self.mangle(node.attr, fr))

    def e_Subscript(self, node, fr):
        o = self.ev(node.value, fr)
        if o in (list, tuple, dict, set) if isinstance(o, type) else False:
            return o
        return self.getitem(o, self.ev(node.slice, fr))

    def e_Slice(self, node, fr):
        g = lambda x: None if x is None else self.ev(x, fr)
        vals = [g(node.lower), g(node.upper), g(node.step)]
        vals = [int(v.p.const()) if isinstance(v, Sym) and v.kind in ("int", "npint") and v.p.is_const() else v for v in vals]
        return slice(*vals)

    def e_Tuple(self, node, fr):
        return tuple(self.elements(node.elts, fr))

    def e_List(self, node, fr):
        return VList(self.elements(node.elts, fr))

    def elements(self, elts, fr):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(Q.native(self.ev(e.value, fr)))
            else:
                out.append(self.ev(e, fr))
        return out

    def e_Set(self, node, fr):
        return self.reg(set(self.elements(node.elts, fr)))

    def reg(self, d):
        S.ctx().heap.append(DictCell(d))
        return d

    def e_Dict(self, node, fr):
        d = {}
        for k, v in zip(node.keys, node.values):
            if k is None:
                d.update(self.ev(v, fr))
            else:
                kk = self.ev(k, fr)
                d[kk] = self.ev(v, fr)
        return self.reg(d)

    def e_JoinedStr(self, node, fr):
        out = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
            else:
                x = self.ev(v.value, fr)
                spec = self.e_JoinedStr(v.format_spec, fr) if v.format_spec is not None else ""
                out.append(self.to_text(x, spec))
        return "".join(out)

    def to_text(self, x, spec=""):
        if isinstance(x, VObj):
            m = x.cls.lookup("__str__") if x.cls is not None else None
            if m is not None and not x.tag:
                return self.call(Bound(m, x), [], {})
            return f"<{x.cls.name if x.cls else 'object'} {x.tag or ''}>"
        if isinstance(x, Sym):
            return f"<{x.p}>" if not x.p.is_const() else str(x.p.const())
        if isinstance(x, VList):
            if x.n is None and x.building is None:
                return "[" + ", ".join(self.to_text(y) for y in x) + "]"
            return "<list>"
        if isinstance(x, tuple):
            return "(" + ", ".join(self.to_text(y) for y in x) + ")"
        if isinstance(x, (SArr, SymBool, Func, Bound, VClass, Opaque)):
            return "<value>"
        return guard(format, x, spec)

    def e_BinOp(self, node, fr):
        return self.binop(node.op, self.ev(node.left, fr), self.ev(node.right, fr))

    def binop(self, op, a, b):
        t = type(op)
        if isinstance(a, bool) and t not in (ast.BitAnd, ast.BitOr, ast.BitXor):
            a = int(a)
        if isinstance(b, bool) and t not in (ast.BitAnd, ast.BitOr, ast.BitXor):
            b = int(b)
        if isinstance(a, int) and isinstance(b, int):
            if t is ast.Div:
                if b == 0:
                    raise Raised(ZeroDivisionError, "division by zero")
                return flt(S.Fr(a, b))
            if t is ast.Pow and b < 0:
                if a == 0:
                    raise Raised(ZeroDivisionError, "0.0 cannot be raised to a negative power")
                return flt(S.Fr(a)**b)
            return guard(BINOPS[t], a, b)
        for x in (a, b):
            if isinstance(x, VObj):
                return self.obj_op(t, a, b)
        if isinstance(a, (VList, tuple, str)) or isinstance(b, (VList, tuple, str)):
            if isinstance(a, (SArr, SymBool)) or isinstance(b, (SArr, SymBool)):
                pass
            else:
                return self.seq_op(t, a, b)
        if (a is None or b is None) and (S.lift(a) or S.lift(b) or isinstance(a, SArr) or isinstance(b, SArr)):
            raise Raised(TypeError, "unsupported operand type(s): NoneType")
        if isinstance(a, (dict, set)) or isinstance(b, (dict, set)):
            if S.lift(a) or S.lift(b):
                raise Raised(TypeError, "unsupported operand type(s)")
        if isinstance(a, SymBool) and isinstance(b, (Sym, int)) and t not in (ast.BitAnd, ast.BitOr):
            a = a._num()
        if isinstance(b, SymBool) and isinstance(a, (Sym, int)) and t not in (ast.BitAnd, ast.BitOr):
            b = b._num()
        return guard(BINOPS[t], a, b)

    def seq_op(self, t, a, b):
        if t is ast.Add:
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(a, tuple) and isinstance(b, tuple):
                return tuple(a) + tuple(b)
            if isinstance(a, VList) and isinstance(b, VList) and a.cls == b.cls:
                if a.n is None and b.n is None and a.building is None and b.building is None:
                    return VList(list(a) + list(b), a.cls)
                na, nb = S.dim(a.length()), S.dim(b.length())
                fa, fb = a.elem, b.elem

                def g(i):
                    c = T.lt(i, na)
                    if c is T.TRUE or (c is not T.FALSE and S.ctx().entails(c)):
                        return fa(i)
                    if c is T.FALSE or S.ctx().entails(T.cnot(c)):
                        return fb(T.sub(i, na))
                    x, y = S.lift(fa(i)), S.lift(fb(T.sub(i, na)))
                    if x and y:
                        return S.mk(T.ite(c, x[0], y[0]), S.join(x[1], y[1]))
                    return fa(i) if S.ctx().branch(c) else fb(T.sub(i, na))
                return VList((), a.cls, T.add(na, nb), g)
            if S.lift(a) or S.lift(b) or a is None or b is None or isinstance(a, (str, tuple, VList)) and isinstance(b, (str, tuple, VList)):
                raise Raised(TypeError, "can only concatenate sequences of one type")
        if t is ast.Mult:
            s, n = (a, b) if isinstance(a, (VList, tuple, str)) else (b, a)
            if isinstance(n, Sym) and n.kind in ("int", "npint") and n.p.is_const():
                n = int(n.p.const())
            if isinstance(n, int):
                if isinstance(s, VList):
                    return VList(Q.native(s)*n, s.cls)
                return s*n
            if isinstance(n, Sym) and n.kind in ("int", "npint") and isinstance(s, VList) and s.n is None and list.__len__(s) == 1:
                x = list.__getitem__(s, 0)
                c = S.ctx()
                cnt = n.p if c.entails(T.ge0(n.p)) or c.branch(T.ge0(n.p)) else T.ZERO
                return VList((), s.cls, cnt, lambda i: x)
            if isinstance(n, (Sym, str, VList, tuple)):
                raise Raised(TypeError, "can't multiply sequence by non-int")
        if t is ast.Mod and isinstance(a, str):
            return a
        if S.lift(a) or S.lift(b):
            raise Raised(TypeError, "unsupported operand type(s)")
        raise Unsupported("operation on sequences")

    def obj_op(self, t, a, b):
        d = DUNDER.get(t)
        if d is None:
            raise Unsupported("operation on objects")
        for x, y, n in ((a, b, d[0]), (b, a, d[1])):
            if isinstance(x, VObj):
                if x.cls is None:
                    raise Unsupported("operation on an unknown object")
                m = x.cls.lookup(n)
                if m is None and n == "__ne__":
                    e = x.cls.lookup("__eq__")
                    if e is not None:
                        return self.logical_not(self.call(Bound(e, x), [y], {}))
                if m is not None:
                    return self.call(Bound(m, x), [y], {})
        if t is ast.Eq:
            return a is b
        if t is ast.NotEq:
            return a is not b
        raise Raised(TypeError, "unsupported operand type(s)")

    def logical_not(self, v):
        if isinstance(v, SymBool):
            return ~v
        return not self.truth(v)

    def e_UnaryOp(self, node, fr):
        v = self.ev(node.operand, fr)
        if isinstance(node.op, ast.Not):
            return self.logical_not(v)
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, SymBool) and not isinstance(node.op, ast.Invert):
            v = v._num()
        if isinstance(v, (str, VList, tuple, type(None))):
            raise Raised(TypeError, "bad operand type for unary operator")
        return guard({ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[type(node.op)], v)

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (SymBool, Sym)):
            return bool(v)
        if isinstance(v, VList):
            n = v.length()
            return bool(n != 0)
        if isinstance(v, SArr):
            return guard(bool, v)
        if isinstance(v, VObj):
            if v.cls is None:
                raise Unsupported("truth of an unknown object")
            for n in ("__bool__", "__len__"):
                m = v.cls.lookup(n)
                if m is not None:
                    return self.truth(self.call(Bound(m, v), [], {}))
            return True
        if isinstance(v, (Func, Bound, VClass, Module)):
            return True
        if isinstance(v, Opaque):
            raise Unsupported("truth of " + v.name)
        return bool(v)

    def e_BoolOp(self, node, fr):
        isand = isinstance(node.op, ast.And)
        v = None
        for i, x in enumerate(node.values):
            v = self.ev(x, fr)
            if i == len(node.values) - 1:
                return v
            if isinstance(v, SymBool) and self.simple(node.values[i+1:]) and all(self.simple([y]) for y in node.values[i+1:]):
                # the remaining operands are cheap and cannot fail: combine without forking
                rest = [self.ev(y, fr) for y in node.values[i+1:]]
                if all(isinstance(r, (bool, SymBool)) for r in rest):
                    for r in rest:
                        c = S.cond_of(r)
                        v = S.mkbool(T.cand(S.cond_of(v), c) if isand else T.cor(S.cond_of(v), c))
                    return v
                if self.truth(v) != isand:
                    return v
                continue
            if self.truth(v) != isand:
                return v
        return v

    SAFE = (ast.Name, ast.Constant, ast.Compare, ast.BinOp, ast.UnaryOp, ast.BoolOp, ast.Load, ast.Add, ast.Sub, ast.Mult, ast.Lt, ast.LtE,
            ast.Gt, ast.GtE, ast.Eq, ast.NotEq, ast.And, ast.Or, ast.Not, ast.USub, ast.Mod)

    def simple(self, nodes):
        for n in nodes:
            for x in ast.walk(n):
                if isinstance(x, self.SAFE):
                    if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mod) and not isinstance(x.right, ast.Constant):
                        return False
                    continue
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("abs", "isinstance") and not x.keywords:
                    continue
                return False
            if any(isinstance(x, ast.Name) and x.id not in ("abs", "isinstance") and not self.defined(x.id) for x in ast.walk(n)):
                return False
        return True

    def defined(self, n):
        return True

    def e_Compare(self, node, fr):
        left = self.ev(node.left, fr)
        acc = None
        for i, (op, r) in enumerate(zip(node.ops, node.comparators)):
            right = self.ev(r, fr)
            v = self.compare(op, left, right)
            if acc is None:
                acc = v
            else:
                acc = S.mkbool(T.cand(S.cond_of(acc), S.cond_of(v))) if isinstance(v, (bool, SymBool)) else v
            if i == len(node.ops) - 1:
                return acc
            if isinstance(acc, SArr) or not isinstance(acc, (bool, SymBool)):
                if not self.truth(acc):
                    return acc
            elif acc is False:
                return False
            elif isinstance(acc, SymBool) and not self.simple(node.comparators[i+1:]):
                if not self.truth(acc):
                    return False
                acc = None
            left = right
        return acc

    def compare(self, op, a, b):
        t = type(op)
        if t in (ast.Is, ast.IsNot):
            r = a is b
            if isinstance(a, bool) or isinstance(b, bool):
                if isinstance(a, SymBool) or isinstance(b, SymBool):
                    r = a == b
                    return r if t is ast.Is else self.logical_not(r)
            if getattr(a, "maybe_none", None) is not None and b is None:
                r = S.mkbool(a.maybe_none)
                return r if t is ast.Is else self.logical_not(r)
            return r if t is ast.Is else not r
        if t in (ast.In, ast.NotIn):
            r = self.contains(b, a)
            return r if t is ast.In else self.logical_not(r)
        if isinstance(a, VObj) or isinstance(b, VObj):
            return self.obj_op(t, a, b)
        if isinstance(a, (VList, tuple)) and isinstance(b, (VList, tuple)) and t in (ast.Eq, ast.NotEq):
            r = self.seq_eq(a, b)
            return r if t is ast.Eq else self.logical_not(r)
        if t in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
            for x in (a, b):
                if x is None or isinstance(x, (str, VList, tuple, dict)):
                    y = b if x is a else a
                    if S.lift(y) is not None or (x is None) or type(x) is not type(y):
                        if not isinstance(y, (SArr, Opaque)):
                            raise Raised(TypeError, "'<' not supported between instances")
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported("comparison with " + str(getattr(a, "name", "") or getattr(b, "name", "")))
        return guard(CMPOPS[t], a, b)

    def seq_eq(self, a, b):
        ka = a.cls if isinstance(a, VList) else "tuple"
        kb = b.cls if isinstance(b, VList) else "tuple"
        if ka != kb:
            return False
        na = a.length() if isinstance(a, VList) else len(a)
        nb = b.length() if isinstance(b, VList) else len(b)
        if not (isinstance(na, int) and isinstance(nb, int)):
            raise Unsupported("comparison of symbolic lists")
        if na != nb:
            return False
        acc = T.TRUE
        for x, y in zip(Q.native(a), Q.native(b)):
            acc = T.cand(acc, S.cond_of(self.compare(ast.Eq(), x, y)))
        return S.mkbool(acc)

    def contains_symbolic(self, box, x):
        """Membership of a number in a list of symbolic length with numbers."""
        k = T.var(f"$in{len(T.Atom.table)}", "int")
        y = box.elem(k) if S.lift(x) is not None else None
        if y is None or S.lift(y) is None or S.lift(y)[1] == "complex":
            raise Unsupported("membership in a symbolic list")
        r = self.compare(ast.Eq(), x, y)
        return S.mkbool(T.exists(k, S.term(box.length()), S.cond_of(r)))

    def contains(self, box, x):
        if isinstance(box, (VList, tuple)) or isinstance(box, (type({}.keys()), dict, set)) and self.has_sym(x):
            if Q.is_symlist(box):
                return self.contains_symbolic(box, x)
            acc = T.FALSE
            for y in Q.native(box):
                if x is y:
                    return True
                r = self.compare(ast.Eq(), x, y)
                if isinstance(r, SArr):
                    raise Unsupported("membership of an array")
                acc = T.cor(acc, S.cond_of(r))
                if acc is T.TRUE:
                    return True
            return S.mkbool(acc)
        if isinstance(box, Q.SymSet):
            if isinstance(x, tuple) and all(S.lift(y) is not None for y in x):
                return box.has(tuple(S.term(y) for y in x))
            return box.has(S.term(x)) if S.lift(x) is not None else False
        if isinstance(box, (int, Sym, type(None))):
            raise Raised(TypeError, "argument is not iterable")
        return guard(operator.contains, box, x)

    def has_sym(self, x):
        if isinstance(x, Sym):
            return not x.p.is_const()
        if isinstance(x, tuple):
            return any(self.has_sym(y) for y in x)
        return isinstance(x, SymBool)

    def e_IfExp(self, node, fr):
        return self.ev(node.body if self.truth(self.ev(node.test, fr)) else node.orelse, fr)

    def e_NamedExpr(self, node, fr):
        v = self.ev(node.value, fr)
        self.assign(node.target, v, fr)
        return v

    def e_Starred(self, node, fr):
        raise Unsupported("starred")

    def e_Lambda(self, node, fr):
        return self.make_func(node, fr, "<lambda>")

    def e_ListComp(self, node, fr):
        return self.comprehension(node, fr)

    def e_GeneratorExp(self, node, fr):
        return self.comprehension(node, fr)

    def e_SetComp(self, node, fr):
        r = self.comprehension(node, fr)
        return self.builtins["set"](r) if Q.is_symlist(r) else self.reg(set(Q.native(r)))

    def comprehension(self, node, fr):
        out = VList()
        f2 = Frame(fr.func, fr.module, {}, fr, fr.cls)
        f2.comp = True
        if getattr(fr, "classbody", False):
            f2.closure = fr
        self.comp_level(node.generators, 0, f2, fr, lambda: out.append(self.ev(node.elt, f2)))
        return out

    def e_DictComp(self, node, fr):
        out = self.reg({})
        f2 = Frame(fr.func, fr.module, {}, fr, fr.cls)
        f2.comp = True

        def add():
            k = self.ev(node.key, f2)
            out[k] = self.ev(node.value, f2)
        self.comp_level(node.generators, 0, f2, fr, add)
        return out

    def comp_level(self, gens, i, f2, fr, emit):
        if i == len(gens):
            emit()
            return
        g = gens[i]
        it = Q.iteration(self.ev(g.iter, fr if i == 0 else f2))

        def body():
            for c in g.ifs:
                if not self.truth(self.ev(c, f2)):
                    return
            self.comp_level(gens, i+1, f2, fr, emit)
        if isinstance(it, Q.SymIter):
            from . import loops
            loops.generic(self, f2, it, lambda x: self.assign(g.target, x, f2), body, None, [])
            return
        for x in it:
            self.assign(g.target, x, f2)
            body()

    # ------------------------------------------------------------------------------------------------ calls
    def e_Call(self, node, fr):
        f = self.ev(node.func, fr)
        args, kwargs = [], {}
        for a in node.args:
            if isinstance(a, ast.Starred):
                args.extend(Q.native(self.ev(a.value, fr)))
            else:
                args.append(self.ev(a, fr))
        for k in node.keywords:
            if k.arg is None:
                kwargs.update(self.ev(k.value, fr))
            else:
                kwargs[k.arg] = self.ev(k.value, fr)
        return self.call(f, args, kwargs)

    def call(self, f, args, kwargs):
        if isinstance(f, Bound):
            if isinstance(f.func, Func):
                return self.call_func(f.func, [f.obj] + list(args), kwargs)
            return self.call(f.func, [f.obj] + list(args), kwargs)
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, VClass):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Static):
            return self.call(f.func, args, kwargs)
        if isinstance(f, type):
            h = self.lib.TYPE_CALLS.get(f)
            if h is not None:
                return guard(h, self, *args, **kwargs)
            if issubclass(f, BaseException):
                try:
                    return f(*[a if isinstance(a, str) else self.to_text(a) for a in args])
                except TypeError:
                    raise Unsupported("exception arguments")
            if issubclass(f, tuple):
                return guard(f, *args, **kwargs)
            if hasattr(f, "_vc_native"):
                return guard(f, *args, **kwargs)
            raise Unsupported("call of the type " + f.__name__)
        if isinstance(f, VObj):
            if f.cls is None:
                raise Unsupported("call of an unknown object")
            m = f.cls.lookup("__call__")
            if m is None:
                raise Raised(TypeError, f"'{f.cls.name}' object is not callable")
            return self.call(Bound(m, f), args, kwargs)
        if isinstance(f, (Sym, SArr, int, str, VList, tuple, type(None), dict)):
            raise Raised(TypeError, f"'{type(f).__name__}' object is not callable")
        if isinstance(getattr(f, "__self__", None), dict) and getattr(f, "__name__", "") == "get" and args and self.has_sym(args[0]):
            return self.symbolic_key(f.__self__, args[0], (args[1] if len(args) > 1 else None,))
        return guard(f, *args, **kwargs)

    def instantiate(self, c, args, kwargs):
        stub = self.stubs.get(f"{c.module.name}:{c.name}")
        if stub is not None:
            return stub(self, args, kwargs)
        if any(b is self.lib.EXC_BASE or (isinstance(b, type) and issubclass(b, BaseException)) for b in c.bases):
            raise Unsupported("exception class")
        o = VObj(c)
        init = c.lookup("__init__")
        if init is not None:
            self.call_func(init, [o] + list(args), kwargs)
        elif args or kwargs:
            raise Raised(TypeError, f"{c.name}() takes no arguments")
        return o

    def bind(self, f, args, kwargs):
        a = f.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        loc = {}
        if len(args) > len(params) and a.vararg is None:
            raise Raised(TypeError, f"{f.name}() takes {len(params)} positional arguments but {len(args)} were given")
        for p, v in zip(params, args):
            loc[p] = v
        if a.vararg is not None:
            loc[a.vararg.arg] = tuple(args[len(params):])
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in params and k not in [x.arg for x in a.posonlyargs] or k in kwonly:
                if k in loc:
                    raise Raised(TypeError, f"{f.name}() got multiple values for argument '{k}'")
                loc[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise Raised(TypeError, f"{f.name}() got an unexpected keyword argument '{k}'")
        if a.kwarg is not None:
            loc[a.kwarg.arg] = self.reg(extra)
        nd = len(f.defaults)
        for p, v in zip(params[len(params)-nd:], f.defaults):
            loc.setdefault(p, v)
        for p, v in zip(kwonly, f.kwdefaults):
            loc.setdefault(p, v)
        for p in params + kwonly:
            if p not in loc:
                raise Raised(TypeError, f"{f.name}() missing a required argument: '{p}'")
        return loc

    def call_func(self, f, args, kwargs):
        loc = self.bind(f, args, kwargs)
        stub = self.stubs.get(f.qual)
        if stub is not None:
            self.called.add(f.qual)
            return stub(self, loc)
        return self.run(f, loc)

    def run(self, f, loc):
        """Execute the body of a function."""
        self.executed.add(f.qual)
        self.depth += 1
        if self.depth > 60:
            self.depth = 0
            raise Unsupported("recursion without a contract: " + f.qual)
        try:
            fr = Frame(f, f.module, loc, f.closure, f.cls)
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)):
                raise Unsupported("generator function")
            try:
                self.block(f.node.body, fr)
            except Return as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def call_body(self, f, args, kwargs):
        """Call the body of a function under verification (its own contract is not used for this call)."""
        if isinstance(f, Bound):
            return self.run(f.func, self.bind(f.func, [f.obj] + list(args), kwargs))
        return self.run(f, self.bind(f, args, kwargs))
