"""The methods of the polynomial objects, for all orders at once: against the contracts of the radial functions."""
from vc import terms as T, sym as S, seq as Q
from vc.contract import contract
from .common import *
from .p01 import CALLEES, idx, range_facts, orders
from .radial import CALC, VALUE, FROM

CLS = "zernikepol:ZernPol"


def orders_of_argument(interp, o):
    if isinstance(o, tuple):
        return o
    if isinstance(o, Q.VObj):
        return interp.call(interp.getattr(o, "get_mn_orders"), [], {})
    raise Unsupported("orders given in another way")


def radial_app(kind, m, n, p):
    return T.app(kind, (t(m), t(n), p), "real")


def radial_stub(name):
    """Contract of a radial function: verified for each of the orders in contracts/radial.py."""
    kind = VALUE[name]

    def stub(interp, a):
        o, r = list(a.values())[:2]
        m, n = orders_of_argument(interp, o)
        c = S.ctx()
        c.check(f"precondition of {name}: valid orders up to {NMAX}", S.cond_of(valid(m, n, NMAX)))
        if name in FROM:
            c.check(f"precondition of {name}: radial order at least {FROM[name]}", T.le(T.pc(FROM[name]), t(n)))
        if isinstance(r, (S.SArr, S.Sym)) and r.kind in ("float", "int", "npint") and not (isinstance(r, S.Sym) and r.kind != "float"):
            return S.elementwise1(r, lambda p, k: (radial_app(kind, m, n, p), "float"))
        c.fail(f"precondition of {name}: a float or an array", repr(r))
        raise S.PathEnd()
    return stub


RADIAL_STUBS = {CALC + k: radial_stub(k) for k in VALUE}
STUBS = {**CALLEES, **RADIAL_STUBS}


def polynomial(v, name=""):
    """An object of an arbitrary polynomial with n <= 54."""
    m, n, j = orders(v, name, NMAX)
    range_facts(v.c, m, n)
    p, e = v.new(CLS, n=n, m=m)
    if e:
        v.fail("valid orders are accepted", str(v.last_exc.exc))
        raise S.PathEnd()
    return p, m, n


SHAPES = ("float", "int", "array1", "array2", "ints", "list", "tuple")


def argument(v, name, kind, size=None, size2=None):
    """A number, an array or a list of any size (not empty)."""
    if kind == "float":
        return v.real(name)
    if kind == "int":
        return v.int(name)
    n = size if size is not None else v.int("size_" + name)
    v.require(n >= 1)
    if kind == "array2":
        k = size2 if size2 is not None else v.int("size2_" + name)
        v.require(k >= 1)
        return v.array(name, [n, k])
    if kind in ("list", "tuple"):
        return v.seq(name, n, cls=kind)
    return v.array(name, [n], kind="int" if kind == "ints" else "float")


def require_range(v, x, f):
    if isinstance(x, S.Sym):
        v.require(f(x))
    else:
        v.require_all(x, f)


def in_circle(x):
    return AND(x >= 0, x <= 1)


def is_array(x):
    return isinstance(x, (S.SArr, Q.VList))


def as_array(x):
    return S.asarray(x) if isinstance(x, Q.VList) else x


def elementwise(v, name, got, args, f):
    """got has the common shape of the arguments, and at each index the value f of their elements there."""
    arrs = [as_array(x) for x in args if is_array(x)]
    if not arrs:
        if is_array(got) or S.lift(got) is None:
            return v.fail(f"{name}: numbers give a number", repr(got))
        return v.equal(name, got, f(*[t(x) for x in args]))
    if not isinstance(got, S.SArr) or got.ndim != arrs[0].ndim:
        return v.fail(f"{name}: an array of the shape of the input", repr(got))
    for a in arrs:
        for x, y in zip(got.dims, a.dims):
            v.prove(f"{name}: the shape of the input", S.mkbool(T.eq(x, y)))
    ix = tuple(T.var(f"$i{j}", "int") for j in range(got.ndim))
    v.equal(name, got.at(*ix), f(*[as_array(x).at(*ix) if is_array(x) else t(x) for x in args]))


def dispatch_contracts(reg, method, kind, limit):
    @contract(reg, f"{CLS}.{method} gives the exact {'derivative' if kind == 'dR' else 'polynomial'} in both modes, for all orders", budget=100, stubs=STUBS)
    def spec(v):
        shape = v.choose(SHAPES)
        mode = v.choose(["default", "exact"])
        p, m, n = polynomial(v)
        r = argument(v, "r", shape)
        require_range(v, r, in_circle)
        v.cover("valid radii")
        kw = {"use_exact_eq": True} if mode == "exact" else v.choose([{}, {"use_exact_eq": False}])
        for turn in ("first", "second"):
            w = len(v.c.warned)
            x, e = v.method(p, method, r, **kw)
            if e:
                v.fail("no exception for valid radii", repr(v.last_exc.exc))
                return
            if mode == "exact" and not v.c.entails(S.cond_of(n <= limit)):
                if v.c.entails(S.cond_of(n > limit)):
                    elementwise(v, f"zeros for n > {limit}", x, [r], lambda q: T.ZERO)
                    v.prove(f"a warning for n > {limit}", S.mkbool(T.TRUE if len(v.c.warned) > w else T.FALSE))
                    continue
                elementwise(v, "value of the exact equation", x, [r], lambda q: T.ite(T.le(t(n), T.pc(limit)), radial_app(kind, m, n, q), T.ZERO))
                continue
            elementwise(v, f"value ({turn} call)", x, [r], lambda q: radial_app(kind, m, n, q))


def norm_term(m, n):
    return T.ite(T.eq0(t(m)), T.sqrt(T.add(t(n), T.ONE)), T.sqrt(T.scale(T.add(t(n), T.ONE), 2)))


def ang_term(m, th):
    a = aabs(m)
    return T.ite(T.ge0(t(m)), T.cos(T.mul(t(m), th)), T.sin(T.mul(T.neg(t(m)), th)))


def dang_term(m, th):
    """d/dtheta: -m sin(m theta) for m >= 0, |m| cos(|m| theta) for m < 0."""
    M = t(m)
    return T.ite(T.ge0(M), T.neg(T.mul(M, T.sin(T.mul(M, th)))), T.neg(T.mul(M, T.cos(T.mul(T.neg(M), th)))))
