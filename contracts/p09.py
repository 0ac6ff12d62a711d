"""P09: generated polar coordinates."""
from fractions import Fraction
from .common import *
from vc.contract import contract

CONTRACTS = []
CLS = "zernikepol:ZernPol"
GEN, EQUAL = CLS + ".gen_polar_coordinates", CLS + ".gen_equal_polar_mesh"
PI = T.pa(T.PI_ATOM)
LIMITS = {"R": T.ONE, "Theta": T.scale(PI, 2)}
LONGER = Fraction(1, 10**9)        # share of the range by which the last step may exceed the requested one (rounding of the number of steps)
DEFAULTS = {"R": Fraction("0.01"), "Theta": Fraction("0.01309")}          # round(pi/240, 7)


def result(v, x, e):
    if e:
        return v.fail("no exception for valid steps", repr(v.last_exc.exc))
    if not isinstance(x, tuple) or getattr(x, "_fields", None) != ("R", "Theta") or any(not isinstance(a, S.SArr) or a.ndim != 1 for a in x):
        return v.fail("named tuple of two vectors", repr(x))
    return True


def vector(v, name, a, step):
    n, last = a.dims[0], LIMITS[name]
    v.prove(f"{name}: at least two values", S.mkbool(T.le(T.pc(2), n)))
    v.equal(f"{name}: the first value is 0", a.at(T.ZERO), T.ZERO)
    v.equal(f"{name}: the last value is exactly the limit", a.at(T.sub(n, T.ONE)), last)
    k = v.int("place")
    v.require(AND(k >= 0, S.mkbool(T.lt(t(k), T.sub(n, T.ONE)))))
    k = t(k)
    x, y = a.at(k), a.at(T.add(k, T.ONE))
    v.prove(f"{name}: strictly ascending", S.mkbool(T.lt(x, y)))
    v.prove(f"{name}: within the range", S.mkbool(T.cand(T.ge0(x), T.le(y, last))))
    if v.choose([True, False]):
        v.require(S.mkbool(T.lt(k, T.sub(n, T.pc(2)))))
        v.equal(f"{name}: consecutive values differ by the step", T.sub(y, x), step)
    else:
        v.require(S.mkbool(T.eq(k, T.sub(n, T.pc(2)))))
        v.prove(f"{name}: the last step is not longer than the requested one", S.mkbool(T.le(T.sub(y, x), T.add(step, T.scale(last, LONGER)))))


def in_range(r, th):
    return AND(r > 0, S.mkbool(T.le(t(r), T.pc(0.5))), th > 0, S.mkbool(T.le(t(th), PI)))


def steps(v):
    r = v.real("r_step")
    th = v.choose([lambda: v.real("theta_step"), lambda: v.int("theta_step")])()
    return r, th


def generated(name):
    def spec(v):
        r, th = steps(v)
        v.require(in_range(r, th))
        v.cover("steps in the ranges")
        x, e = v.choose([lambda: v.call(GEN, r, th), lambda: v.call(GEN, r_step=r, theta_rad_step=th)])()
        if result(v, x, e):
            vector(v, name, getattr(x, name), t({"R": r, "Theta": th}[name]))
    return spec


for _n in LIMITS:
    contract(CONTRACTS, f"{GEN}: {_n} covers the range with the step", budget=100)(generated(_n))


def default(name):
    def spec(v):
        v.cover("no arguments")
        x, e = v.call(GEN)
        if result(v, x, e):
            vector(v, name, getattr(x, name), T.pc(DEFAULTS[name]))
    return spec


for _n in LIMITS:
    contract(CONTRACTS, f"{GEN}: {_n} with the default steps", budget=60)(default(_n))


@contract(CONTRACTS, f"{GEN}: steps out of range raise ValueError", budget=60)
def rejected(v):
    r, th = v.choose([lambda: v.real("r_step"), lambda: v.int("r_step")])(), v.choose([lambda: v.real("theta_step"), lambda: v.int("theta_step")])()
    v.require(NOT(in_range(r, th)))
    v.cover("steps out of range")
    x, e = v.call(GEN, r, th)
    v.prove("ValueError", e is ValueError)


@contract(CONTRACTS, f"{EQUAL}: the number of equidistant radii and angles", budget=60)
def equal(v):
    k = v.int("n_points")
    v.cover("any number of points")
    x, e = v.call(EQUAL, k)
    if not result(v, x, e):
        return
    n = T.ite(T.le(T.pc(4), t(k)), t(k), T.pc(4))
    i = v.int("place")
    v.require(AND(i >= 0, S.mkbool(T.lt(t(i), n))))
    for name, limit in LIMITS.items():
        a = getattr(x, name)
        v.equal(f"{name}: as many values as requested, at least 4", a.dims[0], n)
        # equidistant from 0 to the limit
        v.equal(f"{name}: equidistant", T.mul(a.at(t(i)), T.sub(n, T.ONE)), T.mul(limit, t(i)))


@contract(CONTRACTS, f"{EQUAL}: the default number of points", budget=60)
def equal_default(v):
    v.cover("no argument")
    x, e = v.call(EQUAL)
    if not result(v, x, e):
        return
    i = v.int("place")
    v.require(AND(i >= 0, i < 250))
    for name, limit in LIMITS.items():
        a = getattr(x, name)
        v.equal(f"{name}: 250 values", a.dims[0], T.pc(250))
        v.equal(f"{name}: equidistant", T.scale(a.at(t(i)), 249), T.mul(limit, t(i)))
