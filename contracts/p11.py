"""P11: the circle of an image of phases."""
import contextlib
from fractions import Fraction
from vc import loops as LOOPS, prove as PROVE
from .polys import *

CONTRACTS = []
CROP = "calculations.fit_zernike_pols:crop_phases_img"
PI = T.pa(T.PI_ATOM)
HALF = T.pc(Fraction(1, 2))
PROVE.TIMEOUT_MS = 7000        # some of the steps below need about 3 s of the solver on an idle processor


CASES = [("equal", p, p) for p in (0, 1)] + [(c, p, 1 - p) for c in ("one row more", "one column more") for p in (0, 1)] + \
    [(c, p, q) for c in ("more rows", "more columns") for p in (0, 1) for q in (0, 1)]
NAMES = {"equal": "a square image", "one row more": "one row more than columns", "one column more": "one column more than rows",
         "more rows": "at least two rows more", "more columns": "at least two columns more"}
PARITY = {0: "even", 1: "odd"}


def picture(v, case, pa, pb, kind=None):
    """An image of any size (at least 3 x 3) and a crop radius; the sides by their parity and difference."""
    v.c.ghost["branch ms"] = 150
    a, b = v.int("half_rows"), v.int("half_columns")
    h = 2*a + pa
    if case == "equal":
        w = h
    elif case.startswith("one"):
        w = h + (1 if case == "one column more" else -1)
    else:
        w = 2*b + pb
        v.require(h >= w + 2 if case == "more rows" else w >= h + 2)
    v.require(AND(h >= 3, w >= 3))
    large, small = (h, w) if case in ("more rows", "one row more") else (w, h)
    size = small if case in ("more rows", "more columns") else large
    loose = case.startswith("one") or pa == pb == 0
    img = v.array("img", [h, w], kind=kind or v.choose(["float", "int"]))
    R = v.real("crop_radius")
    v.require(S.mkbool(T.cand(T.le(HALF, t(R)), T.le(t(R), T.ONE))))
    return img, t(h), t(w), R, (t(size), loose)


def distance(h, w, c, i, j):
    """Normalized distance of a pixel from the centre, rounded to 4 digits."""
    half = lambda x: T.scale(T.sub(x, T.ONE), Fraction(1, 2))
    a, b = T.sub(i, half(h)), T.sub(j, half(w))
    return T.rnd(T.div(T.sqrt(T.add(T.mul(a, a), T.mul(b, b))), half(c[0])), 4)


def selected(h, w, c, R, strict, i, j):
    tolerance = Fraction("0.055") if c[1] and not strict else Fraction("0.001")
    return T.lt(T.sub(distance(h, w, c, i, j), T.rnd(t(R), 4)), T.pc(tolerance))


def call(v, img, R, strict):
    if v.choose(["positional", "keywords"]) == "positional":
        return v.call(CROP, img, R, v.choose([False, True]), strict)
    return v.call(CROP, phases_image=img, crop_radius=R, strict_border=strict)


def for_all_cases(text, budget):
    def wrap(f):
        for case in CASES:
            contract(CONTRACTS, f"{CROP}: {text} ({NAMES[case[0]]}, {PARITY[case[1]]} x {PARITY[case[2]]})", budget=budget)(lambda v, case=case: f(v, *case))
        return f
    return wrap


def before(h, w, c, R, strict, i, j):
    """The number of pixels of the circle before a pixel, in row order."""
    a, b = T.var("$rows", "int"), T.var("$cols", "int")
    one = lambda x, y: T.ite(selected(h, w, c, R, strict, x, y), T.ONE, T.ZERO)
    return T.add(T.bsum(a, i, T.bsum(b, w, one(a, b))), T.bsum(b, j, one(i, b)))


@for_all_cases("the mask and the number of values", 300)
def mask(v, *case):
    img, h, w, R, c = picture(v, *case)
    strict = v.choose([False, True])
    v.c.ghost["guess"] = 2        # the vectors are not needed here
    v.cover("any image")
    x, e = call(v, img, R, strict)
    if e:
        return v.fail("no exception", repr(v.last_exc.exc))
    m = x[0]
    if not isinstance(m, S.SArr) or m.ndim != 2:
        return v.fail("the mask is a matrix", repr(m))
    v.equal("as many rows as the image", m.dims[0], h)
    v.equal("as many columns as the image", m.dims[1], w)
    if not isinstance(x[1], tuple) or len(x[1]) != 3 or not all(isinstance(y, S.SArr) and y.ndim == 1 for y in x[1]):
        return v.fail("vectors of phases, radii and angles", repr(x[1]))
    for y in x[1]:
        v.equal("as many values as pixels of the circle", y.dims[0], before(h, w, c, R, strict, h, T.ZERO))
    i, j = v.index(h, w)
    v.equal("1 for the pixels of the circle, 0 elsewhere", m.at(i, j), T.ite(selected(h, w, c, R, strict, i, j), T.ONE, T.ZERO))


def largest(v, name, value, bound, place):
    """value <= bound, a maximum over rows of maxima over columns: by the instances of both for this pixel."""
    goal, known, todo = T.le(value, bound), [x for x in v.c.all() if not any(a.op == "arrkey" for a in T.all_atoms(x))], [bound]
    start = len(known)
    for x in place:
        new = []
        for p in todo:
            for a in p.atoms():
                if a.op == "arrkey" and a.args[3] == "max" and len(a.args[0]) == 1:
                    (k,), (n,), body, _ = a.args
                    new.append(T.subst(body, {next(iter(k.atoms())): x}))
                    if v.c.entails(T.cand(T.ge0(x), T.lt(x, n))):
                        known.append(T.le(new[-1], T.pa(a)))
        todo = new
    own = known[start:] + [goal]
    plain = {a: T.var(f"$rounded{a.id}", "real") for x in own for a in T.all_atoms(x) if a.op == "round"}      # the place of the pixel does not matter, only its rounded radius
    pure = [T.subst(x, plain) for x in own + known[:start]]
    atoms = {a for x in pure[:len(own)] for a in T.all_atoms(x)}
    near = [x for x in pure[:len(own) - 1] + pure[len(own):] if T.all_atoms(x) <= atoms]
    if PROVE.entails(near, T.subst(goal, plain), 4000) or PROVE.entails(known, goal, 8000) or PROVE.entails(near, T.subst(goal, plain), 25000):
        v.c.fact(goal)
    v.prove(name, S.mkbool(goal))


@contextlib.contextmanager
def plainly(v):
    """Without the conditions on maxima (fewer premises, so faster answers)."""
    keep = v.c.pc, v.c.facts
    plain = lambda xs: [x for x in xs if not any(a.op == "arrkey" for a in T.all_atoms(x))]
    v.c.pc, v.c.facts = plain(v.c.pc), plain(v.c.facts)
    try:
        yield
    finally:
        v.c.pc, v.c.facts = keep


def nonnegative(v, p):
    with plainly(v):
        return all(b.op == "round" and v.c.entails(T.ge0(b.args[0])) for b in p.atoms()) and len(p.d) == 1 and all(x > 0 for x in p.d.values()) or v.c.entails(T.ge0(p))


def extrema(p):
    return sorted({a for a in T.all_atoms(p) if a.op == "arrkey" and a.args[3] == "max" and len(a.args[0]) == 1
                   and not any(b.op == "app" and b.args[0].startswith("find!") for b in T.all_atoms(T.pa(a)))
                   and not any(x.args[0].startswith("$k") for x in a.fv)}, key=lambda z: z.id)


def at_place(p, place, equal=False):
    """Instances of the nested maxima in a term for a pixel: they are not smaller than its value (or equal for the pixel of the maximum)."""
    out = []
    for a in extrema(p) if place else ():
        (k,), _, body, _ = a.args
        x = T.subst(body, {next(iter(k.atoms())): place[0]})
        out.append((T.eq if equal else T.le)(x, T.pa(a)))
        out += at_place(x, place[1:], equal)
    return out


def rest(v, radius, distance, far, h, w):
    """The radius of a pixel that is not beyond the circle, divided by the largest of those that are: one of them is known by the flag
    that the radii are to be divided (a maximum of 0 and 1 over the pixels)."""
    divisors = [a for a in sorted(T.all_atoms(radius), key=lambda z: z.id) if a.op == "inv" and extrema(a.args[0])
                and not any(b.op == "app" and b.args[0].startswith("find!") for b in T.all_atoms(a.args[0]))]
    if not divisors:
        return
    x, y = v.index(h, w)
    for p in list(v.c.all()):
        if p.op == "eq":
            for q in at_place(p, (x, y), True):
                v.c.fact(q)
    if not all(v.c.entails(q) for q in far(x, y)[1:]) or not nonnegative(v, distance):
        return
    for q in far(x, y)[1:]:
        v.c.fact(q)
    for a in divisors:
        largest(v, "no radius beyond the circle is larger than what they are divided by", far(x, y)[0], a.args[0], (x, y))
        if all(v.c.entails(q) for q in (T.lt(T.ZERO, T.pa(a)), T.lt(distance, far(x, y)[0]))):     # 0 <= distance < far <= the divisor
            v.c.fact(T.le(T.mul(distance, T.pa(a)), T.ONE))
            v.c.fact(T.ge0(T.mul(distance, T.pa(a))))


def maxima(v, radius, total, q, place, selected, h, w):
    """What the maxima of a vector with a value for each pixel of the circle mean: they are not smaller than the value of this pixel
    (number q), and they are the value of some pixel of the circle, as each number less than total is that of one of them."""
    for a in sorted({a for p in v.c.all() + [T.ge0(radius)] for a in T.all_atoms(p) if a.op == "arrkey"}, key=lambda z: z.id):
        if a.args[3] != "max" or len(a.args[0]) != 1 or any(x.args[0].startswith("$k") for x in a.fv) or not any(b.op == "app" and b.args[0].startswith("find!") for b in T.all_atoms(T.pa(a))):
            continue
        (k,), (n,), body, _ = a.args
        with plainly(v):
            if not v.c.entails(T.eq(n, total)) or not LOOPS.at_least(T.sub(n, q), T.ONE):
                continue
        k, = k.atoms()
        with plainly(v):
            own = LOOPS.resolve(T.subst(body, {k: q}), place)
        x, y = v.index(h, w)
        v.c.assume(selected(x, y)[0])
        with plainly(v):
            top = LOOPS.resolve(T.subst(body, {k: selected(x, y)[1]}), (x, y))
        v.c.fact(T.le(own, T.pa(a)))
        v.c.fact(T.eq(top, T.pa(a)))
        if not nonnegative(v, own):
            continue
        v.c.fact(T.ge0(own))
        if PROVE.linear_entails(v.c.all(), T.lt(T.ZERO, T.pa(a))):
            ratio = T.div(own, T.pa(a))
            v.c.fact(T.ge0(ratio))
            v.c.fact(T.le(ratio, T.ONE))


def unit(v, p):
    """Is p, a product of rounded values and reciprocals, within [0, 1] because all of its factors are?  (then it is a fact)"""
    ok = T.ge0(p) in v.c.facts and T.le(p, T.ONE) in v.c.facts or T.gt0(p) in v.c.facts and T.le(p, T.ONE) in v.c.facts
    if not ok and len(p.d) == 1 and 1 in p.d.values():
        (m, _), = p.d.items()
        ok = all(unit(v, a.args[0]) if a.op == "round" and e > 0 else e < 0 and v.c.entails(T.le(T.ONE, T.pa(a))) for a, e in m)
    if ok:
        v.c.fact(T.ge0(p))
        v.c.fact(T.le(p, T.ONE))
    return ok


@for_all_cases("the order of the values", 300)
def order(v, *case):
    """The value of a pixel of the circle is listed at its place in row order (see Loop.windows for the loops)."""
    strict, kind = v.choose([(False, "float"), (True, "int")])
    img, h, w, R, c = picture(v, *case, kind=kind)
    v.c.ghost["guess"] = 2        # vectors by windows, not by guessing
    v.cover("any image")
    x, e = v.call(CROP, img, R, True, strict)
    if e:
        return v.fail("no exception", repr(v.last_exc.exc))
    if not isinstance(x[1], tuple) or len(x[1]) != 3 or not all(isinstance(y, S.SArr) and y.ndim == 1 for y in x[1]):
        return v.fail("vectors of phases, radii and angles", repr(x[1]))
    i, j = v.index(h, w)
    v.c.assume(selected(h, w, c, R, strict, i, j))
    q = before(h, w, c, R, strict, i, j)
    phase, radius, angle = (LOOPS.resolve(y.at(q), (i, j)) for y in x[1])
    v.equal("the phase of a pixel is listed after those of the pixels before it in row order", phase, img.at(i, j))
    half = lambda x: T.scale(T.sub(x, T.ONE), HALF.const())
    a = T.app("arctan2", (T.sub(half(h), i), T.sub(j, half(w))))
    v.equal("so is the angle, counterclockwise and not negative", angle, T.ite(T.lt(a, T.ZERO), T.add(a, T.scale(PI, 2)), a))
    d, = distance(h, w, c, i, j).atoms()
    r = T.subst(radius, {d: T.var("distance", "real")})
    v.prove("so is the radius, a function of the distance that is the same for all pixels of the image",
            not any(y in r.fv() for x in (i, j) for y in x.atoms()))
    beyond = not strict and c[1] and v.choose([True, False])
    far = T.lt(T.pc(Fraction("0.001")), T.sub(distance(h, w, c, i, j), T.rnd(t(R), 4)))
    if not beyond:
        if not strict and c[1]:
            v.c.assume(T.cnot(far))
            rest(v, radius, distance(h, w, c, i, j),
                 lambda x, y: (distance(h, w, c, x, y), T.lt(T.pc(Fraction("0.001")), T.sub(distance(h, w, c, x, y), T.rnd(t(R), 4))), selected(h, w, c, R, strict, x, y)), h, w)
        maxima(v, radius, before(h, w, c, R, strict, h, T.ZERO), q, (i, j), lambda x, y: (selected(h, w, c, R, strict, x, y), before(h, w, c, R, strict, x, y)), h, w)
        unit(v, radius)
        v.prove("radii are at most 1", S.mkbool(T.le(radius, T.ONE)))
        v.prove("radii are not negative", S.mkbool(T.ge0(radius)))
    else:
        v.c.assume(far)        # a pixel beyond the circle
        far = distance(h, w, c, i, j)
        for a in sorted(T.all_atoms(radius), key=lambda x: x.id):
            if a.op == "inv" and any(b.op == "arrkey" for b in T.all_atoms(a.args[0])) and not any(b.op == "app" and b.args[0].startswith("find!") for b in T.all_atoms(a.args[0])):
                largest(v, "no radius beyond the circle is larger than what they are divided by", far, a.args[0], (i, j))
                v.c.fact(T.le(T.mul(far, T.pa(a)), T.ONE))
                v.c.fact(T.lt(T.ZERO, T.mul(far, T.pa(a))))     # 0 < far <= the divisor
        unit(v, radius)
        v.prove("radii of pixels beyond the circle are rescaled to at most 1", S.mkbool(T.le(radius, T.ONE)))


@contract(CONTRACTS, f"{CROP}: crop radii out of the range raise ValueError", budget=100)
def radius(v):
    h, w = v.int("rows"), v.int("columns")
    v.require(AND(h >= 1, w >= 1))
    img = v.array("img", [h, w], kind=v.choose(["float", "int"]))
    R = v.real("crop_radius") if v.choose(["real", "integer"]) == "real" else v.int("integer_radius")
    r = T.rnd(t(R), 4)
    v.require(S.mkbool(T.cor(T.lt(r, HALF), T.lt(T.ONE, r))))
    v.cover("a radius")
    x, e = call(v, img, R, v.choose([False, True]))
    v.prove("ValueError", e is ValueError)


@contract(CONTRACTS, f"{CROP}: images smaller than 3 pixels raise ValueError", budget=100)
def small(v):
    h, w = v.int("rows"), v.int("columns")
    v.require(AND(h >= 0, w >= 0, OR(h < 3, w < 3)))
    img = v.array("img", [h, w], kind=v.choose(["float", "int"]))
    R = v.real("crop_radius")
    v.require(S.mkbool(T.cand(T.le(HALF, t(R)), T.le(t(R), T.ONE))))
    v.cover("a small image")
    x, e = call(v, img, R, v.choose([False, True]))
    v.prove("ValueError", e is ValueError)


@contract(CONTRACTS, f"{CROP}: other objects than matrices raise ValueError", budget=100)
def other(v):
    n, m, k = v.int("n"), v.int("m"), v.int("k")
    v.require(AND(n >= 0, m >= 0, k >= 0))
    what = img = v.choose(["vector", "3D", None, 1, 2.5, "image", [[1.0]*4]*4, ((1, 2, 3),)*3, [], {}])
    if what == "vector" or what == "3D":
        img = v.array("img", [n] if what == "vector" else [n, m, k])
    R = v.real("crop_radius")
    v.require(S.mkbool(T.cand(T.le(HALF, t(R)), T.le(t(R), T.ONE))))
    v.cover("another object")
    x, e = call(v, img, R, v.choose([False, True]))
    v.prove("ValueError", e is ValueError)
