"""P19: cropping of a kernel."""
from fractions import Fraction
from .psf import *

CONTRACTS = []
CROP = PSF + ".crop_kernel"
HALF = T.pc(Fraction(1, 2))


def kernel(v, o):
    """A kernel of n x n values, the largest of which is positive."""
    n = v.int("size")
    v.require(n >= 1)
    k = v.array("K", [n, n])
    top = t(S.extremum(k, "max"))
    v.require(S.mkbool(T.gt0(top)))
    a, b = v.int("row_of_max"), v.int("column_of_max")          # a place where it is attained
    v.require(AND(a >= 0, a < n, b >= 0, b < n))
    v.require(S.mkbool(T.eq(k.at(t(a), t(b)), top)))
    v.c.fact(T.le(k.at(T.sub(T.sub(t(n), T.ONE), t(a)), t(b)), top))
    o.attrs["kernel"], o.attrs["kernel_size"] = k, n
    return n, k, top


@contract(CONTRACTS, f"{CROP} removes frames of dim values only, and all of them", budget=200)
def cropped(v):
    o = psf_single(v)[0]
    any_history(v, o)
    n, k, top = kernel(v, o)
    x = v.real("threshold")
    v.require(AND(n > 3, x > 0, S.mkbool(T.lt(t(x), HALF))))
    v.cover("any kernel")
    r, e = v.choose([lambda: v.method(o, "crop_kernel", x), lambda: v.method(o, "crop_kernel", min_part_of_max=x)])()
    if e:
        return v.fail("no exception", repr(v.last_exc.exc))
    g = v.interp.getattr(o, "kernel")
    if not isinstance(g, S.SArr) or g.ndim != 2:
        return v.fail("the kernel remains a matrix", repr(g))
    size = v.interp.getattr(o, "kernel_size")
    v.equal("the kernel size is the number of rows", size, g.dims[0])
    v.equal("the kernel size is the number of columns", size, g.dims[1])
    n, limit = t(n), T.mul(t(x), top)
    s = T.fdiv(T.sub(n, g.dims[0]), 2)
    v.equal("as many rows above as below are removed", T.sub(n, T.scale(s, 2)), g.dims[0])
    v.prove("rows are removed only", S.mkbool(T.ge0(s)))
    i, j = v.index(g.dims[0], g.dims[1])
    v.equal("the result is the central part, with unchanged values", g.at(i, j), k.at(T.add(s, i), T.add(s, j)))
    last = T.sub(T.sub(n, T.ONE), s)
    f, i = v.index(n, n)
    side = v.choose([(f, i), (T.sub(T.sub(n, T.ONE), f), i), (i, f), (i, T.sub(T.sub(n, T.ONE), f))])
    v.prove("all removed values are below the threshold", S.mkbool(T.implies(T.lt(f, s), T.lt(k.at(*side), limit))))
    q = T.var("$frame", "int")
    first = [T.le(limit, k.at(*p)) for p in ((s, q), (last, q), (q, s), (q, last))]
    v.prove("the next frame has a value that is not below the threshold", S.mkbool(T.exists(q, n, T.cor(*first))))


@contract(CONTRACTS, f"{CROP}: kernels of size up to 3 remain unchanged", budget=60)
def small(v):
    o = psf_single(v)[0]
    any_history(v, o)
    n, k, top = kernel(v, o)
    x = v.real("threshold")
    v.require(AND(n <= 3, x > 0, S.mkbool(T.lt(t(x), HALF))))
    v.cover("small kernels")
    r, e = v.method(o, "crop_kernel", x)
    if e:
        return v.fail("no exception", repr(v.last_exc.exc))
    g = v.interp.getattr(o, "kernel")
    if not isinstance(g, S.SArr) or g.ndim != 2:
        return v.fail("the kernel remains a matrix", repr(g))
    v.equal("the size remains", v.interp.getattr(o, "kernel_size"), t(n))
    for d in g.dims:
        v.equal("the size remains", d, t(n))
    i, j = v.index(n, n)
    v.equal("the values remain", g.at(i, j), k.at(i, j))


@contract(CONTRACTS, f"{CROP}: thresholds outside of (0, 0.5) raise ValueError", budget=60)
def rejected(v):
    o = psf_single(v)[0]
    any_history(v, o)
    n, k, top = kernel(v, o)
    x = v.choose([lambda: v.real("threshold"), lambda: v.int("threshold")])()
    v.require(AND(n > 3, NOT(AND(x > 0, S.mkbool(T.lt(t(x), HALF))))))
    v.cover("thresholds out of range")
    r, e = v.method(o, "crop_kernel", x)
    v.prove("ValueError", e is ValueError)
