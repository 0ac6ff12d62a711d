"""P20: convolution of an image with a kernel."""
from .psf import *

CONTRACTS = []
CONV = "calculations.calc_psfs:convolute_img_psf"
TYPES = {"float64": "float", "float32": "float", "uint8": "int", "uint16": "int", "int32": "int", "int64": "int"}


def image(v, value=None):
    """An image of any size and of one of the types."""
    h, w = v.int("height"), v.int("width")
    v.require(AND(h >= 1, w >= 1))
    name = v.choose(list(TYPES))
    if value is None:
        a = v.array("img", [h, w], kind=TYPES[name])
    else:
        p = t(value(TYPES[name]))
        a = S.SArr((t(h), t(w)), lambda ix: p, TYPES[name], frozen="img")
    a._dtype = S.DType(TYPES[name], name)
    v.require_all(a, lambda x: x >= 0)
    return a, t(h), t(w), name


def kernel(v):
    """A kernel of any size with non-negative elements, at least one of which is positive."""
    n, m = v.int("kernel_rows"), v.int("kernel_columns")
    v.require(AND(n >= 1, m >= 1))
    k = v.array("K", [n, m])
    v.require_all(k, lambda x: x >= 0)
    total = t(S.asum(k))
    v.require(S.mkbool(T.gt0(total)))
    return k, total


def normalized(img, k, total):
    """The normalized convolution with reflecting borders."""
    (h, w), (n, m) = img.dims, k.dims

    def value(ix):
        a, b = T.var("$a", "int"), T.var("$b", "int")
        at = [T.app("outside_reflect", (T.sub(T.add(i, T.fdiv(d, 2)), q), s), "int") for i, q, d, s in zip(ix, (a, b), (n, m), (h, w))]
        return T.div(T.bsum(a, n, T.bsum(b, m, T.mul(k.at(a, b), img.at(*at)))), total)
    return S.SArr((h, w), value, "float")


def convolution(v, img, k, how):
    """The convolution, rescaled or not, by the function or the method of a PSF."""
    if v.choose(["function", "method"]) == "function":
        return v.call(CONV, img, k, how) if v.choose(["positional", "keywords"]) == "positional" else v.call(CONV, img=img, psf_kernel=k, scale2original=how)
    o = psf_single(v)[0]
    any_history(v, o)
    o.attrs["kernel"], o.attrs["kernel_size"] = k, S.mk(k.dims[0], "int")
    return v.method(o, "convolute_img", img, how) if v.choose(["positional", "keywords"]) == "positional" else v.method(o, "convolute_img", image=img, scale2original=how)


def converted(p, name):
    return S.trunc(p) if TYPES[name] == "int" else p


def same_form(v, x, h, w, name):
    if not isinstance(x, S.SArr) or x.ndim != 2:
        v.fail("the result is an image", repr(x))
        return False
    v.equal("the number of rows", x.dims[0], h)
    v.equal("the number of columns", x.dims[1], w)
    v.prove("the type of the image", x.dtype == name)
    return True


@contract(CONTRACTS, f"{CONV}: the normalized convolution with reflecting borders", budget=150)
def plain(v):
    img, h, w, name = image(v)
    k, total = kernel(v)
    v.cover("any image and kernel")
    x, e = convolution(v, img, k, False)
    if e:
        return v.fail("no exception", repr(v.last_exc.exc))
    if same_form(v, x, h, w, name):
        i, j = v.index(h, w)
        v.equal("the normalized convolution", x.at(i, j), converted(normalized(img, k, total).at(i, j), name))


@contract(CONTRACTS, f"{CONV}: rescaled to the maximum of the image", budget=150)
def rescaled(v):
    img, h, w, name = image(v)
    k, total = kernel(v)
    v.cover("any image and kernel")
    x, e = convolution(v, img, k, True)
    if e:
        return v.fail("no exception", repr(v.last_exc.exc))
    if same_form(v, x, h, w, name):
        i, j = v.index(h, w)
        n = normalized(img, k, total)
        top, limit = t(S.extremum(n, "max")), t(S.extremum(img, "max"))
        y = n.at(i, j)
        v.equal("the convolution scaled to the maximum of the image", x.at(i, j), converted(T.ite(T.gt0(top), T.div(T.mul(y, limit), top), y), name))


@contract(CONTRACTS, f"{CONV}: a constant image stays constant", budget=150)
def constant(v):
    value = v.choose(["blank", "constant"])
    img, h, w, name = image(v, lambda kind: 0 if value == "blank" else v.int("level") if kind == "int" else v.real("level"))
    k, total = kernel(v)
    v.cover("any constant image and kernel")
    x, e = convolution(v, img, k, v.choose([False, True]))
    if e:
        return v.fail("no exception", repr(v.last_exc.exc))
    if same_form(v, x, h, w, name):
        i, j = v.index(h, w)
        v.equal("the value remains", x.at(i, j), img.at(i, j))
