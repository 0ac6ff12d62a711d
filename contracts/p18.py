"""P18: saving a PSF as JSON and reading it back."""
from vc.contract import Contract
from .psf import *
from .p08 import create
from .p14 import airy_is, piston
from .p15 import accepted
from fractions import Fraction
from vc import lib as LIB
import pathlib

CONTRACTS = []
CALC = "calculations.calc_psfs:"
PROPS = PSF + ".set_physical_props"
SAVE, READ = PSF + ".save_json", PSF + ".read_json"
FOLDER, ABSENT = "/ghost/folder", "/ghost/absent"
ASSUMPTIONS = ["json.dump followed by json.load gives back texts, integers, floats and lists of them (floats are written with all their digits)",
               "the file system: a written file has the written content, other files are not changed"]
KEYS = ("PSF Kernel", "NA", "Wavelength", "Pixel Size", "Kernel Size", "# of integration points R", "# of integration points angle")


# ---------------------------------------------------------------------------------------------- a file system
class Files:
    """The files that exist (every other file of an existing folder does or does not, as the contract says)."""

    def __init__(self, v, there):
        self.v, self.there = v, there
        self.folders = {"/", "/ghost", FOLDER, "/ghost/cwd"}
        self.content, self.writes, self.opened = {}, [], []
        self.lengths = {}

    def name_length(self, text):
        """Names that hold no symbolic value have their length, the others any length."""
        if "<" not in text:
            return len(text.encode())
        if text not in self.lengths:
            self.lengths[text] = self.v.int("name_length")
            self.v.require(self.lengths[text] >= 1)
        return self.lengths[text]

    def check_name(self, text):
        n = self.name_length(text)
        if n > 255 if isinstance(n, int) else self.v.c.branch(T.lt(T.pc(255), t(n))):
            raise S.Raised(OSError, "File name too long")


class GDigest:
    _vc_native = True

    def hexdigest(self):
        return "digest"


class GBytes:
    """An encoded file name."""
    _vc_native = True

    def __init__(self, fs, text):
        self.fs, self.text = fs, text

    def _vc_len(self):
        return self.fs.name_length(self.text)

    _vc_digest = staticmethod(GDigest)


class GName(str):
    """The name of a file, with unknown numbers in it."""
    _vc_native, _vc_type = True, str

    def __new__(cls, fs, text):
        o = str.__new__(cls, text)
        o.fs = fs
        return o

    def encode(self, *a, **k):
        return GBytes(self.fs, str(self))


class GPath:
    _vc_native, _vc_type = True, pathlib.PosixPath

    def __init__(self, fs, *parts):
        self.fs, self.p = fs, pathlib.PurePosixPath(*[x.p if isinstance(x, GPath) else x for x in parts])

    def __str__(self):
        return str(self.p)

    __repr__ = __fspath__ = __str__

    def __truediv__(self, x):
        return GPath(self.fs, self, x)

    def __format__(self, spec):
        return str(self.p)

    def joinpath(self, *xs):
        return GPath(self.fs, self, *xs)

    def cwd(self):
        return GPath(self.fs, "/ghost/cwd")

    def absolute(self):
        return GPath(self.fs, "/ghost/cwd", self)

    resolve = absolute

    def with_name(self, x):
        return GPath(self.fs, self.p.with_name(x))

    @property
    def name(self):
        return GName(self.fs, self.p.name)

    stem = property(lambda self: self.p.stem)
    suffix = property(lambda self: self.p.suffix)
    parent = property(lambda self: GPath(self.fs, self.p.parent))

    def key(self):
        return str(self.absolute().p)

    def is_dir(self):
        return self.key() in self.fs.folders

    def is_file(self):
        if self.is_dir():
            return False
        self.fs.check_name(self.p.name)
        return self.key() in self.fs.content or (str(self.absolute().p.parent) in self.fs.folders and self.fs.there and self.p.suffix == ".json")

    def exists(self):
        return self.is_dir() or self.is_file()

    def mkdir(self, *a, **k):
        if self.exists() and not k.get("exist_ok"):
            raise S.Raised(FileExistsError, str(self))
        self.fs.folders.add(self.key())


class GFile:
    _vc_native = True

    def __init__(self, fs, path, mode):
        self.fs, self.path, self.mode = fs, path, mode

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def image(x, default):
    """What json.load gives for what json.dump got."""
    if isinstance(x, (tuple, list)) or isinstance(x, Q.VList):
        if isinstance(x, Q.VList) and x.n is not None:
            return Q.VList((), "list", x.n, lambda i, x=x: image(x.elem(i), default))
        return Q.VList([image(y, default) for y in x])
    if isinstance(x, S.Sym) and x.kind in ("int", "float") or isinstance(x, (bool, int, float, str, type(None), S.SymBool)):
        return x
    if isinstance(x, dict):
        return {k: image(y, default) for k, y in x.items()}
    if default is None:
        raise S.Raised(TypeError, f"Object of type {x.kind if isinstance(x, S.Sym) else type(x).__name__} is not JSON serializable")
    return image(default(x), None)


def world(v, there):
    fs = Files(v, there)
    v.interp.path_handler = lambda *a: GPath(fs, *a)
    v.interp.text_handler = lambda text: GName(fs, text)

    def open_(p, mode="r", *a, **k):
        g = p if isinstance(p, GPath) else GPath(fs, p)
        if mode not in ("r", "w"):
            raise Unsupported("mode of a file")
        if mode == "r" and not g.is_file():
            raise S.Raised(FileNotFoundError, str(p))
        if str(g.absolute().p.parent) not in fs.folders:
            raise S.Raised(FileNotFoundError, str(p))
        fs.check_name(g.p.name)
        fs.opened.append((g.key(), mode))
        if mode == "w":
            fs.content[g.key()] = None
        return GFile(fs, g.key(), mode)
    v.interp.open_handler = open_

    def dump(data, f, *a, default=None, **k):
        if not isinstance(f, GFile) or f.mode != "w" or a or k.keys() - {"indent", "sort_keys"}:
            raise Unsupported("file or options of json.dump")
        if k.get("sort_keys"):
            data = {x: data[x] for x in sorted(data)}
        fs.content[f.path] = image(data, default and (lambda x: v.interp.call(default, [x], {})))
        fs.writes.append(f.path)

    def load(f, *a, **k):
        if not isinstance(f, GFile) or fs.content.get(f.path) is None:
            raise Unsupported("content of a file")
        return image(fs.content[f.path], None)
    v.interp.load("calculations.calc_psfs").ns["json"] = LIB.Shim("json", dump=dump, load=load)
    return fs


# ---------------------------------------------------------------------------------------------- the saved object
def calculated_psf(v, several, name=""):
    """An object with a kernel and valid properties."""
    if several:
        o, k = psf_several(v)
        o.attrs["coefficients"] = v.array("c", [k])
        o.attrs["amplitudes"] = v.array("amp", [k])
    else:
        o, m, n = psf_single(v)
        indices(v)
        k = None
        o.attrs["expansion_coeff"], o.attrs["alpha"] = v.real("coefficient"), v.real("alpha")
    na, wl, px = v.real("NA"), v.real("wavelength"), v.real("pixel")
    v.require(AND(na > 0, S.mkbool(T.le(t(na), T.pc(Fraction("1.7")))), wl > 0, px > 0, S.mkbool(T.le(T.scale(T.mul(t(px), t(na)), 4), t(wl)))))
    s = v.int("kernel_size")
    v.require(s >= 3)
    o.attrs.update(NA=na, wavelength=wl, pixel_size=px, kernel_size=s, n_int_r_points=v.int("nr"), n_int_phi_points=v.int("nphi"), kernel=v.array("kernel", [s, s]),
                   k=S.mk(T.div(T.scale(T.pa(T.PI_ATOM), 2), t(wl)), "float"))
    return o, k


def reader(v, kind):
    """Another object in any state."""
    o = psf_other(v, kind)
    any_history(v, o)
    o.attrs["kernel"] = v.array("other_kernel", [v.int("other_size"), v.int("other_size")])
    return o


def psf_other(v, kind):
    q = poly_object(v, *valid_polynomials(v, "q", T.ZERO))
    o, e = v.new(PSF, q)
    if e:
        raise Unsupported("constructor of the PSF: " + repr(v.last_exc.exc))
    if kind != "a polynomial":
        o.attrs.update(zernpol=None, polynomials=[q, poly_object(v, *valid_polynomials(v, "q", T.ONE))])
    o.attrs["airy"] = v.choose([False, True])
    return o


def restored(v, a, b, k):
    g = lambda n: (b.attrs.get(n), a.attrs.get(n))
    for n in ("NA", "wavelength", "pixel_size", "kernel_size", "n_int_r_points", "n_int_phi_points", "k"):
        x, y = g(n)
        if S.lift(x) is None:
            return v.fail(f"{n} is restored", repr(x))
        v.equal(f"{n} is restored", x, t(y))
    x, y = g("kernel")
    if not isinstance(x, S.SArr) or x.ndim != 2:
        return v.fail("the kernel is restored", repr(x))
    i, j = v.index(*y.dims)
    v.prove("the kernel is restored: its shape", T.cand(*[T.eq(c, d) for c, d in zip(x.dims, y.dims)]))
    v.equal("the kernel is restored: each element", x.at(i, j), y.at(i, j))


def same_polynomial(v, x, m, n, what):
    if not isinstance(x, Q.VObj) or "_ZernPol__m" not in x.attrs:
        return v.fail(what, repr(x))
    p, q = t(x.attrs["_ZernPol__m"]), t(x.attrs["_ZernPol__n"])
    v.c.fact(T.implies(T.eq(osa(p, q), osa(m, n)), T.cand(T.eq(p, m), T.eq(q, n))))      # lemma: an OSA index identifies the polynomial
    v.prove(what, T.cand(T.eq(p, m), T.eq(q, n)))


def polynomials_restored(v, a, b, k):
    z = b.attrs.get("zernpol")
    if k is None:
        m, n = valid_polynomials(v, "p", T.ZERO)
        same_polynomial(v, z, m, n, "the polynomial is restored")
        v.prove("no set of polynomials", isinstance(b.attrs.get("polynomials"), tuple) and len(b.attrs["polynomials"]) == 0)
        airy_is(v, b, piston(m, n))
        v.equal("the amplitude is restored", b.attrs["expansion_coeff"], t(a.attrs["expansion_coeff"]))
        v.equal("the normalized amplitude is restored", b.attrs["alpha"], T.div(t(a.attrs["expansion_coeff"]), t(a.attrs["wavelength"])))
        return
    v.prove("no single polynomial", z is None)
    ps = b.attrs.get("polynomials")
    if not isinstance(ps, Q.VList):
        return v.fail("the polynomials are restored", repr(ps))
    v.equal("as many polynomials as before", S.dim(ps.length()), t(k))
    i, = v.index(k)
    same_polynomial(v, ps.elem(i), *valid_polynomials(v, "p", i), "each polynomial is restored at its place")
    for n, w in (("coefficients", lambda x: x), ("amplitudes", lambda x: T.div(x, t(a.attrs["wavelength"])))):
        x = b.attrs.get(n)
        if not isinstance(x, S.SArr) or x.ndim != 1:
            return v.fail(f"the {n} are restored", repr(x))
        v.equal(f"as many {n} as before", x.dims[0], t(k))
        v.equal(f"the {n} are restored", x.at(i), w(a.attrs["coefficients"].at(i)))


def properties_stub(v):
    """Contract of set_physical_props (P15)."""
    def stub(interp, a):
        o = a["self"]
        na, wl, c, px = (a[x] for x in ("NA", "wavelength", "expansion_coeff", "pixel_physical_size"))
        if any(S.lift(x) is None for x in (na, wl, px)):
            v.fail("precondition: numbers are given as properties", repr((na, wl, px)))
            raise S.Raised(TypeError, "properties")
        v.prove("precondition: the properties are in their ranges", accepted(na, wl, px))
        o.attrs.update(NA=na, wavelength=wl, pixel_size=px, k=S.mk(T.div(T.scale(T.pa(T.PI_ATOM), 2), t(wl)), "float"), pixel_size_nyquist=S.mk(T.div(t(wl), T.scale(t(na), 4)), "float"))
        if o.attrs.get("zernpol") is not None:
            if isinstance(c, S.SArr) and c.ndim == 0:
                c = S.mk(c.at(), "float")
            if S.lift(c) is None:
                v.fail("precondition: a number is given as the amplitude of a polynomial", repr(c))
                raise S.Raised(ValueError, "amplitude")
            o.attrs.update(expansion_coeff=c, alpha=S.mk(T.div(t(c), t(wl)), "float"))
        else:
            if not isinstance(c, S.SArr) or c.ndim != 1:
                v.fail("precondition: an array of amplitudes is given for several polynomials", repr(c))
                raise S.Raised(ValueError, "amplitudes")
            v.prove("precondition: as many amplitudes as polynomials are given", T.eq(c.dims[0], S.dim(LIB.length(interp, o.attrs["polynomials"]))))
            o.attrs.update(coefficients=c, amplitudes=c/wl)
        s = v.int("size_of_props")
        v.require(s >= 1)
        o.attrs.update(kernel_size=s)
        o.attrs[PX + "physical_props_set"] = True
        v.c.ghost["set"] = True
    return stub


def saved(v, several, there, where, overwrite, kind="int"):
    v.interp.stubs[CLS] = create
    a, k = calculated_psf(v, several)
    for x in ("kernel_size", "n_int_r_points", "n_int_phi_points"):
        a.attrs[x] = S.mk(t(a.attrs[x]), kind)
    v.interp.stubs[PROPS] = properties_stub(v)
    fs = world(v, there)
    v.cover("any object")
    x, e = v.method(a, "save_json", **({} if where is None else {"abs_path": GPath(fs, FOLDER) if where == "path" else where}), overwrite=overwrite)
    if e:
        v.fail("no exception when saving", repr(v.last_exc.exc))
        return a, k, fs, None
    p = a.attrs["json_file_path"]
    key = GPath(fs, p).key() if isinstance(p, (str, GPath)) else None
    if fs.writes != [key] and not (there and not overwrite):
        v.fail("one file is written, its path is kept", (fs.writes, repr(p)))
        return a, k, fs, None
    if where in (FOLDER, "path"):
        v.prove("the file is in the given folder", key.rpartition("/")[0] == FOLDER)
    return a, k, fs, p


PLACES = [(False, FOLDER, True), (True, FOLDER, True), (True, "path", True), (False, ABSENT, False), (False, None, True), (False, "path", False)]


def round_trip(several, reading, kind, place):
    def spec(v):
        b = reader(v, reading)
        a, k, fs, p = saved(v, several, *place, kind)
        if p is None:
            return
        x, e = v.method(b, "read_json", v.choose([lambda: p, lambda: GPath(fs, p)])())
        if e:
            return v.fail("no exception when reading", repr(v.last_exc.exc))
        restored(v, a, b, k)
        polynomials_restored(v, a, b, k)
    return spec


def name(several):
    return "several polynomials" if several else "a polynomial"


_P = ("a polynomial", "several polynomials")
for _s in (False, True):
    for _k in _P:
        for _t in ("int", "npint"):
            for _p in (PLACES if _t == "int" else PLACES[:1]):
                _w = {FOLDER: "in a folder", "path": "in a folder given as a path", ABSENT: "in no existing folder", None: "in no given folder"}[_p[1]]
                _w += (", over an existing file" if _p[0] else "") + ("" if _p[2] else ", without overwriting") + (", numbers of numpy" if _t != "int" else "")
                CONTRACTS.append(Contract(f"{SAVE} of {name(_s)} {_w}, {READ} into an object of {_k}", round_trip(_s, _k, _t, _p), budget=300))


def kept(several):
    def spec(v):
        a, k, fs, p = saved(v, several, True, v.choose([FOLDER, "path", ABSENT, None]), False)
        if p is None:
            return
        if fs.opened or fs.writes or fs.content:
            return v.fail("an existing file remains as it is", repr(fs.opened))
        v.prove("a warning tells that the file is not overwritten", len(v.c.warned) > 0)
    return spec


for _s in (False, True):
    CONTRACTS.append(Contract(f"{SAVE} of {name(_s)}: an existing file is not opened for writing", kept(_s), budget=100))


@contract(CONTRACTS, f"{READ}: a missing file gives a warning", budget=100)
def missing(v):
    v.interp.stubs[CLS] = create
    b = reader(v, v.choose(_P))
    fs = world(v, False)
    values, before = {x: b.attrs.get(x) for x in ("NA", "wavelength", "pixel_size", "kernel", "kernel_size", "zernpol", "polynomials", "expansion_coeff")}, len(v.c.warned)
    f = v.choose([FOLDER + "/no.json", ABSENT + "/no.json", FOLDER])
    v.cover("any object")
    x, e = v.method(b, "read_json", v.choose([f, GPath(fs, f)]))
    if e:
        return v.fail("no exception", repr(v.last_exc.exc))
    v.prove("a warning", len(v.c.warned) > before)
    for k, x in values.items():
        v.prove(f"{k} is not changed", b.attrs.get(k) is x)


def incomplete(several, lost):
    def spec(v):
        b = reader(v, v.choose(_P))
        a, k, fs, p = saved(v, several, False, FOLDER, True)
        if p is None:
            return
        c = fs.content[GPath(fs, p).key()]
        if not isinstance(c, dict) or lost not in c:
            return v.fail(f"{lost!r} is saved", repr(c))
        del c[lost]
        before = len(v.c.warned)
        x, e = v.method(b, "read_json", p)
        if e:
            return v.fail("no exception", repr(v.last_exc.exc))
        v.prove("a warning", len(v.c.warned) > before)
    return spec


for _s in (False, True):
    for _l in KEYS + (("Amplitudes", "Polynomials") if _s else ("Expansion Coefficient", "Polynomial")):
        CONTRACTS.append(Contract(f"{READ} of a file of {name(_s)} without {_l!r}: a warning and no exception", incomplete(_s, _l), budget=100))
