"""P18: saving a PSF as JSON and reading it back."""
import contextlib
import io
import json
import os
import tempfile
import warnings
from pathlib import Path
import numpy as np

NAMES = ("kernel_size", "n_int_r_points", "n_int_phi_points", "NA", "wavelength", "pixel_size", "pixel_size_nyquist", "k")


def osas(s):
    return [p.get_indices()[1] for p in ([s.zernpol] if s.zernpol is not None else s.polynomials)]


def make(R, count, numpy=False, big=False, long=None):
    """A PSF with a kernel and random properties."""
    from zernpy import ZernPol, ZernPSF
    # indices of polynomials with n <= 40
    ids = R.rng.sample(range(860 if big else max(count + 1, 60)), count)
    if R.rng.random() < 0.3 and 0 not in ids:
        ids[R.rng.randrange(count)] = 0
    if long is not None:
        ids = [i + 20 + (100 if i < long else 0) for i in range(count)]
    pols = [ZernPol(osa=i) for i in ids]
    how = R.rng.choice(["one", "list", "tuple"]) if count == 1 else R.rng.choice(["list", "tuple", "array"])
    s = ZernPSF({"one": lambda: pols[0], "list": lambda: pols, "tuple": lambda: tuple(pols), "array": lambda: np.array(pols, dtype=object)}[how]())
    na, wl = R.rng.uniform(0.1, 1.65), R.rng.uniform(0.2, 900.0)
    px = wl/(4*na)*R.rng.uniform(0.05, 0.999)
    if R.rng.random() < 0.1:
        na = 1
        px = wl/4*R.rng.uniform(0.05, 0.999)
    c = [wl*R.rng.uniform(-0.4, 0.4)*10**R.rng.uniform(-6, 0) for _ in range(count)]
    if R.rng.random() < 0.2:
        c = [round(x, 2) for x in c]
    amp = c[0] if count == 1 and R.rng.random() < 0.6 else R.rng.choice([list, tuple, np.array])(c)
    if numpy:
        na, wl, px = np.float32(na), np.float32(wl), np.float32(px*0.99)
    s.set_physical_props(na, wl, amp, px)
    n = R.rng.choice([3, 5, 7, 11, 21, s.kernel_size if s.kernel_size < 60 else 9])
    n = max(3, n)
    t = np.int64 if numpy else int
    s.set_calculation_props(t(n), t(R.rng.randrange(20, 700)), t(R.rng.randrange(36, 700)))
    m = s.kernel_size
    s.kernel = np.array([[R.rng.random()*10**R.rng.uniform(-12, 2) for _ in range(m)] for _ in range(m)])
    return s


def saved(R, s, d, **k):
    before = {x: getattr(s, x) for x in NAMES}
    kernel = s.kernel.copy()
    s.save_json(d, **k)
    R.check(all(getattr(s, x) == before[x] for x in NAMES) and np.array_equal(kernel, s.kernel), "saving does not change the properties")
    return s.json_file_path


def equal(a, x, y, derived):
    """Values derived from numbers of single precision are calculated again with double precision."""
    if derived and isinstance(a.wavelength, np.float32):
        return np.allclose(x, y, rtol=1e-5, atol=0)
    return np.array_equal(x, y)


def same(R, a, b):
    R.check(isinstance(b.kernel, np.ndarray) and a.kernel.shape == b.kernel.shape and np.array_equal(a.kernel, b.kernel), "the kernel is restored", b.kernel, a.kernel)
    for x in NAMES:
        R.check(equal(a, getattr(a, x), getattr(b, x), x in ("k", "pixel_size_nyquist")), f"{x} is restored", getattr(b, x), getattr(a, x))
    R.check((a.zernpol is None) == (b.zernpol is None), "one polynomial or several are restored")
    R.check(osas(a) == osas(b), "the polynomials are restored", osas(b), osas(a))
    if a.zernpol is not None:
        R.check(len(b.polynomials) == 0, "no set of polynomials remains")
        R.check(a.expansion_coeff == b.expansion_coeff and equal(a, a.alpha, b.alpha, True), "the amplitude is restored", (b.expansion_coeff, b.alpha), (a.expansion_coeff, a.alpha))
        R.check(bool(b.airy) == (osas(a) == [0]), "the mark of the Airy pattern", b.airy)
    else:
        for x in ("coefficients", "amplitudes"):
            g, w = getattr(b, x), getattr(a, x)
            R.check(isinstance(g, np.ndarray) and g.shape == w.shape and equal(a, g, w, x == "amplitudes"), f"the {x} are restored", g, w)


def reader(R):
    """An object with any history."""
    from zernpy import ZernPol, ZernPSF
    x = R.rng.random()
    if x < 0.2:
        return ZernPSF(ZernPol(m=0, n=0))
    if x < 0.4:
        return ZernPSF([ZernPol(m=1, n=1), ZernPol(m=-2, n=2)])
    s = make(R, R.rng.choice([1, 1, 2, 3]))
    return s


def one(R, count, **k):
    with tempfile.TemporaryDirectory() as d, warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        s, r = make(R, count, **k), reader(R)
        R.case((count, osas(s), s.NA, s.wavelength, str(s.zernpol)))
        folder = R.rng.choice([d, Path(d)])
        f = saved(R, s, folder, **({"overwrite": True} if R.rng.random() < 0.5 else {}))
        R.check(os.listdir(d) == [os.path.basename(f)] and os.path.samefile(os.path.dirname(f), d), "one file in the given folder", os.listdir(d), f)
        content = Path(f).read_bytes()
        r.read_json(R.rng.choice([f, Path(f)]))
        same(R, s, r)
        R.check(Path(f).read_bytes() == content, "reading does not change the file")
        # and once more from the restored object
        d2 = os.path.join(d, "second")
        os.mkdir(d2)
        saved(R, r, d2)
        s2 = reader(R)
        s2.read_json(r.json_file_path)
        same(R, s, s2)
        if R.rng.random() < 0.3:      # the object that saved it reads its own file
            s.set_physical_props(0.7, 0.5, 0.01 if s.zernpol is not None else [0.01]*len(s.polynomials), 0.1)
            s.read_json()
            same(R, s2, s)


def round_trips(R):
    for i in range(400 if R.thorough else 60):
        if R.left() < 5:
            return
        one(R, R.rng.choice([1, 1, 1, 2, 2, 3, 4, 7]))


def numpy_numbers(R):
    for i in range(20):
        if R.left() < 5:
            return
        one(R, R.rng.choice([1, 2, 3]), numpy=True)


def many(R):
    for n in ([10, 22, 30, 66, 200, 500] if R.thorough else [10, 22, 40, 66]):
        one(R, n, big=n > 66)
    for n in range(11, 14):      # names of about 255 characters: each index above 99 is one character more
        for k in range(n + 1):
            one(R, n, long=k)


def default_folder(R):
    """Without a folder, or with one that does not exist, the working folder is used."""
    old = os.getcwd()
    with tempfile.TemporaryDirectory() as d, warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        os.chdir(d)
        try:
            for where in (None, "", os.path.join(d, "no folder"), Path(d)/"none"):
                for count in (1, 3):
                    s, r = make(R, count), reader(R)
                    s.json_file_path = d
                    R.case((str(where), osas(s)))
                    s.save_json(where, overwrite=True)
                    R.check(os.path.isfile(s.json_file_path), "a file is written", s.json_file_path)
                    r.read_json(s.json_file_path)
                    same(R, s, r)
        finally:
            os.chdir(old)


def overwriting(R):
    for i in range(30):
        with tempfile.TemporaryDirectory() as d, warnings.catch_warnings(record=True) as w, contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("always")
            count = R.rng.choice([1, 2, 30])
            s = make(R, count)
            R.case((count, osas(s), i))
            f = saved(R, s, d)
            content = Path(f).read_bytes()
            old = s.kernel
            s.kernel = s.kernel*2.0 + 1.0
            del w[:]
            s.save_json(d)
            R.check(Path(f).read_bytes() == content and len(os.listdir(d)) == 1, "an existing file is not changed")
            R.check(len(w) > 0, "a warning that the file exists")
            s.save_json(d, overwrite=False)
            R.check(Path(f).read_bytes() == content, "an existing file is not changed")
            s.save_json(d, overwrite=True)
            r = reader(R)
            r.read_json(f)
            R.check(np.array_equal(r.kernel, s.kernel) and not np.array_equal(r.kernel, old), "the file is overwritten on request")
            # files of other objects are not touched
            content = Path(f).read_bytes()
            o = make(R, count)
            o.save_json(d, overwrite=True)
            if osas(o) != osas(s):
                R.check(Path(f).read_bytes() == content, "a file of other polynomials is not changed")


def broken(R):
    """Missing files and files without some of the values."""
    for count in (1, 3):
        with tempfile.TemporaryDirectory() as d, warnings.catch_warnings(record=True) as w, contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("always")
            s = make(R, count)
            data = json.loads(Path(saved(R, s, d)).read_text())
            keys = list(data)
            lost = [[k] for k in keys] + [R.rng.sample(keys, R.rng.randrange(2, len(keys))) for _ in range(20)] + [keys]
            for ks in lost:
                f = os.path.join(d, "x.json")
                Path(f).write_text(json.dumps({k: v for k, v in data.items() if k not in ks}))
                for _ in range(3):
                    r = reader(R)
                    R.case((count, ks))
                    del w[:]
                    r.read_json(f)
                    R.check(len(w) > 0, f"a warning about a file without {ks}")
            for f in (os.path.join(d, "missing.json"), os.path.join(d, "none", "missing.json"), Path(d)/"missing.json", d):
                r = reader(R)
                before = dict(r.__dict__)
                R.case((count, str(type(f)), "missing"))
                del w[:]
                r.read_json(f)
                R.check(len(w) > 0, "a warning about a missing file")
                R.check(all(r.__dict__.get(k) is x for k, x in before.items() if "warn" not in k), "nothing is changed by a missing file")


PARTS = [("round trips", round_trips), ("numpy numbers", numpy_numbers), ("many polynomials", many), ("default folder", default_folder),
         ("overwriting", overwriting), ("missing files and values", broken)]
