"""P13: histories of calculations."""
import subprocess
import sys
import numpy as np
import brad
import oracle as O


def module():
    from zernpy.calculations import find_pols_coeffs as F
    return F


def bad_tables():
    """Stored coefficients which are not exact: dictionaries of the module with orders as keys."""
    out = []
    for mod in [m for k, m in list(sys.modules.items()) if k.startswith("zernpy.calculations")]:
        for name, d in list(vars(mod).items()):
            if not isinstance(d, dict) or not d or name.startswith("__"):
                continue
            items = [(k, x) for k, x in list(d.items()) if isinstance(k, tuple) and len(k) == 2 and isinstance(x, dict)]
            if len(items) != len(d):
                continue
            miss = {"R": [], "dR": []}
            for (m, n), x in items:
                co = O.radial_coeffs(n, m) if n >= abs(m) and (n - m) % 2 == 0 else {}
                dc = {p - 1: c*p for p, c in co.items() if p}
                for kind, w in (("R", co), ("dR", dc)):
                    if {p: c for p, c in x.items() if c} != {p: c for p, c in w.items() if c}:
                        miss[kind].append((name, (m, n)))
            out += min(miss.values(), key=len)
    return out


def sequence(R, length, nmax):
    """One history of calculations, checked as it goes."""
    from zernpy import ZernPol
    objs, kept = {}, []
    F = module()
    for step in range(length):
        if R.enough():
            return
        n = R.rng.choice([R.rng.randint(0, nmax), R.rng.randint(8, min(nmax, 24)), R.rng.randint(13, 40), 41, 42])
        n = min(n, 44)
        m = R.rng.choice(range(-n, n + 1, 2))
        if R.rng.random() < 0.4 and objs:
            m, n = R.rng.choice(list(objs))
        p = objs.setdefault((m, n), ZernPol(n=n, m=m))
        kind, f = R.rng.choice([("R", p.radial), ("dR", p.radial_dr)])
        r = R.rng.choice([np.array(R.rng.sample(brad.RADII, 3)), R.rng.choice(brad.RADII)])
        kw = R.rng.choice([{}, {}, {"use_exact_eq": True}])
        if kw and n > 38:
            kw = {}
        R.case((m, n, kind, step, repr(r)))
        if not brad.compare(R, kind, m, n, r, f(r, **kw), f"{kind} after {step} calculations"):
            return
        if R.rng.random() < 0.25:                   # coefficients that were returned stay what they are
            a, b = (m, n) if n <= 40 else (0, 14)
            for nm, lo in (("find_coeffs_orders", 0), ("find_coeffs_orders_dr", 9)):
                g = getattr(F, nm, None)
                if g is None or b < lo:
                    continue
                d = g((a, b))
                co = O.radial_coeffs(b, a)
                w = co if lo == 0 else {q - 1: c*q for q, c in co.items() if q}
                R.check({q: c for q, c in d.items() if c} == w, f"{nm} of {(a, b)} after {step} calculations", d, w)
                kept.append((nm, (a, b), d, dict(d)))
    for nm, o, d, copy in kept:
        R.check(d == copy, f"{nm}: coefficients of {o} returned before have changed", d, copy)
    b = bad_tables()
    R.check(not b, "stored coefficients are those of the exact polynomial", b[:5], [])


def histories(R):
    for _ in range(40 if R.thorough else 8):
        sequence(R, 120, 54)
        if R.enough() or R.violations:
            return


def monotone(R):
    """Histories in ascending and descending order of the polynomials."""
    from zernpy import ZernPol
    for seq in (O.orders(43)[::-1][::4], O.orders(43)[::3]):
        for m, n in seq:
            p = ZernPol(n=n, m=m)
            for kind, f in (("R", p.radial), ("dR", p.radial_dr), ("R", p.radial)):
                R.case((m, n, kind))
                brad.compare(R, kind, m, n, 0.6875, f(0.6875), f"{kind} in an ordered history")
    b = bad_tables()
    R.check(not b, "stored coefficients are those of the exact polynomial", b[:5], [])


FRESH = """
import sys, json, random
sys.path.insert(0, sys.argv[1]); sys.path.insert(0, sys.argv[2])
import brad, warnings
warnings.simplefilter("ignore")
from zernpy import ZernPol
out = []
for m, n, kind in json.loads(sys.argv[3]):
    p = ZernPol(n=n, m=m)
    out.append([m, n, kind, float((p.radial if kind == "R" else p.radial_dr)(0.6875))])
print(json.dumps(out))
"""


def fresh(R):
    """New processes, in which the first calculations are arbitrary ones."""
    import core
    import json
    import os
    for _ in range(20 if R.thorough else 5):
        if R.left() < 3:
            return
        seq = []
        for _ in range(6):
            n = R.rng.randint(9, 44)
            seq.append((R.rng.choice(range(-n, n + 1, 2)), n, R.rng.choice(["R", "dR"])))
        seq += seq[:3] + [(m, n, "dR" if k == "R" else "R") for m, n, k in seq[:3]]
        R.case(repr(seq))
        p = subprocess.run([sys.executable, "-c", FRESH, os.path.join(core.REPO, "src"), os.path.dirname(os.path.abspath(__file__)), json.dumps(seq)],
                           capture_output=True, text=True, timeout=120)
        if p.returncode:
            R.check(False, f"calculations in a new process: {p.stderr[-600:]}")
            return
        for m, n, kind, x in json.loads(p.stdout.strip().splitlines()[-1]):
            brad.compare(R, kind, m, n, 0.6875, x, f"{kind} in a new process with the history {seq}")


PARTS = [("new processes", fresh), ("ordered", monotone), ("histories", histories)]
