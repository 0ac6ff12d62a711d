"""Bounded run-time evaluation of the contracts on the real code (labelled bounded, never counted as proved).

Runs under the interpreter of the repository with the package imported from the working tree."""
import hashlib
import json
import os
import random
import sys
import threading
import time
import traceback
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
os.environ.setdefault("MPLBACKEND", "Agg")
warnings.simplefilter("ignore")


class Enough(Exception):
    pass


class R:
    """Recorder of the evaluations of one battery."""

    def __init__(self, pid, seed, tier, seconds, hints):
        self.pid, self.tier, self.hints = pid, tier, hints or {}
        self.rng = random.Random(seed)
        self.seed = seed
        self.evaluations, self.keys, self.samples, self.violations = 0, set(), [], []
        self.errors, self.parts, self.exhaustive = [], {}, []
        self.deadline = time.time() + seconds
        self.thorough = tier == "thorough"
        self.part_name = ""

    def left(self):
        return self.deadline - time.time()

    def enough(self):
        return time.time() > self.deadline

    def part(self, name, f, *a):
        """One group of evaluations; an exception of the code that the property excludes is a violation of it."""
        self.part_name = name
        n0 = self.evaluations
        try:
            f(self, *a)
        except Enough:
            pass
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            if any(os.path.join("src", "zernpy") in fr.filename for fr in tb):
                self.violation(f"{name}: unexpected {type(e).__name__}: {e}", {"traceback": traceback.format_exc()[-1800:], "case": getattr(self, "current", None)})
            else:
                self.errors.append(f"{name}: {traceback.format_exc()[-1500:]}")
        self.parts[name] = self.evaluations - n0

    def case(self, key):
        """Start of the evaluation of one case."""
        self.current = key
        self.evaluations += 1
        k = hashlib.blake2b(repr((self.part_name, key)).encode(), digest_size=8).digest()
        if k not in self.keys:
            self.keys.add(k)
            if len(self.samples) < 6 and self.rng.random() < 0.05 or not self.samples:
                self.samples.append(f"{self.part_name}: {key}"[:200])

    def violation(self, what, details):
        self.violations.append({"what": f"{what}"[:600], "input": repr(getattr(self, "current", None))[:2000], "details": details})
        if len(self.violations) >= 5:
            raise Enough()

    def check(self, ok, what, got=None, want=None):
        if not ok:
            self.violation(f"{self.part_name}: {what}", {"got": repr(got)[:500], "expected": repr(want)[:500]})
        return ok

    def raises(self, exc, what, f, *a, **k):
        """The call must raise the exception."""
        self.case((what, repr(a)[:200], repr(k)[:200]))
        try:
            r = f(*a, **k)
        except exc:
            return True
        except Exception as e:
            return self.check(False, f"{what}: {exc.__name__} expected", f"{type(e).__name__}: {e}", exc.__name__)
        return self.check(False, f"{what}: {exc.__name__} expected", r, exc.__name__)

    def result(self):
        return {"evaluations": self.evaluations, "distinct": len(self.keys), "samples": self.samples, "violations": self.violations,
                "errors": self.errors, "parts": self.parts, "exhaustive": self.exhaustive}


def main(pid, seed, tier, seconds, hints):
    import importlib
    r = R(pid, seed, tier, seconds, hints)
    try:
        m = importlib.import_module("b" + pid[1:])
        for name, f in m.PARTS:
            if len(r.violations) >= 3:
                break
            r.part(name, f)
    except Exception:
        tb = traceback.format_exc()
        if os.path.join("src", "zernpy") in tb:      # the package cannot even be imported or used
            r.violations.append({"what": "the package cannot be used: " + tb[-600:], "input": "import zernpy", "details": {}})
        else:
            r.errors.append(tb[-2000:])
    return r.result()


def orphaned():
    """Ends this process when the check that has started it is gone."""
    parent = os.getppid()
    while os.getppid() == parent:
        time.sleep(2)
    os._exit(3)


if __name__ == "__main__":
    threading.Thread(target=orphaned, daemon=True).start()
    a = json.loads(sys.argv[1])
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    real = os.dup(1)
    os.dup2(2, 1)                      # prints of the code do not mix with the result
    res = main(a["property"], a["seed"], a["tier"], a["seconds"], a.get("hints"))
    with os.fdopen(real, "w") as f:
        f.write(json.dumps(res, default=repr) + "\n")
