#!/usr/bin/env python3
"""Decides one property: check.py P01 [--tier quick|thorough] [--repo PATH].

1. Every contract of the property is verified: obligations are generated from the current source of the package and discharged.
2. The contracts are evaluated at run time on the real code (bounded), which also gives failing inputs for failed obligations.
Exit 0: held.  Exit 1 with a VIOLATION line: violated."""
import argparse
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python3"


def reexec():
    """Run under the interpreter that has the solver."""
    try:
        import z3                       # noqa: F401
    except ImportError:
        if os.environ.get("VC_REEXEC") or not os.path.exists(VT):
            raise
        os.environ["VC_REEXEC"] = "1"
        os.execv(VT, [VT] + sys.argv)


reexec()
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PY = "/opt/venv/bin/python"


def start_battery(pid, seed, tier, seconds, hints=None):
    spec = {"property": pid, "seed": seed, "tier": tier, "seconds": seconds, "hints": hints or {}}
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NUMBA_NUM_THREADS="2")
    d = tempfile.mkdtemp(prefix="battery_")
    env["TMPDIR"] = d
    env["NUMBA_CACHE_DIR"] = d
    p = subprocess.Popen([PY if os.path.exists(PY) else sys.executable, os.path.join(HERE, "battery", "core.py"), json.dumps(spec)], cwd=d, env=env,
                         stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, start_new_session=True)
    return p, d


def end_battery(pd, timeout):
    import shutil
    p, d = pd
    try:
        out, _ = p.communicate(timeout=timeout)
        lines = out.decode(errors="replace").strip().splitlines()
        return json.loads(lines[-1])
    except subprocess.TimeoutExpired:
        return {"evaluations": 0, "distinct": 0, "samples": [], "violations": [], "errors": ["time limit"], "parts": {}, "exhaustive": []}
    except (ValueError, IndexError):
        return {"evaluations": 0, "distinct": 0, "samples": [], "violations": [], "errors": [f"no result (exit status {p.returncode})"], "parts": {}, "exhaustive": []}
    finally:
        try:
            os.killpg(p.pid, 9)
        except (ProcessLookupError, PermissionError):
            pass
        p.wait()
        shutil.rmtree(d, ignore_errors=True)


def known(pid):
    """Known findings of the property (texts); 'fixed:' entries suppress nothing."""
    out = []
    try:
        with open(os.path.join(HERE, "known_findings.txt"), encoding="utf-8") as f:
            for line in f:
                if line.startswith(f"finding: property={pid} "):
                    out.append(line.split(" ", 2)[2].strip())
    except OSError:
        pass
    return out


def write_replay(pid, i, text):
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", f"{pid}_{i}.txt")
    with open(path, "w", encoding="utf-8") as f:
        f.write(text + "\n")
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--no-battery", action="store_true")
    ap.add_argument("--no-proof", action="store_true")
    ap.add_argument("--repo")
    a = ap.parse_args()
    pid, tier = a.property, "thorough" if a.tier == "thorough" else "quick"
    if a.repo:
        os.environ["VERIF_REPO"] = a.repo
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    thorough = tier == "thorough"
    os.chdir(HERE)
    spec = importlib.import_module("contracts.p" + pid[1:])
    from vc import contract as C
    bat_s = getattr(spec, "BATTERY_S", 40)*(8 if thorough else 1)
    bat = None if a.no_battery else start_battery(pid, seed, tier, bat_s)
    results = []
    if not a.no_proof:
        todo = [c for c in spec.CONTRACTS if thorough or not getattr(c, "thorough_only", False)]
        results = C.run_all(todo, jobs=7, scale=6.0 if thorough else 1.0, deadline=t0 + (3000 if thorough else 600))
    b = end_battery(bat, bat_s*1.5 + 90) if bat else None
    failed = [(r, f) for r in results for f in r["failures"]]
    replayed = False
    if failed and bat and not b["violations"]:
        # a failed obligation: search for an input on the real code, guided by the verifier's counterexamples
        hints = {"values": [f["values"] for _, f in failed if f["values"]][:20], "contracts": sorted({r["contract"] for r, _ in failed})}
        used = time.time() - t0
        sec = max(20, min(150, 500 - used)) if not thorough else 400
        b2 = end_battery(start_battery(pid, seed + 1000, "thorough", sec, hints), sec + 60)
        replayed = True
        for k in ("evaluations", "distinct"):
            b[k] += b2[k]
        b["violations"] += b2["violations"]
    lines, status = [], 0
    if b and b["violations"]:
        status = 1
        for i, x in enumerate(b["violations"][:5]):
            text = f"property {pid}: violated on the real code\nwhat: {x['what']}\ninput: {x['input']}\ndetails: {json.dumps(x['details'], default=repr)[:4000]}\n" \
                   f"rerun: {PY} {HERE}/battery/core.py '{json.dumps({'property': pid, 'seed': seed, 'tier': tier, 'seconds': bat_s})}'\n"
            text += "".join(f"\nfailed {f['text']}\n" for r, f in failed[:3])
            path = write_replay(pid, i, text)
            lines.append(f"VIOLATION property={pid} replay={path}")
            print(f"  {x['what'][:300]}  input: {x['input'][:200]}")
    elif failed:
        status = 1
        for i, (r, f) in enumerate(failed[:5]):
            path = write_replay(pid, i, f"property {pid}: failed obligation, no failing input found on the real code\n{f['text']}\n")
            lines.append(f"VIOLATION property={pid} replay={path} no-failing-input-found")
            print(f"  {r['contract']}: {f['name']}: {'refuted' if f['refuted'] else 'not discharged'}")
    for r in results:
        if r["unsupported"]:
            print(f"  not verified (bounded evaluation only): {r['contract']}: {r['unsupported']}")
    if b:
        for e in b["errors"]:
            print("  battery: " + e[-800:])
    evidence(pid, tier, seed, spec, results, b, t0, len(lines), failed)
    for x in known(pid):
        print(f"KNOWN-FINDING: property={pid} {x}")
    for x in lines:
        print(x)
    ob, di = sum(sum(r["obligations"].values()) for r in results), sum(sum(r["discharged"].values()) for r in results)
    print(f"{pid}: {len(results)} contracts, {di}/{ob} obligations discharged, {b['evaluations'] if b else 0} bounded evaluations, {time.time() - t0:.1f} s")
    return status


GLOBAL = ["floating-point numbers are treated as real numbers (rounding is outside of the contracts; the bounded evaluation uses real floats)",
          "machine integers of NumPy are treated as mathematical integers",
          "the semantics of the Python subset and of the library functions (vc/interp.py, vc/sym.py, vc/lib.py, vc/loops.py) are trusted; they are compared with CPython by tools/crosscheck.py",
          "decorators (numba.njit, functools.lru_cache) are taken as the identity; termination of while loops is not verified",
          "z3 4.x and the term normaliser (vc/terms.py, vc/prove.py) are trusted"]


def evidence(pid, tier, seed, spec, results, b, t0, nviol, failed):
    proved = [r for r in results if not r["failures"] and not r["unsupported"]]
    st = {}
    for r in results:
        for k, v in r["stats"].items():
            st[k] = round(st.get(k, 0) + v, 3)
    cov = {"obligations": sum(sum(r["obligations"].values()) for r in results), "discharged": sum(sum(r["discharged"].values()) for r in results),
           "checker_cmd": f"{VT} {HERE}/check.py {pid} --tier {tier}",
           "trusted_base": GLOBAL[2:] + list(getattr(spec, "TRUSTED", ())),
           "contracts": len(results), "contracts_proved": len(proved),
           "contracts_not_verified": {r["contract"]: r["unsupported"] for r in results if r["unsupported"]},
           "per_contract": [{"contract": r["contract"], "obligations": sum(r["obligations"].values()), "discharged": sum(r["discharged"].values()), "paths": r["paths"],
                             "seconds": r["seconds"], "covered": r["covered"]} for r in results],
           "functions_under_contract": sorted({f for r in proved for f in r["functions"]}),
           "backends": {"term normal form": st.get("ring", 0), "z3 (decided guards and entailments)": st.get("z3", 0), "case splits": st.get("case_split", 0),
                        "z3 queries": st.get("z3_queries", 0), "z3 seconds": st.get("z3_s", 0)},
           "denominators": sum(r["denominators"] for r in results), "denominators_proved_nonzero": sum(r["denominators_proved"] for r in results),
           "failed_obligations": [f"{r['contract']}: {f['name']}" for r, f in failed]}
    if b:
        cov["bounded_evaluation"] = {k: b[k] for k in ("evaluations", "distinct", "samples", "parts", "exhaustive", "errors")}
    level = getattr(spec, "LEVEL", "proof")
    if level == "other":
        cov["explanation"] = spec.EXPLANATION
    d = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
         "assumptions": GLOBAL + list(getattr(spec, "ASSUMPTIONS", ())) + sorted({x for r in results for x in r["assumed"]}),
         "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w", encoding="utf-8") as f:
        json.dump(d, f, indent=1)


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    sys.exit(code)
