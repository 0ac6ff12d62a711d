"""The interpreter of the verifier against CPython: the programs of snippets.py are executed symbolically, their results are evaluated
for given inputs, and compared with the results of the same programs under the interpreter of the repository (a test of the trusted part).

crosscheck.py [NAME] [-v]"""
import ast
import inspect
import json
import os
import random
import subprocess
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
FILE = os.path.join(HERE, "snippets.py")
PY = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")


def inputs(name, args, count):
    rng = random.Random(name)
    out = []
    for i in range(count):
        n, m, k = rng.randint(1, 6), rng.randint(1, 5), rng.randint(1, 9)
        f = lambda: rng.randint(-256, 256)/64
        d = {"n": n, "m": m, "k": k, "x": f(), "y": f(), "a": [f() for _ in range(n)], "b": [f() for _ in range(n)], "l": [f() for _ in range(n)],
             "c": [[f() for _ in range(m)] for _ in range(n)], "t": [rng.randint(-5, 5) for _ in range(n)]}
        out.append(d)
    return out


def plain(x):
    import numpy as np
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (complex, np.complexfloating)):
        return ["complex", float(x.real), float(x.imag)]
    if isinstance(x, np.ndarray):
        return [plain(y) for y in x] if x.ndim else plain(x[()])
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, dict):
        return [[k, plain(v)] for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))]
    return x if isinstance(x, (int, float, str, type(None))) else repr(x)


def cpython():
    """Results under CPython (a child with the interpreter of the repository)."""
    import warnings
    warnings.simplefilter("ignore")
    real = os.dup(1)
    os.dup2(2, 1)
    sys.path.insert(0, os.path.join(REPO, "src"))
    sys.path.insert(0, HERE)
    import numpy as np
    import snippets
    todo = json.loads(sys.stdin.read())
    res = {}
    for name, cases in todo.items():
        f = getattr(snippets, name)
        args = list(inspect.signature(f).parameters)
        res[name] = []
        for d in cases:
            vals = [np.asarray(d[k]) if k in "abc" else d[k] for k in args]
            try:
                res[name].append(["value", plain(f(*vals))])
            except Exception as e:
                res[name].append(["raises", type(e).__name__])
    with os.fdopen(real, "w") as f:
        f.write(json.dumps(res))


def close(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-9*(1 + abs(a))
    return a == b


def symbolic(name, args, cases):
    """(results for the cases, or None where the interpreter does not give one, reason)."""
    from vc import sym as S, terms as T, seq as Q, prove as PR, interp as I
    from vc.explore import Explorer
    import math
    out, why = [None]*len(cases), None

    class Env(PR.Env):
        """Functions about which the interpreter only knows facts have no value here."""
        def atom(self, a):
            if a.op == "app" and a.args[0] not in self.funcs and a.args[0] not in PR.NUM_FUNCS:
                raise PR.EvalError("unknown function " + a.args[0])
            return PR.Env.atom(self, a)

    def evaluated(x, env):
        if isinstance(x, S.Sym):
            v = env.term(x.p)
            if isinstance(v, complex):
                return ["complex", v.real, v.imag] if x.kind == "complex" else v.real
            return ["complex", float(v), 0.0] if x.kind == "complex" else float(v) if not isinstance(v, int) else v
        if isinstance(x, S.SymBool):
            return env.cond(S.cond_of(x))
        if isinstance(x, S.SArr):
            dims = [int(env.term(d)) for d in x.dims]

            def part(ix):
                if len(ix) == len(dims):
                    v = S.mk(x.at(*[T.pc(i) for i in ix]), x.kind)
                    v = evaluated(v, env)
                    return bool(v) if x.kind == "bool" else v
                return [part(ix + [i]) for i in range(dims[len(ix)])]
            return part([])
        if isinstance(x, Q.VList):
            n = int(env.term(S.term(x.length()))) if Q.is_symlist(x) else len(x)
            return [evaluated(x.elem(T.pc(i)) if Q.is_symlist(x) else x[i], env) for i in range(n)]
        if isinstance(x, (list, tuple)):
            return [evaluated(y, env) for y in x]
        if isinstance(x, dict):
            return [[k, v] for k, v in sorted([(evaluated(k, env), evaluated(v, env)) for k, v in x.items()], key=lambda kv: str(kv[0]))]
        if isinstance(x, float) or isinstance(x, (int, str, bool, type(None))):
            return x
        return repr(x)

    def spec(v):
        nonlocal why
        n, m = v.int("n"), v.int("m")
        given = {"n": n, "m": m, "k": v.int("k"), "x": v.real("x"), "y": v.real("y")}
        for q in (n, m, given["k"]):
            v.require(q >= 1)
        for q in args:
            if q in "ab":
                given[q] = v.array(q, (n,))
            elif q == "c":
                given[q] = v.array(q, (n, m))
            elif q in "lt":
                given[q] = v.seq(q, n, sort="int" if q == "t" else "real")
        mod = I.Module("snippets")
        fr = I.Frame(None, mod, mod.ns)
        for st in ast.parse(open(FILE).read()).body:
            if isinstance(st, (ast.Import, ast.ImportFrom)) or getattr(st, "name", None) == name:
                v.interp.stmt(st, fr)
        res, exc = None, None
        try:
            res = v.interp.call(mod.ns[name], [given[q] for q in args], {})
        except S.Raised as e:
            exc = e.cls.__name__
        for i, d in enumerate(cases):
            env = Env({q: (T.Fr(d[q]) if q in "xy" else d[q]) for q in "nmkxy"},
                         {"factorial": lambda j: math.factorial(int(j)), "a": lambda j: T.Fr(d["a"][int(j)]), "b": lambda j: T.Fr(d["b"][int(j)]), "l": lambda j: T.Fr(d["l"][int(j)]), "t": lambda j: d["t"][int(j)],
                          "c": lambda j, k: T.Fr(d["c"][int(j)][int(k)])})
            try:
                if not all(env.cond(c) for c in v.c.all()):
                    continue
                got = ["raises", exc] if exc else ["value", evaluated(res, env)]
            except (PR.EvalError, IndexError) as e:
                why = "evaluation: " + str(e)
                continue
            if out[i] is not None and not close(out[i], got):
                out[i] = ["two paths", out[i], got]
            else:
                out[i] = got
    r = Explorer(name, 8.0, 400).explore(spec)
    return out, r.unsupported or why


def main():
    sys.path.insert(0, os.path.dirname(HERE))
    from vc import contract as C
    import multiprocessing as mp
    verbose = "-v" in sys.argv
    only = [a for a in sys.argv[1:] if not a.startswith("-")]
    funcs = {n.name: [a.arg for a in n.args.args] for n in ast.parse(open(FILE).read()).body if isinstance(n, ast.FunctionDef) and (not only or n.name in only)}
    todo = {name: inputs(name, args, 12) for name, args in funcs.items()}
    p = subprocess.run([PY if os.path.exists(PY) else sys.executable, "-B", os.path.abspath(__file__), "--cpython"], input=json.dumps(todo), capture_output=True, text=True)
    if p.returncode:
        print("the programs do not run:", p.stderr[-500:])
        return 0 if os.environ.get("VERIF_REPO") else 1
    want = json.loads(p.stdout)
    C.preload()
    with mp.get_context("fork").Pool(8) as pool:
        got = dict(zip(funcs, pool.starmap(symbolic, [(n, a, todo[n]) for n, a in funcs.items()], chunksize=1)))
    bad = total = without = 0
    for name in funcs:
        res, why = got[name]
        for d, w, g in zip(todo[name], want[name], res):
            if g is None:
                without += 1
            else:
                total += 1
                if not close(w, json.loads(json.dumps(g, default=float))):
                    bad += 1
                    if verbose or bad < 6:
                        print("DIFFERENT", name, {k: d[k] for k in funcs[name]}, "\n  CPython ", str(w)[:700], "\n  verifier", str(g)[:700])
        if verbose and any(g is None for g in res):
            print("without result:", name, sum(g is None for g in res), why)
    print(f"interpreter of the verifier against CPython: {len(funcs)} programs, {total} results compared, {bad} different, {without} without a result")
    return 1 if bad else 0


if __name__ == "__main__":
    if "--cpython" in sys.argv:
        cpython()
    else:
        sys.exit(main())
