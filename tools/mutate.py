#!/usr/bin/env python3
"""Systematic mutation survey: which small code changes do the checks not notice?

usage: mutate.py FILE [--max N] [--seed S] [--jobs J] [--out LOG]     FILE relative to src/bijx
Development aid only (no registered check uses it).  Every mutant is applied to a scratch copy of src and the checks
mapped to the file are run against it (BIJX_REPO); mutants that no mapped check reports are printed for inspection:
each is either equivalent / outside the stated properties or a gap to close.
"""
import ast, os, random, shutil, subprocess, sys, argparse, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    "bijections/analytic.py": "C01 C02 C03 C04", "bijections/base.py": "C10 C11 C36", "bijections/continuous.py": "C14 C17 C37",
    "bijections/conv_cnf.py": "C17", "bijections/coupling.py": "C07 C08 C09", "bijections/fourier.py": "C12 C13",
    "bijections/meta.py": "C11 C10", "bijections/radial.py": "C06 C37", "bijections/scalar.py": "C02 C01 C03 C04", "bijections/splines.py": "C05 C37",
    "cg.py": "C16 C14", "distributions.py": "C20 C21 C22", "flowjax.py": "C35", "fourier.py": "C13 C12",
    "lattice/gauge.py": "C29", "lattice/scalar.py": "C30 C31", "lattice/general.py": "C29 C31", "lie.py": "C26 C27 C28", "mcmc.py": "C25",
    "nn/conv.py": "C18", "nn/embeddings.py": "C19", "nn/features.py": "C17 C19", "nn/nets.py": "C19", "samplers.py": "C24 C23",
    "solvers.py": "C15 C14", "utils.py": "C33 C32 C34",
}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.FloorDiv: "/", ast.MatMult: "*", ast.Mod: "//"}
SYM = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**", ast.FloorDiv: "//", ast.MatMult: "@", ast.Mod: "%"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
NAMES = {"minimum": "maximum", "maximum": "minimum", "forward": "reverse", "reverse": "forward", "sum": "mean", "mean": "sum", "zeros_like": "ones_like", "ones_like": "zeros_like",
         "zeros": "ones", "ones": "zeros", "sin": "cos", "cos": "sin", "sinh": "cosh", "cosh": "sinh", "exp": "expm1", "log1p": "log", "expm1": "exp", "any": "all", "all": "any", "abs": "negative", "prod": "sum",
         "set": "add", "min": "max", "max": "min", "fwd": "rev", "rev": "fwd", "argmin": "argmax", "cumsum": "cumprod", "softplus": "relu", "floor": "ceil", "flip": "asarray"}
DROP = {"conj", "copy", "astype", "flatten", "ravel", "squeeze"}

def mutants(src):
    tree = ast.parse(src)
    offs = [0]
    for l in src.splitlines(True): offs.append(offs[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: b[slice(*pos(n))].decode()
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Assert, ast.Raise, ast.Import, ast.ImportFrom)):
            skip |= {id(c) for c in ast.walk(n)}
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): skip.add(id(n.value))
        if isinstance(n, (ast.FunctionDef,)):
            for a in list(n.args.args) + list(n.args.kwonlyargs):
                if a.annotation is not None: skip |= {id(c) for c in ast.walk(a.annotation)}
            if n.returns is not None: skip |= {id(c) for c in ast.walk(n.returns)}
        if isinstance(n, ast.AnnAssign): skip |= {id(c) for c in ast.walk(n.annotation)}
        if isinstance(n, ast.Assign) and any(getattr(t, "id", "") in ("__all__",) for t in n.targets): skip |= {id(c) for c in ast.walk(n)}
    out = []
    def put(n, new):
        if not isinstance(n, tuple): n = pos(n)
        out.append((n[0], n[1], new))
    for n in ast.walk(tree):
        if id(n) in skip: continue
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            put((pos(n.left)[1], pos(n.right)[0]), b[pos(n.left)[1]:pos(n.right)[0]].decode().replace(SYM[type(n.op)], BIN[type(n.op)], 1))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            put((pos(n.left)[1], pos(n.comparators[0])[0]), f" {CMP[type(n.ops[0])]} ")
        elif isinstance(n, ast.BoolOp):
            l, r = n.values[0], n.values[1]
            put((pos(l)[1], pos(r)[0]), " or " if isinstance(n.op, ast.And) else " and ")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
            put(n, seg(n.operand))
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool): put(n, str(not v))
            elif isinstance(v, int): put(n, str(v + 1)); put(n, f"({v - 1})") if v > 1 else None
            elif isinstance(v, float): put(n, repr(v * 1.5 + 0.1 * (v == 0)))
        elif isinstance(n, ast.Attribute) and n.attr in NAMES:
            e = pos(n)[1]; put((e - len(n.attr), e), NAMES[n.attr])
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in DROP: put(n, seg(n.func.value))
            for k in n.keywords:
                if k.arg and k.arg not in ("dtype", "rngs", "rng", "precision"):
                    put((pos(k)), "") if False else put(k.value, "None")
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                put((pos(n.args[0])[0], pos(n.args[1])[1]), seg(n.args[1]) + ", " + seg(n.args[0]))
        elif isinstance(n, ast.IfExp):
            put(n, f"({seg(n.body)})"); put(n, f"({seg(n.orelse)})")
        elif isinstance(n, (ast.AugAssign,)):
            put(n, "pass")
        elif isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple) and len(n.value.elts) == 2:
            pass
    res = []
    for s, e, new in out:
        t = b[:s] + new.encode() + b[e:]
        try:
            if ast.dump(ast.parse(t.decode())) == ast.dump(tree): continue
        except SyntaxError: continue
        res.append((b[:s].count(b"\n") + 1, b[s:e].decode(), new, t.decode()))
    return res

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("file"); ap.add_argument("--max", type=int, default=30); ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--jobs", type=int, default=3); ap.add_argument("--checks"); ap.add_argument("--out", default="/tmp/mutate.log")
    a = ap.parse_args()
    path = f"/repo/src/bijx/{a.file}"; src = open(path).read()
    ms = mutants(src); random.Random(a.seed).shuffle(ms); total = len(ms); ms = ms[: a.max]
    checks = (a.checks or CHECKS[a.file]).split()
    def one(i):
        line, old, new, text = ms[i]
        root = f"/tmp/mut/{os.getpid()}-{i}"; os.makedirs(root + "/repo"); shutil.copytree("/repo/src", root + "/repo/src", ignore=shutil.ignore_patterns("__pycache__"))
        open(f"{root}/repo/src/bijx/{a.file}", "w").write(text)
        status = "SURVIVED"
        env = dict(os.environ, BIJX_REPO=root + "/repo", VERIF_EVIDENCE=root, JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1")
        for c in checks:
            try:
                p = subprocess.run(["bash", V + "/check.sh", c], cwd=V, env=env, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                status = f"timeout {c}"; break
            if p.returncode != 0: status = f"{'caught' if p.returncode == 1 else 'error'} {c}"; break
        shutil.rmtree(root, ignore_errors=True)
        return f"{status:12s} {a.file}:{line} {old.strip()[:70]!r} -> {new.strip()[:70]!r} | {src.splitlines()[line-1].strip()[:110]}"
    with cf.ThreadPoolExecutor(a.jobs) as ex, open(a.out, "a") as f:
        n = {}
        for r in ex.map(one, range(len(ms))):
            n[r.split()[0]] = n.get(r.split()[0], 0) + 1; f.write(r + "\n"); f.flush()
            if not r.startswith("caught"): print(r, flush=True)
    print(a.file, f"{len(ms)} of {total} mutants", n)
main()
