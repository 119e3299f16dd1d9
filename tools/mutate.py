"""Development tool: mutation testing of the checks (not a check, and not used by any).

python3 tools/mutate.py OUT.jsonl [--files REGEX] [--limit N] [--workers N]

Copies /repo and /verif to /tmp/mut, applies one mutant at a time to a worker's copy of the package, discards mutants which
the stable tests detect, and runs the checks of the module until one reports a violation.  Survivors are listed in OUT.jsonl.
"""

import argparse
import ast
import json
import multiprocessing
import os
import random
import re
import shutil
import subprocess
import sys
import time

PY = "/opt/venv/bin/python"
BASE = "/tmp/mut"
MAP = {
    "fir_filter": "C01 C05 C07 C04 C33 C32 C31 C03 C30 C08",
    "iir_filter": "C02 C06 C07 C04 C33 C32 C31 C03 C30 C09",
    "derivative_filter": "C08 C33 C32 C31 C03",
    "integral_filter": "C09 C33 C32 C31 C03",
    "pid_filter": "C10 C33 C32 C31 C03 C30",
    "complex_exponential_filter": "C11 C33 C32 C31 C03 C30",
    "complex_bandpass_filter": "C12 C33 C32 C31 C03 C30",
    "complex_frequency_filter": "C13 C33 C32 C31 C03 C30 C04",
    "goertzel_filter": "C14 C33 C32 C31 C03 C30",
    "polynomial_rate_filter": "C15 C33 C32 C31 C30",
    "polyphase_rate_filter": "C16 C03 C04 C33 C32 C31 C30",
    "rank_filter": "C17 C33 C32 C31 C03 C30 C04",
    "window_filter": "C18 C33 C32 C31",
    "diversity_model": "C19 C33 C32 C31 C03 C30",
    "gaussian_model": "C20 C33 C32 C31 C30",
    "gaussian_mixture_model": "C21 C33 C32 C31 C30",
    "fourier_transform": "C22 C33 C32 C31",
    "psd_transform": "C23 C33 C32 C31",
    "wavelet_transform": "C24 C33 C32 C31",
    "complex_transform": "C25 C33 C32 C31",
    "z_transform": "C26 C06 C33 C32 C31",
    "rest_client": "C27 C30 C31",
    "log": "C28",
    "serial": "C29 C30",
}
CMP = {
    ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
    ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is],
}  # fmt: skip
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Mult], ast.Mod: [ast.FloorDiv], ast.Pow: [ast.Mult], ast.MatMult: [], ast.BitAnd: [ast.BitOr]}
UNWRAP = {"array", "abs", "int", "max", "min", "sorted", "copy", "ceil", "round", "float", "conjugate", "deepcopy", "len", "fliplr", "flip", "fftshift", "ifftshift"}


def clone(n):
    return ast.parse(ast.unparse(n), mode="eval").body if isinstance(n, ast.expr) else ast.parse(ast.unparse(n)).body[0]


def mutants(src):
    """(line, description, start offset, end offset, replacement) for each mutant."""
    tree = ast.parse(src)
    lines = src.split("\n")
    starts = [0]
    for s in lines:
        starts.append(starts[-1] + len(s.encode()) + 1)
    off = lambda r, c: starts[r - 1] + c  # noqa: E731
    out = []
    skip = set()
    consts = 0
    for node in ast.walk(tree):
        if isinstance(node, (ast.Raise, ast.JoinedStr)) or (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
            for k in ast.walk(node):
                if k is not node or not isinstance(node, ast.Raise):
                    skip.add(id(k))
        if isinstance(node, (ast.FunctionDef, ast.AnnAssign, ast.arg)):
            for k in ("returns", "annotation"):
                a = getattr(node, k, None)
                if a is not None:
                    skip |= {id(v) for v in ast.walk(a)}

    def add(node, new, what):
        text = new if isinstance(new, str) else "(" + ast.unparse(new) + ")" if isinstance(node, ast.expr) else ast.unparse(new)
        out.append((node.lineno, f"{what}: {ast.unparse(node)[:90]} -> {text[:90]}", off(node.lineno, node.col_offset), off(node.end_lineno, node.end_col_offset), text))

    numbers = [n for n in ast.walk(tree) if isinstance(n, ast.Constant) and type(n.value) is float]
    dense = len(numbers) > 150
    keep = set(map(id, random.Random(1).sample(numbers, 25))) if dense else None
    for node in ast.walk(tree):
        if id(node) in skip or not hasattr(node, "lineno"):
            continue
        if isinstance(node, ast.Compare):
            for i, op in enumerate(node.ops):
                for alt in CMP.get(type(op), []):
                    n = clone(node)
                    n.ops[i] = alt()
                    add(node, n, "compare")
        elif isinstance(node, ast.BinOp):
            for alt in BIN.get(type(node.op), []):
                n = clone(node)
                n.op = alt()
                add(node, n, "binary")
            if isinstance(node.op, (ast.Mult, ast.Add, ast.Div, ast.Sub)) and not (dense and isinstance(node.left, ast.Constant)):
                add(node, clone(node.left), "left")
        elif isinstance(node, ast.Constant):
            v = node.value
            if type(v) is bool:
                add(node, repr(not v), "bool")
            elif type(v) is int:
                for w in (v + 1, v - 1):
                    add(node, f"({w})", "int")
            elif type(v) is float and (keep is None or id(node) in keep):
                for w in [v * 1.01, 0.0 if v else 1.0] + ([v + 1e-4] if dense else [v * 2.0]):
                    if w != v:
                        add(node, f"({w!r})", "float")
        elif isinstance(node, ast.UnaryOp) and not (isinstance(node.operand, ast.Constant) and dense):
            add(node, clone(node.operand), "unary")
        elif isinstance(node, ast.BoolOp):
            n = clone(node)
            n.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
            add(node, n, "bool op")
            for i in range(len(node.values)):
                n = clone(node)
                del n.values[i]
                add(node, n if len(n.values) > 1 else n.values[0], "drop operand")
        elif isinstance(node, ast.Call):
            name = node.func.attr if isinstance(node.func, ast.Attribute) else getattr(node.func, "id", "")
            if name in UNWRAP and node.args:
                add(node, clone(node.args[0]), "unwrap")
            if len(node.keywords) and not dense:
                for i in range(len(node.keywords)):
                    n = clone(node)
                    del n.keywords[i]
                    add(node, n, "drop keyword")
        elif isinstance(node, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Delete)):
            if node.col_offset >= 8:
                add(node, "pass", "delete")
            if isinstance(node, ast.AugAssign):
                n = clone(node)
                n.op = BIN.get(type(node.op), [ast.Add])[0]()
                add(node, n, "augmented")
        elif isinstance(node, (ast.If, ast.While, ast.IfExp)):
            t = node.test
            add(t, "(True)", "condition")
            if not isinstance(node, ast.While) or True:
                add(t, "(False)", "condition")
        elif isinstance(node, (ast.Break, ast.Continue)):
            add(node, "pass", "delete")
    seen, res = set(), []
    for m in out:
        if (m[2], m[3], m[4]) not in seen:
            seen.add((m[2], m[3], m[4]))
            res.append(m)
    return res


def work(job):
    path, m, src = job
    w = os.path.join(BASE, f"w{os.getpid()}")
    if not os.path.isdir(w):
        os.makedirs(w)
        shutil.copytree("/repo/diamondback", os.path.join(w, "diamondback"), ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copytree("/repo/tests", os.path.join(w, "tests"), ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copy("/repo/pyproject.toml", w)
        shutil.copytree(os.path.join(BASE, "verif"), os.path.join(w, "verif"))
    rel = os.path.relpath(path, "/repo")
    target = os.path.join(w, rel)
    raw = src.encode()
    text = raw[: m[2]] + m[4].encode() + raw[m[3] :]
    res = dict(file=rel, line=m[0], what=m[1], killed=None, t=0.0)
    t0 = time.time()
    try:
        compile(text, "x", "exec")
    except SyntaxError:
        res["killed"] = "syntax"
        return res
    with open(target, "wb") as fout:
        fout.write(text)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONPATH=f"{w}:/opt/vp-support", VERIF_REPO=w, VERIF_SEED="1")
    try:
        short = os.path.basename(rel)[:-3]
        kind = rel.split("/")[1]
        one = os.path.join("tests", "unit", kind, f"test_{short}.py")
        # The unit test of the module first (of a base class: all tests).
        tests = [one] if short not in ("fir_filter", "iir_filter", "log", "rest_client", "z_transform") else [t for t in ["tests"]]
        cmd = [PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "vp_seed", "--timeout=120", "--ignore=tests/unit/commons/test_rest_client.py", *tests]
        if short != "rest_client":
            try:
                p = subprocess.run(cmd, cwd=w, env=env, capture_output=True, text=True, timeout=200)
                if p.returncode:
                    res["killed"] = "tests"
            except subprocess.TimeoutExpired:
                res["killed"] = "tests"
        if not res["killed"]:
            env2 = dict(env)
            env2.pop("PYTHONPATH")
            for prop in MAP[short].split():
                try:
                    p = subprocess.run([PY, "-B", "-m", "pbt.run", prop, "--jobs", "1"], cwd=os.path.join(w, "verif"), env=env2, capture_output=True, text=True, timeout=900)
                except subprocess.TimeoutExpired:
                    res.setdefault("odd", []).append(f"{prop} timeout")
                    continue
                if p.returncode == 1 and f"VIOLATION property={prop}" in p.stdout:
                    res["killed"] = prop
                    break
                if p.returncode:
                    res.setdefault("odd", []).append(f"{prop} exit {p.returncode} {p.stdout[-300:]} {p.stderr[-300:]}")
    finally:
        with open(target, "wb") as fout:
            fout.write(raw)
    res["t"] = round(time.time() - t0, 1)
    return res


def main():
    a = argparse.ArgumentParser()
    a.add_argument("out")
    a.add_argument("--files", default=".")
    a.add_argument("--limit", type=int, default=10**9)
    a.add_argument("--workers", type=int, default=8)
    a.add_argument("--seed", type=int, default=1)
    a = a.parse_args()
    os.makedirs(BASE, exist_ok=True)
    v = os.path.join(BASE, "verif")
    if os.path.isdir(v):
        shutil.rmtree(v)
    shutil.copytree("/verif", v, ignore=shutil.ignore_patterns(".git", "__pycache__", "evidence", "replays", "seeded", ".hypothesis"))
    jobs = []
    for base, _, files in sorted(os.walk("/repo/diamondback")):
        for f in sorted(files):
            if f.endswith(".py") and f != "__init__.py" and re.search(a.files, f):
                path = os.path.join(base, f)
                src = open(path, encoding="utf-8").read()
                jobs += [(path, m, src) for m in mutants(src)]
    random.Random(a.seed).shuffle(jobs)
    jobs = jobs[: a.limit]
    print(len(jobs), "mutants", flush=True)
    n, count = 0, {}
    with multiprocessing.Pool(a.workers) as pool, open(a.out, "a") as fout:
        for r in pool.imap_unordered(work, jobs):
            n += 1
            count[r["killed"]] = count.get(r["killed"], 0) + 1
            fout.write(json.dumps(r) + "\n")
            fout.flush()
            if r["killed"] is None:
                print(f"SURVIVED {r['file']}:{r['line']} {r['what']} {r.get('odd', '')}", flush=True)
            if n % 100 == 0:
                print(n, count, flush=True)
    print(n, count)


if __name__ == "__main__":
    sys.exit(main())
