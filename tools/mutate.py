#!/usr/bin/env python3
"""Mutation testing of the checks: small syntactic changes of /repo's sources, each of which is given to the checks, that are associated
with its file. It is only used to find gaps of the checks, no check depends on it.

    mutate.py OUT.jsonl [--per-file N] [--jobs N] [--seed N] [FILE…]

Works on copies of /repo and /verif in a scratch directory, that it removes.
"""
import argparse
import ast
import json
import multiprocessing
import os
import queue
import random
import re
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    "_blocks/_concatenate.py": "C02 C25 C07", "_blocks/_merge.py": "C01 C25", "_blocks/_jack.py": "C03 C04",
    "_data/_filters/_bands.py": "C14 C17 C18", "_data/_filters/_bessel.py": "C23", "_data/_filters/_butterworth.py": "C23",
    "_data/_filters/_chebyshev.py": "C23", "_data/_filters/_delay.py": "C23", "_data/_filters/_derivative.py": "C23",
    "_data/_filters/_weighting.py": "C23", "_data/_filters/_base/_filter.py": "C13 C12 C08 C18 C17", "_data/_filters/_base/_functions.py": "C12 C13 C23",
    "_data/_filters/_base/_iir.py": "C23", "_data/_filters/_base/_s.py": "C13 C12 C23", "_data/_filters/_base/_terms/_base.py": "C12 C18 C17",
    "_data/_filters/_base/_terms/_binary.py": "C12 C18 C17 C13", "_data/_filters/_base/_terms/_primitive.py": "C14 C12 C18 C17 C13",
    "_data/_filters/_base/_terms/_unary.py": "C12 C18 C17",
    "_data/_sampled_data.py": "C05 C06 C18", "_data/_signals/_signal.py": "C20 C05 C11 C09 C08 C10 C18 C07", "_data/_signals/_constant.py": "C19",
    "_data/_signals/_energy_decay.py": "C20", "_data/_signals/_fade.py": "C19", "_data/_signals/_mls.py": "C19", "_data/_signals/_noise.py": "C19",
    "_data/_signals/_sweep.py": "C22", "_data/_signals/_waves.py": "C22", "_data/_signals/_windows.py": "C21 C24", "_data/_signals/_windows_scipy.py": "C21",
    "_data/_spectrograms/_constant.py": "C19", "_data/_spectrograms/_spectrogram.py": "C06 C11 C09 C08 C18 C07", "_data/_spectrums/_constant.py": "C19",
    "_data/_spectrums/_rudinshapiro.py": "C19", "_data/_spectrums/_spectrum.py": "C06 C11 C08 C18 C20 C07",
    "_internal/_convolution.py": "C10", "_internal/_functions.py": "C11 C21 C01", "_internal/_indexing.py": "C08 C20 C21", "_internal/_interpolation.py": "C14",
    "_internal/_text.py": "C22", "_internal/_enums.py": "C08", "_internal/_persistence/_auto_writer.py": "C16 C15",
    "_internal/_persistence/_functions.py": "C16 C15", "_internal/_persistence/_filter_readers.py": "C17 C16 C26",
    "_internal/_persistence/_filter_writers.py": "C17 C16", "_internal/_persistence/_signal_readers.py": "C15 C16 C26",
    "_internal/_persistence/_signal_writers.py": "C15 C16", "_internal/_persistence/_spectrogram_readers.py": "C15 C16 C26",
    "_internal/_persistence/_spectrogram_writers.py": "C15 C16", "_internal/_persistence/_spectrum_readers.py": "C15 C16 C26",
    "_internal/_persistence/_spectrum_writers.py": "C15 C16",
}
COMPARE = {ast.Lt: ("<", "<="), ast.LtE: ("<=", "<"), ast.Gt: (">", ">="), ast.GtE: (">=", ">"), ast.Eq: ("==", "!="), ast.NotEq: ("!=", "=="),
           ast.Is: ("is", "is not"), ast.IsNot: ("is not", "is"), ast.In: ("in", "not in"), ast.NotIn: ("not in", "in")}
BINARY = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*"), ast.FloorDiv: ("//", "/"), ast.Mod: ("%", "+"),
          ast.Pow: ("**", "*")}
NAMES = {"min": "max", "max": "min", "floor": "ceil", "ceil": "floor", "real": "imag", "imag": "real", "rfft": "fft", "sin": "cos", "minimum": "maximum",
         "maximum": "minimum", "add": "subtract", "append": "remove", "sorted": "list", "round": "int", "zeros": "ones", "square": "abs", "any": "all",
         "all": "any", "argmin": "argmax", "argmax": "argmin", "searchsorted": "digitize"}


def mutants(source):
    tree = ast.parse(source)
    lines = source.splitlines(keepends=True)
    starts = [0]
    for line in lines:
        starts.append(starts[-1] + len(line.encode()))
    data = source.encode()

    def pos(node, end=False):
        return starts[(node.end_lineno if end else node.lineno) - 1] + (node.end_col_offset if end else node.col_offset)

    def replace(a, b, text):
        return (data[:a] + text.encode() + data[b:]).decode()

    found = []
    docs = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.Module, ast.ClassDef, ast.FunctionDef)) and node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant):
            docs.add(id(node.body[0]))
            docs.add(id(node.body[0].value))
    skip = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.Raise, ast.JoinedStr, ast.Import, ast.ImportFrom)) or (isinstance(node, ast.FunctionDef) and node.name in ("__str__",)):
            for n in ast.walk(node):
                skip.add(id(n))
    for node in ast.walk(tree):
        if id(node) in docs or id(node) in skip:
            continue

        def add(a, b, text, what, node=node):
            found.append((node.lineno, what + ": " + data[a:b].decode()[:60] + " -> " + text[:60], replace(a, b, text)))
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            old, new = COMPARE[type(node.ops[0])]
            a, b = pos(node.left, True), pos(node.comparators[0])
            add(a, b, data[a:b].decode().replace(old, new, 1), "compare")
        elif isinstance(node, ast.BinOp) and type(node.op) in BINARY:
            old, new = BINARY[type(node.op)]
            a, b = pos(node.left, True), pos(node.right)
            if old in data[a:b].decode():
                add(a, b, data[a:b].decode().replace(old, new, 1), "binary")
        elif isinstance(node, ast.BoolOp):
            a, b = pos(node.values[0], True), pos(node.values[1])
            t = data[a:b].decode()
            add(a, b, t.replace("and", "or", 1) if isinstance(node.op, ast.And) else t.replace("or", "and", 1), "bool")
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not)):
            add(pos(node), pos(node.operand), "", "unary")
        elif isinstance(node, ast.Constant) and isinstance(node.value, (int, float, complex, bool)):
            v = node.value
            if isinstance(v, bool):
                add(pos(node), pos(node, True), repr(not v), "constant")
            elif isinstance(v, int):
                add(pos(node), pos(node, True), repr(v + 1), "constant")
                add(pos(node), pos(node, True), repr(v - 1), "constant")
            else:
                add(pos(node), pos(node, True), repr(v * 1.5 + (0.5 if v == 0 else 0)), "constant")
        elif isinstance(node, (ast.If, ast.While)) and not isinstance(node.test, ast.Compare):
            t = data[pos(node.test):pos(node.test, True)].decode()
            add(pos(node.test), pos(node.test, True), "not (" + t + ")", "condition")
        elif isinstance(node, ast.IfExp):
            add(pos(node), pos(node, True), data[pos(node.body):pos(node.body, True)].decode(), "ifexp")
        elif isinstance(node, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete)) and node.col_offset > 0:
            add(pos(node), pos(node, True), "pass", "delete")
        elif isinstance(node, ast.Slice):
            if node.lower is not None:
                add(pos(node.lower), pos(node.lower, True), "", "slice")
            if node.upper is not None:
                add(pos(node.upper), pos(node.upper, True), "", "slice")
        elif isinstance(node, ast.Attribute) and node.attr in NAMES:
            b = pos(node, True)
            add(b - len(node.attr), b, NAMES[node.attr], "name")
        elif isinstance(node, ast.Name) and node.id in NAMES:
            add(pos(node), pos(node, True), NAMES[node.id], "name")
        elif isinstance(node, ast.Call) and len(node.args) >= 2 and not any(isinstance(x, ast.Starred) for x in node.args[:2]):
            x, y = node.args[:2]
            t = data[pos(y):pos(y, True)] + data[pos(x, True):pos(y)] + data[pos(x):pos(x, True)]
            add(pos(x), pos(y, True), t.decode(), "swap")
        if isinstance(node, ast.BoolOp):
            for v in node.values:
                add(pos(node), pos(node, True), data[pos(v):pos(v, True)].decode(), "operand")
        if isinstance(node, ast.Call) and len(node.args) + len(node.keywords) >= 2:
            for k in node.keywords:
                if k.arg is not None:
                    a, b = pos(k), pos(k, True)
                    while data[b:b + 1] in (b",", b" ", b"\n"):
                        b += 1
                    add(a, b, "", "keyword")
        if isinstance(node, ast.Attribute) and node.attr in ("float64", "complex128"):
            b = pos(node, True)
            add(b - len(node.attr), b, {"float64": "float32", "complex128": "complex64"}[node.attr], "dtype")
        for field in ("body", "orelse"):
            block = getattr(node, field, None)
            if isinstance(block, list) and not isinstance(node, (ast.Module, ast.ClassDef)):
                for x, y in zip(block, block[1:]):
                    if id(x) in docs or isinstance(y, (ast.Return, ast.Raise)) or isinstance(x, ast.Return):
                        continue
                    t = data[pos(y):pos(y, True)] + data[pos(x, True):pos(y)] + data[pos(x):pos(x, True)]
                    add(pos(x), pos(y, True), t.decode(), "order", node=x)
        if isinstance(node, ast.FunctionDef):
            names = sorted({n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {x.arg for x in node.args.args if x.arg != "self"})
            for n in ast.walk(node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names and id(n) not in skip:
                    others = [x for x in names if x != n.id]
                    if others:
                        add(pos(n), pos(n, True), random.choice(others), "variable", node=n)
    return found


def work(jobs, out, base, number):
    repo = os.path.join(base, f"r{number}")
    verif = os.path.join(base, f"v{number}")
    shutil.copytree("/repo", repo, symlinks=True)
    shutil.copytree(VERIF, verif, symlinks=True, ignore=shutil.ignore_patterns(".git", "seeded", "__pycache__"))
    while True:
        try:
            file, line, what, source, checks = jobs.get(timeout=5)
        except queue.Empty:
            return
        path = os.path.join(repo, "sumpf", file)
        with open(path) as f:
            original = f.read()
        with open(path, "w") as f:
            f.write(source)
        result = "survived"
        env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED=str(random.randrange(1, 10)), PYTHONDONTWRITEBYTECODE="1", VERIF_TIER="quick")
        for c in checks:
            try:
                r = subprocess.run([os.path.join(verif, "check.sh"), c], cwd=verif, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
            except subprocess.TimeoutExpired:
                result = "timeout " + c
                break
            if r.returncode == 1 and "VIOLATION property=" + c in r.stdout:
                result = "killed " + c
                break
            if r.returncode != 0:
                result = f"error {c} {r.returncode} " + r.stdout[-300:]
                break
        with open(path, "w") as f:
            f.write(original)
        out.put({"file": file, "line": line, "what": what, "result": result})


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("out")
    parser.add_argument("--per-file", type=int, default=20)
    parser.add_argument("--jobs", type=int, default=5)
    parser.add_argument("--seed", type=int, default=1)
    parser.add_argument("--match", default="")
    parser.add_argument("files", nargs="*")
    args = parser.parse_args()
    random.seed(args.seed)
    done = set()
    if os.path.exists(args.out):
        with open(args.out) as f:
            done = {(e["file"], e["line"], e["what"]) for e in map(json.loads, f)}
    jobs, out = multiprocessing.Queue(), multiprocessing.Queue()
    count = 0
    selected = []
    for file in args.files or sorted(CHECKS):
        path = os.path.join("/repo/sumpf", file)
        if not os.path.exists(path):
            print("missing", file)
            continue
        with open(path) as f:
            m = [(line, what, s) for line, what, s in mutants(f.read()) if re.search(args.match, what) and (file, line, what) not in done]
        for line, what, s in random.sample(m, min(args.per_file, len(m))):
            selected.append((file, line, what, s, CHECKS[file].split()))
    random.shuffle(selected)
    for s in selected:
        jobs.put(s)
        count += 1
    base = tempfile.mkdtemp(prefix="mutate.", dir="/tmp")
    try:
        workers = [multiprocessing.Process(target=work, args=(jobs, out, base, i)) for i in range(args.jobs)]
        for w in workers:
            w.start()
        with open(args.out, "a") as f:
            for _ in range(count):
                while True:
                    try:
                        e = out.get(timeout=30)
                        break
                    except queue.Empty:
                        if not any(w.is_alive() for w in workers):
                            return
                f.write(json.dumps(e) + "\n")
                f.flush()
        for w in workers:
            w.join()
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
    main()
