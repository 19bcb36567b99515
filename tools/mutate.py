#!/usr/bin/env python3
"""Mutation experiment: which small changes of the library does no check notice?

    python3 tools/mutate.py [--jobs 6] [--full] FILE[:FUNCTION]...

Works on copies of the library in /tmp.  Each mutant is evaluated with the
run-time contracts of the properties whose evidence names the changed function
(--full: the complete checks).  Prints the mutants that survive.
"""
import argparse
import ast
import concurrent.futures
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vc import ext                                             # noqa: E402
from check import ENV, PY_REPO                                 # noqa: E402

REPO = "/repo"
SWAP = [("start_y", "goal_y"), ("start_yd", "goal_yd"), ("start_ydd", "goal_ydd"),
        ("start_t", "goal_t"), ("last_t", "t"), ("alpha_y", "beta_y"), ("n_dims", "n_vel_dims"),
        ("last_y", "start_y"), ("last_yd", "start_yd"), ("current_y", "start_y"),
        ("current_yd", "start_yd"), ("goal_ydd", "goal_yd"), ("cd", "cdd"), ("dt", "int_dt"),
        ("left", "right")]
SWAP = {a: b for p in SWAP for a, b in (p, p[::-1])}
OPS = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==",
       ast.Is: "is not", ast.IsNot: "is"}


def mutants(src):
    """(function, line, description, new source)"""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = src.encode()

    def pos(n, end=False):
        return starts[(n.end_lineno if end else n.lineno) - 1] + (
            n.end_col_offset if end else n.col_offset)

    def put(a, b, text):
        return (raw[:a] + text.encode() + raw[b:]).decode()

    def walk(node, fn):
        for c in ast.iter_child_nodes(node):
            name = fn
            if isinstance(c, (ast.ClassDef, ast.FunctionDef)):
                name = fn + [c.name]
            yield from visit(c, name, node)
            yield from walk(c, name)

    def seg(n):
        return raw[pos(n):pos(n, True)].decode()

    def visit(c, fn, parent):
        f = ".".join(fn)
        if isinstance(c, ast.BinOp) and type(c.op) in OPS:
            a, b = pos(c.left, True), pos(c.right)
            mid = raw[a:b].decode()
            sym = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/"}[type(c.op)]
            if sym in mid:
                yield f, c.lineno, seg(c)[:50] + " => " + OPS[type(c.op)], put(
                    a, b, mid.replace(sym, OPS[type(c.op)], 1))
        elif isinstance(c, ast.Compare) and len(c.ops) == 1 and type(c.ops[0]) in CMP:
            yield f, c.lineno, seg(c)[:50] + " => " + CMP[type(c.ops[0])], put(
                pos(c.left, True), pos(c.comparators[0]), " %s " % CMP[type(c.ops[0])])
        elif isinstance(c, ast.Constant) and isinstance(c.value, (int, float)) and \
                not isinstance(c.value, bool):
            v = c.value + 1 if isinstance(c.value, int) else c.value * 1.5 + 0.25
            yield f, c.lineno, "%s => %s in %s" % (c.value, v, lines[c.lineno - 1].strip()[:50]), \
                put(pos(c), pos(c, True), repr(v))
        elif isinstance(c, ast.Constant) and isinstance(c.value, bool):
            yield f, c.lineno, "%s => %s in %s" % (c.value, not c.value, lines[c.lineno - 1].strip()[:50]), \
                put(pos(c), pos(c, True), repr(not c.value))
        elif isinstance(c, ast.Name) and isinstance(c.ctx, ast.Load) and c.id in SWAP:
            yield f, c.lineno, "%s => %s in %s" % (c.id, SWAP[c.id], lines[c.lineno - 1].strip()[:50]), \
                put(pos(c), pos(c, True), SWAP[c.id])
        elif isinstance(c, ast.Attribute) and isinstance(c.ctx, ast.Load) and c.attr in SWAP:
            yield f, c.lineno, "%s => %s in %s" % (c.attr, SWAP[c.attr], lines[c.lineno - 1].strip()[:50]), \
                put(pos(c, True) - len(c.attr), pos(c, True), SWAP[c.attr])
        elif isinstance(c, (ast.AugAssign, ast.Raise)) or isinstance(c, ast.Expr) and \
                isinstance(c.value, ast.Call) or isinstance(c, ast.Assign) and isinstance(
                    c.targets[0], (ast.Attribute, ast.Subscript)):
            yield f, c.lineno, "delete " + seg(c)[:50], put(pos(c), pos(c, True), "pass")
        elif isinstance(c, ast.UnaryOp) and isinstance(c.op, (ast.USub, ast.Not)):
            yield f, c.lineno, "drop sign of " + seg(c)[:40], put(pos(c), pos(c.operand), "")
        elif isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and (
                c.func.attr == "copy"):
            what = seg(c.args[0]) if c.args else seg(c.func.value)
            yield f, c.lineno, "no copy " + seg(c)[:40], put(pos(c), pos(c, True), what)
    yield from walk(tree, [])


def text_mutants(src):
    """The same for Cython, by patterns within function bodies."""
    fn, doc = None, False
    lines = src.splitlines(keepends=True)
    for i, l in enumerate(lines):
        m = re.match(r"(?:cpdef|cdef|def)\s+(?:[\w.\[\], :]+\s+)?(\w+)\(", l)
        if m:
            fn = m.group(1)
        if l.count('"""') == 1:
            doc = not doc
            continue
        if doc or not fn or not l.startswith("    ") or '"""' in l or re.match(
                r"\s+(cdef|raise|\")", l) and "=" not in l or l.strip().startswith("#"):
            continue
        for pat, new in [(r"(?<=[\w\])]) \+ ", " - "), (r"(?<=[\w\])]) - ", " + "),
                         (r" \* ", " / "), (r"(?<=\w) / ", " * "), (r" < ", " <= "), (r" > ", " >= "),
                         (r" <= ", " < "), (r" >= ", " > "), (r"\+= ", "-= "),
                         (r"\[(\d)\]", None), (r"\bi\]", "0]"), (r"(?<=[ (])-(?=\w)", ""),
                         (r"is not None", "is None")] + [
                             (r"\b%s\b" % a, b) for a, b in SWAP.items() if a != "t"]:
            for m in re.finditer(pat, l):
                t = new if new is not None else "[%d]" % (int(m.group(1)) + 1)
                n = l[:m.start()] + t + l[m.end():]
                yield fn, i + 1, "%s: %r => %r" % (l.strip()[:60], m.group(0), t), \
                    "".join(lines[:i] + [n] + lines[i + 1:])


def functions():
    """function -> properties"""
    r = {}
    for p in sorted(glob.glob(os.path.join(HERE, "evidence", "C*.json"))):
        e = json.load(open(p))
        for f in e["coverage"]["functions_under_contract"]:
            r.setdefault(f, []).append(e["property"])
    return r


def concrete(prop, repo, so, tmp, seconds, trials):
    job = os.path.join(tmp, "job")
    out = os.path.join(tmp, "out")
    with open(job, "w") as f:
        json.dump(dict(property=prop, repo=repo, so=so, seed=1, seconds=seconds, trials=trials,
                       hints={}, only=None, round=0, factor=1, skip_trials=[]), f)
    if os.path.exists(out):
        os.unlink(out)
    try:
        p = subprocess.run([PY_REPO, "vc/worker_con.py", "search", job, out], cwd=HERE, env=ENV,
                           capture_output=True, timeout=seconds + 40)
    except subprocess.TimeoutExpired:
        return "timeout"
    if not os.path.exists(out):
        return "error " + p.stderr.decode()[-200:]
    r = json.load(open(out))
    if r["violations"]:
        return "killed"
    return "interface" if r["interface"] else "survived"


def evaluate(arg):
    rel, fn, line, text, src, props, full = arg
    tmp = tempfile.mkdtemp(prefix="mut")
    try:
        repo = os.path.join(tmp, "repo")
        shutil.copytree(os.path.join(REPO, "movement_primitives"),
                        os.path.join(repo, "movement_primitives"),
                        ignore=shutil.ignore_patterns("*.so", "*.c", "__pycache__"))
        with open(os.path.join(repo, "movement_primitives", rel), "w") as f:
            f.write(src)
        try:
            if rel.endswith(".pyx"):
                so = os.path.join(tmp, "dmp_fast.so")
                p = subprocess.run([ext.PY, "-c", ext.BUILD, os.path.join(
                    repo, "movement_primitives", rel), tmp], capture_output=True, timeout=300)
                if p.returncode:
                    return arg, "build", ""
            else:
                so = ext.build(REPO)
        except Exception as e:
            return arg, "build", str(e)[:100]
        verdicts = []
        for prop in props:
            if full:
                r = subprocess.run([sys.executable, "check.py", prop], cwd=HERE, env=dict(
                    os.environ, VERIF_REPO=repo), capture_output=True, text=True)
                v = "killed" if r.returncode == 1 else "survived" if r.returncode == 0 else "error"
            else:
                v = concrete(prop, repo, so, tmp, 25, 60)
            if v in ("killed", "timeout"):
                return arg, v, prop
            verdicts.append(prop + " " + v)
        return arg, "SURVIVED", ", ".join(verdicts)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--jobs", type=int, default=6)
    ap.add_argument("--every", type=int, default=1)
    ap.add_argument("--offset", type=int, default=0)
    ap.add_argument("--full", action="store_true")
    ap.add_argument("--line", type=int)
    ap.add_argument("targets", nargs="+")
    a = ap.parse_args()
    under = functions()
    jobs, uncovered = [], set()
    for t in a.targets:
        rel, _, only = t.partition(":")
        src = open(os.path.join(REPO, "movement_primitives", rel)).read()
        mod = rel.rsplit(".", 1)[0].replace("/", ".")
        for fn, line, text, new in (text_mutants if rel.endswith("pyx") else mutants)(src):
            if only and not fn.endswith(only) or a.line and line != a.line:
                continue
            props = under.get(mod + "." + fn)
            if not props:
                uncovered.add(mod + "." + fn)
                continue
            # the most specific property first
            jobs.append((rel, fn, line, text, new, props, a.full))
    for u in sorted(uncovered):
        print("no contract:", u, flush=True)
    jobs = jobs[a.offset::a.every]
    print(len(jobs), "mutants", flush=True)
    n = {}
    with concurrent.futures.ProcessPoolExecutor(a.jobs) as ex:
        for arg, v, info in ex.map(evaluate, jobs):
            n[v] = n.get(v, 0) + 1
            if v not in ("killed", "build"):
                print("%s:%d %s: %s [%s: %s]" % (arg[0], arg[2], arg[1], arg[3].replace("\n", " "),
                                                 v, info), flush=True)
    print(n)


if __name__ == "__main__":
    main()
