"""Creates planted bugs under seeded/ and confirms them in a scratch copy.

    python3 tools/seed.py make            write all from tools/seeds.py
    python3 tools/seed.py confirm [ID..]  build, tests and demo in a scratch copy
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", NUMBA_DISABLE_JIT="1", MPLBACKEND="Agg",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")

DEMO = """#!/bin/bash
# exit 0 if the behaviour is right, nonzero otherwise; run in the repository
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 NUMBA_DISABLE_JIT=1 MPLBACKEND=Agg OMP_NUM_THREADS=1
export PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore "$here/demo.py"
"""


def specs():
    sp = importlib.util.spec_from_file_location("seeds", os.path.join(HERE, "tools", "seeds.py"))
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m.SEEDS


def make(s):
    d = os.path.join(HERE, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    diff = ""
    edits = s["edits"]
    by = {}
    for f, old, new in edits:
        by.setdefault(f, []).append((old, new))
    for f, es in by.items():
        with open(os.path.join(REPO, f)) as fh:
            src = fh.read()
        dst = src
        for old, new in es:
            nth, given = 0, isinstance(old, tuple)
            if isinstance(old, tuple):
                old, nth = old
            parts = dst.split(old)
            assert len(parts) > 1 + nth, (s["id"], f, old)
            if len(parts) > 2 and not given:
                raise AssertionError("%s: ambiguous %r" % (s["id"], old))
            dst = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
        t = tempfile.mkdtemp(prefix="seed")
        for side, text in (("a", src), ("b", dst)):
            p = os.path.join(t, side, f)
            os.makedirs(os.path.dirname(p))
            with open(p, "w") as fh:
                fh.write(text)
        r = subprocess.run(["diff", "-u", os.path.join("a", f), os.path.join("b", f)], cwd=t,
                           capture_output=True, text=True)
        out = r.stdout.splitlines(True)
        out[0] = "--- a/%s\n" % f
        out[1] = "+++ b/%s\n" % f
        diff += "".join(out)
        shutil.rmtree(t)
    with open(os.path.join(d, "patch.diff"), "w") as fh:
        fh.write(diff)
    with open(os.path.join(d, "demo.sh"), "w") as fh:
        fh.write(DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    with open(os.path.join(d, "demo.py"), "w") as fh:
        fh.write(s["demo"].lstrip("\n"))
    with open(os.path.join(d, "meta.json"), "w") as fh:
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, fh, indent=1)
        fh.write("\n")


def sh(cmd, cwd, timeout=600):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout)


def confirm(ids):
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable") or
               json.load(open("/opt/vp/BASELINE.json")).get("passed") or [])
    ok = True
    for i in ids:
        d = os.path.join(HERE, "seeded", i)
        t = tempfile.mkdtemp(prefix="seedrun", dir="/tmp")
        w = os.path.join(t, "repo")
        shutil.copytree(REPO, w, symlinks=True)
        msg = []
        r = sh(["bash", os.path.join(d, "demo.sh")], w)
        if r.returncode:
            msg.append("demo fails unchanged: " + (r.stdout + r.stderr)[-600:])
        r = sh(["git", "apply", os.path.join(d, "patch.diff")], w)
        if r.returncode:
            msg.append("patch: " + r.stderr)
        if "pyx" in open(os.path.join(d, "patch.diff")).read():
            for f in os.listdir(os.path.join(w, "movement_primitives")):
                if f.endswith((".so", ".c")):
                    os.unlink(os.path.join(w, "movement_primitives", f))
            shutil.rmtree(os.path.join(w, "build"), ignore_errors=True)
            r = sh([PY, "setup.py", "build_ext", "--inplace"], w)
            if r.returncode:
                msg.append("build: " + r.stderr[-500:])
        r = sh(["bash", os.path.join(d, "demo.sh")], w)
        if r.returncode == 0:
            msg.append("demo passes with the bug")
        x = os.path.join(t, "j.xml")
        r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--no-cov", "-n", "8",
                "--timeout=300", "-o", "junit_family=xunit2", "--junitxml=" + x], w)
        fails = [l for l in r.stdout.splitlines() if l.startswith(("FAILED", "ERROR"))]
        fails = [l for l in fails if "test_lasa" not in l and "test_simulation" not in l]
        stable_fail = [l for l in fails if not any(z in l for z in UNSTABLE)]
        if stable_fail:
            msg.append("tests fail: " + "; ".join(stable_fail)[:500])
        shutil.rmtree(t)
        print(i, "OK" if not msg else "PROBLEM " + " | ".join(msg), flush=True)
        ok = ok and not msg
    return ok


def unstable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return b


UNSTABLE = ["test_dmp_to_state_space_distribution"]  # fails unchanged, no data

if __name__ == "__main__":
    ss = specs()
    want = sys.argv[2:]
    if sys.argv[1] == "make":
        for s in ss:
            if not want or s["id"] in want:
                make(s)
    else:
        ids = want or [s["id"] for s in ss]
        sys.exit(0 if confirm(ids) else 1)
