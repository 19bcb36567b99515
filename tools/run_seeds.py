"""Applies each planted bug to /repo, runs the check of its property and
writes the table of DESIGN.md.  Usage: python3 tools/run_seeds.py [ID..]"""
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
CACHE = os.path.join(HERE, "tools", "seed_results.json")


def run(i):
    with open(os.path.join(SEEDED, i, "meta.json")) as f:
        meta = json.load(f)
    subprocess.check_call(["git", "-C", "/repo", "apply", os.path.join(SEEDED, i, "patch.diff")])
    t = time.time()
    try:
        p = subprocess.run([sys.executable, "check.py", meta["property"]], cwd=HERE,
                           capture_output=True, text=True, timeout=900)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "--", "."])
    m = re.search(r"^VIOLATION .*\n# (\w+): ([^:\n]*)", p.stdout, re.M)
    r = dict(property=meta["property"], exit=p.returncode, seconds=round(time.time() - t),
             by=m.group(1) if m else "", label=m.group(2) if m else "",
             input="no-failing-input-found" not in p.stdout)
    print(i, r, flush=True)
    return r


def main(ids):
    res = {}
    if os.path.exists(CACHE):
        with open(CACHE) as f:
            res = json.load(f)
    have = sorted(os.listdir(SEEDED))
    for i in ids or have:
        res[i] = run(i)
    res = {i: res[i] for i in have if i in res}
    with open(CACHE, "w") as f:
        json.dump(res, f, indent=1)
        f.write("\n")
    rows = ["| %s | %s | %s |" % (
        i, r["property"], "`%s`: %s%s" % (r["by"], r["label"], "" if r["input"] else " (no input)")
        if r["exit"] == 1 else "not caught") for i, r in res.items()]
    path = os.path.join(HERE, "DESIGN.md")
    with open(path) as f:
        s = f.read()
    a, b = "<!-- planted -->\n", "<!-- end planted -->\n"
    if a in s:
        k, e = s.index(a) + len(a), s.index(b)
        s = s[:k] + "| planted bug | property | caught by |\n|---|---|---|\n" + "\n".join(rows) + "\n" + s[e:]
        with open(path, "w") as f:
            f.write(s)


main(sys.argv[1:])
