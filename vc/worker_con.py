"""Evaluates contracts on the real code (run by the repository's interpreter).

    worker_con.py search  JOB.json OUT.json   random and guided evaluation
    worker_con.py replay  REPLAY.json         evaluate one recorded input
"""
import json
import os
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
warnings.simplefilter("ignore")

import numpy as np                                             # noqa: E402

from vc import cong                                            # noqa: E402


def contract(prop):
    import importlib
    return importlib.import_module("contracts." + prop.lower())


def checks(mod, only=None):
    return [n for n in dir(mod) if n.startswith("check_") and (not only or n in only)]


def blame(tb, repo):
    """Does an exception come from the code under verification?

    Interface errors raised by the contract itself (a name that does not exist
    any more, a changed signature) do not count.
    """
    frames = traceback.extract_tb(tb)
    inside = False
    for f in frames:
        fn = f.filename
        if fn.startswith(repo) or fn.startswith("movement_primitives") or fn.endswith(".pyx"):
            inside = True
        elif fn.startswith(HERE):
            inside = False
    return inside


def evaluate(fn, M, rng, hints, repo):
    """(status, info): status held | skip | violation | interface"""
    g = cong.ConG(rng, hints)
    try:
        with np.errstate(all="ignore"):
            fn(g, M)
        return "held", g
    except cong.Skip:
        return "skip", g
    except cong.Violation as e:
        g.label, g.detail = e.label, e.detail
        return "violation", g
    except Exception as e:
        text = "%s: %s" % (type(e).__name__, e)
        g.label, g.detail = "no exception", text
        g.trace = traceback.format_exc()[-1500:]
        if blame(sys.exc_info()[2], repo):
            return "violation", g
        return "interface", g


def perturbed(hints, rng, k):
    """Variation of a counterexample of the verifier."""
    if k == 0:
        return dict(hints)
    out = {}
    for name, v in hints.items():
        if rng.random() < min(0.9, 0.15 * k):
            continue
        out[name] = v
    return out


def search(job, out):
    repo = job["repo"]
    M = cong.RealModules(repo, job["so"])
    mod = contract(job["property"])
    res = {"checks": {}, "violations": [], "interface": []}
    beat = job["out"] + ".beat"
    names = checks(mod, job.get("only"))
    hints = job.get("hints") or {}
    t_end = time.time() + job["seconds"]
    skipset = set(job.get("skip_trials") or [])
    for ci, name in enumerate(names):
        fn = getattr(mod, name)
        weight = getattr(fn, "weight", 1.0)
        share = (t_end - time.time()) / (len(names) - ci)
        end = time.time() + share
        st = {"evaluations": 0, "skipped": 0, "conditions": 0, "samples": []}
        distinct = set()
        errors = 0
        limit = int(getattr(fn, "trials", job["trials"]) * job.get("factor", 1) * weight)
        k = 0
        while st["evaluations"] < limit and k < 6 * limit and time.time() < end:
            seed = [job["seed"], cong.hash_name(name), k, job.get("round", 0)]
            tag = "%s:%d:%d" % (name, k, job.get("round", 0))
            h = None
            hs = hints.get(name) or []
            if hs and k < 40 * len(hs):
                h = perturbed(hs[k % len(hs)], np.random.default_rng(seed + [7]), k // len(hs) // 4)
            k += 1
            if tag in skipset:
                continue
            with open(beat, "w") as f:
                json.dump({"check": name, "tag": tag, "seed": seed, "hints": h, "t": time.time()}, f)
            status, g = evaluate(fn, M, np.random.default_rng(seed), h, repo)
            if status == "skip":
                st["skipped"] += 1
                st["conditions"] += g.checked
                continue
            if status == "interface":
                errors += 1
                if errors == 1:
                    res["interface"].append({"check": name, "detail": g.detail,
                                             "trace": g.trace})
                elif errors == 10:
                    break
                continue
            if status == "violation":
                # the same input again, from the recorded values
                drawn = json.loads(json.dumps(g.drawn))
                s2, g2 = evaluate(fn, M, np.random.default_rng(seed), drawn, repo)
                if s2 == "violation":
                    res["violations"].append({
                        "check": name, "label": g2.label, "detail": g2.detail,
                        "inputs": drawn, "seed": seed, "trace": getattr(g, "trace", None),
                        "guided": h is not None})
                    if len(res["violations"]) >= 5:
                        break
                    if sum(v["check"] == name for v in res["violations"]) >= 2:
                        break
                continue
            st["evaluations"] += 1
            st["conditions"] += g.checked
            if g.checked:
                distinct.add(json.dumps(g.drawn, sort_keys=True))
            if len(st["samples"]) < 1:
                st["samples"].append({"check": name, "inputs": shorten(g.drawn)})
        st["distinct_nontrivial"] = len(distinct)
        res["checks"][name] = st
        write(out, res)
    if os.path.exists(beat):
        os.unlink(beat)
    res["complete"] = True
    write(out, res)


def shorten(d):
    out = {}
    for k, v in d.items():
        s = json.dumps(v)
        out[k] = v if len(s) < 160 else s[:150] + "..."
    return out


def write(path, res):
    with open(path + ".new", "w") as f:
        json.dump(res, f)
    os.replace(path + ".new", path)


def replay(path):
    with open(path) as f:
        r = json.load(f)
    if "inputs" not in r and "seed" not in r:
        print("replay file without a failing input:")
        print(json.dumps(r, indent=1)[:4000])
        return 1
    from vc import ext
    repo = os.environ.get("VERIF_REPO", "/repo")
    M = cong.RealModules(repo, ext.build(repo))
    fn = getattr(contract(r["property"]), r["check"])
    status, g = evaluate(fn, M, np.random.default_rng(r.get("seed") or [1]), r.get("inputs") or r.get("hints"), repo)
    print("%s: %s" % (r["check"], status))
    if status == "violation":
        print("%s: %s" % (g.label, g.detail))
        return 1
    return 0


if __name__ == "__main__":
    if sys.argv[1] == "search":
        with open(sys.argv[2]) as f:
            job = json.load(f)
        job["out"] = sys.argv[3]
        search(job, sys.argv[3])
    else:
        sys.exit(replay(sys.argv[2]))
