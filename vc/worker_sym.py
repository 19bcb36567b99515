"""Generates and discharges the obligations of one property.

    worker_sym.py JOB.json OUT.json
"""
import json
import multiprocessing
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from vc import smt, symg, terms as T                           # noqa: E402
from vc.engine import Failed, Infeasible, StopPath             # noqa: E402
from vc.symarray import PoisonRead                             # noqa: E402


def contract(prop):
    import importlib
    return importlib.import_module("contracts." + prop.lower())


def names_of(mod, only=None):
    return [n for n in dir(mod) if n.startswith("check_") and (not only or n in only)]


def clean(x):
    if isinstance(x, dict):
        return {str(k): clean(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [clean(v) for v in x]
    if isinstance(x, (int, float, str)) or x is None:
        return x
    return str(x)


def run_check(prop, name, mode, seconds, unroll, timeout, repo):
    mod = contract(prop)
    fn = getattr(mod, name)
    T.reset()
    for k in smt.STATS:
        smt.STATS[k] = 0
    t0 = time.time()
    res = {"check": name, "mode": mode, "undecided": [], "hints": [], "error": None}
    try:
        eng, vc, g, M, ld = symg.make(mode, unroll=unroll, timeout=timeout,
                                      deadline=t0 + seconds, repo=repo)
    except Exception as e:
        res["undecided"].append("%s: %s" % (type(e).__name__, e))
        return res
    eng.max_paths = 3000

    def path():
        g.unstub()
        vc.offered = []
        vc.objects = []
        vc.lists = []
        eng.choice_log = []
        eng.paths += 1
        try:
            fn(g, M)
        except StopPath:
            pass
        except Infeasible:
            raise
        except (T.Unsupported, PoisonRead, Failed) as e:
            if "time budget" in str(e):
                raise
            res["undecided"].append("%s: %s" % (type(e).__name__, str(e)[:400]))
        except RecursionError:
            res["undecided"].append("recursion limit")
        except Exception as e:
            hint = dict(eng.pc_model() or {})
            hint.update(eng.choice_log)
            res["hints"].append(clean(hint))
            # not a refutation: the library contracts used symbolically may
            # not cover this use; the concrete evaluation decides
            res["undecided"].append("%s: %s (%s)" % (
                type(e).__name__, str(e)[:300],
                traceback.format_exc().strip().splitlines()[-3].strip()[:200]))
    try:
        eng.explore(path)
    except T.Unsupported as e:
        res["undecided"].append(str(e))
    obs = eng.obligations
    res["obligations"] = len(obs)
    res["discharged"] = sum(o.status == "proved" for o in obs)
    by = {}
    kinds = {}
    for o in obs:
        kinds[o.kind] = kinds.get(o.kind, 0) + 1
        if o.status == "proved":
            by[o.backend] = by.get(o.backend, 0) + 1
    res["backends"] = by
    res["kinds"] = kinds
    res["failed"] = [clean(o.asdict()) for o in obs if o.status != "proved"][:12]
    res["side"] = sorted(set(eng.side_unproved))[:10]
    res["undecided"] = sorted(set(res["undecided"]))[:10]
    res["attempts"] = [clean(a) for a in vc.attempts[:5]]
    res["reach"] = eng.reach
    res["functions"] = vc.entered
    res["assumed"] = sorted(eng.assumed)
    res["loops"] = sorted({"%s: %s" % a for a in vc.loop_log})
    res["paths"] = eng.paths
    res["unroll_hit"] = eng.unroll_hit
    res["stats"] = dict(smt.STATS)
    res["seconds"] = time.time() - t0
    return res


def child(args, conn):
    try:
        r = run_check(*args)
    except BaseException as e:
        r = {"check": args[1], "mode": args[2],
             "undecided": ["%s: %s" % (type(e).__name__, e)],
             "error": traceback.format_exc()[-2000:]}
    conn.send(json.dumps(r))
    conn.close()


def run_pool(tasks, jobs, save, grace=20):
    """Every check in a process of its own, with a hard time limit."""
    ctx = multiprocessing.get_context("fork")
    todo = list(tasks)
    running = []
    done = []
    while todo or running:
        while todo and len(running) < jobs:
            a = todo.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(a, w))
            p.start()
            w.close()
            running.append((p, r, a, time.time()))
        keep = []
        for p, r, a, t in running:
            if r.poll(0.02):
                try:
                    done.append(json.loads(r.recv()))
                except EOFError:
                    done.append({"check": a[1], "mode": a[2], "undecided": ["worker ended"]})
                p.join()
            elif not p.is_alive() and not r.poll(0):
                done.append({"check": a[1], "mode": a[2], "undecided": ["worker ended"]})
            elif time.time() - t > a[3] + grace:
                p.kill()
                p.join()
                done.append({"check": a[1], "mode": a[2], "undecided": ["time limit"]})
            else:
                keep.append((p, r, a, t))
        if len(keep) < len(running):
            save(done + [{"check": a[1], "mode": a[2], "undecided": ["not finished"]}
                         for a in [x[2] for x in keep] + todo])
        running = keep
    return done


def main(job, out):
    mod = contract(job["property"])
    names = names_of(mod, job.get("only"))
    jobs = job.get("jobs", 4)
    bounded_only = [n for n in names if getattr(getattr(mod, n), "symbolic", "U") == "B"]
    concrete_only = [n for n in names if getattr(getattr(mod, n), "symbolic", "U") is None]
    tasks = []
    for n in names:
        if n in concrete_only:
            continue
        m = "B" if n in bounded_only else "U"
        tasks.append((job["property"], n, m, job["seconds"], job["unroll"],
                      job["timeout"], job["repo"]))

    def save(results):
        with open(out + ".new", "w") as f:
            json.dump({"results": results, "concrete_only": concrete_only}, f)
        os.replace(out + ".new", out)
    save([])
    res = run_pool(tasks, jobs, save)
    # bounded stand-in where the unbounded proof does not go through
    again = [(job["property"], r["check"], "B", job["seconds"] / 2, job["unroll"],
              job["timeout"], job["repo"]) for r in res
             if r["mode"] == "U" and (r.get("undecided") or any(
                 f["status"] not in ("refuted", "differs") for f in r.get("failed", ())))]
    if again and job.get("standin", True):
        res += run_pool(again, jobs, lambda more: save(res + more))
    save(res)


if __name__ == "__main__":
    with open(sys.argv[1]) as f:
        job = json.load(f)
    main(job, sys.argv[2])
