#!/usr/bin/env python3
"""Decides one property on the current tree of /repo.

    python3 check.py C01            (VERIF_TIER, VERIF_SEED from the environment)
    python3 check.py --replay FILE

Exit 0: the property held.  Exit 1: VIOLATION line on stdout.  Exit 2: error.
"""
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from vc import ext                                             # noqa: E402

PY_REPO = "/opt/venv/bin/python"
PY_VERIF = "python3-vt"
KNOWN = os.path.join(HERE, "known-findings.txt")

TIERS = {
    # symbolic seconds per check, concrete seconds, trials, cap
    "quick": dict(sym=150, con=45, trials=120, timeout=2000, unroll=2, guided=40, total=600),
    "thorough": dict(sym=400, con=200, trials=2000, timeout=6000, unroll=3, guided=100, total=850),
}

ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", NUMBA_DISABLE_JIT="1", MPLBACKEND="Agg",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")


def spawn(cmd, log):
    return subprocess.Popen(cmd, cwd=HERE, env=ENV, stdout=log, stderr=subprocess.STDOUT,
                            start_new_session=True)


def stop(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (OSError, ProcessLookupError):
        pass
    p.wait()


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


class Run:
    def __init__(self, prop, tier, seed, repo):
        self.prop = prop
        self.tier = tier
        self.cfg = TIERS[tier]
        self.seed = seed
        self.repo = repo
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="vcrun")
        ENV["MPLCONFIGDIR"] = self.tmp
        self.con = {"checks": {}, "violations": [], "interface": []}
        self.notes = []
        self.hung = []

    # ---------------------------------------------------------- subprocesses
    def start_sym(self):
        job = os.path.join(self.tmp, "sym.job")
        self.sym_out = os.path.join(self.tmp, "sym.out")
        with open(job, "w") as f:
            json.dump(dict(property=self.prop, repo=self.repo, seconds=self.cfg["sym"],
                           timeout=self.cfg["timeout"], unroll=self.cfg["unroll"], jobs=4), f)
        self.sym_log = open(os.path.join(self.tmp, "sym.log"), "w+")
        return spawn([PY_VERIF, os.path.join("vc", "worker_sym.py"), job, self.sym_out], self.sym_log)

    def concrete(self, seconds, hints=None, only=None, round_=0, factor=1):
        """Evaluate the contracts on the real code; survives hangs and crashes."""
        skip = []
        end = time.time() + seconds
        for attempt in range(4):
            job = os.path.join(self.tmp, "con%d_%d.job" % (round_, attempt))
            out = os.path.join(self.tmp, "con%d_%d.out" % (round_, attempt))
            left = max(5.0, end - time.time())
            with open(job, "w") as f:
                json.dump(dict(property=self.prop, repo=self.repo, so=self.so, seed=self.seed,
                               seconds=left, trials=self.cfg["trials"], hints=hints or {},
                               only=only, round=round_, factor=factor, skip_trials=skip), f)
            log = open(os.path.join(self.tmp, "con.log"), "w+")
            p = spawn([PY_REPO, os.path.join("vc", "worker_con.py"), "search", job, out], log)
            verdict = self.watch(p, out, left + 60)
            res = load(out)
            if res:
                for k, v in res["checks"].items():
                    o = self.con["checks"].setdefault(k, {
                        "evaluations": 0, "skipped": 0, "conditions": 0,
                        "distinct_nontrivial": 0, "samples": []})
                    for kk in ("evaluations", "skipped", "conditions", "distinct_nontrivial"):
                        o[kk] += v[kk]
                    o["samples"] = (o["samples"] + v["samples"])[:2]
                self.con["violations"] += res["violations"]
                for i in res["interface"]:
                    if i not in self.con["interface"]:
                        self.con["interface"].append(i)
            if res and res.get("complete"):
                return
            beat = load(out + ".beat")
            if beat is None:
                log.seek(0)
                raise RuntimeError("concrete evaluation failed:\n" + log.read()[-3000:])
            # ended inside the code under verification: the same input once more
            job2 = os.path.join(self.tmp, "again.json")
            with open(job2, "w") as f:
                json.dump(dict(property=self.prop, check=beat["check"], seed=beat["seed"],
                               hints=beat["hints"]), f)
            p = spawn([PY_REPO, os.path.join("vc", "worker_con.py"), "replay", job2], log)
            try:
                rc = p.wait(timeout=60)
            except subprocess.TimeoutExpired:
                stop(p)
                rc = "no end"
            if rc == "no end" or (isinstance(rc, int) and rc < 0):
                what = "does not terminate within 60 s" if rc == "no end" else \
                    "interpreter ended by signal %d" % -rc
                self.con["violations"].append({
                    "check": beat["check"], "label": "terminates normally", "detail": what,
                    "seed": beat["seed"], "hints": beat["hints"], "guided": False})
                return
            skip.append(beat["tag"])
            if time.time() > end:
                return

    def watch(self, p, out, limit):
        t0 = time.time()
        while True:
            try:
                p.wait(timeout=1)
                return p.returncode
            except subprocess.TimeoutExpired:
                pass
            beat = load(out + ".beat")
            stuck = beat is not None and time.time() - beat["t"] > 40
            if stuck or time.time() - t0 > limit:
                stop(p)
                return None

    # --------------------------------------------------------------- verdict
    def run(self):
        self.so = None
        p = self.start_sym()
        try:
            self.so = ext.build(self.repo)
            self.concrete(self.cfg["con"])
            limit = self.t0 + self.cfg["total"]
            known = load_known(self.prop)
            if not all(is_known(v, known) for v in self.con["violations"]):
                limit = min(limit, time.time() + 30)
            try:
                p.wait(timeout=max(5, limit - time.time()))
            except subprocess.TimeoutExpired:
                self.notes.append("symbolic part stopped at the time limit")
        finally:
            stop(p)
        sym = load(self.sym_out)
        if sym is None:
            self.sym_log.seek(0)
            text = self.sym_log.read()[-2000:]
            self.notes.append("symbolic part gave no result: " + text)
            sym = {"results": [], "concrete_only": []}
        self.sym = sym
        self.failed = []
        for r in sym["results"]:
            for f in r.get("failed") or ():
                self.failed.append((r, f))
        if not self.con["violations"] and (self.failed or any(
                r.get("undecided") for r in sym["results"])):
            self.guided()
        return self.conclude()

    def guided(self):
        """Replay the verifier's counterexamples and search around them."""
        hints = {}
        for r, f in self.failed:
            hints.setdefault(r["check"], [])
            if f.get("inputs") and len(hints[r["check"]]) < 12:
                hints[r["check"]].append(f["inputs"])
        for r in self.sym["results"]:
            for h in r.get("hints") or ():
                hints.setdefault(r["check"], []).append(h)
            if r.get("undecided"):
                hints.setdefault(r["check"], [])
        left = self.t0 + self.cfg["total"] - time.time()
        only = list(hints)
        if only and left > 10:
            self.concrete(min(left, self.cfg["guided"]), hints, only, round_=1, factor=4)

    def conclude(self):
        known = load_known(self.prop)
        sym = self.sym["results"]
        proved, open_checks, bounded = [], [], []
        u = {r["check"]: r for r in sym if r["mode"] == "U"}
        b = {r["check"]: r for r in sym if r["mode"] == "B"}
        for n, r in u.items():
            reach_bad = [k for k, v in (r.get("reach") or {}).items() if v != "reached"]
            if r.get("undecided") or r.get("failed") or not r.get("obligations") or r.get("side") \
                    or reach_bad:
                open_checks.append(n)
                if reach_bad:
                    r.setdefault("undecided", []).append("not reached: %s" % reach_bad)
            else:
                proved.append(n)
        for n, r in b.items():
            if not r.get("failed") and r.get("obligations"):
                bounded.append(n)
        refuted = [(r, f) for r, f in self.failed if r["mode"] == "U" and
                   not r.get("undecided") and f["status"] in ("refuted", "differs") and
                   f["kind"] in ("post", "frame", "raises", "alias")]
        evals = sum(c["evaluations"] for c in self.con["checks"].values())
        obligations = sum(r.get("obligations", 0) for r in sym if r["mode"] == "U")
        new, old = [], []
        for v in self.con["violations"]:
            (old if is_known(v, known) else new).append(v)
        code = 0
        lines = []
        for k in known_lines(old, known):
            lines.append("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        if new:
            path = self.write_replay(new[0])
            lines.append("VIOLATION property=%s replay=%s" % (self.prop, path))
            lines.append("# %s: %s: %s" % (new[0]["check"], new[0]["label"], new[0]["detail"][:400]))
            code = 1
        elif refuted and not all(is_known_sym(r, f, known) for r, f in refuted):
            r, f = [x for x in refuted if not is_known_sym(x[0], x[1], known)][0]
            path = self.write_replay(dict(
                check=r["check"], label=f["label"], detail=f.get("detail"),
                obligation=f, verifier="refuted by %s in unbounded mode" % f["backend"],
                attempts=r.get("attempts")), failing=False)
            lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (self.prop, path))
            lines.append("# %s: %s" % (r["check"], f["label"]))
            code = 1
        elif not evals and not proved and not bounded:
            lines.append("# nothing could be decided")
            code = 2
        self.evidence(code, proved, open_checks, bounded, obligations, evals)
        for l in lines:
            print(l)
        for n in sorted(open_checks):
            r = u[n]
            why = (r.get("undecided") or []) + [f["label"] + " (" + f["status"] + ")" for f in r.get("failed") or ()] + \
                (r.get("side") or [])
            print("# %s: not proved unbounded: %s" % (n, "; ".join(map(str, why))[:500]))
        for i in self.con["interface"]:
            print("# %s: could not be evaluated: %s" % (i["check"], i["detail"][:300]))
        for n in self.notes:
            print("# " + n)
        print("# %s: %d of %d contracts proved for all inputs, %d by bounded stand-in, "
              "%d obligations, %d concrete evaluations, %.1f s" % (
                  self.prop, len(proved), len(u) + len(self.sym["concrete_only"]) + len(set(b) - set(u)),
                  len(bounded), obligations, evals, time.time() - self.t0))
        sys.stdout.flush()
        return code

    def write_replay(self, v, failing=True):
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        v = dict(v, property=self.prop)
        if failing:
            v["replay_cmd"] = "python3 check.py --replay <this file>"
            v["failed_obligations"] = [
                {k: f.get(k) for k in ("label", "status", "backend", "detail", "inputs")}
                for r, f in self.failed if r["check"] == v["check"]][:5]
        text = json.dumps(v, indent=1)
        path = os.path.join(d, "%s-%s.json" % (self.prop, hashlib.sha256(text.encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            f.write(text)
        return path

    def evidence(self, code, proved, open_checks, bounded, obligations, evals):
        import importlib
        mod = importlib.import_module("contracts." + self.prop.lower())
        sym = self.sym["results"]
        backends, kinds, fns, assumed, stats = {}, {}, {}, set(), {}
        for r in sym:
            if r["mode"] != "U":
                continue
            for k, v in (r.get("backends") or {}).items():
                backends[k] = backends.get(k, 0) + v
            for k, v in (r.get("kinds") or {}).items():
                kinds[k] = kinds.get(k, 0) + v
            for k, v in (r.get("functions") or {}).items():
                fns[k] = fns.get(k, 0) + v
            assumed |= set(r.get("assumed") or ())
            for k, v in (r.get("stats") or {}).items():
                stats[k] = round(stats.get(k, 0) + v, 3)
        level = level_of(self.prop)
        cov = {
            "obligations": obligations,
            "discharged": sum(r.get("discharged", 0) for r in sym if r["mode"] == "U"),
            "checker_cmd": "python3 check.py %s" % self.prop,
            "trusted_base": trusted(mod),
            "discharged_by": backends,
            "obligation_kinds": kinds,
            "functions_under_contract": sorted(k.replace("movement_primitives.", "") for k in fns),
            "contracts_proved_unbounded": sorted(proved),
            "contracts_not_proved": {r["check"]: ((r.get("undecided") or []) + [
                f["label"] for f in r.get("failed") or ()] + (r.get("side") or []))[:6]
                for r in sym if r["mode"] == "U" and r["check"] in open_checks},
            "bounded_standins": {r["check"]: {
                "bound": "array sizes fixed, loops unrolled %d times" % self.cfg["unroll"],
                "obligations": r.get("obligations", 0), "discharged": r.get("discharged", 0),
                "undecided": r.get("undecided") or []} for r in sym if r["mode"] == "B"},
            "loop_contracts": sorted({l for r in sym for l in (r.get("loops") or ())}),
            "reachability": {"%s: %s" % (r["check"], k): v for r in sym
                             if r["mode"] == "U" for k, v in (r.get("reach") or {}).items()},
            "solver": stats,
            "runtime_contract_evaluations": {k: {kk: vv for kk, vv in v.items() if kk != "samples"}
                                             for k, v in self.con["checks"].items()},
            "evaluations": evals,
            "distinct_nontrivial": sum(c["distinct_nontrivial"] for c in self.con["checks"].values()),
            "rule": "contract evaluated on the real code with inputs drawn from VERIF_SEED; an input "
                    "counts if at least one condition was evaluated on it and no other input is equal",
            "samples": [s for c in self.con["checks"].values() for s in c["samples"]][:6],
        }
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": cov, "assumptions": sorted(set(getattr(mod, "ASSUMPTIONS", [])) | COMMON | assumed),
              "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.con["violations"]) if code == 1 else 0}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        path = os.path.join(HERE, "evidence", self.prop + ".json")
        with open(path + ".new", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".new", path)


COMMON = {
    "machine floating point is treated as exact real arithmetic; the compiled code's doubles likewise",
    "numpy, math, scipy, numba and pytransform3d behave as their assumed contracts in vc/npshim.py and vc/ptshim.py say",
    "the Cython source is read through Cython's own parser and its typed variables are treated as mathematical values",
}


def trusted(mod):
    return ["vc/ (verification condition generator, term normaliser, loop rules)", "z3", "cvc5",
            "CPython (executes the rewritten source symbolically)",
            "Cython parser (vc/pyx2py.py prints its parse tree as Python)"] + list(
                getattr(mod, "TRUSTED", []))


def level_of(prop):
    m = load(os.path.join(HERE, "MANIFEST.json")) or {}
    for c in m.get("checks", ()):
        if c["property"] == prop:
            return c["level"]
    return "proof"


def load_known(prop):
    """Lines `known: property=C01 check=NAME label=TEXT | what fails`."""
    out = []
    try:
        with open(KNOWN) as f:
            for l in f:
                if l.startswith("known: property=%s " % prop):
                    head, _, what = l.strip().partition(" | ")
                    check = head.split("check=")[1].split(" ")[0]
                    label = head.split("label=")[1]
                    out.append(dict(check=check, label=label, what=what))
    except OSError:
        pass
    return out


def is_known(v, known):
    return any(v["check"] == k["check"] and v["label"] == k["label"] for k in known)


def is_known_sym(r, f, known):
    return any(r["check"] == k["check"] and f["label"].startswith(k["label"]) for k in known)


def known_lines(old, known):
    return sorted({k["what"] for v in old for k in known
                   if v["check"] == k["check"] and v["label"] == k["label"]})


def main():
    if sys.argv[1] == "--replay":
        return subprocess.call([PY_REPO, os.path.join(HERE, "vc", "worker_con.py"), "replay",
                                sys.argv[2]], env=ENV, cwd=HERE)
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    run = Run(prop, tier, seed, os.environ.get("VERIF_REPO", "/repo"))
    try:
        return run.run()
    except Exception as e:
        import traceback
        traceback.print_exc()
        print("# error: %s" % e)
        return 2
    finally:
        shutil.rmtree(run.tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
