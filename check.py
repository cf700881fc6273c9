#!/usr/bin/env python3-vt
"""Check of one property:  check.py ID [--tier quick|thorough]

1. loads /repo/src/rt1_model, executes it symbolically and discharges the obligations of the contracts (pyvc),
2. checks the lemmas the contracts use (Lean),
3. runs the concrete battery on the real code (bounded, supplementary; also the search for failing inputs).
Exit 0: everything was discharged. Exit 1 with a VIOLATION line otherwise."""
import argparse
import concurrent.futures as cf
import glob
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REAL = "/opt/venv/bin/python"
OUT = os.environ.get("RT1_OUT", HERE)      # (development: other places for the output)
T0 = time.time()


def real_env():
    e = dict(os.environ)
    e.update(MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    e.setdefault("MPLCONFIGDIR", "/opt/venv/mplconfig")
    return e


class Limit(BaseException):
    """not an Exception: the verified code cannot catch it"""


BAD = mp.get_context("fork").Value("i", 0)      # units with obligations that were not discharged


def run_unit(args):
    pid, tier, i, limit = args
    limit = min(limit, (420 if tier == "quick" else 7200) - (time.time() - T0))
    if BAD.value >= 8 or limit < 1:
        return {"unit": f"{pid} unit {i}", "paths": 0, "secs": 0, "functions": [], "contracts": [], "assume": [], "z3": {}, "decisions": 0,
                "files": {}, "obligations": [{"name": f"unit {i}: not run", "status": "unknown", "by": "engine", "hint": None, "secs": 0,
                                              "detail": "not run: other units failed" if limit >= 1 else "not run: time limit of the check"}]}
    r = run_unit_(pid, tier, i, limit)
    if any(o["status"] != "proved" for o in r["obligations"]):
        with BAD.get_lock():
            BAD.value += 1
    return r


def run_unit_(pid, tier, i, limit):
    sys.setrecursionlimit(20000)
    signal.signal(signal.SIGALRM, lambda *a: (_ for _ in ()).throw(Limit("time limit of the unit")))
    signal.alarm(max(1, int(limit)))
    try:
        u = importlib.import_module("contracts." + pid.lower()).units(tier)[i]
        r = u.run()
    except BaseException as e:
        r = {"unit": f"{pid} unit {i}", "paths": 0, "secs": 0, "functions": [], "contracts": [], "assume": [], "z3": {}, "decisions": 0,
             "files": {}, "obligations": [{"name": f"unit {i}: verifier", "status": "unknown", "by": "engine", "hint": None, "secs": 0,
                                           "detail": f"{type(e).__name__}: {e}"}]}
    signal.alarm(0)
    return r


def battery_on(info):
    return info.get("battery", True) and not os.environ.get("RT1_NO_BATTERY")


class Battery:
    """processes that run the concrete battery on the real code."""

    def __init__(self, pid, seed, procs, budget, n=100000, hints=None, offset=0):
        self.dir = tempfile.mkdtemp(prefix="rt1b_")
        self.ps = []
        for j in range(procs):
            out = os.path.join(self.dir, f"{j}.json")
            cmd = [REAL, os.path.join(HERE, "oracle", "run.py"), pid, "--seed", str(seed), "--n", str(n), "--budget", str(budget),
                   "--start", str(offset + j * 1000000), "--out", out]
            if hints and j == 0:
                h = os.path.join(self.dir, "hints.json")
                json.dump(hints, open(h, "w"))
                cmd += ["--hints", h]
            err = open(os.path.join(self.dir, f"{j}.err"), "w")
            self.ps.append((subprocess.Popen(cmd, env=real_env(), stdout=subprocess.DEVNULL, stderr=err, cwd=self.dir), out))
        self.limit = time.time() + budget * 2 + 90

    def result(self):
        """(cases, first failure, errors)"""
        n, fail, errs = 0, None, []
        for p, out in self.ps:
            try:
                p.wait(max(1, self.limit - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                errs.append("battery: time limit")
                continue
            if p.returncode != 0 or not os.path.exists(out):
                errs.append("battery: " + open(out[:-5] + ".err").read()[-1500:])
                continue
            d = json.load(open(out))
            n += d["cases"]
            if d["failure"] and fail is None:
                fail = d["failure"]
        shutil.rmtree(self.dir, ignore_errors=True)
        return n, fail, errs


def replay(case_file):
    r = subprocess.run([REAL, os.path.join(HERE, "oracle", "run.py"), json.load(open(case_file))["property"], "--replay", case_file],
                       env=real_env(), capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr).strip()


OK_AXIOMS = {"propext", "Classical.choice", "Quot.sound"}


def lemma_run(name):
    """compiles a Lean file of /verif/lemmas in a scratch directory; requires that it leaves nothing unproved and prints the
    axioms of its theorems, which may only be those of Lean itself."""
    t = time.time()
    d = tempfile.mkdtemp(prefix="rt1l_")
    try:
        shutil.copy(os.path.join(HERE, "lemmas", name + ".lean"), d)
        r = subprocess.run(["lean", name + ".lean"], cwd=d, capture_output=True, text=True, timeout=600)
        txt, out = open(os.path.join(d, name + ".lean")).read(), r.stdout + r.stderr
        bad = [w for w in ("sorry", "admit", "axiom ", "native_decide", "implemented_by", "unsafe ") if w in txt]
        axioms = [x.strip() for m in re.findall(r"depends on axioms: \[([^\]]*)\]", out) for x in m.split(",")]
        bad += [x for x in axioms if x not in OK_AXIOMS]
        thms = re.findall(r"^#print axioms (\S+)", txt, re.M)
        ok = r.returncode == 0 and not bad and len(thms) >= 1 and "error" not in out and "sorry" not in out
        return {"lemma": name, "theorems": thms, "ok": ok, "secs": round(time.time() - t, 2), "out": out[-3000:] + " ".join(bad)}
    except Exception as e:
        return {"lemma": name, "theorems": [], "ok": False, "secs": 0, "out": f"{type(e).__name__}: {e}"}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    pid, tier = a.id, a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module("contracts." + pid.lower())
    info = json.load(open(os.path.join(HERE, "checks.json")))[pid]
    units = mod.units(tier)
    quick = tier == "quick"
    bat = None
    if battery_on(info):
        bat = Battery(pid, seed, 2 if quick else 4, info.get("budget", 20) if quick else 240)
    limit = 200 if quick else 1200
    ctx = mp.get_context("fork")
    lemmas = list(getattr(mod, "LEMMAS", ()))
    with cf.ThreadPoolExecutor(2) as tp:
        lfut = [tp.submit(lemma_run, n) for n in lemmas]
        with cf.ProcessPoolExecutor(6 if quick else 6, mp_context=ctx) as ex:
            res = list(ex.map(run_unit, [(pid, tier, i, limit) for i in range(len(units))]))
        lres = [f.result() for f in lfut]
    n_bat, fail, errs = bat.result() if bat else (0, None, [])
    obls = [(r["unit"], o) for r in res for o in r["obligations"]]
    bad = [(u, o) for u, o in obls if o["status"] != "proved"]
    bad += [("lemma " + l["lemma"], {"name": "lemma " + l["lemma"], "status": "unknown", "by": "lean", "detail": l["out"], "hint": None, "secs": 0})
            for l in lres if not l["ok"]]
    known, kn_msgs = known_findings(pid)
    searched = 0
    if bad and fail is None and battery_on(info):
        hints = []
        f = getattr(mod, "hints", None)
        if f:
            try:
                hints = f(bad)
            except Exception:
                hints = []
        b2 = Battery(pid, seed + 7, 8, max(20, min(150, 620 - (time.time() - T0))) if quick else 400, hints=hints, offset=500000)
        searched, fail, e2 = b2.result()
        errs += e2
    write_evidence(pid, tier, seed, mod, info, res, lres, obls, bad, n_bat, searched, fail, errs, known)
    for m in kn_msgs:
        print(m)
    if fail is None and not bad and not errs:
        print(f"{pid}: {len(obls)} obligations discharged on {sum(r['paths'] for r in res)} paths, battery {n_bat} cases, "
              f"{time.time() - T0:.1f} s")
        return 0
    os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
    data = {"property": pid, "tier": tier,
            "failed_obligations": [{"unit": u, **o} for u, o in bad][:40]}
    if fail is not None:
        data.update(case=fail["case"], message=fail["message"])
        data["replay_cmd"] = f"{REAL} {HERE}/oracle/run.py {pid} --replay <this file>"
    if errs:
        data["errors"] = errs
    h = hashlib.md5(json.dumps(data, sort_keys=True, default=str).encode()).hexdigest()[:10]
    path = os.path.join(OUT, "replays", f"{pid}_{h}.json")
    json.dump(data, open(path, "w"), indent=1, default=str)
    for u, o in bad[:6]:
        print(f"FAILED OBLIGATION {u} :: {o['name']} ({o['status']}) {o['detail'][:400]}")
    for e in errs[:3]:
        print("ERROR", e[-600:])
    if fail is not None:
        print("FAILING INPUT", fail["message"][:600])
        print(f"VIOLATION property={pid} replay={path}")
    else:
        print(f"VIOLATION property={pid} replay={path} no-failing-input-found")
    return 1


def known_findings(pid):
    """listed findings of this property: replayed on the real code; a line is printed while they still fail."""
    f = os.path.join(HERE, "known_findings.json")
    msgs, out = [], []
    if os.path.exists(f):
        for k in json.load(open(f))["findings"]:
            if k["property"] != pid:
                continue
            r = subprocess.run([REAL, os.path.join(HERE, "oracle", k["replay"])], env=real_env(), capture_output=True, text=True, timeout=300)
            out.append({**k, "still_fails": r.returncode == 1})
            if r.returncode == 1:
                msgs.append(f"KNOWN-FINDING: property={pid} {k['what']}")
    return out, msgs


def write_evidence(pid, tier, seed, mod, info, res, lres, obls, bad, n_bat, searched, fail, errs, known):
    by = {}
    for _, o in obls:
        if o["status"] == "proved":
            by[o["by"]] = by.get(o["by"], 0) + 1
    for l in lres:
        if l["ok"]:
            by["lean"] = by.get("lean", 0) + len(l["theorems"])
    files = {}
    for r in res:
        files.update(r.get("files") or {})
    cov = {
        "obligations": len(obls) + sum(len(l["theorems"]) for l in lres), "discharged": sum(by.values()), "back_ends": by,
        "checker_cmd": f"python3-vt /verif/check.py {pid} --tier {tier}",
        "trusted_base": info.get("trusted", []) + TRUSTED,
        "units": [{"unit": r["unit"], "paths": r["paths"], "obligations": len(r["obligations"]), "secs": r["secs"],
                   "z3": r["z3"], "assume": r["assume"], "bounded": r.get("bounded")} for r in res],
        "functions_under_contract": sorted({c for r in res for c in r["contracts"]}),
        "functions_executed_symbolically": sorted({f for r in res for f in r["functions"]}),
        "paths": sum(r["paths"] for r in res),
        "solver_seconds": round(sum(r["z3"].get("z3_time", 0) for r in res), 2),
        "z3_queries": sum(r["z3"].get("z3_queries", 0) for r in res), "z3_unknown": sum(r["z3"].get("unknown", 0) for r in res),
        "lemmas": lres, "sources": files,
        "samples": [f"{u}: {o['name']} [{o['by']}]" for u, o in obls[:5]],
        "bounded_battery": {"label": "bounded, not counted as proved", "cases_on_real_code": n_bat, "search_cases": searched},
        "failed": [{"unit": u, **o} for u, o in bad][:40], "errors": errs, "known_findings": known,
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    ass = sorted({x for r in res for x in r["assume"]}) + info.get("assumptions", [])
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": info.get("level", "proof"), "coverage": cov, "assumptions": ass,
               "wall_s": round(time.time() - T0, 2), "violations": (1 if fail is not None or bad else 0)},
              open(os.path.join(OUT, "evidence", f"{pid}.json"), "w"), indent=1, default=str)


TRUSTED = [
    "contracts of numpy, sympy, symengine, scipy and the standard library (pyvc/stubs.py, pyvc/model.py)",
    "Python semantics as implemented by CPython 3.12 for the instrumented source and the symbolic values (pyvc/values.py, pyvc/runtime.py)",
    "machine arithmetic treated as mathematical reals / integers; decimal literals read exactly",
    "normal form of the term language (pyvc/terms.py) and z3 " "4.x",
]

if __name__ == "__main__":
    rc = 1
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        pid = sys.argv[1] if len(sys.argv) > 1 else "?"
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        p = os.path.join(OUT, "replays", f"{pid}_error.json")
        json.dump({"property": pid, "error": traceback.format_exc()}, open(p, "w"))
        print(f"VIOLATION property={pid} replay={p} no-failing-input-found")
    sys.exit(rc)
