"""concrete battery / search / replay:  run.py PROP --seed S --n N --budget SEC --out FILE | --replay FILE"""
import argparse
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np


def one(prop, case):
    try:
        return prop.run(json.loads(json.dumps(case)))
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        where = [f"{os.path.basename(f.filename)}:{f.name}" for f in tb if "rt1_model" in f.filename][-3:]
        if not where and not isinstance(ex, (AttributeError, ImportError)):
            if not any("/oracle/cases.py" not in f.filename and "/oracle/" not in f.filename for f in tb):
                raise
        return f"unexpected {type(ex).__name__}: {ex} (in {' > '.join(where)})"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--n", type=int, default=50)
    ap.add_argument("--budget", type=float, default=60)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--hints")
    a = ap.parse_args()
    import rt1_model
    src = os.path.realpath(rt1_model.__file__)
    assert src.startswith("/repo/") or os.environ.get("RT1_ANY"), src
    from oracle.cases import PROPS
    from oracle.gen import G
    prop = PROPS[a.prop]
    if a.replay:
        d = json.load(open(a.replay))
        m = one(prop, d["case"])
        print("REPLAY", "FAILS: " + m if m else "holds")
        sys.exit(1 if m else 0)
    t = time.time()
    res = {"prop": a.prop, "seed": a.seed, "cases": 0, "failure": None}
    cases = []
    if a.hints:
        cases = json.load(open(a.hints))
    for i in range(a.start, a.start + a.n + len(cases)):
        if time.time() - t > a.budget:
            break
        if cases:
            c = cases.pop(0)
        else:
            c = prop.gen(G(np.random.default_rng([a.seed, i])))
            c = json.loads(json.dumps(c))
        m = one(prop, c)
        res["cases"] += 1
        if m:
            res["failure"] = {"property": a.prop, "message": m, "case": c, "index": i, "seed": a.seed}
            break
    res["seconds"] = round(time.time() - t, 2)
    if a.out:
        json.dump(res, open(a.out, "w"))
    print(json.dumps({k: v for k, v in res.items() if k != "failure"}), res["failure"] and res["failure"]["message"])
    if res["failure"] and not a.out:
        print(json.dumps(res["failure"]["case"]))


if __name__ == "__main__":
    main()
