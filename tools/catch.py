"""runs the checks against copies of /repo with the planted bugs: catch.py [--battery] [bug ids]   (development tool)"""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(V + "/seeded"))
checks = json.load(open(V + "/checks.json"))
for i in ids:
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    d = f"/tmp/catch/{i}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo/src", d + "/src")
    subprocess.run(["git", "apply", "--directory=", f"{V}/seeded/{i}/patch.diff"], cwd=d, check=True, env=dict(os.environ, GIT_DIR="/nonexistent"))
    if m["property"] not in checks:
        print(i, m["property"], "no check")
        continue
    e = dict(os.environ, RT1_REPO=d, RT1_ANY="1", PYTHONPATH=d + "/src", RT1_OUT=d + "/out")
    if "--battery" not in sys.argv:
        e["RT1_NO_BATTERY"] = "1"
    t = time.time()
    r = subprocess.run(["python3-vt", V + "/check.py", m["property"]], env=e, capture_output=True, text=True)
    lines = r.stdout.splitlines()
    f = [l for l in lines if l.startswith(("FAILED", "ERROR", "FAILING"))]
    print(i, m["property"], "rc", r.returncode, f"{time.time()-t:.0f}s", (lines[-1:] or [r.stderr[-300:]])[0][-60:], "|", (f or [""])[0][:int(os.environ.get("W","260"))], flush=True)
    shutil.rmtree(d, ignore_errors=True)
