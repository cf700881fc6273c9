"""makes a planted bug: plant.py SPEC.py   (development tool; not used by any check)

SPEC defines ID, PROPERTY, EDITS=[(file, old, new)], DEMO (python text), NEEDS, BREAKS. Writes /tmp/bugs/ID (a copy of the
repository with the change) and /verif/seeded/ID; runs the demo on both trees; with --tests also the stable tests."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/venv/mplconfig", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
SH = '#!/bin/bash\n# exit 0: the property holds\nd="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1\nexec /opt/venv/bin/python "$d/demo.py"\n'


def make(spec):
    g = {}
    exec(open(spec).read(), g)
    d = f"/tmp/bugs/{g['ID']}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(["git", "clone", "-q", "/repo", d + "/repo"], check=True)
    for f, old, new in g["EDITS"]:
        p = f"{d}/repo/src/rt1_model/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, "w").write(s.replace(old, new))
    out = f"{V}/seeded/{g['ID']}"
    os.makedirs(out, exist_ok=True)
    diff = subprocess.run(["git", "diff"], cwd=d + "/repo", capture_output=True, text=True, check=True).stdout
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/demo.sh", "w").write(SH)
    os.chmod(out + "/demo.sh", 0o755)
    open(out + "/demo.py", "w").write(g["DEMO"].lstrip())
    json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
    a = subprocess.run([out + "/demo.sh"], cwd="/repo", env=ENV, capture_output=True, text=True)
    b = subprocess.run([out + "/demo.sh"], cwd=d + "/repo", env=dict(ENV, PYTHONPATH=d + "/repo/src"), capture_output=True, text=True)
    print(g["ID"], "clean:", a.returncode, "bug:", b.returncode, (b.stdout + b.stderr).strip()[-150:].replace("\n", " // "))
    if a.returncode:
        print("   ", (a.stdout + a.stderr)[-600:])
    return g["ID"], a.returncode == 0 and b.returncode != 0


def tests(i):
    """the stable tests with the change"""
    d = f"/tmp/bugs/{i}"
    base = json.load(open("/opt/vp/BASELINE.json"))
    subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "--tb=line", "-n", "4", "--timeout=240",
                    "-o", "junit_family=xunit2", f"--junitxml={d}/junit.xml"], cwd=d + "/repo", env=dict(ENV, PYTHONPATH=d + "/repo/src"),
                   stdout=open(d + "/tests.log", "w"), stderr=subprocess.STDOUT)
    subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", d + "/out.json", f"junit:{d}/junit.xml"], stdout=subprocess.DEVNULL)
    return d


if __name__ == "__main__":
    for s in [a for a in sys.argv[1:] if not a.startswith("--")]:
        i, ok = make(s)
        if ok and "--tests" in sys.argv:
            tests(i)
