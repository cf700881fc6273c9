"""checks that the tools are present (nothing has to be built: the verifier is pure Python)."""
import shutil, subprocess, sys
ok = True
for n in ("python3-vt", "lean", "z3"):
    if not shutil.which(n):
        print("missing", n)
        ok = False
sys.exit(0 if ok else 1)
