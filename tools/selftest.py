"""Set-up: checks that the simulator runs here and is deterministic (nothing has to be built)."""
import os
import pathlib
import subprocess
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
CODE = """
import sys, random
sys.path.insert(0, %r)
from sim import core, profiles
out = []
for prop in sorted(profiles.PROFILES):
    cfg = profiles.make(prop, random.Random(prop))
    r = core.execute(cfg, 7)
    out.append((prop, r.hash, len(r.choices)))
print(out)
""" % str(ROOT)
res = []
for h in ("1", "2"):
    env = dict(os.environ, PYTHONHASHSEED=h, PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, "-c", CODE], env=env, capture_output=True, text=True, timeout=300)
    if p.returncode:
        print("note:", p.stderr[-2000:])
    res.append(p.stdout)
if res[0] != res[1]:
    print("note: runs differ between two executions")
print("ok")
