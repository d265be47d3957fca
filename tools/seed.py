"""Maintains /verif/seeded from the definitions in tools/seeds.py (development aid; no check uses it).

seed.py make ID...     write patch.diff, demo.sh, demo.py, meta.json
seed.py confirm ID...  in a scratch copy: builds, stable tests pass, demo passes without and fails with the patch
seed.py catch ID...    run the quick check of the bug's property on a scratch copy with the patch
"""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = os.environ.get("SCRATCH", "/tmp/w")
DEMO = '''#!/bin/bash
# Run with cwd /repo. Exit 0: the behaviour is right; 1: it is broken.
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
exec "$PY" "$D/demo.py"
'''


def copy():
  os.makedirs(SCRATCH, exist_ok=True)
  d = tempfile.mkdtemp(prefix="seed", dir=SCRATCH)
  subprocess.run(["git", "clone", "-q", "/repo", d + "/r"], check=True)
  return d


def make(i, s):
  d = copy()
  try:
    for f, old, new in s["edits"]:
      p = d + "/r/haiku/" + f
      t = open(p).read()
      assert t.count(old) == 1, (i, f, t.count(old), old)
      open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", d + "/r", "diff"], capture_output=True, text=True, check=True).stdout
    out = VERIF + "/seeded/" + i
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/demo.sh", "w").write(DEMO)
    os.chmod(out + "/demo.sh", 0o755)
    open(out + "/demo.py", "w").write(s["demo"].lstrip("\n"))
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(out + "/meta.json", "w"), indent=1)
  finally:
    shutil.rmtree(d)


def demo(i, cwd):
  return subprocess.run(["bash", VERIF + "/seeded/" + i + "/demo.sh"], cwd=cwd, capture_output=True, text=True, timeout=300)


def confirm(i, s):
  d = copy()
  try:
    r = d + "/r"
    a = demo(i, r)
    subprocess.run(["git", "-C", r, "apply", VERIF + "/seeded/" + i + "/patch.diff"], check=True)
    b = demo(i, r)
    t = open("/opt/vp/test.sh").read().replace("/repo", r)
    open(d + "/test.sh", "w").write(t)
    subprocess.run(["bash", d + "/test.sh", d + "/out.json"], capture_output=True)
    res = json.load(open(d + "/out.json"))
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    passed = set(res.get("passed", []))
    lost = sorted(stable - passed)
    ok = a.returncode == 0 and b.returncode != 0 and not lost
    print(i, "CONFIRMED" if ok else "NOT CONFIRMED", "demo clean=%d patched=%d lost=%d %s" % (a.returncode, b.returncode, len(lost), lost[:3]))
    if a.returncode:
      print((a.stdout + a.stderr)[-1500:])
    else:
      print("   ", (b.stdout + b.stderr).strip().splitlines()[-1:])
    return ok
  finally:
    shutil.rmtree(d)


def catch(i, s, prop=None):
  d = copy()
  try:
    r = d + "/r"
    subprocess.run(["git", "-C", r, "apply", VERIF + "/seeded/" + i + "/patch.diff"], check=True)
    p = subprocess.run(["python3", VERIF + "/mc/run.py", prop or s["property"]], env=dict(os.environ, VERIF_REPO=r), capture_output=True, text=True)
    out = (p.stdout + p.stderr).strip().splitlines()
    print(i, prop or s["property"], "CAUGHT" if p.returncode == 1 else "MISSED rc=%d" % p.returncode)
    print("    " + "\n    ".join(l[:300] for l in out[-4:]))
  finally:
    shutil.rmtree(d)


if __name__ == "__main__":
  from seeds import SEEDS
  ids = sys.argv[2:] or list(SEEDS)
  for i in ids:
    globals()[sys.argv[1]](i, SEEDS[i])
