"""Confirm a planted bug and store it under /verif/seeded.

python3 tools/plant.py FILE...   where FILE defines
  PROPERTY, NEEDS, BREAKS : str
  EDITS : list of (path under groco, old text, new text)
  DEMO  : python source, exits 0 on the unchanged tree, non-zero with the change
Confirms: lines removed are lines of the original commit, stable tests pass with the
change, the demo fails with it and passes without it.  Then runs the property's check.
"""
import json, os, runpy, subprocess, sys

# works on scratch copies, so that nothing else sees the change
REPO, VERIF, SCRATCH, BASE = "/tmp/plant-repo", "/verif", "/tmp/plant-verif", "f298089"
ENV = dict(os.environ, KERAS_BACKEND="jax", JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=REPO,
           GROCO_REPO=REPO, PYTHONHASHSEED="0")
SH = """#!/bin/bash
export KERAS_BACKEND=jax JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def run(*cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, env=ENV, **kw)


def revert():
    run("git", "-C", REPO, "checkout", "--", ".")


def plant(path, skip_check=False):
    name = os.path.basename(path)[:-3]
    ns = runpy.run_path(path)
    assert run("git", "-C", REPO, "status", "--porcelain").stdout == "", "dirty"
    base = {}
    try:
        for f, old, new in ns["EDITS"]:
            p = f"{REPO}/groco/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = run("git", "-C", REPO, "diff").stdout
        cur = None
        removed = 0
        for line in diff.splitlines():
            if line.startswith("--- a/"):
                cur = line[6:]
                base[cur] = run("git", "-C", REPO, "show", f"{BASE}:{cur}").stdout.splitlines()
            elif line.startswith("-") and not line.startswith("---"):
                removed += 1
                if line[1:] not in base[cur]:
                    print(name, "WARN not a base line:", line)
        if not removed:
            print(name, "WARN: removes no line")
        d = f"{VERIF}/seeded/{name}"
        os.makedirs(d, exist_ok=True)
        open(f"{d}/patch.diff", "w").write(diff)
        open(f"{d}/demo.py", "w").write(ns["DEMO"].lstrip())
        open(f"{d}/demo.sh", "w").write(SH)
        os.chmod(f"{d}/demo.sh", 0o755)
        meta = {"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}
        json.dump(meta, open(f"{d}/meta.json", "w"), indent=1)
        r = run("bash", f"{d}/demo.sh", cwd=REPO)
        patched = r.returncode
        if patched == 0:
            print(name, "DEMO PASSES WITH PATCH", r.stdout[-300:])
            return False
        print(name, "demo patched:", (r.stdout + r.stderr).strip().splitlines()[-1][:200])
        t = run("/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-n", "8", "tests", cwd=REPO)
        if t.returncode:
            print(name, "TESTS CATCH IT:", [x for x in t.stdout.splitlines() if x.startswith("FAILED")][:2])
            return False
        if not skip_check:
            c = run("./check", ns["PROPERTY"], "quick", cwd=SCRATCH)
            print(name, "check", ns["PROPERTY"], "rc", c.returncode, [l for l in c.stdout.splitlines() if "VIOLATION" in l][:2])
    finally:
        revert()
    r = run("bash", f"{d}/demo.sh", cwd=REPO)
    if r.returncode:
        print(name, "DEMO FAILS ON CLEAN TREE", (r.stdout + r.stderr)[-600:])
        return False
    print(name, "KEPT", flush=True)
    return True


for src, dst in (("/repo", REPO), (VERIF, SCRATCH)):
    run("rm", "-r", dst)
    run("cp", "-a", src, dst)
revert()
for a in sys.argv[1:]:
    try:
        ok = plant(a)
    except Exception as e:
        print(a, "ERROR", e, flush=True)
        ok = False
    if not ok:
        n = os.path.basename(a)[:-3]
        run("rm", "-r", f"{VERIF}/seeded/{n}")
