"""Plant a bug: usage plant.py ID PROP FILE.  FILE is python defining EDITS=[(path, old, new)], DEMO (python source), NEEDS, BREAKS, optional TESTS.
Confirms in a scratch copy that the bug passes the stable tests and that the demonstration tells the trees apart, then writes /verif/seeded/ID
and runs the property's check against the copy."""
import json, os, shutil, subprocess, sys, tempfile

PY = "/opt/venv/bin/python"


def sh(cmd, cwd, env=None, t=900):
    e = dict(os.environ, JAX_PLATFORMS="cpu", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", **(env or {}))
    r = subprocess.run(cmd, cwd=cwd, env=e, shell=True, capture_output=True, text=True, timeout=t)
    return r.returncode, r.stdout + r.stderr


def main():
    sid, prop, path = sys.argv[1:4]
    ns = {}
    exec(open(path).read(), ns)
    w = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    repo = os.path.join(w, "repo")
    try:
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns("__pycache__"))
        for f, old, new in ns["EDITS"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        patch = subprocess.run(["git", "diff"], cwd=repo, capture_output=True, text=True).stdout
        d = os.path.join("/verif/seeded", sid)
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(patch)
        open(d + "/demo.py", "w").write(ns["DEMO"])
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexport JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1\nPYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        c0, o0 = sh(f"bash {d}/demo.sh", "/repo")
        c1, o1 = sh(f"bash {d}/demo.sh", repo)
        print(f"demo clean rc={c0} patched rc={c1}")
        if c0 != 0:
            print(o0[-1500:])
        print("  patched says:", o1.strip().splitlines()[-1:] )
        if "--no-tests" not in sys.argv:
            c, o = sh(f"{PY} -m pytest -q -n 6 -x -p no:cacheprovider -p vp_seed --timeout=300 --ignore=tests/heap_test.py tests", repo, {"PYTHONPATH": "/opt/vp/env"})
            print("tests rc", c, o.strip().splitlines()[-4:])
        c, o = sh(f"{PY} -B -m xv.run {prop} quick", "/verif", {"XV_REPO": repo, "VERIF_SEED": "1", "XV_EVIDENCE": w})
        print("check rc", c)
        print("\n".join([l for l in o.splitlines() if l.startswith("VIOLATION") or "rror" in l][:6]))
        print(o[-600:])
    finally:
        shutil.rmtree(w)


main()
