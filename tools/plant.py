"""Make and test planted bugs.

plant.py make SPEC.py     write seeded/<id>/ for every entry of PLANTS after confirming them
plant.py catch [ID...]    run the check of each planted bug's property against it
"""
import difflib
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO = '#!/bin/bash\nPYTHONPATH="$PWD" exec {py} "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True,
                          timeout=timeout)


def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    only = set(sys.argv[3:])
    for p in ns["PLANTS"]:
        if only and p["id"] not in only:
            continue
        d = os.path.join(V, "seeded", p["id"])
        if os.path.exists(os.path.join(d, "patch.diff")) and not only:
            continue
        tmp = tempfile.mkdtemp(prefix="plant_")
        w = os.path.join(tmp, "repo")
        try:
            sh(f"cp -a /repo {w} && git -C {w} checkout -q -- .")
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, "demo.py"), "w") as f:
                f.write(p["demo"].lstrip("\n"))
            with open(os.path.join(d, "demo.sh"), "w") as f:
                f.write(DEMO.format(py=PY))
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            r0 = sh(f"bash {d}/demo.sh", cwd=w)
            for file, old, new in p["edits"]:
                path = os.path.join(w, "skillmodels", file)
                s = open(path, newline="").read()
                if "\r\n" in s:
                    old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
                assert s.count(old) == 1, (p["id"], file, s.count(old))
                open(path, "w", newline="").write(s.replace(old, new))
            diff = subprocess.run(["git", "diff", "--binary"], cwd=w, capture_output=True).stdout
            with open(os.path.join(d, "patch.diff"), "wb") as f:
                f.write(diff)
            r1 = sh(f"bash {d}/demo.sh", cwd=w)
            t = sh(f"PYTHONPATH={w} {PY} -m pytest -q -x -p no:cacheprovider skillmodels/tests "
                   f"2>&1 | tail -3", cwd=w)
            ok_tests = "failed" not in t.stdout and "190 passed" in t.stdout
            good = r0.returncode == 0 and r1.returncode != 0 and ok_tests
            print(p["id"], "OK" if good else "BAD", "demo", r0.returncode, r1.returncode,
                  "tests", t.stdout.strip().splitlines()[-1] if t.stdout else "?")
            if not good:
                print(r0.stderr[-600:], r1.stderr[-300:] if r1.returncode == 0 else "")
                shutil.rmtree(d)
                continue
            with open(os.path.join(d, "meta.json"), "w") as f:
                json.dump({"property": p["property"], "needs": p["needs"],
                           "what_it_breaks": p["breaks"]}, f, indent=1)
        finally:
            shutil.rmtree(tmp)


def catch(ids):
    ids = ids or sorted(os.listdir(os.path.join(V, "seeded")))
    for i in ids:
        d = os.path.join(V, "seeded", i)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        a = sh(f"git -C /repo apply {d}/patch.diff")
        try:
            if a.returncode:
                print(i, "does not apply", a.stderr)
                continue
            r = sh(f"timeout 600 python3 run.py {prop}", cwd=V)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(i, prop, "caught" if r.returncode == 1 and v else f"MISSED rc={r.returncode}",
                  (r.stdout.strip().splitlines() or [""])[0][:150], flush=True)
            if r.returncode not in (0, 1):
                print("   ", r.stdout[-300:], r.stderr[-300:])
        finally:
            sh("git -C /repo checkout -- .")


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2])
    else:
        catch(sys.argv[2:])
