#!/usr/bin/env python3-vt
"""plant.py SPEC.py: confirm planted bugs in a scratch copy and keep them under /verif/seeded.
SPEC.py defines BUGS = [dict(id, property, file, edits=[(old, new)], needs, breaks, demo)], demo = python source (exit/raise on failure)."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plant"
ENV = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0")
ENV.pop("PYTHONPATH", None)
DEMO = '#!/bin/bash\n# exit 0 when the property holds, 1 when it is broken (run with the repository as the working directory)\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'


def sh(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = set(sys.argv[2:])
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable_pass", [])) if False else None
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        d = os.path.join(HERE, "seeded", b["id"])
        if os.path.exists(d) and not only:
            continue
        shutil.rmtree(W, ignore_errors=True)
        subprocess.run(["git", "clone", "-q", "/repo", W], check=True)
        for f, old, new in b["edits"]:
            p = os.path.join(W, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "EDIT MATCHES", s.count(old), f, repr(old[:60]))
                break
            open(p, "w").write(s.replace(old, new))
        else:
            diff = sh(["git", "diff"], W).stdout
            demo = os.path.join("/tmp", "plant-demo")
            shutil.rmtree(demo, ignore_errors=True)
            os.makedirs(demo)
            open(demo + "/demo.py", "w").write(b["demo"].lstrip("\n"))
            open(demo + "/demo.sh", "w").write(DEMO)
            r0 = sh(["bash", demo + "/demo.sh"], "/repo")
            r1 = sh(["bash", demo + "/demo.sh"], W)
            if r0.returncode or not r1.returncode:
                print(b["id"], "DEMO unchanged=%d patched=%d" % (r0.returncode, r1.returncode), (r0.stderr or r1.stdout)[-500:])
                continue
            t = sh(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-n", os.environ.get("PLANT_N", "8"), "-p", "no:cacheprovider", "--timeout=300"], W)
            tail = t.stdout.strip().splitlines()[-1]
            if t.returncode:
                print(b["id"], "TESTS", tail, [l for l in t.stdout.splitlines() if l.startswith("FAILED")][:3])
                continue
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            open(d + "/patch.diff", "w").write(diff)
            for n in ("demo.py", "demo.sh"):
                shutil.copy(os.path.join(demo, n), d)
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            print(b["id"], "kept:", tail)
    shutil.rmtree(W, ignore_errors=True)


main()
