#!/usr/bin/env python3-vt
"""seedrun.py [id prefixes]: run the check of each planted bug's property against a scratch clone of /repo with the patch applied"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
only = sys.argv[1:]
for d in sorted(os.listdir(HERE + "/seeded")):
    if only and not any(d.startswith(o) for o in only):
        continue
    W = "/tmp/seedrun-repo"
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", W], check=True)
    subprocess.run(["git", "-C", W, "apply", HERE + "/seeded/" + d + "/patch.diff"], check=True)
    p = json.load(open(HERE + "/seeded/" + d + "/meta.json"))["property"]
    q = subprocess.run(["python3-vt", "-m", "vf.cli", p], cwd=HERE, env=dict(os.environ, VF_REPO=W, PYTHONDONTWRITEBYTECODE="1", VERIF_SEED="1"), capture_output=True, text=True)
    ls = q.stdout.splitlines()
    v = [l for l in ls if l.startswith("VIOLATION")]
    fo = sorted({l.split(" ")[1].split("[")[0] for l in ls if l.startswith("FAILED-OBLIGATION")})
    print("%s | %s | %s | proof: %s | input: %s" % (d, p, "caught" if q.returncode == 1 and v else "MISSED (%d)" % q.returncode, ", ".join(fo) or "-", "no" if v and v[0].endswith("found") else "yes"), flush=True)
    shutil.rmtree(W, ignore_errors=True)
