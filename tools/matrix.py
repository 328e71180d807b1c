#!/usr/bin/env python3
"""Runs the check of its property against every planted bug: matrix.py [--all] [ID...]
With --all every check is run against each. Prints a line per bug: which checks caught it."""
import json, os, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("-")]
ids = args or sorted(os.listdir(VERIF + "/seeded"))
props = [json.loads(l)["id"] for l in open(VERIF + "/properties.jsonl")]
for i in ids:
    d = VERIF + "/seeded/" + i
    meta = json.load(open(d + "/meta.json"))
    wt = "/tmp/matrixwt/" + i
    shutil.rmtree(wt, ignore_errors=True)
    os.makedirs("/tmp/matrixwt", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", wt], check=True)
    if subprocess.run(["git", "apply", d + "/patch.diff"], cwd=wt).returncode:
        print(i, "DOES NOT APPLY", flush=True)
        shutil.rmtree(wt)
        continue
    res = []
    for p in props if "--all" in sys.argv else [meta["property"]]:
        env = dict(os.environ, VERIF_REPO=wt, VERIF_TIER="quick")
        try:
            r = subprocess.run([VERIF + "/run.sh", p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=900)
        except subprocess.TimeoutExpired:
            res.append(p + ":timeout")
            continue
        if r.returncode == 1 and "VIOLATION property=" + p in r.stdout:
            res.append(p)
        elif r.returncode:
            res.append("%s:rc=%d" % (p, r.returncode))
    own = meta["property"] in res
    print(i, meta["property"], "caught" if own else "MISSED", " ".join(res), flush=True)
    shutil.rmtree(wt)
