#!/usr/bin/env python3
"""Makes and checks planted bugs: seed.py FILE.py [ID...]

FILE.py defines BUGS, a list of dicts: id, property, edits [(file, old, new)], pkg, demo
(body of a Go test file), needs, breaks; optionally race (demo needs -race), tags.
Each is applied to a scratch copy of /repo, built, tested with the existing tests, and its
demonstration is run on both trees. What passes is stored in /verif/seeded/ID. Then the
check of the property is run against the changed copy."""
import json, os, shutil, subprocess, sys, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.24.13/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
           GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOCACHE="/root/.cache/go-build", GOMODCACHE="/root/go/pkg/mod")
ENV.pop("GOROOT", None)
BASE = "90472f9"
DEMO = '''#!/bin/bash
# Runs the test beside this file against the code in the current directory.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.24.13/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOCACHE=/root/.cache/go-build GOMODCACHE=/root/go/pkg/mod
unset GOROOT
tmp=$(mktemp -d) || exit 99
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo.go.txt"}}' "$PWD" "$here" > "$tmp/overlay.json"
go test -vet=off -count=1 -timeout 120s%(flags)s -overlay "$tmp/overlay.json" -run '^TestDemo$' ./%(pkg)s
'''
def sh(cmd, cwd=None, env=ENV, timeout=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, "timeout"
def tests(wt):
    rc, out = sh("go test -json -vet=off -count=1 -parallel 1 -timeout 5m $(go list -e ./... | grep -v internal/query)", wt)
    ok = set()
    for l in out.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get("Action") == "pass" and e.get("Test"): ok.add(e["Package"] + "." + e["Test"])
    return ok
def scratch(name):
    wt = "/tmp/seedwt/" + name
    shutil.rmtree(wt, ignore_errors=True)
    os.makedirs("/tmp/seedwt", exist_ok=True)
    sh(["cp", "-a", "/repo", wt])
    sh("git checkout -q -- . && git clean -fdq", wt)
    return wt
def originals(wt):
    """removed lines that are not of the base commit"""
    _, diff = sh("git diff -U0", wt)
    bad, good, f = [], 0, None
    for l in diff.splitlines():
        if l.startswith("--- a/"): f = l[6:]
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
        if m and f:
            a, n = int(m.group(1)), int(m.group(2) or 1)
            for i in range(a, a + n):
                _, b = sh("git blame -l -L%d,%d HEAD -- %s" % (i, i, f), wt)
                if b.lstrip("^").startswith(BASE[:7]) : good += 1
                else: bad.append("%s:%d" % (f, i))
    return good, bad
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    base = None
    for b in ns["BUGS"]:
        if want and b["id"] not in want: continue
        d = os.path.join(VERIF, "seeded", b["id"])
        wt = scratch(b["id"])
        if base is None: base = tests(wt)
        err = None
        for f, old, new in b["edits"]:
            p = os.path.join(wt, f)
            s = open(p).read()
            if s.count(old) != 1: err = "%s: %d matches of %r" % (f, s.count(old), old); break
            open(p, "w").write(s.replace(old, new))
        if err: print(b["id"], "EDIT", err); continue
        _, patch = sh("git diff", wt)
        good, bad = originals(wt)
        rc, out = sh("gofmt -l internal *.go; go vet ./internal/... >/dev/null; go build ./...", wt)
        if rc: print(b["id"], "BUILD", out); continue
        ok = tests(wt)
        if base - ok: print(b["id"], "TESTS", sorted(base - ok)[:5]); continue
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(patch)
        if "script" in b:
            open(d + "/demo.sh", "w").write(b["script"])
        else:
            open(d + "/demo.go.txt", "w").write(b["demo"].lstrip("\n"))
            flags = (" -race" if b.get("race") else "") + (" -tags " + b["tags"] if b.get("tags") else "")
            open(d + "/demo.sh", "w").write(DEMO % {"pkg": b["pkg"], "flags": flags})
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        clean = scratch("clean")
        r0, o0 = sh(d + "/demo.sh", clean)
        r1, o1 = sh(d + "/demo.sh", wt)
        if r0 != 0 or r1 == 0:
            print(b["id"], "DEMO clean", r0, "patched", r1, (o0 if r0 else o1)[-1500:]); shutil.rmtree(d); continue
        res = []
        for p in b.get("checks", [b["property"]]):
            e = dict(ENV, VERIF_REPO=wt, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
            rc, out = sh([VERIF + "/run.sh", p], VERIF, e, 900)
            v = [l for l in out.splitlines() if l.startswith("case ") or "DATA RACE" in l or "process died" in l]
            res.append("%s:%s" % (p, "caught" if rc == 1 and ("VIOLATION property=%s " % p) in out else "MISSED rc=%d" % rc))
            if rc not in (0, 1): res.append(out[-800:])
            if v: res.append(v[0][:160])
        print(b["id"], "original lines", good, "others", bad, "|", *res, flush=True)
        shutil.rmtree(wt, ignore_errors=True)
main()
