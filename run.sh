#!/bin/bash
# Usage: run.sh PROPERTY [--replay FILE]
# Builds the monitor of the property against the working tree of /repo and runs it.
# VERIF_SEED and VERIF_TIER (quick, thorough) select the workload.
set -u
export VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_REPO="${VERIF_REPO:-/repo}"
export HOME=/root PATH=/opt/veriftools/go1.24.13/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOCACHE=/root/.cache/go-build GOMODCACHE=/root/go/pkg/mod GOSUMDB=off
unset GOROOT
prop=${1:?usage: run.sh PROPERTY [--replay FILE]}
case $prop in
  C09|C11|C12) cmd=maps;;
  C07|C08|C16|C17|C18|C19|C20|C21|C22|C31) cmd=sums;;
  C01|C02|C03|C04|C06|C10|C14|C15|C23|C25|C26|C28|C32) cmd=svc;;
  C13) cmd=querymon;;
  C05) cmd=race;;
  C24) cmd=demo;;
  C27|C29|C30) cmd=life;;
  *) echo "unknown property $prop" >&2; exit 2;;
esac
work=$(mktemp -d "${TMPDIR:-/tmp}/verif-$prop.XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
export VERIF_WORK="$work"
# The monitors are laid over the module as internal/verifmon, since everything in it is internal.
python3 - "$VERIF_DIR/mon" "$VERIF_REPO/internal/verifmon" > "$work/overlay.json" <<'P' || exit 2
import json, os, sys
src, dst = sys.argv[1:3]
rep = {}
for d, _, fs in os.walk(src):
    for f in fs:
        if f.endswith('.go'):
            p = os.path.join(d, f)
            rep[os.path.join(dst, os.path.relpath(p, src))] = p
json.dump({"Replace": rep}, sys.stdout)
P
cd "$VERIF_REPO" || exit 2
overlay="$work/overlay.json"
race=
if [ $cmd = race ]; then race=-race; export CGO_ENABLED=1 VERIF_RACE_LOG="$work/race.log"; fi
instr=()
case $prop in
  C09|C11|C12) instr=("$VERIF_REPO"/internal/{bufmap,incmap,seqlock});;
  C03|C04|C05|C06|C10) instr=("$VERIF_REPO"/internal/{bufmap,incmap,seqlock,storage,collation,server});;
  C32) mapfile -t instr < <(find "$VERIF_REPO/internal" -type d ! -path '*/internal/yield*' ! -path '*/internal/testutil*' ! -path '*/internal/verifmon*' | sort);;
esac
if [ ${#instr[@]} -gt 0 ]; then
  # The algorithms get a hook before each statement, too.
  mkdir "$work/instr"
  if (cd "$VERIF_DIR" && go run "$VERIF_DIR/tools/instr/main.go" "$work/instr" "${instr[@]}") > "$work/instr.json" &&
    python3 - "$work/overlay.json" "$work/instr.json" > "$work/both.json" <<'P' &&
import json, sys
o, i = [json.load(open(f)) for f in sys.argv[1:]]
o["Replace"].update(i)
json.dump(o, sys.stdout)
P
    go build $race -tags verif -overlay "$work/both.json" -o "$work/mon" ./internal/verifmon/$cmd 2>"$work/instr.log"; then
    overlay="$work/both.json"
  else
    echo "the algorithms are monitored without hooks before each statement" >&2
  fi
fi
if ! go build $race -tags verif -overlay "$overlay" -o "$work/mon" ./internal/verifmon/$cmd; then
  echo "the monitors do not build against $VERIF_REPO" >&2
  exit 2
fi
if [ $cmd = demo ] || [ $cmd = life ]; then
  go build -o "$work/starbow" . || exit 2
fi
[ -n "${VERIF_BUILD_ONLY:-}" ] && exit 0
cd "$VERIF_DIR" || exit 2
"$work/mon" "$@"
rc=$?
exit $rc
