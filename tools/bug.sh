#!/bin/bash
# usage: bug.sh ID...      vets planted bugs seeded/ID: applies, builds, keeps the tests passing, demo 0 / nonzero;
#        bug.sh --run ID [CHECK...]   applies it to /repo, runs the checks (default: its property), undoes it
# Everything happens in a private mount namespace, on copies of /repo and /verif (in /tmp/w/wk.$WK).
if [ -z "$BUG_NS" ]; then
  W="/tmp/w/wk.${WK:-0}"; mkdir -p "$W/repo" "$W/verif" /tmp/w
  rsync -a --delete /repo/ "$W/repo/"
  rsync -a --delete --exclude target --exclude replays /verif/ "$W/verif/"
  export BUG_NS="$W"
  exec unshare -m bash -c 'mount --bind "$BUG_NS/repo" /repo && mount --bind "$BUG_NS/verif" /verif && cd /verif && exec bash tools/bug.sh "$@"' bug "$@"
fi
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH"
S="$(cd "$(dirname "$0")/../seeded" && pwd)"
V="$(cd "$(dirname "$0")/.." && pwd)"
if [ "$1" = --run ]; then
  id="$2"; shift 2
  [ -z "$(git -C /repo status --short)" ] || { echo "/repo not clean"; exit 2; }
  checks="${*:-$(python3 -c "import json;print(json.load(open('$S/$id/meta.json'))['property'])")}"
  git -C /repo apply "$S/$id/patch.diff" || exit 2
  trap 'git -C /repo checkout -q -- .' EXIT
  for c in $checks; do
    VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER=quick timeout 900 "$V/check.sh" "$c" > "$BUG_NS/run.out" 2>&1; rc=$?
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$c " "$BUG_NS/run.out"; then r=caught; else r="MISSED rc=$rc"; fi
    echo "$id $c: $r   $(grep -c '^VIOLATION' "$BUG_NS/run.out")"
  done
  exit 0
fi
# the vetting works in a private mount-free copy bound by path: build.sh and test.sh use /repo, so it is patched in place
for id in "$@"; do
  [ -z "$(git -C /repo status --short)" ] || { echo "/repo not clean"; exit 2; }
  d=$(mktemp -d /tmp/w/bug.XXXXXX); cp "$S/$id"/* "$d/"; rm -f "$d"/*.diff "$d"/meta.json
  (cd /repo && timeout 300 bash "$d/demo.sh" > "$d/out0" 2>&1); a=$?
  git -C /repo apply "$S/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  if bash /opt/vp/build.sh > "$d/build" 2>&1; then
    bash /opt/vp/test.sh "$d/t.json" > "$d/test" 2>&1
    t=$(python3 - "$d/t.json" <<'P'
import json,sys
t=json.load(open(sys.argv[1])); print("tests-ok" if not t["failed"] else "TESTS-FAIL %s"%t["failed"])
P
)
    (cd /repo && timeout 300 bash "$d/demo.sh" > "$d/out1" 2>&1); b=$?
  else t=NOBUILD; b=-; tail -30 "$d/build"; fi
  git -C /repo checkout -q -- .
  ok=BAD; [ "$a" = 0 ] && [ "$b" != 0 ] && [ "$b" != - ] && [ "$t" = tests-ok ] && ok=good
  echo "$id: $ok  clean=$a bug=$b $t"
  if [ $ok = BAD ]; then tail -15 "$d/out0"; echo ---; tail -15 "$d/out1"; fi
  rm -rf "/tmp/w/$(basename "$d")"
done
