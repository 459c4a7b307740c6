#!/bin/bash
# usage: WK=n mutate.sh OUT PART/PARTS FILE...   see mutate.py; works on copies in a private mount namespace
W="/tmp/w/wk.m${WK:-0}"; mkdir -p "$W/repo" "$W/verif"
rsync -a --delete /repo/ "$W/repo/"
rsync -a --delete --exclude target --exclude replays /verif/ "$W/verif/"
export BUG_NS="$W"
exec unshare -m bash -c 'mount --bind "$BUG_NS/repo" /repo && mount --bind "$BUG_NS/verif" /verif && cd /verif && exec python3 tools/mutate.py run "$@"' mut "$@"
