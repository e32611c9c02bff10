#!/bin/bash
# Run checks against a scratch copy of /repo with a change applied.
#   tools/mut.sh PATCH|- CHECK...      (PATCH: a diff; "-": a python script on stdin, run in src/frequenz/channels)
set -e
D=$(mktemp -d /tmp/mut.XXXXXX)
trap 'rm -rf "$D"' EXIT
cp -a /repo/src "$D/src"
if [ "$1" = - ]; then (cd "$D/src/frequenz/channels" && python3 -); elif [ "${1##*.}" = rev ]; then (cd "$D" && patch -s -p1 -R < "$1"); else (cd "$D" && patch -s -p1 < "$1"); fi
shift
for c in "$@"; do
  echo "== $c"
  (cd /verif && VP_REPO=$D VP_EVIDENCE=$D/ev /opt/venv/bin/python -B -m vp.run "$c") || true
  if [ -n "$SHOW" ] && [ -f "$D/ev/replay/$c.json" ]; then tail -c 1500 "$D/ev/replay/$c.json"; fi
done
