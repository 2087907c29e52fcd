#!/bin/bash
# Development aid: quiet.sh [-t tier] DIFF... applies each behaviour-preserving refactoring in
# quiet/ to a private copy of /repo (own mount namespace) and runs the checks named on its
# "# checks:" line (default: all); every one of them has to stay quiet.
V=$(cd "$(dirname "$0")/.." && pwd)
tier=quick; [ "$1" = -t ] && { tier=$2; shift 2; }
[ $# = 0 ] && set -- "$V"/quiet/*.diff
all=$(python3 -c "import json;print(*[c['property'] for c in json.load(open('$V/MANIFEST.json'))['checks']])")
for f in "$@"; do
  d=$(mktemp -d /dev/shm/verif-quiet-XXXXXX); mkdir "$d/repo" "$d/verif"
  git -C /repo archive HEAD | tar x -C "$d/repo"
  tar c -C "$V" --exclude=.git --exclude=seeded --exclude=evidence . | tar x -C "$d/verif"
  (cd "$d/repo" && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x && git apply "$f") || { echo "$f: does not apply"; rm -rf "$d"; continue; }
  checks=${CHECKS:-$(sed -n 's/^# checks: *//p' "$f" | head -1)}; [ "${checks:-all}" = all ] && checks=$all
  unshare -m bash -c '
    mount --bind "'$d'/repo" /repo && mount --bind "'$d'/verif" /verif || exit 3
    cd /repo && go build ./... && TMPDIR="'$d'" go test -count=1 ./... 2>&1 | grep -v "no test files" | grep -v ^ok
    cd /verif && for c in '"$checks"'; do o=$(./check.sh $c '$tier' 2>&1); r=$?; if [ $r = 0 ]; then echo "$(basename '$f') $c quiet"; else echo "$(basename '$f') $c rc=$r"; echo "$o" | tail -8 | cut -c1-600; fi; done'
  rm -rf "$d"
done
