#!/bin/bash
# Determinism self-test: the same runs with other numbers of workers and other hash seeds must give the same event-log hashes.
# usage: tools/determinism.sh [RUNS] [Cxx ...]
cd "$(dirname "$0")/.." || exit 2
n=${1:-48}; shift
props=${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22}
bad=0
d=$(mktemp -d /tmp/determ.XXXXXX)
for p in $props; do
  PYTHONHASHSEED=0 bash bin/check $p --runs "$n" --seconds 600 --jobs 8 --digests --keep-going > "$d/a" 2>&1
  PYTHONHASHSEED=77 bash bin/check $p --runs "$n" --seconds 600 --jobs 3 --digests --keep-going > "$d/b" 2>&1
  if diff <(grep -E '^(run|digest|[0-9]+ )' "$d/a" | sort) <(grep -E '^(run|digest|[0-9]+ )' "$d/b" | sort) > "$d/diff"; then
    echo "$p: $(grep -cE '^(run|digest|[0-9]+ )' "$d/a") identical"
  else
    echo "$p: DIFFERENT"; head -5 "$d/diff"; bad=1
  fi
done
rm -rf "$d"
exit $bad
