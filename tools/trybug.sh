#!/bin/bash
# trybug.sh <seed id> [check id]: applies the planted bug to /repo, runs the check of its property (or the given one), undoes it
V="$(cd "$(dirname "$0")/.." && pwd)"
S="$V/seeded/$1"
P="${2:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}"
git -C /repo apply "$S/patch.diff" || exit 3
trap 'git -C /repo checkout -q -- .' EXIT
"$V/check.sh" "$P" --tier quick > /tmp/trybug_$1_$P.log 2>&1
rc=$?
echo "$1 $P exit=$rc $(grep -c '^VIOLATION' /tmp/trybug_$1_$P.log) violations; $(grep 'violated in' /tmp/trybug_$1_$P.log | head -1 | cut -c1-160); $(tail -1 /tmp/trybug_$1_$P.log | cut -c1-80)"
