#!/bin/bash
# trybug.sh ID [PROP]: apply the planted bug to /repo, run its property's check, undo
d=/verif/seeded/$1
p=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
[ -z "$(git -C /repo status --porcelain)" ] || { echo dirty; exit 2; }
git -C /repo apply $d/patch.diff || exit 2
out=$(/verif/tools/check.sh $p quick 2>&1); rc=$?
git -C /repo checkout -- .
echo "$1 $p rc=$rc $(echo "$out" | grep -E 'VIOLATION|failing input' | cut -c1-220 | tail -2 | tr '\n' '|') nd=$(echo "$out" | grep -c 'not discharged')"
