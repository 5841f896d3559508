#!/bin/bash
# trybug.sh NAME [PROP...]: apply seeded/NAME to /repo, run the property's quick check (or the given ones), undo. Development only.
cd /verif; n=$1; shift
props=${*:-$(python3 -c "import json;print(json.load(open('seeded/$n/meta.json'))['property'])")}
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is dirty"; exit 2; }
git -C /repo apply /verif/seeded/$n/patch.diff || exit 2
for p in $props; do o=$(timeout 900 bash check.sh $p quick 2>&1); r=$?; echo "$n $p exit=$r $(echo "$o" | grep VIOLATION | head -1 | cut -c1-200)"; done
git -C /repo checkout -- .
