#!/bin/bash
# seed.sh ID: validates seeded/ID in a scratch copy of /repo (build, tests, demo)
# and, with "check" as second argument, runs the property's quick check with the
# patch applied to /repo, undoing it afterwards.
id=$1; d=/verif/seeded/$id
w=$(mktemp -d /tmp/seed.XXXXXX); trap 'rm -rf "$w"' EXIT
cp -a /repo/. $w/; cd $w || exit 2
bash $d/demo.sh >$w.out 2>&1 && echo "$id demo-clean ok" || { echo "$id DEMO FAILS ON CLEAN"; tail -20 $w.out; }
git apply $d/patch.diff || { echo "$id PATCH DOES NOT APPLY"; exit 1; }
go build ./... && go vet ./... >/dev/null 2>&1
go test ./... >$w.out 2>&1 && echo "$id tests pass" || { echo "$id TESTS FAIL"; grep -E "^(---|FAIL)" $w.out; }
bash $d/demo.sh >$w.out 2>&1 && echo "$id DEMO PASSES WITH BUG" || echo "$id demo-bug ok"
rm -f $w.out
if [ "$2" = check ]; then
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff && { (cd /verif && ./check.sh ${3:-$p} quick 2>&1 | grep -E "VIOLATION|KNOWN|PARTIAL|error" | head -5); echo "$id check done"; git -C /repo checkout -- .; }
fi
