#!/bin/bash
# tools/seedcheck.sh [-a] [id ...]: apply each planted bug to /repo, run the check of its property
# (-a: every check), undo. Prints caught/missed per check.
cd "$(dirname "$0")/.." || exit 2
all=
[ "$1" = -a ] && { all=1; shift; }
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean" >&2; exit 2; }
trap 'git -C /repo checkout -- .' EXIT
ids=("$@"); [ $# = 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
    props=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "seeded/$id/meta.json")
    [ -n "$all" ] && props="$(python3 -c 'import json;[print(c["property_id"] if "property_id" in c else c["property"]) for c in json.load(open("MANIFEST.json"))["checks"]]')"
    git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
    res=
    for p in $props; do
        out=$(timeout 900 ./check.sh "$p" quick 2>&1); rc=$?
        if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " <<<"$out"; then res="$res +$p"; elif [ $rc != 0 ]; then res="$res ?$p($rc)"; else res="$res -$p"; fi
    done
    git -C /repo checkout -- .
    echo "$id:$res"
done
