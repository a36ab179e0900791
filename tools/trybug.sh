#!/bin/bash
# trybug.sh ID...: run the check of a planted bug's property against a scratch worktree of /repo with the bug applied.
# (Building, testing and the demo are validated by "vcheck --bug ID".)
for id in "$@"; do
d=/verif/seeded/$id; s=/tmp/trybug-$id
rm -rf "$s"; mkdir -p "$s/repo"; git -C /repo archive HEAD | tar x -C "$s/repo"
cp -a /repo/config.h "$s/repo/" 2>/dev/null; cp -a /repo/src/mac "$s/repo/src/"; cp /repo/include/amino/cblas_order.h "$s/repo/include/amino/" 2>/dev/null
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
(cd "$s/repo" && patch -s -p1 < "$d/patch.diff") || { echo "$id: PATCH DOES NOT APPLY"; continue; }
VSIM_REPO="$s/repo" VSIM_BUILD="$s/vb" timeout 900 python3 /verif/vsim.py check $prop quick > "$s/check.log" 2>&1; rc=$?
echo "$id ($prop): check exit $rc; $(grep -m1 '^violation' $s/check.log | cut -c1-180); $(tail -1 $s/check.log)"
[ -z "$KEEP" ] && rm -rf "$s"
done
