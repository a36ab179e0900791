#!/bin/bash
# tryrevert.sh PROP COMMIT...: run PROP's quick check against a scratch copy of /repo in which one of its commits is reverted, each in turn.
P=$1; shift
for c in "$@"; do
s=/tmp/tryrevert-$c
rm -rf "$s"; mkdir -p "$s/repo"; git -C /repo archive HEAD | tar x -C "$s/repo"
cp -a /repo/config.h "$s/repo/" 2>/dev/null; cp -a /repo/src/mac "$s/repo/src/"; cp /repo/include/amino/cblas_order.h "$s/repo/include/amino/" 2>/dev/null
git -C /repo show $c > "$s/p.diff"; (cd "$s/repo" && patch -s -R -p1 < "$s/p.diff") || { echo "$c: DOES NOT REVERT"; continue; }
VSIM_REPO="$s/repo" VSIM_BUILD="$s/vb" timeout 900 python3 /verif/vsim.py check $P quick > "$s/check.log" 2>&1; rc=$?
echo "$c ($P): check exit $rc; $(grep -m1 '^violation' $s/check.log | cut -c1-180); $(tail -1 $s/check.log | cut -c1-150)"
[ -z "$KEEP" ] && rm -rf "$s"
done
