#!/bin/bash
# catch.sh [id...] : runs the check of each seeded bug's property against a scratch copy with the patch.
V=$(cd "$(dirname "$0")/.." && pwd)
cd "$V"
ids="$@"; [ -n "$ids" ] || ids=$(ls seeded)
for i in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  d=$(mktemp -d /tmp/catch.XXXXXX); cp -a /repo "$d/repo"; cp -a "$V" "$d/verif"
  git -C "$d/repo" apply "$V/seeded/$i/patch.diff" || echo "does not apply"
  (cd "$d/verif" && FD_REPO="$d/repo" python3 check.py "$p" > "$d/out" 2>&1; rc=$?; 
   if [ $rc -eq 1 ] && grep -q "^VIOLATION property=$p" "$d/out"; then echo "caught $i ($p): $(grep -m1 '^  ' "$d/out" | cut -c1-200)"; else echo "MISSED $i ($p) rc=$rc: $(tail -1 "$d/out")"; grep undecided: "$d/out" | head -5; fi)
  rm -rf "$d"
done
