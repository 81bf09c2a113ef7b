#!/bin/bash
# runseeded.sh [ID...]: applies each planted bug to a scratch copy of the
# library and runs the check of its property against the copy.
here=$(cd "$(dirname "$0")/.." && pwd)
ids=("$@"); [ ${#ids[@]} -eq 0 ] && ids=($(ls "$here/seeded"))
for b in "${ids[@]}"; do
  w=$(mktemp -d /tmp/seedrun.XXXXXX)
  git clone -q /repo "$w/r" && git -C "$w/r" apply "$here/seeded/$b/patch.diff" || { echo "$b: patch does not apply"; continue; }
  p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$here/seeded/$b/meta.json")
  s=$SECONDS
  out=$(VERIF_REPO=$w/r VERIF_REPLAYS=$w/rep bash "$here/check.sh" "$p" "${TIER:-quick}" -noevidence 2>&1); rc=$?
  case "$rc:$out" in 1:*"VIOLATION property=$p "*) v=caught;; *) v=MISSED;; esac
  echo "$b $p $v rc=$rc $((SECONDS-s))s $(echo "$out" | grep -m1 VIOLATION)"
  rm -rf "$w"
done
