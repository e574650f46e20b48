#!/bin/bash
# tools/unfix.sh CHECK GREP : take back, one at a time, each fix commit whose subject matches GREP (in a scratch copy) and run CHECK on the result
set -u
chk=$1; pat=$2
w=$(mktemp -d /tmp/unfix.XXXXXX)
git clone -q /repo "$w/r"
cp -a /repo/test/Types "$w/r/test/" 2>/dev/null
git -C /repo log --format='%h %s' | grep ' fix: ' | grep -E "$pat" | while read -r h s; do
  git -C "$w/r" reset -q --hard; git -C "$w/r" config user.email a@b; git -C "$w/r" config user.name a
  if ! git -C "$w/r" revert -n "$h" >/dev/null 2>&1; then echo "CONFLICT $h $s"; git -C "$w/r" revert --abort 2>/dev/null; git -C "$w/r" reset -q --hard; continue; fi
  out=$(DST_REPO="$w/r" timeout 900 /verif/check.sh "$chk" quick 2>&1); rc=$?
  echo "rc=$rc $h $s :: $(echo "$out" | grep -a -m1 'violated:' | cut -c1-150)"
  git -C "$w/r" reset -q --hard
done
rm -rf "$w"
