#!/bin/bash
# revertfix.sh COMMIT PROPERTY...: undo a fix of /repo, run checks, restore.
c=$1; shift
git -C /repo show $c | git -C /repo apply -R - || { echo "$c does not revert"; exit 1; }
for p in "$@"; do
  out=$(python3 /verif/bin/check.py $p quick 2>&1); rc=$?
  echo "$c $p rc=$rc $(echo "$out" | grep '^violation' | cut -c1-200)"
done
git -C /repo checkout -- .
