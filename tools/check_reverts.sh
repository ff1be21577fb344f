#!/bin/bash
# Reverts each "fix:" commit in a scratch copy of /repo and runs the check named in known_findings.txt on it.
# usage: tools/check_reverts.sh [commit...]
cd "$(dirname "$0")/.."
grep "^fixed:" known_findings.txt | sed 's/fixed: property=\(\S*\) \(\S*\).*/\1 \2/' | while read p c; do
    if [ $# -gt 0 ] && [[ " $* " != *" $c "* ]]; then continue; fi
    rm -rf /tmp/verif_revert; cp -a /repo /tmp/verif_revert
    if ! (cd /tmp/verif_revert && git revert --no-commit $c >/dev/null 2>&1); then
        echo "$p $c: cannot be reverted alone"; continue
    fi
    if VERIF_REPO=/tmp/verif_revert python3 run.py $p 2>&1 < /dev/null | grep -q "^VIOLATION"; then echo "$p $c: detected"; else echo "$p $c: MISSED"; fi
done
rm -rf /tmp/verif_revert
