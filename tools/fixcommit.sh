#!/bin/bash
# fixcommit.sh MESSAGE: build and test /repo, then commit the working tree as a fix.
set -e
bash /opt/vp/build.sh > /tmp/fix-build.log 2>&1 || { tail -30 /tmp/fix-build.log; exit 1; }
bash /opt/vp/test.sh /tmp/fix-test.json > /tmp/fix-test.log 2>&1 || { tail -30 /tmp/fix-test.log; exit 1; }
if grep -q FAIL /tmp/fix-test.log; then grep -A5 -E 'FAIL|^[<>]' /tmp/fix-test.log | head -60; exit 1; fi
[ $(grep -c ^PASS /tmp/fix-test.log) = 33 ] || { echo "not 33 passed"; exit 1; }
cd /repo && git add -u && git commit -qm "$1" && git log --oneline | head -1
