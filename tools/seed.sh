#!/bin/bash
# seed.sh ID PROPS : with a planted change in /repo's working tree and seeded/ID/{demo.sh,meta.json}, records the patch,
# confirms build, demo and tests, runs the checks named, and undoes the change.
ID=$1; shift; S=/verif/seeded/$ID
cd /repo; git diff > $S/patch.diff; [ -s $S/patch.diff ] || { echo no change; exit 1; }
bash /opt/vp/build.sh > /tmp/seed.log 2>&1 && echo "build ok" || { echo "BUILD FAILS"; tail -5 /tmp/seed.log; }
timeout 100 bash $S/demo.sh > /tmp/seed.demo 2>&1; echo "demo with bug: $? (want nonzero) $(tail -1 /tmp/seed.demo | cut -c1-120)"
[ -n "$NOTEST" ] || { bash /opt/vp/test.sh /tmp/seed.json > /tmp/seed.tests 2>&1; tail -1 /tmp/seed.tests; }
for p in $*; do (cd /verif; node run.mjs $p | cut -c1-220 | tail -${LINES_:-4}); done
git checkout -- .; bash /opt/vp/build.sh
timeout 100 bash $S/demo.sh > /tmp/seed.demo 2>&1; echo "demo clean: $? (want 0) $(tail -1 /tmp/seed.demo | cut -c1-120)"
git status --short
