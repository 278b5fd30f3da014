#!/bin/bash
# trybug.sh ID CHECK...: apply a planted bug, build, test, run its demo and the given checks, undo
id=$1; shift
s=/verif/seeded/$id
git -C /repo diff --quiet || { echo "repo not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/bugbuild.log 2>&1
(cd /repo && bash $s/demo.sh >/tmp/demo0.log 2>&1); echo "demo on unchanged tree: $?"
git -C /repo apply $s/patch.diff || exit 2
bash /opt/vp/build.sh >/tmp/bugbuild.log 2>&1; echo "build: $?"
bash /opt/vp/test.sh /tmp/bugtest.json >/tmp/bugtest.log 2>&1; cat /tmp/bugtest.json; echo
(cd /repo && bash $s/demo.sh >/tmp/demo1.log 2>&1); echo "demo with bug: $? $(tail -1 /tmp/demo1.log | cut -c1-150)"
for c in "$@"; do python3-vt /verif/check.py $c 2>&1 | grep -v '^built' | tail -2 | cut -c1-200; done
