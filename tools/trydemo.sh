#!/bin/bash
# trydemo.sh ID...: runs the demos of planted bugs (the compiled kind) on a clean and a patched copy of /repo.
W=/tmp/sb/repo; S=/verif/seeded
git -C $W fetch -q origin && git -C $W reset -q --hard origin/HEAD && git -C $W clean -qfd
for id in "$@"; do d=$(mktemp -d /tmp/sb/demo.XXXXXX); cp $S/$id/* $d; sed -i "s#/repo#$W#g" $d/demo.sh
 bash $d/demo.sh > $d/o1 2>&1; a=$?; git -C $W apply $S/$id/patch.diff || echo NOAPPLY; bash $d/demo.sh > $d/o2 2>&1; b=$?; git -C $W checkout -q -- .
 echo "$id clean=$a patched=$b :: $(tail -1 $d/o1) :: $(tail -1 $d/o2)"; rm -rf "$d"; done
