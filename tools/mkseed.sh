#!/bin/bash
# mkseed.sh ID KIT: package the working-tree diff of ${WT:-/tmp/wt2} as /verif/seeded/ID (demo.cpp/meta.json are written by hand)
ID=$1; KIT=$2; S=/verif/seeded/$ID
mkdir -p $S
git -C ${WT:-/tmp/wt2} diff > $S/patch.diff
[ -s $S/patch.diff ] || { echo "empty diff"; exit 1; }
if [ -n "$KIT" ]; then
	cp /verif/tools/seedkit/$KIT.sh $S/demo.sh
	tar czf $S/simvnx.tgz -C /verif --sort=name --mtime=@0 --owner=0 --group=0 $([ $KIT = demo_node ] && echo simvnx harness tools/build.py || echo simvnx)
fi
