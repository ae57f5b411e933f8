#!/bin/bash
# seedrun.sh ID...: is the planted bug caught by its property's check? (runs on a scratch copy through VF_REPO)
for id in "$@"; do
 p=${P:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
 w=/tmp/seedr_$id; rm -rf $w; mkdir -p $w; git -C /repo archive HEAD | tar x -C $w; (cd $w && git init -q . && git apply /verif/seeded/$id/patch.diff) || continue
 s=$(date +%s); (cd /verif && VF_EVID=/tmp/seedev VF_REPO=$w timeout 900 python3 check.py $p > /tmp/sr_$id.txt 2>&1); r=$?
 rm -rf $w
 echo "$id rc=$r $(($(date +%s)-s))s $(grep VIOLATION /tmp/sr_$id.txt) $(grep 'failed:' /tmp/sr_$id.txt | head -2 | cut -c1-250)"
done
