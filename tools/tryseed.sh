#!/bin/bash
# Development helper: tryseed.sh ID [--notest] — validates one planted bug in a private copy of /repo (own mount namespace)
id=$1; opt=$2
w=/tmp/ts.$id; rm -rf /tmp/ts.$id; mkdir -p $w/ev
cp -a /repo $w/repo
export id opt w
unshare -Urm bash -c '
mount --bind $w/repo /repo; mkdir -p /verif/evidence; mount --bind $w/ev /verif/evidence
s=/verif/seeded/$id; r=""
cd /repo
cp -r $s $w/demo; rm -f $w/demo/*.diff $w/demo/meta.json
bash /opt/vp/build.sh >$w/b0 2>&1 || r="$r CLEANBUILD"
bash $w/demo/demo.sh >$w/d0 2>&1; d0=$?
git -c safe.directory=/repo apply $s/patch.diff || r="$r APPLY"
bash /opt/vp/build.sh >$w/b1 2>&1 || r="$r PATCHBUILD"
bash $w/demo/demo.sh >$w/d1 2>&1; d1=$?
p=$(python3 -c "import json;print(json.load(open(\"$s/meta.json\"))[\"property\"])")
cd /verif; timeout 900 python3 -m sa.run $p >$w/c 2>&1; c=$?
v=$(grep -c "^VIOLATION property=$p" $w/c)
t=skip
if [ "$opt" != --notest ]; then cd /repo; bash /opt/vp/test.sh $w/t.json >$w/t 2>&1
t=$(python3 -c "import json;a=json.load(open(\"$w/t.json\"))[\"passed\"];print([x for x in json.load(open(\"/opt/vp/BASELINE.json\"))[\"stable\"] if x not in a])"); fi
echo "$id $p demo clean=$d0 patched=$d1 check=$c viol=$v tests-missing=$t $r"
'
tail -3 $w/d0 | sed 's/^/   d0: /'; tail -3 $w/d1 | sed 's/^/   d1: /'; grep -B1 ^VIOLATION $w/c | grep -v "^VIOL\|^--" | head -3
rm -rf /tmp/ts.$id
