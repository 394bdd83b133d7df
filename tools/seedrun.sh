#!/bin/bash
# seedrun.sh ID [tests] [checks PROP...]: validates a planted bug in a private mount namespace (copies over /repo and /verif)
id=$1; shift; w=/tmp/seedrun/$id; rm -rf "/tmp/seedrun/$id"; mkdir -p $w/rep $w/tmp
cp -a /repo $w/repo; mkdir $w/verif; (cd /verif && tar cf - --exclude=./evidence --exclude=./replay --exclude=./.git .) | tar xf - -C $w/verif
cp -r /verif/seeded/$id $w/demo
cat > $w/in.sh <<X
mount --bind $w/repo /repo; mount --bind $w/rep /opt/vp/reports; mount --bind $w/verif /verif
. /opt/vp/env.sh; cd /repo
bash $w/demo/demo.sh > $w/demo.clean 2>&1; echo "demo clean: \$?"
git apply $w/demo/patch.diff || { echo APPLY FAILED; exit 1; }
bash /opt/vp/build.sh > $w/build.log 2>&1 || { echo BUILD FAILED; exit 1; }
bash $w/demo/demo.sh > $w/demo.bug 2>&1; echo "demo bug: \$?"
X
[ "$1" = tests ] && { shift; cat >> $w/in.sh <<X
bash /opt/vp/test.sh $w/t.json > $w/test.log 2>&1
python3 - <<'P'
import json
st=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('$w/t.json'))['passed'])
m=sorted(st-p); print('stable tests failing:',len(m)); [print('  ',x) for x in m[:8]]
P
X
}
for p in "$@"; do echo "cd /verif; VERIF_SEED=1 VERIF_TIER=quick ./check.sh $p quick > $w/$p.out 2>&1; echo \"check $p: \$? \$(grep -a -c ^VIOLATION $w/$p.out) \$(grep -a -m1 -A2 ^VIOLATION $w/$p.out | tail -2 | cut -c1-300)\"" >> $w/in.sh; done
unshare -m bash $w/in.sh 2>&1 | sed "s/^/[$id] /"
rm -rf "/tmp/seedrun/$id/repo" "/tmp/seedrun/$id/verif"
