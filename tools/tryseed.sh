#!/bin/bash
# tryseed.sh ID [-t] [checks...]: confirm a planted change in a scratch copy of /repo mounted over /repo
# in a private mount namespace: demo on the unchanged tree, patch, build, tests (-t), demo, checks.
id=$1; shift; tests=0; [ "$1" = -t ] && { tests=1; shift; }
S=/verif/seeded/$id; W=$(mktemp -d /tmp/vp_seed_XXXXXX)
cp -a /repo "$W/repo"; mkdir "$W/reports" "$W/demo" "$W/evidence"; cp "$S"/* "$W/demo"/; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
cat > "$W/go.sh" <<EOF
mount --bind $W/repo /repo; mount --bind $W/reports /opt/vp/reports 2>/dev/null; mount --bind $W/evidence /verif/evidence
cd /repo
timeout 300 bash $W/demo/demo.sh >$W/d0 2>&1; echo "$id demo unpatched rc=\$?"
git apply $S/patch.diff || exit 1
bash /opt/vp/build.sh 2>/dev/null | tail -1
if [ $tests = 1 ]; then bash /opt/vp/test.sh $W/o.json >/dev/null 2>&1
python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$W/o.json'))
print('$id tests missing', [x for x in b['stable'] if x not in o['passed']])"; fi
cd /repo; timeout 300 bash $W/demo/demo.sh >$W/d1 2>&1; echo "$id demo patched rc=\$?"; tail -3 $W/d1
for c in $*; do echo "$id \$c: \$(VERIF_SEED=1 VERIF_TIER=quick /verif/run.sh \$c 2>&1 | grep -E 'clause|VIOLATION|OK prop|ERROR' | cut -c1-160 | head -4)"; done
EOF
unshare -Urm bash "$W/go.sh"
rm -rf "$W"
