#!/bin/bash
# demoseed.sh ID...: does the demonstration fail with the planted bug (and pass without)? Runs in a private mount
# namespace where the scratch copy /tmp/wb takes /repo's place. T=1: also the stable tests.
[ -z "$INNS" ] && { cd /; INNS=1 exec unshare -m bash -c 'mount --bind /tmp/wb /repo && exec bash /verif/tools/demoseed.sh "$@"' x "$@"; }
cd /repo; git checkout -q -- .
for i in "$@"; do
 git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i: patch does not apply"; continue; }
 bash /opt/vp/build.sh >/tmp/ds.log 2>&1 || echo "$i: build fails"
 (cd /repo; timeout 300 bash /verif/seeded/$i/demo.sh >/tmp/ds.out 2>&1); r=$?; o=$(head -c 300 /tmp/ds.out|tr '\n' ' ')
 [ -n "$T" ] && { bash /opt/vp/test.sh /tmp/ds.json >/dev/null 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/ds.json'))
def pas(d):
    for k in('passed','stable_passed','stable','tests'):
        if k in d: return set(d[k]) if not isinstance(d[k],dict) else {x for x,v in d[k].items() if v in('pass','passed',True)}
    return set()
print("missing:",len(pas(b)-pas(t)),list(pas(b)-pas(t))[:3])
P
 }
 git -C /repo checkout -q -- .; echo "$i with bug: rc=$r $o"
done
bash /opt/vp/build.sh >/tmp/ds.log 2>&1
for i in "$@"; do (cd /repo; timeout 300 bash /verif/seeded/$i/demo.sh >/tmp/ds.out 2>&1); echo "$i clean: rc=$? $(head -c 200 /tmp/ds.out|tr '\n' ' ')"; done
