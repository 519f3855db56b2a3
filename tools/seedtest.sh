#!/bin/bash
# usage: seedtest.sh ID [check props...]: validates a planted bug in a scratch copy and runs the checks against it.
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
D=/verif/seeded/$1; shift
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
bash $D/demo.sh >/tmp/st.demo0 2>&1 || { echo "DEMO FAILS ON CLEAN"; tail -5 /tmp/st.demo0; exit 1; }
git apply $D/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
go build ./... || { echo "NO BUILD"; exit 1; }
bash $D/demo.sh >/tmp/st.demo1 2>&1 && { echo "DEMO PASSES WITH BUG"; exit 1; }
tail -2 /tmp/st.demo1
if [ -z "$NOTEST" ]; then
bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh /tmp/st.json >/tmp/st.log 2>&1
python3 - <<'P' || exit 1
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=set(json.load(open('/tmp/st.json'))['passed'])
m=sorted(b-t); print('stable tests failing:',m[:5],len(m)); sys.exit(1 if m else 0)
P
fi
for c in "$@"; do (cd /verif; timeout 900 ./check.sh $c quick > /tmp/st.$c 2>&1; echo "$c exit $?"; grep -E "VIOLATION|^harness|phase|discarded" /tmp/st.$c | head -4); done
