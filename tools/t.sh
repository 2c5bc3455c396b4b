#!/bin/bash
# t.sh [DIR]: runs the stable tests in DIR (/repo), prints those which fail
w=${1:-/repo}; o=/tmp/out-$$.json
sed "s#^cd /repo#cd $w#" /opt/vp/test.sh >/tmp/test-$$.sh
bash /tmp/test-$$.sh $o >/tmp/test.log 2>&1
python3 - $o <<'P'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
st=b['stable'] if 'stable' in b else b
p=set(o.get('passed',[]))
m=[t for t in st if t not in p]
print('stable',len(st),'missing',m[:20])
P
