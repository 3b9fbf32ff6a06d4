#!/bin/bash
# tryseed.sh ID [--tests] [CHECK...]: run the demo of a planted bug without and with it, the tests with it, and checks against it
ID=$1; shift; T=; [ "$1" = --tests ] && { T=1; shift; }
D=/verif/seeded/$ID
W=/tmp/try-$ID; rm -rf "$W"; cp -a /repo "$W"; rm -rf "$W/out"
CHECKS=${*:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
rm -rf /tmp/demo-$ID; mkdir /tmp/demo-$ID; cp -a $D/. /tmp/demo-$ID/; rm -f /tmp/demo-$ID/*.diff /tmp/demo-$ID/meta.json
unshare -m bash -c "
mount --bind $W /repo || exit 9
cd /repo
[ -n '$T' ] && bash /opt/vp/build.sh >/dev/null 2>&1
setpriv --bounding-set=-sys_admin bash -c 'bash /tmp/demo-$ID/demo.sh' > /tmp/demo-$ID/out0 2>&1; echo \"demo without: \$?\"
git apply $D/patch.diff || exit 8
if [ -n '$T' ]; then bash /opt/vp/build.sh > /tmp/demo-$ID/build 2>&1 || echo BUILD FAILED
 setpriv --bounding-set=-sys_admin bash -c 'bash /opt/vp/test.sh /tmp/demo-$ID/tests.json' >/dev/null 2>&1; python3 -c \"import json;d=json.load(open('/tmp/demo-$ID/tests.json'));b=json.load(open('/opt/vp/BASELINE.json'));print('tests passed',len(d['passed']),'failed',d['failed'])\"; fi
setpriv --bounding-set=-sys_admin bash -c 'bash /tmp/demo-$ID/demo.sh' > /tmp/demo-$ID/out1 2>&1; echo \"demo with: \$?\"
cd /verif; for c in $CHECKS; do ./check \$c > /tmp/demo-$ID/chk 2>&1; echo \"check \$c: \$?\"; tail -4 /tmp/demo-$ID/chk; done
"
tail -3 /tmp/demo-$ID/out0; echo --; tail -5 /tmp/demo-$ID/out1
rm -rf "$W"
