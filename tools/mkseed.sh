#!/bin/bash
# mkseed.sh ID PROPERTY PKG DEMO.go "needs" "breaks": packages the edits made in /tmp/seedwt (a copy of /repo) as a planted bug,
# checking that it builds, passes the stable tests, and that the demo tells the two trees apart.
set -u
ID=$1 P=$2 PKG=$3 DEMO=$4
D=/verif/seeded/$ID; mkdir -p $D
git -C /tmp/seedwt diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "no change"; exit 1; }
cp $DEMO $D/demo_test.go.txt
cat > $D/demo.sh <<EOS
#!/bin/bash
# exit 0: behaviour as specified; nonzero: broken
D="\$(cd "\$(dirname "\$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod
T="\$(mktemp -d)"
trap 'rm -r "\$T"' EXIT
printf '{"Replace":{"%s/$PKG/zz_demo_test.go":"%s/demo_test.go.txt"}}' "\$PWD" "\$D" > "\$T/o.json"
timeout 250 go test -overlay "\$T/o.json" -vet=off -count=1 -timeout 200s -run '^TestZZDemo\$' ./$PKG
EOS
chmod +x $D/demo.sh
python3 - "$D" "$P" "$5" "$6" <<'EOS'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
EOS
cd /repo && bash $D/demo.sh >/tmp/demo0.log 2>&1; A=$?
cd /tmp/seedwt && bash $D/demo.sh >/tmp/demo1.log 2>&1; B=$?
echo "$ID: demo unchanged=$A patched=$B"
[ $A = 0 ] || tail -5 /tmp/demo0.log
if [ "${NOTEST:-0}" = 0 ]; then
 cd /repo && git apply $D/patch.diff && bash /opt/vp/build.sh >/tmp/b.log 2>&1 || echo BUILD FAILS
 bash /opt/vp/test.sh /tmp/st.json >/dev/null 2>&1
 python3 -c "
import json;d=json.load(open('/tmp/st.json'));b=json.load(open('/opt/vp/BASELINE.json'));print('stable tests lost:',[x for x in b['stable'] if x not in d['passed']])"
 if [ "${NOCHECK:-0}" = 0 ]; then cd /verif && timeout 900 bash check.sh $P quick -noevidence 2>&1 | grep -a "VIOLATION\|NOT EXPLORED\|UNCONF\|KNOWN\|incomplete" | cut -c1-200 | head -5; fi
 git -C /repo checkout -- .
 bash /opt/vp/build.sh >/tmp/b.log 2>&1
fi
git -C /tmp/seedwt checkout -q -- .
