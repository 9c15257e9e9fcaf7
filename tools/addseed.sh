#!/bin/bash
# addseed.sh ID PROP PKG DEMO_TEST.go "needs" "what it breaks" : keeps the change made in the scratch copy /tmp/mr
# as /verif/seeded/ID after confirming that it builds, that the demo passes without it and fails with it,
# and that the package's stable tests still pass
. /verif/env.sh
ID=$1 PROP=$2 PKG=$3 DEMO=$4
D=/verif/seeded/$ID; mkdir -p $D
git -C /tmp/mr diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "no change"; exit 1; }
cp $DEMO $D/demo_test.go.txt
cat > $D/demo.sh <<X
#!/bin/bash
# run with cwd = the repository: passes on the unchanged code, fails with the change
here=\$(cd "\$(dirname "\$0")" && pwd)
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:\$PATH
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=readonly GOPATH=\${GOPATH:-/root/go}
T=\$(mktemp -d); trap 'rm -rf "\$T"' EXIT
export TMPDIR=\$T
printf '{"Replace":{"%s/$PKG/zz_demo_test.go":"%s/demo_test.go.txt"}}' "\$PWD" "\$here" > "\$T/o.json"
timeout 280 go test $RACE -overlay "\$T/o.json" -vet=off -count=1 -timeout 250s -run '^TestSeededDemo' ./$PKG
X
python3 - "$D/meta.json" "$PROP" "$5" "$6" <<'P'
import sys,json
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],'w'),indent=1)
P
(cd /tmp/mr && go build ./... ) || { echo BUILD-FAILS; exit 1; }
(cd /repo && bash $D/demo.sh >/tmp/seed.out 2>&1) && echo "demo passes unchanged" || { echo "DEMO FAILS UNCHANGED"; grep -v '^{' /tmp/seed.out | tail -5; }
(cd /tmp/mr && bash $D/demo.sh >/tmp/seed.out 2>&1) && echo "DEMO PASSES WITH THE CHANGE" || { grep -v '^{' /tmp/seed.out | grep -v "^FAIL\|^ok" | tail -3 | cut -c1-300; }
[ -n "$NOTEST" ] || (cd /tmp/mr && go test -json -vet=off -count=1 -timeout 200s ./$PKG 2>/dev/null | python3 -c "
import sys,json
for l in sys.stdin:
    try: d=json.loads(l)
    except: continue
    if d.get('Action')=='fail' and 'Test' in d: print('FAILING TEST',d['Test'])
    if 'FAIL: ' in d.get('Output',''): print('FAILING', d['Output'].strip())
")
git -C /repo apply --check $D/patch.diff || echo "PATCH DOES NOT APPLY"
git -C /tmp/mr checkout -q -- .
