#!/bin/bash
# mkseed.sh ID PROP NEEDS BREAKS  -- expects the edit applied in /repo's working tree and demo_test.go at /tmp/demo_test.go
# records patch.diff, demo.sh, meta.json under /verif/seeded/ID and undoes the edit after checking the demo both ways
set -e
ID=$1; D=/verif/seeded/$ID; mkdir -p $D
git -C /repo diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "no edit"; exit 1; }
cp /tmp/demo_test.go $D/demo_test.go.txt
cat > $D/demo.sh <<'EOS'
#!/bin/bash
# exit 0 when the property holds on this tree, non-zero when it is broken
HERE=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh >/dev/null 2>&1
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
cp "$HERE/demo_test.go.txt" "$W/demo_test.go"
cp /repo/go.mod "$W/m.mod" && cp /opt/vp/fast-ksw.sum "$W/m.sum"
export GOFLAGS="-mod=mod -modfile=$W/m.mod"
echo "{\"Replace\":{\"/repo/zz_demo/demo_test.go\":\"$W/demo_test.go\"}}" > "$W/ov.json"
cd /repo && go test -vet=off -c -o "$W/demo.test" -overlay "$W/ov.json" ./zz_demo && cd "$W" && timeout 200 ./demo.test -test.count=1
EOS
chmod +x $D/demo.sh
python3 - "$@" > $D/meta.json <<'EOS'
import json,sys
print(json.dumps(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),indent=1))
EOS
if bash $D/demo.sh > /tmp/demo.out 2>&1; then echo "DEMO DOES NOT FAIL with the patch"; tail -5 /tmp/demo.out; R=1; else tail -4 /tmp/demo.out; R=0; fi
git -C /repo checkout -- .
if bash $D/demo.sh > /tmp/demo.out 2>&1; then echo "demo ok on clean tree"; else echo "DEMO FAILS on clean"; tail -20 /tmp/demo.out; R=1; fi
git -C /repo status --short
exit $R
