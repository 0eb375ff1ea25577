#!/bin/bash
# usage: newbug.sh ID PROP PKG "needs" "breaks"   with /tmp/bug/repo modified and /tmp/bug/demo_test.go written
# Confirms the bug in a scratch copy and stores it as seeded/ID.
set -u
ID=$1 PROP=$2 PKG=$3 NEEDS=$4 BREAKS=$5 RACE=${6:-}
D=/verif/seeded/$ID
mkdir -p "$D"
git -C /tmp/bug/repo diff > "$D/patch.diff"
cp /tmp/bug/demo_test.go "$D/demo_test.go"
cat > "$D/demo.sh" <<EOF
#!/bin/bash
# Runs the demonstration test inside $PKG through an overlay (no file of the repository is touched).
D=\$(cd "\$(dirname "\$0")" && pwd)
T=\$(mktemp -d)
trap 'rm -rf "\$T"' EXIT
R=\$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "\$R"
printf '{"Replace": {"%s": "%s"}}' "\$R/$PKG/zz_demo_test.go" "\$D/demo_test.go" > "\$T/overlay.json"
timeout 250 go test -vet=off -count=1 $RACE -overlay "\$T/overlay.json" -run '^TestDemo\$' ./$PKG
EOF
chmod +x "$D/demo.sh"
python3 - "$D/meta.json" "$PROP" "$NEEDS" "$BREAKS" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],"w"),indent=1,ensure_ascii=False)
P
cd /tmp/bug/repo
bash "$D/demo.sh" > /tmp/bug/with.log 2>&1; W=$?
git diff --stat | tail -1
. /opt/vp/env.sh; cd /tmp/bug/repo
go build ./... || { echo BUILD FAILS; exit 1; }
go test -vet=off -count=1 $(cat /tmp/bug/pkgs) 2>&1 | grep -v "no test files\|^ok" | head -20
git checkout -q -- . ; bash "$D/demo.sh" > /tmp/bug/without.log 2>&1; O=$?
echo "$ID: demo with patch -> $W, without -> $O"
