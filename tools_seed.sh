#!/bin/bash
# tools_seed.sh ID PROPERTY PKGDIR: validates /tmp/seed/ID (working copy already edited by the caller in /tmp/seedrepo) and stores it
# usage: edit /tmp/seedrepo, put demo_test.go in /tmp/seed/ID/, then run this.
set -u
id=$1; prop=$2; pkg=$3; needs=$4; what=$5
. /opt/vp/env.sh
d=/verif/seeded/$id
mkdir -p "$d"
git -C /tmp/seedrepo diff > "$d/patch.diff"
cp /tmp/seed/$id/*.go "$d/" 2>/dev/null
[ -f "$d/demo_test.go" ] && mv "$d/demo_test.go" "$d/demo_test.go.txt"
cat > "$d/demo.sh" <<EOS
#!/bin/bash
# runs in the repository root; the demonstration test is laid over package $pkg
. /opt/vp/env.sh 2>/dev/null
d=\$(cd "\$(dirname "\$0")" && pwd)
r=\$(pwd)
t=\$(mktemp -d)
printf '{"Replace":{"%s":"%s"}}' "\$r/$pkg/zz_demo_test.go" "\$d/demo_test.go.txt" > "\$t/o.json"
go test -vet=off -count=1 ${DEMOFLAGS:-} -timeout 200s -overlay "\$t/o.json" -run '^TestDemo\$' "./$pkg"
rc=\$?
rm -f "\$t/o.json"; rmdir "\$t"
exit \$rc
EOS
chmod +x "$d/demo.sh"
python3 - "$d/meta.json" "$prop" "$needs" "$what" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],'w'),indent=1)
P
cd /repo && git diff --quiet || { echo "repo dirty"; exit 1; }
bash "$d/demo.sh" >/tmp/seed/$id/clean.log 2>&1; a=$?
git -C /tmp/seedrepo diff > /tmp/seed/$id/p.diff
(cd /tmp/seedrepo && go build ./... 2>&1 | grep -v examples | head -3; go test -vet=off -count=1 . ./ibeam_lib_monogfx ./topology ./gorwp >/tmp/seed/$id/t.log 2>&1; echo "tests rc $?"; grep -c "^--- FAIL" /tmp/seed/$id/t.log)
(cd /tmp/seedrepo && bash "$d/demo.sh" >/tmp/seed/$id/bad.log 2>&1); b=$?
echo "$id clean=$a patched=$b"
git -C /tmp/seedrepo checkout -q -- .
