#!/bin/bash
# newseed.sh ID PROPERTY PKGDIR DEMO_TEST.go NEEDS WHAT: records /repo's current
# working-tree change as a planted bug, demonstrated by a test run inside PKGDIR.
set -eu
d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 2; }
git -C /repo checkout -q -- .
cp "$4" $d/demo_test.go
cat > $d/demo.sh <<EOF
#!/bin/bash
# Runs demo_test.go beside this file as a test of package $3.
here=\$(cd "\$(dirname "\$0")" && pwd)
root=\$(pwd)
. /opt/vp/env.sh
tmp=\$(mktemp -d) || exit 3
trap 'rm -rf "\$tmp"' EXIT
printf '{"Replace":{"%s":"%s"}}' "\$root/$3/zz_seeded_demo_test.go" "\$here/demo_test.go" >"\$tmp/overlay.json"
cd "\$root/$3" && TMPDIR=\$tmp GOWORK=/opt/vp/go.work "\$GO126" test -overlay "\$tmp/overlay.json" -vet=off -count=1 -timeout 120s -run '^TestSeededDemo\$' .
EOF
python3 - "$d" "$2" "$5" "$6" <<'EOF'
import json, sys
d, p, n, w = sys.argv[1:]
json.dump({"property": p, "needs": n, "what_it_breaks": w}, open(d + "/meta.json", "w"), indent=1)
EOF
