#!/bin/bash
# mkseed.sh ID PROP PKG NEEDS BREAKS < demo_test.go : turns /repo's uncommitted change into a planted bug, after checking it.
R=${VX_REPO:-/repo}; id=$1 prop=$2 pkg=$3; d=/verif/seeded/$id; mkdir -p $d
cat > $d/demo_test.go
git -C $R diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
cat > $d/demo.sh <<X
#!/bin/bash
# Run in the repository's root: runs the test beside this file inside package ./$pkg.
d=\$(cd "\$(dirname "\$0")" && pwd)
. /opt/vp/env.sh
o=\$(mktemp /tmp/overlay.XXXXXX)
echo "{\"Replace\":{\"\$PWD/$pkg/zz_seed_test.go\":\"\$d/demo_test.go\"}}" > \$o
timeout 250 go test -overlay \$o -vet=off -count=1 -run TestSeed ./$pkg
X
python3 - "$prop" "$4" "$5" > $d/meta.json <<'X'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
X
cd $R
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo "BUILD FAILS"; tail -5 /tmp/b.log; }
bash /opt/vp/test.sh /tmp/o.json 2>&1 | tail -1
bash $d/demo.sh > /tmp/d1.log 2>&1 && echo "BAD: demo passes with the bug" || { grep -m3 -E "panic|zz_seed|Fail|FAIL" /tmp/d1.log; }
git checkout -q -- .
bash $d/demo.sh > /tmp/d0.log 2>&1 && echo "ok clean" || { echo "BAD: demo fails on the clean tree"; tail -20 /tmp/d0.log; }
git apply --check $d/patch.diff || echo "BAD patch"
git apply $d/patch.diff
(cd /verif; VX_REPO=$R timeout 880 bash run.sh $prop quick 2>&1 | cut -c1-200 | grep -E "quick:|VIOLATION|^  \[" | head -4)
git checkout -q -- .
