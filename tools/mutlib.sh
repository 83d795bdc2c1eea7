mut(){ python3 - "$1" "$2" "$3" <<'E'
import sys
f,a,b=sys.argv[1:4]
s=open(f,newline='').read()
a=a.replace('\\n','\n').replace('\\t','\t'); b=b.replace('\\n','\n').replace('\\t','\t')
if '\r\n' in s: a=a.replace('\n','\r\n'); b=b.replace('\n','\r\n')
assert a in s,"nomatch"
open(f,'w',newline='').write(s.replace(a,b,1))
E
}
R=${VX_REPO:-/repo}
t(){ (cd /verif; VX_REPO=$R timeout 880 bash run.sh $1 quick 2>&1 | cut -c1-300 | head -${2:-14}); git -C $R checkout -q -- .; }
# ts ID: runs the quick check of planted bug ID's property against it
ts(){ git -C $R apply /verif/seeded/$1/patch.diff && t $(python3 -c "import json;print(json.load(open('/verif/seeded/$1/meta.json'))['property'])") ${2:-4}; }
# m PROP FILE OLD NEW: runs PROP's quick check on one textual change of FILE (relative to the repository; set VX_REPO to use a copy)
m(){ echo "== $4"; mut "$R/$2" "$3" "$4" && t $1 3 | cut -c1-250; }
