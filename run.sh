#!/bin/bash
# run.sh PROP [quick|thorough] [--at phase:shard:idx]   build the check of PROP from /repo's working tree and run it
set -u
P="$1"; shift
TIER="${1:-${VERIF_TIER:-quick}}"; [ $# -gt 0 ] && shift
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export GOFLAGS="-mod=mod"
REPO="${VX_REPO:-/repo}"
p="$(echo "$P" | tr 'A-Z' 'a-z')"
B="$(mktemp -d /tmp/vxb.XXXXXX)" || exit 2
trap 'rm -rf "$B"' EXIT
SRC="$VERIF_DIR/mc/$p"
if [ -f "$SRC/instrument" ]; then
  # source-instrumented copies of the listed packages, generated from the current tree
  (cd "$VERIF_DIR/tools/instr" && go build -o "$B/instr" .) || { echo "CHECK-ERROR cannot build instrumenter"; exit 2; }
  "$B/instr" -repo "$REPO" -out "$B/inst" -json "$B/inst.json" $(cat "$SRC/instrument") || { echo "CHECK-ERROR instrumentation failed"; exit 2; }
else
  echo '{}' > "$B/inst.json"
fi
python3 - "$VERIF_DIR" "$REPO" "$p" "$B" <<'PY' || exit 2
import sys,os,json
v,repo,p,b=sys.argv[1:5]
rep=json.load(open(b+'/inst.json'))
base=repo+'/internal/zzverif'
for d in sorted(os.listdir(v+'/mc')):
    if d==p or (not (d[0]=='p' and d[1:].isdigit()) ):
        if d=='webstub' : continue
        for f in sorted(os.listdir(v+'/mc/'+d)):
            if f.endswith('.go'): rep[base+'/'+d+'/'+f]=v+'/mc/'+d+'/'+f
if os.path.exists(v+'/mc/'+p+'/realweb'): rep[repo+'/web/blockly/placeholder.js']=v+'/mc/'+p+'/realweb' # not part of the repository, but needed to build
else: rep[repo+'/web/static.go']=v+'/mc/webstub/static.go'
json.dump({"Replace":rep},open(b+'/overlay.json','w'))
PY
if [ -f "$SRC/modreplace" ]; then
  # modules replaced by stand-ins: lines of "module directory-under-tools"
  cp "$REPO/go.mod" "$B/go.mod"; cp "$REPO/go.sum" "$B/go.sum"
  while read -r mod dir; do echo "replace $mod => $VERIF_DIR/tools/$dir" >> "$B/go.mod"; done < "$SRC/modreplace"
  GOFLAGS="$GOFLAGS -modfile=$B/go.mod"
fi
cd "$REPO" && go build $(cat "$SRC/buildflags" 2>/dev/null) -overlay "$B/overlay.json" -o "$B/$p" "./internal/zzverif/$p" || { echo "CHECK-ERROR $P: build failed"; exit 2; }
if [ -f "$SRC/cmdbuild" ]; then
  go build -overlay "$B/overlay.json" -o "$B/nightlight" ./cmd/nightlight || { echo "CHECK-ERROR $P: command build failed"; exit 2; }
  export VX_NIGHTLIGHT="$B/nightlight"
  if grep -q race "$SRC/cmdbuild"; then
    go build -race -overlay "$B/overlay.json" -o "$B/nightlight-race" ./cmd/nightlight || { echo "CHECK-ERROR $P: command build failed"; exit 2; }
    export VX_NIGHTLIGHT_RACE="$B/nightlight-race"
  fi
fi
cd /tmp
"$B/$p" "$TIER" "$@"
