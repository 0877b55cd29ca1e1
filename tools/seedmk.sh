#!/bin/bash
# usage: seedmk.sh ID PROPERTY NEEDS BREAKS < demo.rs     (the change is in the working tree of /tmp/se)
set -u
A=/tmp/seeds/$1; mkdir -p $A
git -C /tmp/se diff > $A/patch.diff; git -C /tmp/se checkout -q -- .
[ -s $A/patch.diff ] || { echo "EMPTY PATCH $1"; exit 1; }
cat > $A/demo.rs
python3 - $A/meta.json "$2" "$3" "$4" <<'PY'
import json,sys
f,p,n,w=sys.argv[1:]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open(f,"w"),indent=1)
PY
grep -c '^[+-][^+-]' $A/patch.diff
