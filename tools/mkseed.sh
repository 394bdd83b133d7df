#!/bin/bash
# mkseed.sh ID PROPERTY 'needs' 'breaks' <<< python edit script with helper sub(path, old, new)
# makes /verif/seeded/ID/{patch.diff,meta.json,demo.sh} (demo.sh only when absent)
set -e
id=$1; d=/verif/seeded/$id; w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
mkdir -p "$d"; git clone -q /repo "$w/r"; cd "$w/r"
cat > "$w/e.py" <<'P'
import re,sys
def sub(p,a,b,n=1):
    s=open(p).read()
    assert s.count(a)>=1,("not found",p,a)
    s=s.replace(a,b,n); open(p,'w').write(s)
P
cat >> "$w/e.py"
python3 "$w/e.py"; . /opt/vp/env.sh; gofmt -l $(git diff --name-only) ; go build ./... ; git diff > "$d/patch.diff"
python3 - "$d" "$2" "$3" "$4" <<'P'
import json,sys
d,p,n,b=sys.argv[1:]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open(d+'/meta.json','w'),indent=1)
P
[ -e "$d/demo.sh" ] || cp /verif/tools/demo_template.sh "$d/demo.sh"
chmod +x "$d/demo.sh"; cat "$d/patch.diff" | grep '^[+-]'
