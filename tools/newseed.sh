#!/bin/bash
# newseed.sh ID PROPERTY: make seeded/ID from the uncommitted change in /repo, restoring it; meta text on stdin: needs|what
d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff; git -C /repo checkout -- .
IFS='|' read -r needs what
python3 - "$d" "$2" "$needs" "$what" <<'P'
import json,sys
d,p,n,w=sys.argv[1:]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open(d+"/meta.json","w"),indent=1)
P
cp /verif/tools/demo/vsim.py $d/
[ -f $d/demo.sh ] || printf '#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n' > $d/demo.sh
