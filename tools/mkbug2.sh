#!/bin/bash
# mkbug2.sh ID WORKTREE "SOURCES": package ID again from its patch.diff and meta.json
d=/verif/seeded/$1; git -C $2 apply $d/patch.diff || exit 1
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])"); t=$(python3 -c "import json;m=json.load(open('$d/meta.json'));print(m['needs'],'|||',m['what_it_breaks'])")
echo "$t" | /verif/tools/mkbug.sh $1 $p $2 "$3"
