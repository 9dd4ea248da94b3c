#!/bin/bash
# mkbug.sh ID PROPERTY WORKTREE "SOURCES or @groups" < meta text "needs|||breaks": package WORKTREE's diff with the demonstration
# /verif/seeded/ID/demo.cpp, copying the stub headers it needs beside it, and confirm it on both trees.
set -e; mkdir -p /tmp/w/dstubs; ln -sfn /verif/stubs/score /tmp/w/dstubs/score  # stand-ins without those for the standard library
id=$1 prop=$2 wt=$3 srcs=$4; d=/verif/seeded/$id; cd $d
git -C $wt diff > patch.diff; [ -s patch.diff ] || { echo no diff; exit 1; }
text=$(cat); python3 - "$prop" "$text" > meta.json <<'P'
import sys,json
n,b=sys.argv[2].split("|||"); print(json.dumps({"property":sys.argv[1],"needs":n.strip(),"what_it_breaks":b.strip()},indent=1))
P
full=$(python3 - "$srcs" <<'P'
import sys
g={}
for l in open('/verif/harness/groups.txt'):
    if ':' in l and not l.startswith('#'): k,v=l.split(':',1); g[k.strip()]=v.split()
def ex(l):
    r=[]
    for x in l:
        for y in (ex(g[x[1:]]) if x.startswith('@') else [x]):
            if y not in r: r.append(y)
    return r
print(' '.join(ex(sys.argv[1].split())))
P
)
rm -rf $d/stubs; mkdir -p $d/stubs; cpps=""

for f in $d/demo.cpp $(for s in $full; do echo $wt/$s; done); do clang++ -std=c++17 -w -MM -I/tmp/w/dstubs -I$wt $f; done | tr ' \\' '\n\n' | grep '^/tmp/w/dstubs/' | sort -u | while read h; do r=${h#/tmp/w/dstubs/}; mkdir -p stubs/$(dirname $r); cp $h stubs/$r; done
cat > demo.sh <<E
#!/bin/bash
# exit 0: the property holds; non-zero: broken. Run with cwd /repo.
D=\$(cd "\$(dirname "\$0")" && pwd); W=\$(mktemp -d); trap 'rm -rf "\$W"' EXIT
${MKBUG_PRE}
clang++ -std=c++17 -O1 -w -pthread -ffunction-sections -Wl,--gc-sections ${MKBUG_FLAGS} -I"\$D/stubs" -I/repo "\$D/demo.cpp"$(for s in $full; do printf ' \\\n  /repo/%s' $s; done) -o "\$W/demo" || exit 90
cd "\$W" && timeout 120 ./demo
E
chmod +x demo.sh
# confirm
sed "s#/repo#$wt#g" demo.sh > /tmp/w/demo.$id.sh; mkdir -p /tmp/w/dm/$id; cp -r $d/. /tmp/w/dm/$id/; sed -i "s#/repo#$wt#g" /tmp/w/dm/$id/demo.sh
(cd /repo && bash $d/demo.sh >/tmp/w/dm/$id.clean 2>&1) && c=0 || c=$?
(cd $wt && bash /tmp/w/dm/$id/demo.sh >/tmp/w/dm/$id.bug 2>&1) && b=0 || b=$?
echo "$id $prop clean=$c bug=$b $(grep '^[+-]' patch.diff | grep -vc '^+++\|^---') lines; $(tail -1 /tmp/w/dm/$id.bug | cut -c1-100)"
[ $c = 0 ] && [ $b != 0 ] || { tail -5 /tmp/w/dm/$id.clean; }
rm -rf /tmp/w/dm/$id
git -C $wt checkout -q -- .
