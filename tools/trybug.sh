#!/bin/bash
# trybug.sh ID [CHECK...]: try a planted bug in a private mount namespace with copies of /repo and /verif.
# Prints: applies / builds / stable tests / demo before and after / what each check says.
ID=$1; shift
W=/tmp/tb.$ID
rm -rf "$W"; mkdir -p "$W"
cp -a /repo "$W/repo"
mkdir "$W/verif"; (cd /verif && cp -a $(ls -A | grep -v -e _build -e .git$) "$W/verif/"); cp -al /verif/_build "$W/verif/_build" 2>/dev/null
export ID W NOTEST CHECKS="$*"
unshare -Urm bash -c '
mount --bind $W/repo /repo; mount --bind $W/verif /verif
cd /repo
M=/verif/seeded/$ID
D=$W/demo; mkdir -p $D; cp -a $M/. $D/; rm -f $D/*.diff $D/meta.json
git checkout -q -- . 
( cd /repo; timeout 300 bash $D/demo.sh >$W/demo0.log 2>&1 ); echo "[$ID] demo clean: $?"
git apply $M/patch.diff || { echo "[$ID] DOES NOT APPLY"; exit 1; }
( cd /repo; timeout 300 bash $D/demo.sh >$W/demo1.log 2>&1 ); echo "[$ID] demo patched: $? ($(tail -1 $W/demo1.log | cut -c1-150))"
P=$(python3 -c "import json;print(json.load(open(\"$M/meta.json\"))[\"property\"])")
for c in ${CHECKS:-$P}; do
  VERIF_SEED=1 timeout 900 python3 /verif/run.py check $c > $W/check.$c.log 2>&1; echo "[$ID] check $c: $? ($(grep VIOLATION $W/check.$c.log | head -1 | cut -c1-150))"
done
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh $W/out.json > $W/test.log 2>&1; echo "[$ID] tests: $(python3 /verif/tools/stable.py $W/out.json 2>&1 | head -3 | tr "\n" " " | cut -c1-300)"
fi
'
rm -rf "$W/repo" "$W/verif"
