#!/bin/bash
# plant.sh ID PROPERTY "needs" "what it breaks" [march] < demo.cpp : record the edits in /tmp/plant as bug ID
ID=$1 P=$2 N=$3 B=$4 M=${5:-x86-64-v3}
D=/verif/seeded/$ID; mkdir -p $D
git -C /tmp/plant diff > $D/patch.diff; [ -s $D/patch.diff ] || { echo "no change"; exit 1; }
cat > $D/demo.cpp
sed "s/MARCH/$M/" /verif/tools/demo_template.sh > $D/demo.sh; chmod +x $D/demo.sh
P=$P N=$N B=$B python3 -c "import json,os;json.dump({'property':os.environ['P'],'needs':os.environ['N'],'what_it_breaks':os.environ['B']},open('$D/meta.json','w'),indent=1)"
git -C /tmp/plant checkout -q -- .
