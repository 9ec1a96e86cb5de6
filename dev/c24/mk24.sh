#!/bin/bash
# mk24.sh <id> <needs> <what> ; stdin: edits like mkseed, then DEMO, then bash of case.sh (B: with balance.part in front)
id=$1
cd /verif; REPO=/tmp/seedrepo python3 dev/mkseed.py $id C24 "$2" "$3" || exit 1
d=seeded/$id; sed 1d $d/main.rs > /tmp/case.tmp; rm $d/main.rs
cat /verif/dev/c24/balance.part /tmp/case.tmp > $d/case.sh
cp /verif/dev/c24/demo.sh $d/demo.sh; chmod +x $d/demo.sh; cp -r seeded/b38/nd-triangulation $d/
