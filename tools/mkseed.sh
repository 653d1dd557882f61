#!/bin/bash
# mkseed.sh ID v1|ra|v2|common: assemble seeded/ID from main.rs written there, the kit, and the diff of the scratch copy
# /tmp/seed (a copy of /repo with the change applied)
set -e
k=$(dirname "$0")/demokit; d=$(dirname "$0")/../seeded/$1
mkdir -p $d
cp $k/demo.sh $k/$2/Cargo.toml.in $d/
cp /verif/mc/$2/Cargo.lock $d/Cargo.lock
sed -i 's/^name = "mc-.*"/name = "demo"/' $d/Cargo.lock
if [ $2 != common ]; then cp $k/kit.rs $k/$2/contract.rs $d/; cp /verif/mc/host/src/world.rs $d/host.rs; fi
