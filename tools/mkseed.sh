#!/bin/bash
# mkseed.sh ID: (re)copies the common demo files into seeded/ID and takes the patch from stdin if given
V=$(cd "$(dirname "$0")/.." && pwd); D=$V/seeded/$1; mkdir -p $D
cp $V/tools/seed_common.sh $D/common.sh; cp $V/crates/vgen/src/main.rs $D/drv.rs; cp $V/crates/vgen/Cargo.lock $D/drv.lock
