#!/bin/bash
# plant.sh ID: takes the working-tree change of /tmp/seed/repo as the planted bug ID, with main.rs (or demo.py) and meta.json already in
# /verif/seeded/ID, and confirms it: builds, passes the stable test, demo passes without and fails with it.
id=$1; d=/verif/seeded/$id; r=/tmp/seed/repo; kit=/verif/seedkit
cd $r || exit 2
if ! git diff --quiet; then git diff > $d/patch.diff; fi
git checkout -q -- .
if [ -f $d/demo.py ]; then cp $kit/mocknode.py $d/; cp $kit/demo_node.sh $d/demo.sh
else for f in ${KIT:-world.rs Cargo.toml.in demo.sh}; do cp $kit/$f $d/$f; done; fi
[ -n "$SDKF" ] && sed -i "s/#default#/#$SDKF#/" $d/demo.sh
chmod +x $d/demo.sh
. /opt/vp/env.sh
cargo build --workspace --offline -q > /tmp/seed/build.log 2>&1
(cd $r && timeout 600 bash $d/demo.sh) > /tmp/seed/clean.log 2>&1; a=$?
git apply $d/patch.diff || exit 2
cargo build --workspace --offline -q > /tmp/seed/build.log 2>&1; b=$?
cargo test -p ephemeral-vrf-api --offline -q --features unit_test_config > /tmp/seed/test.log 2>&1; c=$?
(cd $r && timeout 600 bash $d/demo.sh) > /tmp/seed/bad.log 2>&1; e=$?
git checkout -q -- .
echo "$id: clean demo $a (want 0), build $b, test $c, demo with the change $e (want != 0, not 3)"
tail -3 /tmp/seed/clean.log; tail -3 /tmp/seed/bad.log
