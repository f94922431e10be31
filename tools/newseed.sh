#!/bin/bash
# newseed.sh ID: lays out seeded/ID from the edits present in /tmp/seededit (a clone of /repo) and /tmp/seedmain.rs, meta on stdin
d=/verif/seeded/$1; mkdir -p $d
git -C /tmp/seededit diff > $d/patch.diff
cp /verif/tools/demo/{Cargo.toml.in,demo.sh,sim.rs} $d/
cp /tmp/seedmain.rs $d/main.rs
cat > $d/meta.json
git -C /tmp/seededit checkout -q -- .
[ -s $d/patch.diff ] || echo EMPTY PATCH
