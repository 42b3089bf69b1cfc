#!/bin/bash
# tools/mk_demo.sh <id>: give seeded/<id> what a circuit demonstration needs beside its main.rs.
d=/verif/seeded/$1; t=/verif/tools/circdemo; c=/verif/crates
mkdir -p $d/shim
cp $t/demo.sh $t/common.rs $d/; cp $c/circwork/src/body.rs $d/
if grep -q '^mod forge' $d/main.rs; then
  cp $t/forge.rs $d/; cp $c/circsim/src/poly.rs $c/circsim/src/byz.rs $d/; cp $c/simrt/src/rng.rs $d/
  sed -i 's/^use simrt::Rng/use crate::rng::Rng/' $d/byz.rs
fi
for s in halo2_shim stub_log stub_thiserror stub_rand_xorshift stub_bencher; do
  mkdir -p $d/shim/$s/src; cp $c/$s/Cargo.toml $d/shim/$s/; cp $c/$s/src/*.rs $d/shim/$s/src/
done
