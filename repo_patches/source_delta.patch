From f333640b6a28333243f37d7959437fd117cf6922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 1/3] fix: refuse a table larger than the circuit in parallel
 synthesis too

Serial synthesis asserts that the capacity covers all inputs and controls;
the parallel branch took the first calcs entries and silently dropped the
rest, proving a truncated table.
---
 poseidon-circuit/src/hash.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/poseidon-circuit/src/hash.rs b/poseidon-circuit/src/hash.rs
index 0f6cae6..4e2ee84 100644
--- a/poseidon-circuit/src/hash.rs
+++ b/poseidon-circuit/src/hash.rs
@@ -777,6 +777,7 @@ where
                 |mut region| self.fill_hash_tbl_custom(&mut region),
             )?;
             let data = self.data;
+            assert!(self.calcs >= data.inputs.len() && self.calcs >= data.controls.len());
 
             let inputs_i = data
                 .inputs
-- 
2.43.0


From fdd935d79447fb6232e2f256712df82e89819b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 2/3] fix: align controls before adding a stream to a hash
 table

constant_inputs adds entries without controls, so a stream added later put
its controls beside the wrong inputs and panicked half way, leaving the
table corrupted.
---
 poseidon-circuit/src/hash.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/poseidon-circuit/src/hash.rs b/poseidon-circuit/src/hash.rs
index 4e2ee84..93bbac5 100644
--- a/poseidon-circuit/src/hash.rs
+++ b/poseidon-circuit/src/hash.rs
@@ -306,6 +306,8 @@ impl<F: PrimeField> PoseidonHashTable<F> {
         .collect();
 
         assert_eq!(new_inps.len(), ctrl_series.len());
+        // align controls with inputs added without them
+        self.controls.resize(self.inputs.len(), 0);
         self.inputs.append(&mut new_inps);
         self.controls.append(&mut ctrl_series);
         assert_eq!(self.inputs.len(), self.controls.len());
-- 
2.43.0


From 000ad4a3497f5b3108b46dc1b8551d9a93e96794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:07 +0000
Subject: [PATCH 3/3] fix: give the padding word its value when proving a Pow5
 sponge

The padding word was copied from a fixed cell; a prover does not evaluate
fixed assignments, so the copied value was unknown and proving any
constant-length hash with an odd number of words failed with a synthesis
error. Assign the advice cell from the known padding value and keep the
equality with the fixed cell.
---
 poseidon-circuit/src/poseidon/pow5.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/poseidon-circuit/src/poseidon/pow5.rs b/poseidon-circuit/src/poseidon/pow5.rs
index e439945..02ff8a2 100644
--- a/poseidon-circuit/src/poseidon/pow5.rs
+++ b/poseidon-circuit/src/poseidon/pow5.rs
@@ -425,12 +425,24 @@ impl<
                 let load_input_word = |i: usize| {
                     let constraint_var = match input.0[i].clone() {
                         Some(PaddedWord::Message(word)) => word,
-                        Some(PaddedWord::Padding(padding_value)) => region.assign_fixed(
-                            || format!("load pad_{i}"),
-                            config.rc_b[i],
-                            1,
-                            || Value::known(padding_value),
-                        )?,
+                        Some(PaddedWord::Padding(padding_value)) => {
+                            let fixed = region.assign_fixed(
+                                || format!("load pad_{i}"),
+                                config.rc_b[i],
+                                1,
+                                || Value::known(padding_value),
+                            )?;
+                            // A prover does not evaluate fixed assignments, so the value
+                            // has to be given again for the advice cell.
+                            let var = region.assign_advice(
+                                || format!("load input_{i}"),
+                                config.state[i],
+                                1,
+                                || Value::known(padding_value),
+                            )?;
+                            region.constrain_equal(fixed.cell(), var.cell())?;
+                            return Ok(StateWord(var));
+                        }
                         _ => panic!("Input is not padded"),
                     };
                     constraint_var
-- 
2.43.0

