From 657808141df8185c6d7a04e45c9ab24d0ee2085c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 01/19] fix: keep the evaluated bits of output gates until
 evaluation ends

---
 src/evaluator.rs | 46 +++++++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/evaluator.rs b/src/evaluator.rs
index 9b7e4e7..37007c4 100644
--- a/src/evaluator.rs
+++ b/src/evaluator.rs
@@ -1,6 +1,6 @@
 use crate::bool_circuit::*;
 use crate::gates::*;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use thiserror::Error;
 
 #[derive(Error, Debug)]
@@ -52,9 +52,15 @@ impl BoolEvaluator<NXAOBoolGate, NXAOBoolCircuit> for NXAOBoolEvaluator {
             last_input_wire_id += WireId(1);
         }
 
+        // The bits of output gates are still needed after their last consumer is evaluated.
+        let mut output_ids = HashSet::<GateId>::new();
+        for i in 0..output_len {
+            output_ids.insert(circuit.output_to_gate_id(&WireId(i as u64))?);
+        }
+
         for i in 0..output_len {
             let wire_id = WireId(i as u64);
-            let output = self.eval_single_output(inputs, &wire_id, Some(&mut evaled_map), Some(&mut num_depend_map))?;
+            let output = self.eval_single_output(inputs, &wire_id, &output_ids, Some(&mut evaled_map), Some(&mut num_depend_map))?;
             outputs.push(output);
         }
         Ok(outputs)
@@ -70,6 +76,7 @@ impl NXAOBoolEvaluator {
         &mut self,
         inputs: &[bool],
         wire_id: &WireId,
+        output_ids: &HashSet<GateId>,
         evaled_map: Option<&mut HashMap<GateId, bool>>,
         num_depend_map: Option<&mut HashMap<GateId, usize>>
     ) -> Result<bool, EvaluatorError> {
@@ -100,7 +107,7 @@ impl NXAOBoolEvaluator {
         if evaled_map.get(&output_gate_id).is_some() {
             return Ok(evaled_map[&output_gate_id]);
         }
-        self.eval_single_gate(&output_gate_id, evaled_map, num_depend_map)?;
+        self.eval_single_gate(&output_gate_id, output_ids, evaled_map, num_depend_map)?;
         let output_bit = evaled_map
             .get(&output_gate_id)
             .ok_or(EvaluatorError::UnknownEvaledBit(output_gate_id))?;
@@ -110,6 +117,7 @@ impl NXAOBoolEvaluator {
     fn eval_single_gate(
         &self,
         gate_id: &GateId,
+        output_ids: &HashSet<GateId>,
         evaled_map: &mut HashMap<GateId, bool>,
         num_depend_map: &mut HashMap<GateId, usize>
     ) -> Result<(), EvaluatorError> {
@@ -124,14 +132,14 @@ impl NXAOBoolEvaluator {
             }
             NXAOBoolGate::Not(gate) => {
                 if evaled_map.get(&gate.id).is_none() {
-                    self.eval_single_gate(&gate.id, evaled_map, num_depend_map)?;
+                    self.eval_single_gate(&gate.id, output_ids, evaled_map, num_depend_map)?;
                 }
                 let input_bit = evaled_map
                     .get(&gate.id)
                     .ok_or(EvaluatorError::UnknownEvaledBit(gate.id))?;
                 let output_bit = !input_bit;
                 num_depend_map.insert(gate.id, num_depend_map[&gate.id]-1);
-                if num_depend_map[&gate.id]==0 {
+                if num_depend_map[&gate.id]==0 && !output_ids.contains(&gate.id) {
                     evaled_map.remove(&gate.id);
                     num_depend_map.remove(&gate.id);
                 }
@@ -143,10 +151,10 @@ impl NXAOBoolEvaluator {
             }
             NXAOBoolGate::Xor(gate) => {
                 if evaled_map.get(&gate.left_id).is_none() {
-                    self.eval_single_gate(&gate.left_id, evaled_map, num_depend_map)?;
+                    self.eval_single_gate(&gate.left_id, output_ids, evaled_map, num_depend_map)?;
                 }
                 if evaled_map.get(&gate.right_id).is_none() {
-                    self.eval_single_gate(&gate.right_id, evaled_map, num_depend_map)?;
+                    self.eval_single_gate(&gate.right_id, output_ids, evaled_map, num_depend_map)?;
                 }
                 let input_bit_l = evaled_map
                     .get(&gate.left_id)
@@ -156,12 +164,12 @@ impl NXAOBoolEvaluator {
                     .ok_or(EvaluatorError::UnknownEvaledBit(gate.right_id))?;
                 let output_bit = *input_bit_l ^ *input_bit_r;
                 num_depend_map.insert(gate.left_id, num_depend_map[&gate.left_id]-1);
-                if num_depend_map[&gate.left_id]==0 {
+                if num_depend_map[&gate.left_id]==0 && !output_ids.contains(&gate.left_id) {
                     evaled_map.remove(&gate.left_id);
                     num_depend_map.remove(&gate.left_id);
                 }
                 num_depend_map.insert(gate.right_id, num_depend_map[&gate.right_id]-1);
-                if num_depend_map[&gate.right_id]==0 {
+                if num_depend_map[&gate.right_id]==0 && !output_ids.contains(&gate.right_id) {
                     evaled_map.remove(&gate.right_id);
                     num_depend_map.remove(&gate.right_id);
                 }
@@ -173,10 +181,10 @@ impl NXAOBoolEvaluator {
             }
             NXAOBoolGate::And(gate) => {
                 if evaled_map.get(&gate.left_id).is_none() {
-                    self.eval_single_gate(&gate.left_id, evaled_map, num_depend_map)?;
+                    self.eval_single_gate(&gate.left_id, output_ids, evaled_map, num_depend_map)?;
                 }
                 if evaled_map.get(&gate.right_id).is_none() {
-                    self.eval_single_gate(&gate.right_id, evaled_map, num_depend_map)?;
+                    self.eval_single_gate(&gate.right_id, output_ids, evaled_map, num_depend_map)?;
                 }
                 let input_bit_l = evaled_map
                     .get(&gate.left_id)
@@ -186,12 +194,12 @@ impl NXAOBoolEvaluator {
                     .ok_or(EvaluatorError::UnknownEvaledBit(gate.right_id))?;
                 let output_bit = *input_bit_l & *input_bit_r;
                 num_depend_map.insert(gate.left_id, num_depend_map[&gate.left_id]-1);
-                if num_depend_map[&gate.left_id]==0 {
+                if num_depend_map[&gate.left_id]==0 && !output_ids.contains(&gate.left_id) {
                     evaled_map.remove(&gate.left_id);
                     num_depend_map.remove(&gate.left_id);
                 }
                 num_depend_map.insert(gate.right_id, num_depend_map[&gate.right_id]-1);
-                if num_depend_map[&gate.right_id]==0 {
+                if num_depend_map[&gate.right_id]==0 && !output_ids.contains(&gate.right_id) {
                     evaled_map.remove(&gate.right_id);
                     num_depend_map.remove(&gate.right_id);
                 }
@@ -203,10 +211,10 @@ impl NXAOBoolEvaluator {
             }
             NXAOBoolGate::Or(gate) => {
                 if evaled_map.get(&gate.left_id).is_none() {
-                    self.eval_single_gate(&gate.left_id, evaled_map, num_depend_map)?;
+                    self.eval_single_gate(&gate.left_id, output_ids, evaled_map, num_depend_map)?;
                 }
                 if evaled_map.get(&gate.right_id).is_none() {
-                    self.eval_single_gate(&gate.right_id, evaled_map, num_depend_map)?;
+                    self.eval_single_gate(&gate.right_id, output_ids, evaled_map, num_depend_map)?;
                 }
                 let input_bit_l = evaled_map
                     .get(&gate.left_id)
@@ -216,12 +224,12 @@ impl NXAOBoolEvaluator {
                     .ok_or(EvaluatorError::UnknownEvaledBit(gate.right_id))?;
                 let output_bit = *input_bit_l | *input_bit_r;
                 num_depend_map.insert(gate.left_id, num_depend_map[&gate.left_id]-1);
-                if num_depend_map[&gate.left_id]==0 {
+                if num_depend_map[&gate.left_id]==0 && !output_ids.contains(&gate.left_id) {
                     evaled_map.remove(&gate.left_id);
                     num_depend_map.remove(&gate.left_id);
                 }
                 num_depend_map.insert(gate.right_id, num_depend_map[&gate.right_id]-1);
-                if num_depend_map[&gate.right_id]==0 {
+                if num_depend_map[&gate.right_id]==0 && !output_ids.contains(&gate.right_id) {
                     evaled_map.remove(&gate.right_id);
                     num_depend_map.remove(&gate.right_id);
                 }
@@ -236,7 +244,7 @@ impl NXAOBoolEvaluator {
                 let mut input_bits: Vec<bool> = Vec::new();
                 for id in input_ids {
                     if evaled_map.get(id).is_none() {
-                        self.eval_single_gate(id, evaled_map, num_depend_map)?;
+                        self.eval_single_gate(id, output_ids, evaled_map, num_depend_map)?;
                     }
                     let val = evaled_map
                         .get(id)
@@ -249,7 +257,7 @@ impl NXAOBoolEvaluator {
                 let output_bits = evaluator.eval_output(&input_bits)?;
                 for id in input_ids {
                     num_depend_map.insert(*id, num_depend_map[id]-1);
-                    if num_depend_map[id]==0 {
+                    if num_depend_map[id]==0 && !output_ids.contains(id) {
                         evaled_map.remove(id);
                         num_depend_map.remove(id);
                     }
-- 
2.43.0


From e6685a063e61b04aa6ba66d284ce0055515f3f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 02/19] fix: report a wrong number of input bits as an error
 instead of panicking

---
 src/evaluator.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/evaluator.rs b/src/evaluator.rs
index 37007c4..8045009 100644
--- a/src/evaluator.rs
+++ b/src/evaluator.rs
@@ -38,7 +38,12 @@ impl BoolEvaluator<NXAOBoolGate, NXAOBoolCircuit> for NXAOBoolEvaluator {
         let mut num_depend_map = HashMap::<GateId, usize>::new();
         let mut last_input_wire_id = WireId(0);
         let mut i = 0;
-        assert_eq!(inputs.len(), circuit.input_len());
+        if inputs.len() != circuit.input_len() {
+            return Err(EvaluatorError::InvalidInputLen(
+                inputs.len(),
+                circuit.input_len(),
+            ));
+        }
         while i < inputs.len() {
             let gate_id = circuit.input_to_gate_id(&last_input_wire_id)?;
             match gate_id {
-- 
2.43.0


From b70b9f1b2aee97eef72ea9b0595ec69ef14fe336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 03/19] fix: do not underflow the wire count on modules with
 fewer wires than ports

---
 src/bool_circuit.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bool_circuit.rs b/src/bool_circuit.rs
index 2c59ae4..7f2ee42 100644
--- a/src/bool_circuit.rs
+++ b/src/bool_circuit.rs
@@ -593,7 +593,6 @@ impl BoolCircuit<NXAOBoolGate> for NXAOBoolCircuit {
         let num_wire = module_circuit.num_wire();
         let num_gate = module_circuit.num_gate();
         let num_const = module_circuit.num_const();
-        self.num_wire += num_wire - input_len - output_len;
         self.num_gate += num_gate;
         self.num_const += num_const;
         let new_gate_ids = (0..output_len)
@@ -609,6 +608,9 @@ impl BoolCircuit<NXAOBoolGate> for NXAOBoolCircuit {
                 self.add_gate(NXAOBoolGate::Module(module_gate))
             })
             .collect::<Vec<GateId>>();
+        // The wires of the output gates are already counted above, and a module may pass its
+        // inputs through, so that it has fewer wires than inputs and outputs.
+        self.num_wire = self.num_wire + num_wire - input_len - output_len;
         for input_id in gate_ids.into_iter() {
             for out_id in new_gate_ids.iter() {
                 self.add_dependence(input_id, out_id)?;
-- 
2.43.0


From 557f54e3d3ec2478dafd4d3c463b66a9db5c1e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 04/19] fix: reject module calls with a wrong number of
 arguments

---
 src/bool_circuit.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/bool_circuit.rs b/src/bool_circuit.rs
index 7f2ee42..b3f297e 100644
--- a/src/bool_circuit.rs
+++ b/src/bool_circuit.rs
@@ -27,6 +27,8 @@ pub enum BoolCircuitError {
     UnknownInputOfModule(GateId, ModuleId),
     #[error("There is no valid gate in input gates of the module.")]
     InvalidModuleInputGate,
+    #[error("The module of id {0} has {1} inputs, but {2} gates are given.")]
+    InvalidModuleInputLen(ModuleId, usize, usize),
 }
 
 pub trait BoolCircuit<G: Gate>: Sized + Clone + PartialEq + Eq {
@@ -589,6 +591,13 @@ impl BoolCircuit<NXAOBoolGate> for NXAOBoolCircuit {
     ) -> Result<Vec<GateId>, BoolCircuitError> {
         let module_circuit = self.get_module(module_id)?;
         let input_len = module_circuit.input_len();
+        if gate_ids.len() != input_len {
+            return Err(BoolCircuitError::InvalidModuleInputLen(
+                *module_id,
+                input_len,
+                gate_ids.len(),
+            ));
+        }
         let output_len = module_circuit.output_len();
         let num_wire = module_circuit.num_wire();
         let num_gate = module_circuit.num_gate();
-- 
2.43.0


From ee61495b29f14741b239143ca5b027cd778fe88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 05/19] fix: export exact gate and wire counts and put the
 outputs on the last wires

---
 src/bristol_converter.rs | 66 +++++++++++++++++++++++++++++++---------
 1 file changed, 51 insertions(+), 15 deletions(-)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index 2f0e4dd..5e31aca 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -177,6 +177,8 @@ pub struct BristolNXAOWriter<W: Write> {
     pub num_wire: usize,
     pub last_const_wire: usize,
     pub writer: BufWriter<W>,
+    body: String,
+    num_line: usize,
 }
 
 impl<W: Write> BristolNXAOWriter<W> {
@@ -186,6 +188,8 @@ impl<W: Write> BristolNXAOWriter<W> {
             num_wire: 0,
             last_const_wire: 0,
             writer,
+            body: String::new(),
+            num_line: 0,
         }
     }
 
@@ -197,23 +201,12 @@ impl<W: Write> BristolNXAOWriter<W> {
         let input_len = self.c_ref.input_len();
         let output_len = self.c_ref.output_len();
         let num_const = self.c_ref.num_const();
-        let num_gate = self.c_ref.num_gate();
-        let num_wire = self.c_ref.num_wire();
-        let first_line = format!("{} {}\n", num_gate, num_wire + num_const);
-        self.writer.write_all(first_line.as_bytes())?;
-
         let num_all_input = input_len + num_const;
         assert!(num_all_input >= num_first_input);
-        let second_line = format!(
-            "2 {} {}\n",
-            num_first_input,
-            num_all_input - num_first_input
-        );
-        self.writer.write_all(second_line.as_bytes())?;
-        let third_line = format!("1 {}\n", output_len);
-        self.writer.write_all(third_line.as_bytes())?;
-        self.writer.write_all(b"\n")?;
 
+        // The gate lines are collected first, because the header states their number.
+        self.body.clear();
+        self.num_line = 0;
         let mut new_wire_of_gate = HashMap::<GateId, usize>::new();
         let wire_of_gate = match wire_of_gate {
             Some(m) => m,
@@ -237,10 +230,27 @@ impl<W: Write> BristolNXAOWriter<W> {
         self.last_const_wire = input_len;
         self.num_wire += num_const;
         self.write_all_gates(wire_of_gate, &mut const_of_wire)?;
+        self.write_output_wires(wire_of_gate)?;
+
+        let first_line = format!("{} {}\n", self.num_line, self.num_wire);
+        self.writer.write_all(first_line.as_bytes())?;
+        let second_line = format!(
+            "2 {} {}\n",
+            num_first_input,
+            num_all_input - num_first_input
+        );
+        self.writer.write_all(second_line.as_bytes())?;
+        let third_line = format!("1 {}\n", output_len);
+        self.writer.write_all(third_line.as_bytes())?;
+        self.writer.write_all(b"\n")?;
+        self.writer.write_all(self.body.as_bytes())?;
+
         let mut const_vals = Vec::new();
         for wire in input_len..self.last_const_wire {
             const_vals.push(const_of_wire[&wire]);
         }
+        // Constants of modules that no output depends on are declared but never used.
+        const_vals.resize(num_const, false);
         Ok(const_vals)
     }
 
@@ -361,6 +371,31 @@ impl<W: Write> BristolNXAOWriter<W> {
         Ok(())
     }
 
+    /// Copies the outputs to the last wires unless they are already there.
+    fn write_output_wires(
+        &mut self,
+        wire_of_gate: &HashMap<GateId, usize>,
+    ) -> Result<(), BristolError> {
+        let output_len = self.c_ref.output_len();
+        let mut output_wires = Vec::new();
+        for i in 0..output_len {
+            let output_gate_id = self.c_ref.output_to_gate_id(&WireId(i as u64))?;
+            let wire = wire_of_gate
+                .get(&output_gate_id)
+                .ok_or(BristolError::UnknownGate(output_gate_id))?;
+            output_wires.push(*wire);
+        }
+        let is_last = (0..output_len).all(|i| output_wires[i] + output_len == self.num_wire + i);
+        if !is_last {
+            for wire in output_wires {
+                self.body += &format!("1 1 {} {} EQW\n", wire, self.num_wire);
+                self.num_line += 1;
+                self.num_wire += 1;
+            }
+        }
+        Ok(())
+    }
+
     fn write_single_gate(
         &mut self,
         gate_id: &GateId,
@@ -544,7 +579,8 @@ impl<W: Write> BristolNXAOWriter<W> {
                     write_str = write_str + &format!("{} ", wires[i]);
                 }
                 write_str = write_str + &format!("{} ", self.num_wire) + gate_str + "\n";
-                self.writer.write_all(write_str.as_bytes())?;
+                self.body += &write_str;
+                self.num_line += 1;
             }
             None => {}
         };
-- 
2.43.0


From db5caa03e2b22a175511c516377313af5781b312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 06/19] fix: number the wires from zero when an exporter is
 used again

---
 src/bristol_converter.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index 5e31aca..365ebf0 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -205,6 +205,7 @@ impl<W: Write> BristolNXAOWriter<W> {
         assert!(num_all_input >= num_first_input);
 
         // The gate lines are collected first, because the header states their number.
+        self.num_wire = 0;
         self.body.clear();
         self.num_line = 0;
         let mut new_wire_of_gate = HashMap::<GateId, usize>::new();
-- 
2.43.0


From 8a5ba049696d9f778acbbe4b5a24720ec69886e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 07/19] fix: keep the exporter's circuit when exporting a
 module fails

---
 src/bristol_converter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index 365ebf0..3ffaaf7 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -545,8 +545,9 @@ impl<W: Write> BristolNXAOWriter<W> {
 
                 let cur_c_ref = self.c_ref.clone();
                 self.c_ref = module_circuit.clone();
-                self.write_all_gates(&mut new_wire_of_gate, const_of_wire)?;
+                let result = self.write_all_gates(&mut new_wire_of_gate, const_of_wire);
                 self.c_ref = cur_c_ref;
+                result?;
                 let first_output_id = GateId(gate_id.0 - (gate.out_index as u64));
                 for i in 0..gate.output_len() {
                     let output_wire_id = WireId(i as u64);
-- 
2.43.0


From 41b4db52dd259fbf2b4baa115ee9f9e6ec226bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 08/19] fix: forget the wires of the previous document when an
 importer is used again

---
 src/bristol_converter.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index 3ffaaf7..a8752b8 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -55,6 +55,7 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
         reader: R,
         c_ref: &mut BoolCircuitRef<G, C>,
     ) -> Result<(), BristolError> {
+        self.gate_of_wire.clear();
         let mut lines_iter = reader.lines();
         let first_strs = lines_iter.next().ok_or(BristolError::NotFoundLine(1))??;
         let mut first_strs = first_strs.split_whitespace();
-- 
2.43.0


From 12b104f2d25ca9309cec8413d000c882875f0dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 09/19] fix: report a read error on the fourth line of a
 document

---
 src/bristol_converter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index a8752b8..8202a6b 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -99,7 +99,7 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
             output_len_sum += output_bit;
         }
         //skip one row.
-        let _ = lines_iter.next().ok_or(BristolError::NotFoundLine(4))?;
+        let _ = lines_iter.next().ok_or(BristolError::NotFoundLine(4))??;
 
         for result in lines_iter {
             let l = result?;
-- 
2.43.0


From 41f528b2fc668f12bdd978b1654e5ad17d80631d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 10/19] fix: reject malformed documents with an error instead
 of panicking

---
 src/bristol_converter.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index 8202a6b..a9cab4b 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -96,7 +96,8 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
                 .next()
                 .ok_or(BristolError::LineSplitError)?
                 .parse::<usize>()?;
-            output_len_sum += output_bit;
+            output_len_sum = usize::checked_add(output_len_sum, output_bit)
+                .ok_or(BristolError::LineSplitError)?;
         }
         //skip one row.
         let _ = lines_iter.next().ok_or(BristolError::NotFoundLine(4))??;
@@ -137,6 +138,15 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
             }
             let gate_type = l.next().ok_or(BristolError::LineSplitError)?;
 
+            let num_operand = match gate_type {
+                "INV" | "EQ" | "EQW" => 1,
+                "XOR" | "AND" | "OR" => 2,
+                _ => return Err(BristolError::NotSupportedGate(gate_type.to_string())),
+            };
+            if input_len != num_operand || output_len != 1 {
+                return Err(BristolError::LineSplitError);
+            }
+
             match gate_type {
                 "INV" => {
                     let output_gate = c_ref.not(input_gates[0])?;
@@ -162,9 +172,15 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
             };
         }
 
-        for i in (num_wire - output_len_sum)..num_wire {
-            let gate_id = self.gate_of_wire[&i];
-            c_ref.output(gate_id)?;
+        let first_output_wire = num_wire
+            .checked_sub(output_len_sum)
+            .ok_or(BristolError::UnknownWire(num_wire))?;
+        for i in first_output_wire..num_wire {
+            let gate_id = self
+                .gate_of_wire
+                .get(&i)
+                .ok_or(BristolError::UnknownWire(i))?;
+            c_ref.output(*gate_id)?;
         }
         Ok(())
     }
-- 
2.43.0


From c9c86abb024ab328be0cf4d2d26f0437f2514699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 11/19] fix: import EQ as the assignment of a constant

---
 src/bristol_converter.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index a9cab4b..d5e7706 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -116,17 +116,13 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
                 .next()
                 .ok_or(BristolError::LineSplitError)?
                 .parse::<usize>()?;
-            let mut input_gates = Vec::new();
+            let mut input_wire_ids = Vec::new();
             for _ in 0..input_len {
                 let wire_id = l
                     .next()
                     .ok_or(BristolError::LineSplitError)?
                     .parse::<usize>()?;
-                let gate_id = self
-                    .gate_of_wire
-                    .get(&wire_id)
-                    .ok_or(BristolError::UnknownWire(wire_id))?;
-                input_gates.push(gate_id);
+                input_wire_ids.push(wire_id);
             }
             let mut output_wire_ids = Vec::new();
             for _ in 0..output_len {
@@ -146,6 +142,24 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
             if input_len != num_operand || output_len != 1 {
                 return Err(BristolError::LineSplitError);
             }
+            if gate_type == "EQ" {
+                // The operand of EQ is a constant bit, not a wire.
+                let output_gate = match input_wire_ids[0] {
+                    0 => c_ref.constant(false)?,
+                    1 => c_ref.constant(true)?,
+                    val => return Err(BristolError::UnknownWire(val)),
+                };
+                self.gate_of_wire.insert(output_wire_ids[0], output_gate);
+                continue;
+            }
+            let mut input_gates = Vec::new();
+            for wire_id in input_wire_ids {
+                let gate_id = self
+                    .gate_of_wire
+                    .get(&wire_id)
+                    .ok_or(BristolError::UnknownWire(wire_id))?;
+                input_gates.push(gate_id);
+            }
 
             match gate_type {
                 "INV" => {
@@ -164,7 +178,7 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
                     let output_gate = c_ref.or(input_gates[0], input_gates[1])?;
                     self.gate_of_wire.insert(output_wire_ids[0], output_gate);
                 }
-                "EQ" | "EQW" => {
+                "EQW" => {
                     let output_gate = c_ref.identity(input_gates[0])?;
                     self.gate_of_wire.insert(output_wire_ids[0], output_gate);
                 }
-- 
2.43.0


From 9fd18f48cdb85d4c1a2dc9b1fba121a91181e1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:05 +0000
Subject: [PATCH 12/19] fix: accept every number below 2^N as an N-bit integer
 constant

---
 src/circuits/arithmetic/int.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/circuits/arithmetic/int.rs b/src/circuits/arithmetic/int.rs
index 54b58fb..3107abe 100644
--- a/src/circuits/arithmetic/int.rs
+++ b/src/circuits/arithmetic/int.rs
@@ -43,9 +43,11 @@ impl<G: Gate, C: BoolCircuit<G>, const N: usize> AllocInt<G, C, N> {
     ) -> Result<Self, BuildCircuitError> {
         let mut config = config.clone();
         let new_ref = &mut config.c_ref;
+        assert!(val.bits() <= N as u64);
         let bytes_le = val.to_bytes_le();
-        let bits_le = bytes2bits_le(&bytes_le[..]);
-        assert!(bits_le.len() <= N);
+        let mut bits_le = bytes2bits_le(&bytes_le[..]);
+        // The bits of the last byte above the width are zeros.
+        bits_le.truncate(N);
 
         let mut val_le = Vec::new();
         for i in 0..bits_le.len() {
-- 
2.43.0


From e1eb12824b666f433371e63132aac1ee713a3be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 13/19] fix: compare integers of opposite signs correctly when
 their difference overflows

---
 src/circuits/arithmetic/int.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/circuits/arithmetic/int.rs b/src/circuits/arithmetic/int.rs
index 3107abe..44f625a 100644
--- a/src/circuits/arithmetic/int.rs
+++ b/src/circuits/arithmetic/int.rs
@@ -483,10 +483,17 @@ pub fn build_less_circuit<G: Gate, C: BoolCircuit<G>>(
         b_inputs.push(sub_ref.input()?);
     }
 
+    let a_sign = a_inputs[n_bits - 1];
+    let b_sign = b_inputs[n_bits - 1];
     let inputs = [a_inputs, b_inputs].concat();
     let sub = sub_ref.module(&suber_mid, &inputs)?;
-    let one = sub_ref.constant(true)?;
-    let is_less = sub_ref.equivalent(&sub[n_bits - 1], &one)?;
+    // If the signs differ, the difference may overflow, and the negative operand is the less one.
+    // Otherwise, the sign of the difference decides.
+    let is_sign_diff = sub_ref.xor(&a_sign, &b_sign)?;
+    let is_sign_same = sub_ref.not(&is_sign_diff)?;
+    let is_less_diff = sub_ref.and(&is_sign_diff, &a_sign)?;
+    let is_less_same = sub_ref.and(&is_sign_same, &sub[n_bits - 1])?;
+    let is_less = sub_ref.or(&is_less_diff, &is_less_same)?;
     sub_ref.output(is_less)?;
     Ok(sub_mid)
 }
-- 
2.43.0


From b6874529abca58da1c9ebb8ab544ace07a7d39e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 14/19] fix: return t, not its negation, when the Montgomery
 reduction is already below p

---
 src/circuits/finite_field/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/circuits/finite_field/mod.rs b/src/circuits/finite_field/mod.rs
index 538f4b7..737d21b 100644
--- a/src/circuits/finite_field/mod.rs
+++ b/src/circuits/finite_field/mod.rs
@@ -309,7 +309,7 @@ impl<G: Gate, C: BoolCircuit<G>, const N: usize> AllocFpConfig<G, C, N> {
         let is_larger_or_eq_int = AllocInt::from_gate_ids(vec![is_larger_or_eq], &int_config)?;
         let else_int = (&AllocInt::one(&int_config)?) - (&is_larger_or_eq_int);
         let p_subed_t = (&t) - (&p_int);
-        let out = &(&is_larger_or_eq_int * &p_subed_t) - &(&else_int * &t);
+        let out = &(&is_larger_or_eq_int * &p_subed_t) + &(&else_int * &t);
         out.output()?;
         Ok(mid)
     }
-- 
2.43.0


From 8a92c0e9ae51005b0e7c34a426bc9723c4f5d306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 15/19] fix: reduce a field sum that equals the modulus to zero

---
 src/circuits/finite_field/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/circuits/finite_field/mod.rs b/src/circuits/finite_field/mod.rs
index 737d21b..3fe15c5 100644
--- a/src/circuits/finite_field/mod.rs
+++ b/src/circuits/finite_field/mod.rs
@@ -222,7 +222,7 @@ impl<G: Gate, C: BoolCircuit<G>, const N: usize> AllocFpConfig<G, C, N> {
         let p_int = AllocInt::from_biguint(p, &int_config)?;
 
         let sum = (&l) + (&r);
-        let is_plus_larger = sum.larger(&p_int)?;
+        let is_plus_larger = sum.larger_or_eq(&p_int)?;
         let is_plus_larger_int = AllocInt::from_gate_ids(vec![is_plus_larger], &int_config)?;
         let is_minus_less = sum.less(&(-&AllocInt::zero(&int_config)?))?;
         let is_minus_less_int = AllocInt::from_gate_ids(vec![is_minus_less], &int_config)?;
-- 
2.43.0


From 7cc61d151271d8739d486448ae52880acfcc4fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:06 +0000
Subject: [PATCH 16/19] fix: evaluate chains of gates of any length without
 overflowing the stack

Evaluation recursed once per gate of a chain. A circular definition is an
error now instead of an endless recursion.
---
 src/evaluator.rs | 52 ++++++++++++++++++++++++++----------------------
 src/gates.rs     | 14 +++++++++++++
 2 files changed, 42 insertions(+), 24 deletions(-)

diff --git a/src/evaluator.rs b/src/evaluator.rs
index 8045009..3552bdc 100644
--- a/src/evaluator.rs
+++ b/src/evaluator.rs
@@ -119,6 +119,14 @@ impl NXAOBoolEvaluator {
         Ok(*output_bit)
     }
 
+    /// The operands of a gate that are not evaluated yet, the last one first.
+    fn unevaled_operands(gate: &NXAOBoolGate, evaled_map: &HashMap<GateId, bool>) -> Vec<GateId> {
+        let mut ids = gate.operand_ids();
+        ids.retain(|id| !evaled_map.contains_key(id));
+        ids.reverse();
+        ids
+    }
+
     fn eval_single_gate(
         &self,
         gate_id: &GateId,
@@ -127,6 +135,26 @@ impl NXAOBoolEvaluator {
         num_depend_map: &mut HashMap<GateId, usize>
     ) -> Result<(), EvaluatorError> {
         let gate = self.circuit.get_gate(gate_id)?;
+        // The gates below are evaluated from a list of pending gates, because a recursion along
+        // a long chain of gates overflows the stack.
+        let mut pending_ids = Self::unevaled_operands(&gate, evaled_map);
+        let mut waiting_ids = HashSet::from([*gate_id]);
+        while let Some(id) = pending_ids.last().copied() {
+            if evaled_map.contains_key(&id) {
+                pending_ids.pop();
+                continue;
+            }
+            let operand_ids = Self::unevaled_operands(&self.circuit.get_gate(&id)?, evaled_map);
+            if operand_ids.is_empty() {
+                self.eval_single_gate(&id, output_ids, evaled_map, num_depend_map)?;
+                pending_ids.pop();
+            } else if waiting_ids.insert(id) {
+                pending_ids.extend(operand_ids);
+            } else {
+                // The gate depends on itself.
+                return Err(EvaluatorError::UnknownEvaledBit(id));
+            }
+        }
         match gate {
             NXAOBoolGate::Input(_) => Ok(()),
             NXAOBoolGate::Const(gate) => {
@@ -136,9 +164,6 @@ impl NXAOBoolEvaluator {
                 Ok(())
             }
             NXAOBoolGate::Not(gate) => {
-                if evaled_map.get(&gate.id).is_none() {
-                    self.eval_single_gate(&gate.id, output_ids, evaled_map, num_depend_map)?;
-                }
                 let input_bit = evaled_map
                     .get(&gate.id)
                     .ok_or(EvaluatorError::UnknownEvaledBit(gate.id))?;
@@ -155,12 +180,6 @@ impl NXAOBoolEvaluator {
                 Ok(())
             }
             NXAOBoolGate::Xor(gate) => {
-                if evaled_map.get(&gate.left_id).is_none() {
-                    self.eval_single_gate(&gate.left_id, output_ids, evaled_map, num_depend_map)?;
-                }
-                if evaled_map.get(&gate.right_id).is_none() {
-                    self.eval_single_gate(&gate.right_id, output_ids, evaled_map, num_depend_map)?;
-                }
                 let input_bit_l = evaled_map
                     .get(&gate.left_id)
                     .ok_or(EvaluatorError::UnknownEvaledBit(gate.left_id))?;
@@ -185,12 +204,6 @@ impl NXAOBoolEvaluator {
                 Ok(())
             }
             NXAOBoolGate::And(gate) => {
-                if evaled_map.get(&gate.left_id).is_none() {
-                    self.eval_single_gate(&gate.left_id, output_ids, evaled_map, num_depend_map)?;
-                }
-                if evaled_map.get(&gate.right_id).is_none() {
-                    self.eval_single_gate(&gate.right_id, output_ids, evaled_map, num_depend_map)?;
-                }
                 let input_bit_l = evaled_map
                     .get(&gate.left_id)
                     .ok_or(EvaluatorError::UnknownEvaledBit(gate.left_id))?;
@@ -215,12 +228,6 @@ impl NXAOBoolEvaluator {
                 Ok(())
             }
             NXAOBoolGate::Or(gate) => {
-                if evaled_map.get(&gate.left_id).is_none() {
-                    self.eval_single_gate(&gate.left_id, output_ids, evaled_map, num_depend_map)?;
-                }
-                if evaled_map.get(&gate.right_id).is_none() {
-                    self.eval_single_gate(&gate.right_id, output_ids, evaled_map, num_depend_map)?;
-                }
                 let input_bit_l = evaled_map
                     .get(&gate.left_id)
                     .ok_or(EvaluatorError::UnknownEvaledBit(gate.left_id))?;
@@ -248,9 +255,6 @@ impl NXAOBoolEvaluator {
                 let input_ids = &gate.input_ids;
                 let mut input_bits: Vec<bool> = Vec::new();
                 for id in input_ids {
-                    if evaled_map.get(id).is_none() {
-                        self.eval_single_gate(id, output_ids, evaled_map, num_depend_map)?;
-                    }
                     let val = evaled_map
                         .get(id)
                         .ok_or(EvaluatorError::UnknownEvaledBit(*id))?;
diff --git a/src/gates.rs b/src/gates.rs
index 12f346b..2d4e7f7 100644
--- a/src/gates.rs
+++ b/src/gates.rs
@@ -97,6 +97,20 @@ pub enum NXAOBoolGate {
     Module(ModuleGate),
 }
 
+impl NXAOBoolGate {
+    /// The gates this gate takes its inputs from.
+    pub fn operand_ids(&self) -> Vec<GateId> {
+        match self {
+            NXAOBoolGate::Input(_) | NXAOBoolGate::Const(_) => vec![],
+            NXAOBoolGate::Not(g) => vec![g.id],
+            NXAOBoolGate::And(g) => vec![g.left_id, g.right_id],
+            NXAOBoolGate::Xor(g) => vec![g.left_id, g.right_id],
+            NXAOBoolGate::Or(g) => vec![g.left_id, g.right_id],
+            NXAOBoolGate::Module(g) => g.input_ids.clone(),
+        }
+    }
+}
+
 impl Gate for NXAOBoolGate {
     fn input_len(&self) -> usize {
         match self {
-- 
2.43.0


From 407a66bb880dc8164659f8b53ba2c31c1b76042a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:12 +0000
Subject: [PATCH 17/19] fix: export chains of gates of any length without
 overflowing the stack

The exporter recursed once per gate of a chain. A circular definition is an
error now instead of an endless recursion.
---
 src/bristol_converter.rs | 105 ++++++++++++---------------------------
 1 file changed, 33 insertions(+), 72 deletions(-)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index d5e7706..055026e 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -1,6 +1,6 @@
 use crate::bool_circuit::*;
 use crate::gates::*;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 //use std::fs::File;
 use std::io::{BufRead, BufWriter, Write};
 use std::marker::PhantomData;
@@ -428,6 +428,17 @@ impl<W: Write> BristolNXAOWriter<W> {
         Ok(())
     }
 
+    /// The operands of a gate that are not written yet, the last one first.
+    fn unwritten_operands(
+        gate: &NXAOBoolGate,
+        wire_of_gate: &HashMap<GateId, usize>,
+    ) -> Vec<GateId> {
+        let mut ids = gate.operand_ids();
+        ids.retain(|id| !wire_of_gate.contains_key(id));
+        ids.reverse();
+        ids
+    }
+
     fn write_single_gate(
         &mut self,
         gate_id: &GateId,
@@ -435,17 +446,33 @@ impl<W: Write> BristolNXAOWriter<W> {
         wire_of_gate: &mut HashMap<GateId, usize>,
         const_of_wire: &mut HashMap<usize, bool>,
     ) -> Result<(), BristolError> {
+        // The gates below are written from a list of pending gates, because a recursion along a
+        // long chain of gates overflows the stack.
+        let mut pending_ids = Self::unwritten_operands(gate, wire_of_gate);
+        let mut waiting_ids = HashSet::from([*gate_id]);
+        while let Some(id) = pending_ids.last().copied() {
+            if wire_of_gate.contains_key(&id) {
+                pending_ids.pop();
+                continue;
+            }
+            let operand = self.c_ref.get_gate(&id)?;
+            let operand_ids = Self::unwritten_operands(&operand, wire_of_gate);
+            if operand_ids.is_empty() {
+                self.write_single_gate(&id, &operand, wire_of_gate, const_of_wire)?;
+                pending_ids.pop();
+            } else if waiting_ids.insert(id) {
+                pending_ids.extend(operand_ids);
+            } else {
+                // The gate depends on itself.
+                return Err(BristolError::UnknownGate(id));
+            }
+        }
         match gate {
             NXAOBoolGate::Input(gate) => {
                 self.update_wire(gate_id, 0, None, &gate.to_str(), wire_of_gate)
             }
             NXAOBoolGate::Const(_) => Ok(()),
             NXAOBoolGate::Not(gate) => {
-                if wire_of_gate.get(&gate.id).is_none() {
-                    //println!("not found id {}",gate.id);
-                    let input_gate = self.c_ref.get_gate(&gate.id)?.clone();
-                    self.write_single_gate(&gate.id, &input_gate, wire_of_gate, const_of_wire)?;
-                }
                 let input_wire = wire_of_gate[&gate.id];
                 self.update_wire(
                     gate_id,
@@ -456,26 +483,6 @@ impl<W: Write> BristolNXAOWriter<W> {
                 )
             }
             NXAOBoolGate::Xor(gate) => {
-                if wire_of_gate.get(&gate.left_id).is_none() {
-                    //println!("not found id {}",gate.left_id);
-                    let input_gate = self.c_ref.get_gate(&gate.left_id)?.clone();
-                    self.write_single_gate(
-                        &gate.left_id,
-                        &input_gate,
-                        wire_of_gate,
-                        const_of_wire,
-                    )?;
-                }
-                if wire_of_gate.get(&gate.right_id).is_none() {
-                    //println!("not found id {}",gate.right_id);
-                    let input_gate = self.c_ref.get_gate(&gate.right_id)?.clone();
-                    self.write_single_gate(
-                        &gate.right_id,
-                        &input_gate,
-                        wire_of_gate,
-                        const_of_wire,
-                    )?;
-                }
                 let l_wire = wire_of_gate[&gate.left_id];
                 let r_wire = wire_of_gate[&gate.right_id];
                 self.update_wire(
@@ -487,26 +494,6 @@ impl<W: Write> BristolNXAOWriter<W> {
                 )
             }
             NXAOBoolGate::And(gate) => {
-                if wire_of_gate.get(&gate.left_id).is_none() {
-                    //println!("not found id {}",gate.left_id);
-                    let input_gate = self.c_ref.get_gate(&gate.left_id)?.clone();
-                    self.write_single_gate(
-                        &gate.left_id,
-                        &input_gate,
-                        wire_of_gate,
-                        const_of_wire,
-                    )?;
-                }
-                if wire_of_gate.get(&gate.right_id).is_none() {
-                    //println!("not found id {}",gate.right_id);
-                    let input_gate = self.c_ref.get_gate(&gate.right_id)?.clone();
-                    self.write_single_gate(
-                        &gate.right_id,
-                        &input_gate,
-                        wire_of_gate,
-                        const_of_wire,
-                    )?;
-                }
                 let l_wire = wire_of_gate[&gate.left_id];
                 let r_wire = wire_of_gate[&gate.right_id];
                 self.update_wire(
@@ -518,26 +505,6 @@ impl<W: Write> BristolNXAOWriter<W> {
                 )
             }
             NXAOBoolGate::Or(gate) => {
-                if wire_of_gate.get(&gate.left_id).is_none() {
-                    //println!("not found id {}",gate.left_id);
-                    let input_gate = self.c_ref.get_gate(&gate.left_id)?.clone();
-                    self.write_single_gate(
-                        &gate.left_id,
-                        &input_gate,
-                        wire_of_gate,
-                        const_of_wire,
-                    )?;
-                }
-                if wire_of_gate.get(&gate.right_id).is_none() {
-                    //println!("not found id {}",gate.right_id);
-                    let input_gate = self.c_ref.get_gate(&gate.right_id)?.clone();
-                    self.write_single_gate(
-                        &gate.right_id,
-                        &input_gate,
-                        wire_of_gate,
-                        const_of_wire,
-                    )?;
-                }
                 let l_wire = wire_of_gate[&gate.left_id];
                 let r_wire = wire_of_gate[&gate.right_id];
                 self.update_wire(
@@ -551,12 +518,6 @@ impl<W: Write> BristolNXAOWriter<W> {
             NXAOBoolGate::Module(gate) => {
                 //println!("writer module id {} gate id {}",gate.module_id, gate_id);
                 let input_ids = &gate.input_ids;
-                for id in input_ids {
-                    if wire_of_gate.get(id).is_none() {
-                        let input_gate = self.c_ref.get_gate(id)?.clone();
-                        self.write_single_gate(&id, &input_gate, wire_of_gate, const_of_wire)?;
-                    }
-                }
                 let module_circuit = self.c_ref.get_module(&gate.module_id)?.clone();
                 let mut new_wire_of_gate = HashMap::new();
                 let mut last_input_wire_id = WireId(0);
-- 
2.43.0


From b2e98ff6fdd241ea8382a6c1b330ceab101c1307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:22 +0000
Subject: [PATCH 18/19] fix: compute the extended gcd of numbers of any size
 without overflowing the stack

---
 src/utils.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index e2d6b02..7949e1d 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -57,15 +57,26 @@ pub fn hex2bytes(hex: &str) -> Result<Vec<u8>, FromHexError> {
 
 pub fn ext_gcd(a: &BigInt, b: &BigInt) -> (BigInt, BigInt, BigInt) {
     let zero = BigInt::zero();
-    if b == &zero {
-        let one = BigInt::from(1i32);
-        return (one, zero, a.clone());
+    // The quotients are collected first, because a recursion over the steps of the algorithm
+    // overflows the stack on numbers of some ten thousand bits.
+    let mut qs = Vec::new();
+    let mut d = a.clone();
+    let mut r = b.clone();
+    while r != zero {
+        let q = (&d) / (&r);
+        let new_r = (&d) % (&r);
+        d = r;
+        r = new_r;
+        qs.push(q);
     }
-    let q = a / b;
-    let r = a % b;
-    let (s, t, d) = ext_gcd(b, &r);
-    let new_y = (&s) - (&q) * (&t);
-    return (t, new_y, d);
+    let mut s = BigInt::from(1i32);
+    let mut t = zero;
+    for q in qs.iter().rev() {
+        let new_y = (&s) - q * (&t);
+        s = t;
+        t = new_y;
+    }
+    return (s, t, d);
 }
 
 #[cfg(test)]
-- 
2.43.0


From f35effe9b40337a4ef17643a7dc272709e788b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:46 +0000
Subject: [PATCH 19/19] fix: print a circuit that has modules for debugging
 without overflowing the stack

---
 src/bool_circuit.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/bool_circuit.rs b/src/bool_circuit.rs
index b3f297e..3ed1193 100644
--- a/src/bool_circuit.rs
+++ b/src/bool_circuit.rs
@@ -1,6 +1,7 @@
 use crate::gates::*;
 use std::cell::{Ref, RefCell, RefMut};
 use std::collections::HashMap;
+use std::fmt;
 use std::marker::PhantomData;
 use std::rc::Rc;
 use thiserror::Error;
@@ -320,9 +321,19 @@ impl<G: Gate, C: BoolCircuit<G>> BoolCircuit<G> for BoolCircuitRef<G, C> {
 }
 */
 
-#[derive(Debug, Clone)]
+#[derive(Clone)]
 pub struct ModuleStorageRef<G: Gate, C: BoolCircuit<G>>(Rc<RefCell<ModuleStorage<G, C>>>);
 
+// The modules are left out, because a module that shares the storage refers back to it.
+impl<G: Gate, C: BoolCircuit<G>> fmt::Debug for ModuleStorageRef<G, C> {
+    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+        let num_module = self.0.try_borrow().map(|storage| storage.num_module).ok();
+        f.debug_struct("ModuleStorageRef")
+            .field("num_module", &num_module)
+            .finish_non_exhaustive()
+    }
+}
+
 impl<G: Gate, C: BoolCircuit<G>> ModuleStorageRef<G, C> {
     pub fn new() -> Self {
         Self(Rc::new(RefCell::new(ModuleStorage::<G, C>::new())))
-- 
2.43.0

