From 646ddebace170ce0d114dc628d15ea5a4b304da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:40 +0000
Subject: [PATCH 01/52] fix: keep the entrypoint function when constant folding
 in QSystemPass

ConstantFoldPass eliminates dead code below the module root, and without a
marked entry point it removed the program's main function: the pass then
panicked when restoring the entrypoint.
---
 tket-qsystem/src/lib.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/tket-qsystem/src/lib.rs b/tket-qsystem/src/lib.rs
index 08a69d7..daf2e69 100644
--- a/tket-qsystem/src/lib.rs
+++ b/tket-qsystem/src/lib.rs
@@ -20,7 +20,8 @@ use hugr::{
         RemoveDeadFuncsPass,
     },
     hugr::{hugrmut::HugrMut, HugrError},
-    Hugr, HugrView, Node,
+    ops::Value,
+    Hugr, HugrView, IncomingPort, Node,
 };
 use lower_drops::LowerDropsPass;
 use replace_bools::{ReplaceBoolPass, ReplaceBoolPassError};
@@ -131,7 +132,18 @@ impl QSystemPass {
             inline_constant_functions(hugr)?;
         }
         if self.constant_fold {
-            self.constant_fold().run(hugr)?;
+            // The whole module is folded, so the function containing the entrypoint
+            // must be marked as needed or it would be removed as dead code.
+            let mut main_func = entrypoint;
+            while let Some(parent) = hugr
+                .get_parent(main_func)
+                .filter(|&p| p != hugr.module_root())
+            {
+                main_func = parent;
+            }
+            self.constant_fold()
+                .with_inputs(main_func, std::iter::empty::<(IncomingPort, Value)>())
+                .run(hugr)?;
         }
         if self.force_order {
             self.force_order(hugr)?;
-- 
2.43.0


From 1c299afd8ce8c5a9e49979df80b21a91aa3a8137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:19 +0000
Subject: [PATCH 02/52] fix: controlled CZ and Z lost a relative phase

CRz(pi) is diag(1, 1, -i, i), not CZ: with a further control the phase
is no longer global. Build the controlled CZ from a controlled CX.
---
 tket/src/modifier/modifier_resolver/tket_op_modify.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver/tket_op_modify.rs b/tket/src/modifier/modifier_resolver/tket_op_modify.rs
index 9f54663..62bde5e 100644
--- a/tket/src/modifier/modifier_resolver/tket_op_modify.rs
+++ b/tket/src/modifier/modifier_resolver/tket_op_modify.rs
@@ -385,11 +385,12 @@ impl<N: HugrNode> ModifierResolver<N> {
                 Ok(pv)
             }
             CZ => {
-                // reduce CZ to CRz(pi)
-                let mut pv = self.modify_tket_op(n, CRz, new_fn, ancilla)?;
-                let halfturn = new_fn.add_load_value(ConstRotation::new(1.0).unwrap());
-                let dw = pv.incoming.remove(2);
-                connect(new_fn, &dw, &halfturn.into())?;
+                // reduce CZ to CX conjugated by H on the target
+                let h1 = new_fn.add_child_node(H);
+                let h2 = new_fn.add_child_node(H);
+                let mut pv = self.modify_tket_op(n, CX, new_fn, ancilla)?;
+                pv.incoming[1] = connect_by_num(new_fn, &pv.incoming[1], h1, 0);
+                pv.outgoing[1] = connect_by_num(new_fn, &pv.outgoing[1], h2, 0);
                 Ok(pv)
             }
             X | CX | Toffoli => {
-- 
2.43.0


From dfa24d57857d4dccd7fc9ceddc35a65b79b9aeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:19 +0000
Subject: [PATCH 03/52] fix: controlled Toffoli swapped its two control outputs

The controls are popped in the reverse of the order they were pushed.
---
 tket/src/modifier/modifier_resolver/tket_op_modify.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tket/src/modifier/modifier_resolver/tket_op_modify.rs b/tket/src/modifier/modifier_resolver/tket_op_modify.rs
index 62bde5e..b29a4be 100644
--- a/tket/src/modifier/modifier_resolver/tket_op_modify.rs
+++ b/tket/src/modifier/modifier_resolver/tket_op_modify.rs
@@ -454,7 +454,7 @@ impl<N: HugrNode> ModifierResolver<N> {
                     this.modify_tket_op(n, V, new_fn, ancilla)
                 })?;
                 for _ in 0..gate_control {
-                    outgoing.push(self.pop_control().unwrap().into());
+                    outgoing.insert(0, self.pop_control().unwrap().into());
                 }
                 connect(new_fn, &targ.into(), &pv_cnrx.incoming[0])?;
                 // connect(new_fn, &half_pos.into(), &pv_cnrx.incoming[1])?;
-- 
2.43.0


From 6b3f0b395b81bb960746bfcacd1900ad07108a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:19 +0000
Subject: [PATCH 04/52] fix: control arrays of different sizes in the wrong
 order

accum_ctrl starts with the outermost control modifier, whose array is the
first argument of the modified function.
---
 tket/src/modifier/modifier_resolver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tket/src/modifier/modifier_resolver.rs b/tket/src/modifier/modifier_resolver.rs
index 33d1404..4475fda 100644
--- a/tket/src/modifier/modifier_resolver.rs
+++ b/tket/src/modifier/modifier_resolver.rs
@@ -704,7 +704,7 @@ impl<N: HugrNode> ModifierResolver<N> {
             input.to_mut().splice(0..0, iter::repeat_n(qb_t(), n));
             output.to_mut().splice(0..0, iter::repeat_n(qb_t(), n));
         } else {
-            for ctrls in &self.modifiers.accum_ctrl {
+            for ctrls in self.modifiers.accum_ctrl.iter().rev() {
                 let n = *ctrls as u64;
                 input.to_mut().insert(0, array_type(n, qb_t()));
                 output.to_mut().insert(0, array_type(n, qb_t()));
-- 
2.43.0


From 5afe223ef24dd7f5ca625b9082eab9953dc86483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:36 +0000
Subject: [PATCH 05/52] fix: inverse of a controlled nested region or call with
 classical inputs

The ports of the original node were classified with the signature that
already contains the control qubits, so a classical input was taken for a
qubit and its wire reversed.
---
 tket/src/modifier/modifier_resolver.rs             | 2 +-
 tket/src/modifier/modifier_resolver/call_modify.rs | 2 +-
 tket/src/modifier/modifier_resolver/dfg_modify.rs  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver.rs b/tket/src/modifier/modifier_resolver.rs
index 4475fda..ece1df9 100644
--- a/tket/src/modifier/modifier_resolver.rs
+++ b/tket/src/modifier/modifier_resolver.rs
@@ -1048,7 +1048,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         self.wire_node_inout(
             n,
             new,
-            (signature.input.iter(), signature.output.iter()),
+            (cfg.signature.input.iter(), cfg.signature.output.iter()),
             (0, 0, offset),
         )?;
         // self.wire_others(n, cfg.into(), new, new_dfg.hugr().get_optype(new))?;
diff --git a/tket/src/modifier/modifier_resolver/call_modify.rs b/tket/src/modifier/modifier_resolver/call_modify.rs
index 8ade56e..694ea46 100644
--- a/tket/src/modifier/modifier_resolver/call_modify.rs
+++ b/tket/src/modifier/modifier_resolver/call_modify.rs
@@ -41,9 +41,9 @@ impl<N: HugrNode> ModifierResolver<N> {
 
         let mut poly_sig = call.func_sig.clone();
         let type_args = call.type_args.clone();
+        let signature = call.signature();
         self.modify_signature(poly_sig.body_mut(), false);
         let new_call = Call::try_new(poly_sig, type_args).map_err(BuildError::from)?;
-        let signature = (*new_call.signature()).clone();
         let new_call_fn_port = new_call.called_function_port();
         let new_call_node = new_dfg.add_child_node(new_call);
 
diff --git a/tket/src/modifier/modifier_resolver/dfg_modify.rs b/tket/src/modifier/modifier_resolver/dfg_modify.rs
index 2647184..ba4a1ab 100644
--- a/tket/src/modifier/modifier_resolver/dfg_modify.rs
+++ b/tket/src/modifier/modifier_resolver/dfg_modify.rs
@@ -456,7 +456,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         self.wire_node_inout(
             n,
             new_dfg,
-            (signature.input.iter(), signature.output.iter()),
+            (dfg.signature.input.iter(), dfg.signature.output.iter()),
             (0, 0, offset),
         )?;
 
-- 
2.43.0


From fac95157b30c78ad58918da346f608220b93de87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:00 +0000
Subject: [PATCH 06/52] fix: radian parameters that are sums lost their
 parentheses in pytket half-turns

---
 tket-qsystem/src/pytket/qsystem.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/tket-qsystem/src/pytket/qsystem.rs b/tket-qsystem/src/pytket/qsystem.rs
index 96d0483..5da8ce1 100644
--- a/tket-qsystem/src/pytket/qsystem.rs
+++ b/tket-qsystem/src/pytket/qsystem.rs
@@ -87,8 +87,11 @@ impl QSystemEmitter {
         encoder.emit_node_command(node, circ, EmitCommandOptions::new(), move |mut inputs| {
             for param in inputs.params.to_mut() {
                 *param = match param.strip_suffix(") * (pi)") {
-                    Some(s) if s.starts_with("(") => s[1..].to_string(),
-                    _ => format!("{param} / (pi)"),
+                    // Only cancel the factor if the parentheses enclose the whole left operand.
+                    Some(s) if s.starts_with("(") && has_balanced_parens(&s[1..]) => {
+                        s[1..].to_string()
+                    }
+                    _ => format!("({param}) / (pi)"),
                 };
             }
             make_tk1_operation(serial_op, inputs)
@@ -115,6 +118,20 @@ impl QSystemEmitter {
     }
 }
 
+/// Whether every parenthesis in the expression is closed, and none is closed before being opened.
+fn has_balanced_parens(expr: &str) -> bool {
+    let mut depth = 0;
+    for c in expr.chars() {
+        match c {
+            '(' => depth += 1,
+            ')' if depth == 0 => return false,
+            ')' => depth -= 1,
+            _ => {}
+        }
+    }
+    depth == 0
+}
+
 impl PytketDecoder for QSystemEmitter {
     fn op_types(&self) -> Vec<PytketOptype> {
         // Process native optypes that are not supported by the `TketOp` emitter.
-- 
2.43.0


From 4ef45fb7d3f775e939d986b364ba76eeaa4719fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:34 +0000
Subject: [PATCH 07/52] fix: core registry lacked the global phase and modifier
 extensions

---
 tket/src/extension.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tket/src/extension.rs b/tket/src/extension.rs
index 5505035..f49e12f 100644
--- a/tket/src/extension.rs
+++ b/tket/src/extension.rs
@@ -61,7 +61,9 @@ pub(crate) static ref REGISTRY: ExtensionRegistry = ExtensionRegistry::new(
     TKET_EXTENSION.to_owned(),
     bool::BOOL_EXTENSION.to_owned(),
     debug::DEBUG_EXTENSION.to_owned(),
+    global_phase::GLOBAL_PHASE_EXTENSION.to_owned(),
     guppy::GUPPY_EXTENSION.to_owned(),
+    modifier::MODIFIER_EXTENSION.to_owned(),
     rotation::ROTATION_EXTENSION.to_owned()
 ]));
 
-- 
2.43.0


From ca5585206ef9cdf11ac0643428f7ed87a551dd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:41 +0000
Subject: [PATCH 08/52] fix: device compiler's loader lacked the random, utils
 and guppy extensions

---
 qis-compiler/rust/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/qis-compiler/rust/lib.rs b/qis-compiler/rust/lib.rs
index 2127136..daf06b5 100644
--- a/qis-compiler/rust/lib.rs
+++ b/qis-compiler/rust/lib.rs
@@ -43,7 +43,10 @@ use tket::hugr::{self, llvm::inkwell};
 use tket::hugr::{Hugr, HugrView, Node};
 use tket::llvm::rotation::RotationCodegenExtension;
 use tket_qsystem::QSystemPass;
-use tket_qsystem::extension::{futures as qsystem_futures, qsystem, result as qsystem_result};
+use tket_qsystem::extension::{
+    futures as qsystem_futures, qsystem, random as qsystem_random, result as qsystem_result,
+    utils as qsystem_utils,
+};
 use tket_qsystem::llvm::array_utils::ArrayLowering;
 pub use tket_qsystem::llvm::futures::FuturesCodegenExtension;
 use tket_qsystem::llvm::{
@@ -76,13 +79,16 @@ static REGISTRY: std::sync::LazyLock<ExtensionRegistry> = std::sync::LazyLock::n
         collections::borrow_array::EXTENSION.to_owned(),
         collections::value_array::EXTENSION.to_owned(),
         qsystem_futures::EXTENSION.to_owned(),
+        qsystem_random::EXTENSION.to_owned(),
         qsystem_result::EXTENSION.to_owned(),
+        qsystem_utils::EXTENSION.to_owned(),
         qsystem::EXTENSION.to_owned(),
         ROTATION_EXTENSION.to_owned(),
         TKET_EXTENSION.to_owned(),
         TKET1_EXTENSION.to_owned(),
         tket::extension::bool::BOOL_EXTENSION.to_owned(),
         tket::extension::debug::DEBUG_EXTENSION.to_owned(),
+        tket::extension::guppy::GUPPY_EXTENSION.to_owned(),
         tket_qsystem::extension::gpu::EXTENSION.to_owned(),
         tket_qsystem::extension::wasm::EXTENSION.to_owned(),
     ])
-- 
2.43.0


From 9a68ff651fc7ee5bec1c4dbdfdddd0c1a25fb508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:29 +0000
Subject: [PATCH 09/52] fix: pytket parameter parser misread powers, 2**3**2
 and -x**2

---
 tket/src/serialize/pytket/decoder/param/param.pest |  7 ++++---
 tket/src/serialize/pytket/decoder/param/parser.rs  | 14 +++++++++-----
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder/param/param.pest b/tket/src/serialize/pytket/decoder/param/param.pest
index d672d13..a9972cf 100644
--- a/tket/src/serialize/pytket/decoder/param/param.pest
+++ b/tket/src/serialize/pytket/decoder/param/param.pest
@@ -14,8 +14,7 @@ variable = _{ ident }
 ///
 /// The atomic marker `@` ensures no whitespace is present inside.
 num = @{
-    "-"?
-    ~ ("0" | ASCII_NONZERO_DIGIT ~ ASCII_DIGIT*)
+    ("0" | ASCII_NONZERO_DIGIT ~ ASCII_DIGIT*)
     ~ ("." ~ ASCII_DIGIT*)?
     ~ (^"e" ~ ("+" | "-")? ~ ASCII_DIGIT+)?
 }
@@ -33,7 +32,9 @@ infix_operator = _{ add | subtract | power | multiply | divide }
 /// Function calls like (`max(2,4)`)
 function_call = { ident ~ ( "()" | "(" ~ expr ~ ("," ~ expr)* ~ ","? ~ ")") }
 /// Unary negation, with a special identifier
-unary_minus = { "-" ~ term }
+///
+/// It binds less tightly than `power`, so `-2**2` is read as `-(2**2)`.
+unary_minus = { "-" ~ term ~ (power ~ term)* }
 
 /// Implicit multiplication lets us write expressions like `2x`.
 /// This has higher precedence that `infix_operator`s.
diff --git a/tket/src/serialize/pytket/decoder/param/parser.rs b/tket/src/serialize/pytket/decoder/param/parser.rs
index eadb2fe..2a1a12e 100644
--- a/tket/src/serialize/pytket/decoder/param/parser.rs
+++ b/tket/src/serialize/pytket/decoder/param/parser.rs
@@ -79,7 +79,8 @@ lazy_static::lazy_static! {
             // Addition and subtract have equal precedence
             .op(Op::infix(add, Left) | Op::infix(subtract, Left))
             .op(Op::infix(multiply, Left) | Op::infix(divide, Left))
-            .op(Op::infix(power, Left))
+            // Powers group to the right, `a**b**c` is `a**(b**c)`.
+            .op(Op::infix(power, Right))
     };
 }
 
@@ -126,10 +127,13 @@ fn parse_term(pair: Pair<'_, Rule>) -> PytketParam<'_> {
             }
         }
         Rule::num => parse_number(pair),
-        Rule::unary_minus => PytketParam::Operation {
-            op: FloatOps::fneg.into(),
-            args: vec![parse_term(pair.into_inner().next().unwrap())],
-            param_ty: FloatHalfTurns,
+        Rule::unary_minus => match parse_infix_ops(pair.into_inner()) {
+            PytketParam::Constant(half_turns) => PytketParam::Constant(-half_turns),
+            arg => PytketParam::Operation {
+                op: FloatOps::fneg.into(),
+                args: vec![arg],
+                param_ty: FloatHalfTurns,
+            },
         },
         Rule::function_call => parse_function_call(pair),
         Rule::ident => PytketParam::InputVariable {
-- 
2.43.0


From 3c360599b39aff22509b885382a1a94aaf23dbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:48 +0000
Subject: [PATCH 10/52] fix: pytket function calls with a wrong number of
 arguments built malformed nodes

---
 .../serialize/pytket/decoder/param/parser.rs   | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder/param/parser.rs b/tket/src/serialize/pytket/decoder/param/parser.rs
index 2a1a12e..da26b86 100644
--- a/tket/src/serialize/pytket/decoder/param/parser.rs
+++ b/tket/src/serialize/pytket/decoder/param/parser.rs
@@ -160,19 +160,23 @@ fn parse_function_call(pair: Pair<'_, Rule>) -> PytketParam<'_> {
         .next()
         .expect("Function call must have a name")
         .as_str();
-    let op = match name {
-        "max" => FloatOps::fmax.into(),
-        "min" => FloatOps::fmin.into(),
-        "abs" => FloatOps::fabs.into(),
-        "floor" => FloatOps::ffloor.into(),
-        "ceil" => FloatOps::fceil.into(),
-        "round" => FloatOps::fround.into(),
+    let (op, arity) = match name {
+        "max" => (FloatOps::fmax.into(), 2),
+        "min" => (FloatOps::fmin.into(), 2),
+        "abs" => (FloatOps::fabs.into(), 1),
+        "floor" => (FloatOps::ffloor.into(), 1),
+        "ceil" => (FloatOps::fceil.into(), 1),
+        "round" => (FloatOps::fround.into(), 1),
         // Unrecognized function name.
         // Treat it as an opaque sympy expression.
         _ => return PytketParam::Sympy(pair_str),
     };
 
     let args = args.map(|arg| parse_term(arg)).collect::<Vec<_>>();
+    if args.len() != arity {
+        // Not a call the operation can represent, e.g. `max(a, b, c)`.
+        return PytketParam::Sympy(pair_str);
+    }
     PytketParam::Operation {
         op,
         args,
-- 
2.43.0


From 66496aac6c649dc8f9560b60d92a5e980b683edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:48 +0000
Subject: [PATCH 11/52] fix: pytket parameters outside of the f64 range made
 the decoder panic

---
 tket/src/serialize/pytket/decoder/param/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tket/src/serialize/pytket/decoder/param/parser.rs b/tket/src/serialize/pytket/decoder/param/parser.rs
index da26b86..32f61d7 100644
--- a/tket/src/serialize/pytket/decoder/param/parser.rs
+++ b/tket/src/serialize/pytket/decoder/param/parser.rs
@@ -149,6 +149,10 @@ fn parse_number(pair: Pair<'_, Rule>) -> PytketParam<'_> {
     let half_turns = num
         .parse::<f64>()
         .unwrap_or_else(|_| panic!("`num` rule matched invalid number \"{num}\""));
+    if !half_turns.is_finite() {
+        // Literals outside of the `f64` range cannot be loaded as constants.
+        return PytketParam::Sympy(num);
+    }
     PytketParam::Constant(half_turns)
 }
 
-- 
2.43.0


From fa28f898dc34c24af26b40b05deefd922c7132ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:40 +0000
Subject: [PATCH 12/52] fix: pytket classical expressions overwrote their first
 input bit

---
 tket/src/serialize/pytket/encoder.rs            |  4 ++--
 .../serialize/pytket/encoder/value_tracker.rs   | 17 +++++++++++++++++
 tket/src/serialize/pytket/extension/bool.rs     |  3 ++-
 tket/src/serialize/pytket/extension/tk1.rs      |  2 +-
 4 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/tket/src/serialize/pytket/encoder.rs b/tket/src/serialize/pytket/encoder.rs
index 1759437..430c671 100644
--- a/tket/src/serialize/pytket/encoder.rs
+++ b/tket/src/serialize/pytket/encoder.rs
@@ -1052,7 +1052,7 @@ impl<H: HugrView> PytketEncoderContext<H> {
         };
         let output_bits = match options.reuse_bits_fn {
             Some(f) => f(input_bits),
-            None => input_bits.to_vec(),
+            None => Vec::new(),
         };
 
         // Compute all the output parameters at once
@@ -1102,7 +1102,7 @@ impl<H: HugrView> PytketEncoderContext<H> {
             out_wire_values.extend(bits.by_ref().take(count.bits).map(TrackedValue::Bit));
             let reused_bit_count = out_wire_values.len() - non_bit_count;
             for _ in reused_bit_count..count.bits {
-                let b = self.values.new_bit();
+                let b = self.values.new_bit_excluding(input_bits);
                 new_outputs.bits.push(b);
                 out_wire_values.push(TrackedValue::Bit(b));
             }
diff --git a/tket/src/serialize/pytket/encoder/value_tracker.rs b/tket/src/serialize/pytket/encoder/value_tracker.rs
index e78fec3..a7ae0eb 100644
--- a/tket/src/serialize/pytket/encoder/value_tracker.rs
+++ b/tket/src/serialize/pytket/encoder/value_tracker.rs
@@ -306,6 +306,23 @@ impl<N: HugrNode> ValueTracker<N> {
         })
     }
 
+    /// Picks an unused bit ID that is not in the `excluded` list.
+    ///
+    /// The input bits of an operation are released when they are read for the
+    /// last time, so its outputs need to avoid them if they must be distinct.
+    pub(super) fn new_bit_excluding(&mut self, excluded: &[TrackedBit]) -> TrackedBit {
+        match self.unused_bits.iter().find(|b| !excluded.contains(b)) {
+            Some(&bit) => {
+                self.unused_bits.remove(&bit);
+                bit
+            }
+            None => {
+                self.bits.push(self.bit_reg_generator.next());
+                TrackedBit(self.bits.len() - 1)
+            }
+        }
+    }
+
     /// Register a new parameter string expression.
     ///
     /// Returns a unique identifier for the expression.
diff --git a/tket/src/serialize/pytket/extension/bool.rs b/tket/src/serialize/pytket/extension/bool.rs
index 4ae5fed..9a0df27 100644
--- a/tket/src/serialize/pytket/extension/bool.rs
+++ b/tket/src/serialize/pytket/extension/bool.rs
@@ -60,7 +60,8 @@ impl<H: HugrView> PytketEmitter<H> for BoolEmitter {
         // variable inputs. If new [`BoolOp`]s are added that do not follow
         // this, the following code will need to be adjusted.
         let bit_count = (num_inputs + num_outputs) as usize;
-        let output_bits = (0..num_outputs).collect_vec();
+        // The fresh output bits come after the input bits.
+        let output_bits = (num_inputs..num_inputs + num_outputs).collect_vec();
         let mut expression = ClOperator::default();
         expression.op = clop;
         expression.args = (0..num_inputs)
diff --git a/tket/src/serialize/pytket/extension/tk1.rs b/tket/src/serialize/pytket/extension/tk1.rs
index 2cd84f6..db39900 100644
--- a/tket/src/serialize/pytket/extension/tk1.rs
+++ b/tket/src/serialize/pytket/extension/tk1.rs
@@ -53,7 +53,7 @@ impl<H: HugrView> PytketEmitter<H> for Tk1Emitter {
         encoder.emit_node_command(
             node,
             circ,
-            EmitCommandOptions::new(),
+            EmitCommandOptions::new().reuse_all_bits(),
             // Emit the pre-defined pytket operation stored in the metadata.
             move |_| op.serialised_op,
         )?;
-- 
2.43.0


From 65ebd3889a98187a5820f88e38438c64acc163e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:45 +0000
Subject: [PATCH 13/52] fix: decoding pytket classical expressions dropped
 nested arguments and bit positions

---
 tket/src/serialize/pytket/extension/bool.rs | 56 ++++++++++++---------
 1 file changed, 33 insertions(+), 23 deletions(-)

diff --git a/tket/src/serialize/pytket/extension/bool.rs b/tket/src/serialize/pytket/extension/bool.rs
index 9a0df27..45f9961 100644
--- a/tket/src/serialize/pytket/extension/bool.rs
+++ b/tket/src/serialize/pytket/extension/bool.rs
@@ -128,30 +128,37 @@ impl PytketDecoder for BoolEmitter {
             return Ok(DecodeStatus::Unsupported);
         };
 
-        // We only decode classical expressions if their operands are the input
-        // bits in 0..n order, and the output comes immediately after.
+        // Position in the command's bits of each argument in the expression.
         //
-        // This can be easily relaxed if needed.
-        for (i, reg) in clexpr.reg_posn.iter().enumerate() {
-            if reg.index != i as u32 || reg.bits.0.len() != 1 {
-                return Ok(DecodeStatus::Unsupported);
-            }
-        }
-        for (i, arg) in clexpr.expr.args.iter().enumerate() {
-            match arg {
-                ClArgument::Terminal(ClTerminal::Variable(ClVariable::Bit { index }))
-                    if *index != i as u32 =>
-                {
-                    return Ok(DecodeStatus::Unsupported);
+        // We only decode flat expressions over bits (or registers with a single bit).
+        let mut input_bits = Vec::with_capacity(clexpr.expr.args.len());
+        for arg in &clexpr.expr.args {
+            let posn = match arg {
+                ClArgument::Terminal(ClTerminal::Variable(ClVariable::Bit { index })) => clexpr
+                    .bit_posn
+                    .iter()
+                    .find(|(var, _)| var == index)
+                    .map(|(_, posn)| *posn),
+                ClArgument::Terminal(ClTerminal::Variable(ClVariable::Register { index })) => {
+                    clexpr
+                        .reg_posn
+                        .iter()
+                        .find(|reg| reg.index == *index && reg.bits.0.len() == 1)
+                        .map(|reg| reg.bits.0[0])
                 }
-                ClArgument::Terminal(ClTerminal::Variable(ClVariable::Register { index }))
-                    if *index != i as u32 =>
-                {
-                    return Ok(DecodeStatus::Unsupported);
-                }
-                _ => continue,
-            }
+                _ => None,
+            };
+            let Some(bit) = posn.and_then(|posn| bits.get(posn as usize)) else {
+                return Ok(DecodeStatus::Unsupported);
+            };
+            input_bits.push(bit.clone());
         }
+        let &[output] = clexpr.output_posn.0.as_slice() else {
+            return Ok(DecodeStatus::Unsupported);
+        };
+        let Some(output_bit) = bits.get(output as usize) else {
+            return Ok(DecodeStatus::Unsupported);
+        };
 
         let (op, num_inputs) = match clexpr.expr.op {
             ClOp::BitEq => (BoolOp::eq, 2),
@@ -161,6 +168,9 @@ impl PytketDecoder for BoolEmitter {
             ClOp::BitXor => (BoolOp::xor, 2),
             _ => return Ok(DecodeStatus::Unsupported),
         };
+        if input_bits.len() != num_inputs {
+            return Ok(DecodeStatus::Unsupported);
+        }
 
         if !params.is_empty() {
             return Ok(DecodeStatus::Unsupported);
@@ -170,8 +180,8 @@ impl PytketDecoder for BoolEmitter {
             op,
             qubits,
             qubits,
-            &bits[..num_inputs],
-            &bits[num_inputs..],
+            &input_bits,
+            std::slice::from_ref(output_bit),
             &[],
         )?;
 
-- 
2.43.0


From 745c31c0d969e4408e40a58d6d23c106e4e2de87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:54 +0000
Subject: [PATCH 14/52] fix: a pytket bit still tracked by another wire was
 handed out as unused

---
 tket/src/serialize/pytket/encoder/value_tracker.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tket/src/serialize/pytket/encoder/value_tracker.rs b/tket/src/serialize/pytket/encoder/value_tracker.rs
index a7ae0eb..b5d7a54 100644
--- a/tket/src/serialize/pytket/encoder/value_tracker.rs
+++ b/tket/src/serialize/pytket/encoder/value_tracker.rs
@@ -430,7 +430,15 @@ impl<N: HugrNode> ValueTracker<N> {
                     self.unused_qubits.insert(*qb);
                 }
                 TrackedValue::Bit(bit) => {
-                    self.unused_bits.insert(*bit);
+                    // Unlike qubits, bits may be tracked by multiple wires.
+                    let shared = self
+                        .wires
+                        .values()
+                        .flat_map(|w| w.values.iter().flatten())
+                        .any(|v| v == value);
+                    if !shared {
+                        self.unused_bits.insert(*bit);
+                    }
                 }
                 TrackedValue::Param(_) => {}
             }
-- 
2.43.0


From b92a7682a9ba68a7adbe37654bce74d6b41dac3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:53 +0000
Subject: [PATCH 15/52] fix: pytket barriers over bits could not be decoded

---
 tket/src/serialize/pytket/extension/prelude.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tket/src/serialize/pytket/extension/prelude.rs b/tket/src/serialize/pytket/extension/prelude.rs
index b525c8f..0cb75e1 100644
--- a/tket/src/serialize/pytket/extension/prelude.rs
+++ b/tket/src/serialize/pytket/extension/prelude.rs
@@ -158,7 +158,7 @@ impl PytketDecoder for PreludeEmitter {
         if !params.is_empty() {
             return Ok(DecodeStatus::Unsupported);
         }
-        decoder.add_node_with_wires(op, qubits, qubits, bits, &[], &[])?;
+        decoder.add_node_with_wires(op, qubits, qubits, bits, bits, &[])?;
 
         Ok(DecodeStatus::Success)
     }
-- 
2.43.0


From 618407f75d261988bc2acafb350d422c33d8332e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:53 +0000
Subject: [PATCH 16/52] fix: a false boolean constant took the value of the
 pytket bit it reused

---
 tket/src/serialize/pytket/extension/bool.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tket/src/serialize/pytket/extension/bool.rs b/tket/src/serialize/pytket/extension/bool.rs
index 45f9961..36e88d9 100644
--- a/tket/src/serialize/pytket/extension/bool.rs
+++ b/tket/src/serialize/pytket/extension/bool.rs
@@ -82,11 +82,10 @@ impl<H: HugrView> PytketEmitter<H> for BoolEmitter {
             return Ok(None);
         };
 
+        // The bit may be a reused one, so we set the value even if it is `false`.
         let new_bit = encoder.values.new_bit();
-        if const_b.value() {
-            let op = set_bits_op(&[true]);
-            encoder.emit_command(op, &[], &[new_bit], None);
-        }
+        let op = set_bits_op(&[const_b.value()]);
+        encoder.emit_command(op, &[], &[new_bit], None);
 
         Ok(Some(TrackedValues::new_bits([new_bit])))
     }
-- 
2.43.0


From 85f180c2cdd440c85bed9b0f0ecfb58c0d496802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:52 +0000
Subject: [PATCH 17/52] fix: arrays of elements that unpack to no wires could
 not be repacked

---
 tket/src/passes/unpack_container.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/tket/src/passes/unpack_container.rs b/tket/src/passes/unpack_container.rs
index 5e48b17..96def84 100644
--- a/tket/src/passes/unpack_container.rs
+++ b/tket/src/passes/unpack_container.rs
@@ -307,13 +307,13 @@ impl UnpackContainerBuilder {
         let op = self.get_op(op_name, args.clone()).expect("known op");
 
         self.func_map.insert_with(&op, &args[..2], |func_b| {
-            let input = func_b.input();
-            // SAFETY: We guarantee no aliasing by only using this pointer in this closure.
-            let elems: Result<Vec<_>, _> = input
-                .outputs()
-                .collect::<Vec<_>>()
-                .chunks(inner_row_len)
-                .map(|chunk| self.repack_container(func_b, elem_ty, chunk.to_vec()))
+            let mut wires = func_b.input().outputs();
+            // The elements may unpack to no wires at all (e.g. empty arrays).
+            let elems: Result<Vec<_>, _> = (0..size)
+                .map(|_| {
+                    let elem_wires = wires.by_ref().take(inner_row_len).collect();
+                    self.repack_container(func_b, elem_ty, elem_wires)
+                })
                 .collect();
 
             let array_wire = func_b.add_new_generic_array::<AK>(elem_ty.clone(), elems?)?;
-- 
2.43.0


From 74a4383cf06fae4a2ba7b3f7433df348e02a5697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 18/52] fix: a tuple with an optional qubit next to a qubit
 could not be unpacked

---
 tket/src/passes/unpack_container.rs | 34 ++++++++++++++---------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/tket/src/passes/unpack_container.rs b/tket/src/passes/unpack_container.rs
index 96def84..b4967ec 100644
--- a/tket/src/passes/unpack_container.rs
+++ b/tket/src/passes/unpack_container.rs
@@ -259,7 +259,15 @@ impl UnpackContainerBuilder {
 
             let result: Vec<_> = elems
                 .into_iter()
-                .map(|wire| self.unpack_container(func_b, elem_ty, wire))
+                .map(|wire| {
+                    // Options are only unwrapped as elements of arrays.
+                    if is_opt_of(elem_ty, self.type_analyzer.element_type()) {
+                        let elem_ty = self.type_analyzer.element_type();
+                        Ok(vec![self.unpack_option(func_b, wire, elem_ty)?])
+                    } else {
+                        self.unpack_container(func_b, elem_ty, wire)
+                    }
+                })
                 .collect::<Result<Vec<_>, _>>()?
                 .concat();
             Ok(result)
@@ -311,8 +319,13 @@ impl UnpackContainerBuilder {
             // The elements may unpack to no wires at all (e.g. empty arrays).
             let elems: Result<Vec<_>, _> = (0..size)
                 .map(|_| {
-                    let elem_wires = wires.by_ref().take(inner_row_len).collect();
-                    self.repack_container(func_b, elem_ty, elem_wires)
+                    let elem_wires: Vec<_> = wires.by_ref().take(inner_row_len).collect();
+                    if is_opt_of(elem_ty, self.type_analyzer.element_type()) {
+                        let elem_ty = self.type_analyzer.element_type();
+                        self.repack_option(func_b, elem_wires[0], elem_ty)
+                    } else {
+                        self.repack_container(func_b, elem_ty, elem_wires)
+                    }
                 })
                 .collect();
 
@@ -456,15 +469,6 @@ impl UnpackContainerBuilder {
             return Ok(vec![container_wire]);
         }
 
-        // Check for option of qubit
-        if is_opt_of(ty, &hugr::extension::prelude::qb_t()) {
-            return Ok(vec![self.unpack_option(
-                builder,
-                container_wire,
-                elem_ty,
-            )?]);
-        }
-
         macro_rules! handle_array_type {
             ($array_kind:ty, $unpack_op:expr) => {
                 if let Some((n, elem_ty)) = ty.as_extension().and_then(array_args::<$array_kind>) {
@@ -507,12 +511,6 @@ impl UnpackContainerBuilder {
             return Ok(unpacked_wires[0]);
         }
 
-        // Check for option of qubit
-        if is_opt_of(ty, elem_ty) {
-            debug_assert!(unpacked_wires.len() == 1);
-            return self.repack_option(builder, unpacked_wires[0], elem_ty);
-        }
-
         macro_rules! handle_array_type {
             ($array_kind:ty, $repack_op:expr) => {
                 if let Some((n, elem_ty)) = ty.as_extension().and_then(array_args::<$array_kind>) {
-- 
2.43.0


From 49d38bb1b477f60836b2796db705dad33afdb14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:48 +0000
Subject: [PATCH 19/52] fix: count the old and the new part of a rewrite in the
 same way

---
 tket/src/circuit.rs          | 26 +++++++++++++++-----------
 tket/src/rewrite.rs          | 15 ++++++++++++++-
 tket/src/rewrite/strategy.rs | 12 ++++++++----
 3 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/tket/src/circuit.rs b/tket/src/circuit.rs
index 6baf42d..57ba5db 100644
--- a/tket/src/circuit.rs
+++ b/tket/src/circuit.rs
@@ -193,18 +193,22 @@ impl<T: HugrView> Circuit<T> {
     where
         Self: Sized,
     {
+        self.count_operations(self.hugr().children(self.hugr().module_root()))
+    }
+
+    /// The number of operations in a set of nodes of the circuit, including the
+    /// operations nested in them.
+    pub(crate) fn count_operations(&self, nodes: impl IntoIterator<Item = T::Node>) -> usize {
         let mut count = 0;
-        let mut roots = vec![self.hugr().module_root()];
-        while let Some(node) = roots.pop() {
-            for child in self.hugr().children(node) {
-                let optype = self.hugr().get_optype(child);
-                if matches!(optype, OpType::ExtensionOp(_) | OpType::OpaqueOp(_))
-                    && !IGNORED_EXTENSION_OPS.contains(&optype.to_smolstr())
-                {
-                    count += 1;
-                } else if self.hugr().first_child(node).is_some() {
-                    roots.push(child);
-                }
+        let mut nodes: Vec<T::Node> = nodes.into_iter().collect();
+        while let Some(node) = nodes.pop() {
+            let optype = self.hugr().get_optype(node);
+            if matches!(optype, OpType::ExtensionOp(_) | OpType::OpaqueOp(_))
+                && !IGNORED_EXTENSION_OPS.contains(&optype.to_smolstr())
+            {
+                count += 1;
+            } else {
+                nodes.extend(self.hugr().children(node));
             }
         }
         count
diff --git a/tket/src/rewrite.rs b/tket/src/rewrite.rs
index fa8b4bf..385684b 100644
--- a/tket/src/rewrite.rs
+++ b/tket/src/rewrite.rs
@@ -44,11 +44,24 @@ impl CircuitRewrite {
     /// The difference between the new number of nodes minus the old. A positive
     /// number is an increase in node count, a negative number is a decrease.
     pub fn node_count_delta(&self) -> isize {
-        let new_count = self.replacement().num_operations() as isize;
+        let replacement = self.replacement();
+        // Ignore the input and output nodes.
+        let new_count = replacement.hugr().children(replacement.parent()).count() as isize - 2;
         let old_count = self.subgraph().node_count() as isize;
         new_count - old_count
     }
 
+    /// Change in the number of operations of `circ`, as counted by
+    /// [`Circuit::num_operations`], when the rewrite is applied to it.
+    pub(crate) fn operation_count_delta(
+        &self,
+        circ: &Circuit<impl HugrView<Node = Node>>,
+    ) -> isize {
+        let new_count = self.replacement().num_operations() as isize;
+        let old_count = circ.count_operations(self.subgraph().nodes().iter().copied()) as isize;
+        new_count - old_count
+    }
+
     /// The subgraph that is replaced.
     pub fn subgraph(&self) -> &SiblingSubgraph {
         self.0.subgraph()
diff --git a/tket/src/rewrite/strategy.rs b/tket/src/rewrite/strategy.rs
index c0ab394..48e2f6d 100644
--- a/tket/src/rewrite/strategy.rs
+++ b/tket/src/rewrite/strategy.rs
@@ -120,12 +120,16 @@ impl RewriteStrategy for GreedyRewriteStrategy {
     ) -> impl Iterator<Item = RewriteResult<Self::Cost>> {
         let rewrites = rewrites
             .into_iter()
-            .sorted_by_key(|rw| rw.node_count_delta())
-            .take_while(|rw| rw.node_count_delta() < 0);
+            .map(|rw| {
+                let delta = rw.operation_count_delta(circ);
+                (rw, delta)
+            })
+            .sorted_by_key(|&(_, delta)| delta)
+            .take_while(|&(_, delta)| delta < 0);
         let mut changed_nodes = HashSet::new();
         let mut cost_delta = 0;
         let mut circ = circ.clone();
-        for rewrite in rewrites {
+        for (rewrite, delta) in rewrites {
             if rewrite
                 .subgraph()
                 .nodes()
@@ -135,7 +139,7 @@ impl RewriteStrategy for GreedyRewriteStrategy {
                 continue;
             }
             changed_nodes.extend(rewrite.subgraph().nodes().iter().copied());
-            cost_delta += rewrite.node_count_delta();
+            cost_delta += delta;
             rewrite
                 .apply(&mut circ)
                 .expect("Could not perform rewrite in greedy strategy");
-- 
2.43.0


From 4f3a66e506b1c2c4c4e1eaa0592e525b50b21d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:39 +0000
Subject: [PATCH 20/52] fix: the requested value is the first output of a
 copyable expression

---
 tket/src/subcircuit/expression.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tket/src/subcircuit/expression.rs b/tket/src/subcircuit/expression.rs
index d84d83a..c31a6c7 100644
--- a/tket/src/subcircuit/expression.rs
+++ b/tket/src/subcircuit/expression.rs
@@ -103,7 +103,10 @@ impl<N: HugrNode> CopyableExpr<N> {
             &nodes_to_exclude,
             circuit.hugr(),
         );
-        let outputs = outputs.into_iter().collect_vec();
+        // The value of the expression is the first output of the subgraph.
+        let outputs = std::iter::once(output)
+            .chain(outputs.into_iter().filter(|&out| out != output))
+            .collect_vec();
         // Flip topological order
         nodes.reverse();
         let function_calls = group_function_calls(function_calls, circuit);
-- 
2.43.0


From 183aff1d53b2dd5a0bde8c3ecba68783c68d51cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:39 +0000
Subject: [PATCH 21/52] fix: inputs of a copyable expression fed by excluded
 nodes come before all others

---
 tket/src/subcircuit/expression.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tket/src/subcircuit/expression.rs b/tket/src/subcircuit/expression.rs
index c31a6c7..f6142d7 100644
--- a/tket/src/subcircuit/expression.rs
+++ b/tket/src/subcircuit/expression.rs
@@ -287,7 +287,11 @@ fn sort_inputs<N: HugrNode>(
                 let (prev_node, _) = hugr
                     .single_linked_output(node, port)
                     .expect("valid dataflow wire");
-                Either::Right(nodes_to_exclude.get_index_of(&prev_node))
+                Either::Right(
+                    nodes_to_exclude
+                        .get_index_of(&prev_node)
+                        .unwrap_or(nodes_to_exclude.len()),
+                )
             }
         })
         .map(|np| vec![np])
-- 
2.43.0


From 4867808c1e492a8b3e6a3e276d2b1a8e8ca0b7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:39 +0000
Subject: [PATCH 22/52] fix: decide convexity of a copyable expression from all
 paths leaving it

---
 tket/src/subcircuit/expression.rs | 36 ++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/tket/src/subcircuit/expression.rs b/tket/src/subcircuit/expression.rs
index f6142d7..e630f2a 100644
--- a/tket/src/subcircuit/expression.rs
+++ b/tket/src/subcircuit/expression.rs
@@ -93,7 +93,7 @@ impl<N: HugrNode> CopyableExpr<N> {
             admissible_node(node, &nodes_to_exclude, circuit.hugr(), &circuit_nodes)
         });
 
-        if circuit.any_reachable_from(outputs.iter().copied(), inputs.iter().copied()) {
+        if !is_convex(&nodes, &inputs, circuit.hugr(), &circuit_nodes) {
             return Err(InvalidSubgraph::NotConvex);
         }
 
@@ -251,6 +251,40 @@ impl<N> Default for ExprArgs<N> {
     }
 }
 
+/// Whether no path leaves the subgraph of `circuit_nodes` given by `nodes` and
+/// comes back to it. State order edges are taken into account.
+fn is_convex<N: HugrNode>(
+    nodes: &[N],
+    inputs: &IndexSet<(N, IncomingPort)>,
+    hugr: &impl HugrView<Node = N>,
+    circuit_nodes: &BTreeSet<N>,
+) -> bool {
+    let nodes: BTreeSet<N> = nodes.iter().copied().collect();
+    let mut outside = Vec::new();
+    for &node in &nodes {
+        for port in hugr.node_outputs(node) {
+            for (next_node, next_port) in hugr.linked_inputs(node, port) {
+                if !nodes.contains(&next_node) {
+                    outside.push(next_node);
+                } else if inputs.contains(&(next_node, next_port)) {
+                    return false;
+                }
+            }
+        }
+    }
+
+    let mut visited = BTreeSet::new();
+    while let Some(node) = outside.pop() {
+        if nodes.contains(&node) {
+            return false;
+        }
+        if circuit_nodes.contains(&node) && visited.insert(node) {
+            outside.extend(hugr.output_neighbours(node));
+        }
+    }
+    true
+}
+
 /// Group function calls by the function they call.
 fn group_function_calls<N: HugrNode>(
     function_calls: Vec<(N, IncomingPort)>,
-- 
2.43.0


From 13b11fea4c8b9a73afe2373b265d9caf371982d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:39 +0000
Subject: [PATCH 23/52] fix: positions in a resource scope also respect state
 order edges

---
 tket/src/resource/scope.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/tket/src/resource/scope.rs b/tket/src/resource/scope.rs
index f421ff6..2b84db6 100644
--- a/tket/src/resource/scope.rs
+++ b/tket/src/resource/scope.rs
@@ -536,6 +536,22 @@ impl<H: HugrView> ResourceScope<H> {
                 next_node_units.position = cmp::max(next_node_units.position, pos.increment());
             }
         }
+
+        // Nodes that come after `node` in the state order also come after it in
+        // the circuit.
+        let Some(order_port) = self.hugr.get_optype(node).other_output_port() else {
+            return;
+        };
+        for (in_node, _) in self.hugr.linked_inputs(node, order_port) {
+            if !self.nodes().contains(&in_node) {
+                continue;
+            }
+            if let Some(next_node_units) =
+                node_circuit_units_mut(&mut self.circuit_units, in_node, &self.hugr)
+            {
+                next_node_units.position = cmp::max(next_node_units.position, pos.increment());
+            }
+        }
     }
 }
 
-- 
2.43.0


From e2540bb3bd97f91bc1407817f4d21e393f9cdc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:35 +0000
Subject: [PATCH 24/52] fix: a pattern match never reaches beyond the
 operations of the pattern

---
 tket/src/portmatching/matcher.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tket/src/portmatching/matcher.rs b/tket/src/portmatching/matcher.rs
index 8be0c35..7231cb5 100644
--- a/tket/src/portmatching/matcher.rs
+++ b/tket/src/portmatching/matcher.rs
@@ -159,7 +159,14 @@ impl PatternMatch {
             .iter()
             .map(|(n, p)| (map[n], p.as_outgoing().unwrap()))
             .collect_vec();
-        Self::try_from_io_with_checker(root, pattern, circ, inputs, outputs, checker)
+        let pattern_match =
+            Self::try_from_io_with_checker(root, pattern, circ, inputs, outputs, checker)?;
+        // If the circuit uses a value that the pattern discards, the region
+        // between the inputs and the outputs goes beyond the matched nodes.
+        if pattern_match.nodes().len() != map.len() {
+            return Err(InvalidPatternMatch::NotConvex);
+        }
+        Ok(pattern_match)
     }
 
     /// Create a pattern match from the subcircuit boundaries.
-- 
2.43.0


From 24446fa4060147b463297c7db438db999a9b8e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:39 +0000
Subject: [PATCH 25/52] fix: a new linear unit never takes the index of a unit
 that is in use

---
 tket/src/circuit/command.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tket/src/circuit/command.rs b/tket/src/circuit/command.rs
index a75ca10..067a1d7 100644
--- a/tket/src/circuit/command.rs
+++ b/tket/src/circuit/command.rs
@@ -252,6 +252,8 @@ pub struct CommandIterator<'circ, T: HugrView> {
     nodes: NodeWalker<'circ, T>,
     /// Last wire for each [`LinearUnit`] in the circuit.
     wire_unit: HashMap<Wire, usize>,
+    /// Index of the next new [`LinearUnit`].
+    next_linear_unit: usize,
     /// Maximum number of remaining commands, not counting I/O nodes nor root nodes.
     max_remaining: usize,
     /// Delayed output of constant and load const nodes. Contains nodes that
@@ -281,10 +283,11 @@ impl<'circ, T: HugrView<Node = Node>> CommandIterator<'circ, T> {
         // ports.
         //
         // TODO: `with_wires` combinator for `Units`?
-        let wire_unit = circ
+        let wire_unit: HashMap<Wire, usize> = circ
             .linear_units()
             .map(|(linear_unit, port, _)| (Wire::new(circ.input_node(), port), linear_unit.index()))
             .collect();
+        let next_linear_unit = wire_unit.len();
 
         let (region, region_node_map) = circ.hugr().region_portgraph(circ.parent());
         let node_count = region.node_count();
@@ -295,6 +298,7 @@ impl<'circ, T: HugrView<Node = Node>> CommandIterator<'circ, T> {
             region_node_map,
             nodes,
             wire_unit,
+            next_linear_unit,
             // Ignore the input and output nodes, and the root.
             max_remaining: node_count - 2,
             delayed_consts: HashSet::new(),
@@ -425,7 +429,8 @@ impl<'circ, T: HugrView<Node = Node>> CommandIterator<'circ, T> {
 
             match ports {
                 EitherOrBoth::Right((_, out_port, _)) => {
-                    let new_id = self.wire_unit.len();
+                    let new_id = self.next_linear_unit;
+                    self.next_linear_unit += 1;
                     register_output(new_id, out_port, &mut self.wire_unit);
                 }
                 EitherOrBoth::Left((_, in_port, _)) => {
-- 
2.43.0


From 7f1e2fad11d00150f9900e45a96666e2659aa1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:39 +0000
Subject: [PATCH 26/52] fix: units of a command are found by their position
 among the linear ports

---
 tket/src/circuit/command.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tket/src/circuit/command.rs b/tket/src/circuit/command.rs
index 067a1d7..40a2d7e 100644
--- a/tket/src/circuit/command.rs
+++ b/tket/src/circuit/command.rs
@@ -166,12 +166,12 @@ impl<'circ, T: HugrView<Node = Node>> Command<'circ, T> {
 
 impl<T: HugrView<Node = Node>> UnitLabeller<Node> for &Command<'_, T> {
     #[inline]
-    fn assign_linear(&self, _: Node, port: Port, _linear_count: usize) -> LinearUnit {
+    fn assign_linear(&self, _: Node, port: Port, linear_count: usize) -> LinearUnit {
         let units = match port.direction() {
             Direction::Incoming => &self.input_linear_units,
             Direction::Outgoing => &self.output_linear_units,
         };
-        *units.get(port.index()).unwrap_or_else(|| {
+        *units.get(linear_count).unwrap_or_else(|| {
             panic!(
                 "Could not assign a linear unit to port {port:?} of node {:?}",
                 self.node
-- 
2.43.0


From c7b0e24c0dfd070efb37e7e5cca6d3c71661f451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:23 +0000
Subject: [PATCH 27/52] fix: greedy commutation respects every command and
 non-qubit dependency

Slices only held TketOps, so gates were moved past any other operation on
their qubits; circuits whose qubits are not all inputs panicked; and moving
a gate ahead of another could create a cycle through classical wires or
order edges.
---
 tket/src/passes/commutation.rs | 95 +++++++++++++++++++++++++++++-----
 1 file changed, 83 insertions(+), 12 deletions(-)

diff --git a/tket/src/passes/commutation.rs b/tket/src/passes/commutation.rs
index 053a0cd..26bd5fd 100644
--- a/tket/src/passes/commutation.rs
+++ b/tket/src/passes/commutation.rs
@@ -1,9 +1,13 @@
-use std::{collections::HashMap, rc::Rc};
+use std::{
+    collections::{HashMap, HashSet},
+    rc::Rc,
+};
 
 use derive_more::{Display, Error, From};
 use hugr::hugr::patch::PatchVerification;
 use hugr::hugr::Patch;
 use hugr::hugr::{hugrmut::HugrMut, HugrError};
+use hugr::types::EdgeKind;
 use hugr::{CircuitUnit, Direction, HugrView, Node, Port, PortIndex};
 use itertools::Itertools;
 use portgraph::PortOffset;
@@ -71,14 +75,22 @@ fn add_to_slice(slice: &mut Slice, com: Rc<ComCommand>) {
 fn load_slices(circ: &Circuit<impl HugrView<Node = Node>>) -> SliceVec {
     let mut slices = vec![];
 
-    let n_qbs = circ.qubit_count();
+    // Every command that consumes a linear unit takes a place in a slice, so that
+    // other commands are only moved past it if they are known to commute.
+    let commands = circ
+        .commands()
+        .map(ComCommand::from)
+        .filter(|c| c.qubits().next().is_some())
+        .collect_vec();
+    let n_qbs = commands
+        .iter()
+        .flat_map(|c| c.qubits())
+        .map(|q| q.index() + 1)
+        .max()
+        .unwrap_or(0);
     let mut qubit_free_slice = vec![0; n_qbs];
 
-    for command in circ
-        .commands()
-        .filter(|c| is_slice_op(circ.hugr(), c.node()))
-    {
-        let command: ComCommand = command.into();
+    for command in commands {
         let free_slice = command
             .qubits()
             .map(|qb| qubit_free_slice[qb.index()])
@@ -99,11 +111,6 @@ fn load_slices(circ: &Circuit<impl HugrView<Node = Node>>) -> SliceVec {
     slices
 }
 
-/// check if node is one we want to put in to a slice.
-fn is_slice_op<H: HugrView>(h: &H, node: H::Node) -> bool {
-    h.get_optype(node).cast::<TketOp>().is_some()
-}
-
 /// Starting from starting_index, work back along slices to check for the
 /// earliest slice that can accommodate this command, if any.
 fn available_slice(
@@ -183,6 +190,61 @@ fn commutation_on_port(comms: &[(usize, Pauli)], port: Port) -> Option<Pauli> {
         .find_map(|(i, p)| (*i == port.index()).then_some(*p))
 }
 
+/// Whether an output of the command other than a linear value is used.
+///
+/// Slices order the commands along the linear units, but not along these wires.
+fn has_other_outputs(circ: &Circuit, command: &ComCommand) -> bool {
+    let hugr = circ.hugr();
+    let optype = hugr.get_optype(command.node());
+    hugr.node_outputs(command.node()).any(|port| {
+        let linear = matches!(optype.port_kind(port), Some(EdgeKind::Value(ty)) if !ty.copyable());
+        !linear && hugr.is_linked(command.node(), port)
+    })
+}
+
+/// Whether the command would depend on one of the commands in `new_nexts` after
+/// being moved in front of them.
+fn depends_on_nexts(
+    circ: &Circuit,
+    command: &Rc<ComCommand>,
+    new_nexts: &HashMap<Qb, Rc<ComCommand>>,
+) -> bool {
+    let hugr = circ.hugr();
+    let nexts: HashSet<Node> = new_nexts
+        .values()
+        .filter(|&next| next != command)
+        .map(|next| next.node())
+        .collect();
+    if nexts.is_empty() {
+        return false;
+    }
+
+    // The operations feeding the command in its new position, and everything
+    // these depend on.
+    let mut pending = Vec::new();
+    for port in hugr.node_inputs(command.node()) {
+        let next_port = match command.inputs.get(port.index()) {
+            Some(CircuitUnit::Linear(unit)) => new_nexts.get(&Qb::new(*unit)).and_then(|next| {
+                let port = next.port_of_qb(Qb::new(*unit), Direction::Incoming)?;
+                Some((next.node(), port.as_incoming().ok()?))
+            }),
+            _ => None,
+        };
+        let (node, port) = next_port.unwrap_or((command.node(), port));
+        pending.extend(hugr.linked_outputs(node, port).map(|(source, _)| source));
+    }
+    let mut visited = HashSet::new();
+    while let Some(node) = pending.pop() {
+        if nexts.contains(&node) {
+            return true;
+        }
+        if visited.insert(node) {
+            pending.extend(hugr.input_neighbours(node));
+        }
+    }
+    false
+}
+
 /// Error from a `PullForward` operation.
 #[derive(Debug, Display, Clone, Error, PartialEq, Eq, From)]
 #[non_exhaustive]
@@ -296,6 +358,11 @@ impl<H: HugrMut<Node = Node>> Patch<H> for PullForward {
 pub fn apply_greedy_commutation(circ: &mut Circuit) -> Result<u32, PullForwardError> {
     let mut count = 0;
     let mut slice_vec = load_slices(circ);
+    let other_dependencies = slice_vec
+        .iter()
+        .flatten()
+        .flatten()
+        .any(|command| has_other_outputs(circ, command));
 
     for slice_index in 0..slice_vec.len() {
         let slice_commands: Vec<_> = slice_vec[slice_index]
@@ -312,6 +379,10 @@ pub fn apply_greedy_commutation(circ: &mut Circuit) -> Result<u32, PullForwardEr
                 continue;
             };
 
+            if other_dependencies && depends_on_nexts(circ, &command, &new_nexts) {
+                continue;
+            }
+
             debug_assert!(
                 destination < slice_index,
                 "Avoid mutating slices we haven't got to yet."
-- 
2.43.0


From eac5fc550cb8dae045fbcf63e85d3eae7dde7d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:23 +0000
Subject: [PATCH 28/52] fix: validate the subgraphs stored in pytket circuits
 before inserting them

---
 tket/src/serialize/pytket/decoder/subgraph.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tket/src/serialize/pytket/decoder/subgraph.rs b/tket/src/serialize/pytket/decoder/subgraph.rs
index b74d2a2..a1b3a49 100644
--- a/tket/src/serialize/pytket/decoder/subgraph.rs
+++ b/tket/src/serialize/pytket/decoder/subgraph.rs
@@ -241,7 +241,14 @@ impl<'h> PytketDecoderContext<'h> {
     ) -> Result<DecodeStatus, PytketDecodeError> {
         let to_insert_hugr = Hugr::load_str(hugr_envelope, Some(self.extension_registry()))
             .map_err(|e| PytketDecodeErrorInner::UnsupportedSubgraphInlinePayload { source: e })?;
-        let to_insert_signature = to_insert_hugr.inner_function_type().unwrap();
+        to_insert_hugr
+            .validate()
+            .map_err(PytketDecodeError::custom)?;
+        let Some(to_insert_signature) = to_insert_hugr.inner_function_type() else {
+            return Err(PytketDecodeError::custom(
+                "Opaque subgraph payload has a non-dataflow parent as entrypoint",
+            ));
+        };
 
         let module = self.builder.hugr().module_root();
         let region = self.builder.container_node();
-- 
2.43.0


From 58cfc10043b123a426c18bbaedf88d07f9b3c570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:20 +0000
Subject: [PATCH 29/52] fix: compiled rewriters load with operations of any
 extension

---
 tket/src/rewrite/ecc_rewriter.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/tket/src/rewrite/ecc_rewriter.rs b/tket/src/rewrite/ecc_rewriter.rs
index 24d717a..54e9ed0 100644
--- a/tket/src/rewrite/ecc_rewriter.rs
+++ b/tket/src/rewrite/ecc_rewriter.rs
@@ -145,8 +145,8 @@ impl ECCRewriter {
     #[cfg(feature = "binary-eccs")]
     pub fn load_binary_io<R: io::Read>(reader: R) -> Result<Self, RewriterSerialisationError> {
         let data = zstd::decode_all(reader)?;
-        let mut eccs: Self = rmp_serde::decode::from_slice(&data)?;
-        eccs.resolve_extension_ops()?;
+        // The targets' operations are resolved while their envelopes are decoded.
+        let eccs: Self = rmp_serde::decode::from_slice(&data)?;
         Ok(eccs)
     }
 
@@ -182,14 +182,6 @@ impl ECCRewriter {
         // `zstd::decode_all`.
         Self::load_binary_io(&mut file)
     }
-
-    /// When the ECC gets loaded, all custom operations are an instance of `OpaqueOp`.
-    /// We need to resolve them into `ExtensionOp`s by validating the definitions.
-    fn resolve_extension_ops(&mut self) -> Result<(), ExtensionResolutionError> {
-        self.targets
-            .iter_mut()
-            .try_for_each(|hugr| hugr.resolve_extension_defs(&REGISTRY))
-    }
 }
 
 impl Rewriter for ECCRewriter {
-- 
2.43.0


From 9962d997f7f4e0c7c88283f115da0bc8164faa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:20 +0000
Subject: [PATCH 30/52] fix: saving a compiled rewriter reports write errors

---
 tket/src/rewrite/ecc_rewriter.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tket/src/rewrite/ecc_rewriter.rs b/tket/src/rewrite/ecc_rewriter.rs
index 54e9ed0..c625041 100644
--- a/tket/src/rewrite/ecc_rewriter.rs
+++ b/tket/src/rewrite/ecc_rewriter.rs
@@ -169,6 +169,8 @@ impl ECCRewriter {
         let file = File::create(&file_name)?;
         let mut file = io::BufWriter::new(file);
         self.save_binary_io(&mut file)?;
+        // Report errors writing the buffered data, instead of ignoring them on drop.
+        io::Write::flush(&mut file)?;
         Ok(file_name)
     }
 
-- 
2.43.0


From 6b7c535a69a218561f4bce5009013e332fff057a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:20 +0000
Subject: [PATCH 31/52] fix: equivalence classes are loaded in a fixed order

---
 tket/src/optimiser/badger/qtz_circuit.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tket/src/optimiser/badger/qtz_circuit.rs b/tket/src/optimiser/badger/qtz_circuit.rs
index 6533613..7da46df 100644
--- a/tket/src/optimiser/badger/qtz_circuit.rs
+++ b/tket/src/optimiser/badger/qtz_circuit.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::io;
 use std::path::Path;
 
@@ -116,9 +116,9 @@ impl From<RepCircData> for Circuit<Hugr> {
 
 pub(super) fn load_ecc_set(
     path: impl AsRef<Path>,
-) -> io::Result<HashMap<String, Vec<Circuit<Hugr>>>> {
+) -> io::Result<BTreeMap<String, Vec<Circuit<Hugr>>>> {
     let jsons = std::fs::read_to_string(path)?;
-    let (_, ecc_map): (Vec<()>, HashMap<String, Vec<RepCircData>>) =
+    let (_, ecc_map): (Vec<()>, BTreeMap<String, Vec<RepCircData>>) =
         serde_json::from_str(&jsons).unwrap();
 
     Ok(ecc_map
-- 
2.43.0


From b7db25963dea5a06c0a658dee867cc1fff22a3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:20 +0000
Subject: [PATCH 32/52] fix: pytket encoding and reassembly visit regions and
 subgraphs in a fixed order

---
 tket/src/serialize/pytket/circuit.rs                     | 8 ++++----
 tket/src/serialize/pytket/encoder/unsupported_tracker.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/tket/src/serialize/pytket/circuit.rs b/tket/src/serialize/pytket/circuit.rs
index 100eb6b..87b29fd 100644
--- a/tket/src/serialize/pytket/circuit.rs
+++ b/tket/src/serialize/pytket/circuit.rs
@@ -1,6 +1,6 @@
 //! Temporary structure linking an encoded pytket circuit and subcircuits, with their originating HUGR.
 
-use std::collections::{HashMap, VecDeque};
+use std::collections::{BTreeMap, VecDeque};
 use std::ops::{Index, IndexMut};
 use std::sync::Arc;
 
@@ -42,7 +42,7 @@ pub struct EncodedCircuit<Node: HugrNode> {
     ///
     /// These correspond to sections of the HUGR that can be optimized
     /// independently.
-    circuits: HashMap<Node, EncodedCircuitInfo>,
+    circuits: BTreeMap<Node, EncodedCircuitInfo>,
     /// Sets of subgraphs in the HUGR that have been encoded as opaque barriers
     /// in the pytket circuit.
     ///
@@ -119,7 +119,7 @@ impl EncodedCircuit<Node> {
         options: EncodeOptions<H>,
     ) -> Result<Self, PytketEncodeError<H::Node>> {
         let mut enc = Self {
-            circuits: HashMap::new(),
+            circuits: BTreeMap::new(),
             opaque_subgraphs: OpaqueSubgraphs::new(0),
         };
 
@@ -255,7 +255,7 @@ impl<Node: HugrNode> EncodedCircuit<Node> {
         options: EncodeOptions<H>,
     ) -> Result<Self, PytketEncodeError<H::Node>> {
         let mut enc = Self {
-            circuits: HashMap::new(),
+            circuits: BTreeMap::new(),
             opaque_subgraphs: OpaqueSubgraphs::new(0),
         };
 
diff --git a/tket/src/serialize/pytket/encoder/unsupported_tracker.rs b/tket/src/serialize/pytket/encoder/unsupported_tracker.rs
index 8b5739b..4f0d6d4 100644
--- a/tket/src/serialize/pytket/encoder/unsupported_tracker.rs
+++ b/tket/src/serialize/pytket/encoder/unsupported_tracker.rs
@@ -1,6 +1,6 @@
 //! Tracking of subgraphs of unsupported nodes in the hugr.
 
-use std::collections::{BTreeSet, HashMap};
+use std::collections::{BTreeMap, BTreeSet};
 
 use hugr::core::HugrNode;
 use hugr::HugrView;
@@ -23,7 +23,7 @@ pub struct UnsupportedTracker<N> {
     /// Stores the index of each node in [`Self::components`].
     ///
     /// Once a node has been extracted, it is removed from this map.
-    nodes: HashMap<N, UnsupportedNode>,
+    nodes: BTreeMap<N, UnsupportedNode>,
     /// A UnionFind structure for tracking connected components of `Self::nodes`.
     components: UnionFind<usize>,
 }
@@ -44,7 +44,7 @@ impl<N: HugrNode> UnsupportedTracker<N> {
     /// Create a new [`UnsupportedTracker`].
     pub fn new(_circ: &Circuit<impl HugrView>) -> Self {
         Self {
-            nodes: HashMap::new(),
+            nodes: BTreeMap::new(),
             components: UnionFind::new_empty(),
         }
     }
@@ -118,7 +118,7 @@ impl<N: HugrNode> UnsupportedTracker<N> {
 impl<N> Default for UnsupportedTracker<N> {
     fn default() -> Self {
         Self {
-            nodes: HashMap::new(),
+            nodes: BTreeMap::new(),
             components: UnionFind::new_empty(),
         }
     }
-- 
2.43.0


From 46b2e4b83d68569a4b8e3bef267c06520ca66341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:20 +0000
Subject: [PATCH 33/52] fix: chunks are reconnected in a fixed order

---
 tket/src/passes/chunks.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/tket/src/passes/chunks.rs b/tket/src/passes/chunks.rs
index 486ffdd..b3b86db 100644
--- a/tket/src/passes/chunks.rs
+++ b/tket/src/passes/chunks.rs
@@ -2,7 +2,7 @@
 //!
 //! See [`CircuitChunks`] for more information.
 
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::mem;
 use std::ops::{Index, IndexMut};
 
@@ -31,7 +31,7 @@ use crate::circuit::cost::{CircuitCost, CostDelta};
 ///
 /// When reassembling the circuit, the input/output wires of each chunk are
 /// re-linked by matching these identifiers.
-#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, From)]
+#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, From)]
 pub struct ChunkConnection(Wire);
 
 /// A chunk of a circuit.
@@ -112,8 +112,8 @@ impl Chunk {
                 .unwrap_or_else(|e| panic!("The chunk circuit is no longer a dataflow graph: {e}"));
         let node_map = circ.insert_subgraph(root, &chunk, &subgraph);
 
-        let mut input_map = HashMap::with_capacity(self.inputs.len());
-        let mut output_map = HashMap::with_capacity(self.outputs.len());
+        let mut input_map = BTreeMap::new();
+        let mut output_map = BTreeMap::new();
 
         // Translate each connection from the chunk input into a [`ConnectionTarget`].
         //
@@ -165,8 +165,8 @@ impl Chunk {
     fn empty_chunk_insert_result(&self) -> ChunkInsertResult {
         let hugr = self.circ.hugr();
         let [chunk_inp, chunk_out] = self.circ.io_nodes();
-        let mut input_map = HashMap::with_capacity(self.inputs.len());
-        let mut output_map = HashMap::with_capacity(self.outputs.len());
+        let mut input_map = BTreeMap::new();
+        let mut output_map = BTreeMap::new();
 
         for (&connection, chunk_inp_port) in self.inputs.iter().zip(hugr.node_outputs(chunk_inp)) {
             let connection_targets: Vec<ConnectionTarget> = hugr
@@ -207,9 +207,9 @@ struct ChunkInsertResult {
     /// A map from incoming connections to a chunk, to the new node and incoming port targets.
     ///
     /// A chunk may specify multiple targets to be connected to a single incoming `ChunkConnection`.
-    pub incoming_connections: HashMap<ChunkConnection, Vec<ConnectionTarget>>,
+    pub incoming_connections: BTreeMap<ChunkConnection, Vec<ConnectionTarget>>,
     /// A map from outgoing connections from a chunk, to the new node and outgoing port target.
-    pub outgoing_connections: HashMap<ChunkConnection, ConnectionTarget>,
+    pub outgoing_connections: BTreeMap<ChunkConnection, ConnectionTarget>,
 }
 
 /// The target of a chunk connection in a reassembled circuit.
@@ -323,7 +323,7 @@ impl CircuitChunks {
         // The chunks input and outputs are each identified with a
         // [`ChunkConnection`]. We collect both sides first, and rewire them
         // after the chunks have been inserted.
-        let mut sources: HashMap<ChunkConnection, (Node, OutgoingPort)> = HashMap::new();
+        let mut sources: BTreeMap<ChunkConnection, (Node, OutgoingPort)> = BTreeMap::new();
         let mut targets: HashMap<ChunkConnection, Vec<(Node, IncomingPort)>> = HashMap::new();
 
         // A map for `ChunkConnection`s that have been merged into another (due
-- 
2.43.0


From 817a597557b0ea9f5bb700d87f29633a7f2c5eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:20 +0000
Subject: [PATCH 34/52] fix: borrow squashing visits nested arrays in index
 order

---
 tket/src/passes/borrow_squash.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tket/src/passes/borrow_squash.rs b/tket/src/passes/borrow_squash.rs
index 0f770dc..deac6a8 100644
--- a/tket/src/passes/borrow_squash.rs
+++ b/tket/src/passes/borrow_squash.rs
@@ -11,8 +11,8 @@ use hugr::std_extensions::collections::borrow_array::{BArrayUnsafeOpDef, BORROW_
 use hugr::types::{EdgeKind, Type};
 use hugr::{HugrView, IncomingPort, Node, OutgoingPort, Wire};
 
-use std::collections::hash_map::Entry;
-use std::collections::{HashMap, HashSet, VecDeque};
+use std::collections::btree_map::Entry;
+use std::collections::{BTreeMap, HashSet, VecDeque};
 
 /// A pass for eliding pairs of return-borrow operations on [BorrowArray]s
 /// where they have identical constant indices and there is a preceding borrow (not elided)
@@ -205,7 +205,7 @@ fn borrow_squash_traversal<H: HugrMut<Node = Node>>(
     struct Borrow(Node, OutgoingPort, BorrowFromPorts);
     struct Return(Node, IncomingPort, BorrowFromPorts);
 
-    let mut borrowed: HashMap<u64, (Borrow, Option<Return>)> = HashMap::new(); // Key is elem index
+    let mut borrowed: BTreeMap<u64, (Borrow, Option<Return>)> = BTreeMap::new(); // Key is elem index
     let mut rb_elisions: Vec<(Return, Borrow)> = Vec::new();
 
     let mut array = start;
-- 
2.43.0


From 3d1300e16d3a0f92ffa5c8fa80f027261c22f37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:20 +0000
Subject: [PATCH 35/52] fix: modified and grouped function calls are connected
 in a fixed order

---
 .../modifier/modifier_resolver/dfg_modify.rs  |  3 ++-
 tket/src/subcircuit/expression.rs             | 21 +++++++++----------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver/dfg_modify.rs b/tket/src/modifier/modifier_resolver/dfg_modify.rs
index ba4a1ab..a6e4da6 100644
--- a/tket/src/modifier/modifier_resolver/dfg_modify.rs
+++ b/tket/src/modifier/modifier_resolver/dfg_modify.rs
@@ -18,6 +18,7 @@ use hugr::{
     HugrView, IncomingPort, Node, OutgoingPort, PortIndex, Wire,
 };
 use hugr_core::hugr::internal::PortgraphNodeMap;
+use itertools::Itertools;
 use petgraph::visit::{Topo, Walker};
 
 use super::{DirWire, ModifierFlags, ModifierResolver, ModifierResolverErrors, PortExt};
@@ -343,7 +344,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         let call_map = mem::replace(self.call_map(), old_call_map);
         let insertion_result = h.insert_from_view(h.module_root(), new_fn.hugr());
         let new_call_map = update_call_map(&call_map, &insertion_result.node_map);
-        for (old_in, (new_n, new_port)) in new_call_map.into_iter() {
+        for (old_in, (new_n, new_port)) in new_call_map.into_iter().sorted() {
             h.connect(old_in, 0, new_n, new_port);
         }
 
diff --git a/tket/src/subcircuit/expression.rs b/tket/src/subcircuit/expression.rs
index e630f2a..ddb7c01 100644
--- a/tket/src/subcircuit/expression.rs
+++ b/tket/src/subcircuit/expression.rs
@@ -7,7 +7,7 @@ use hugr::{
     types::EdgeKind,
     Direction, HugrView, IncomingPort, OutgoingPort, Wire,
 };
-use indexmap::IndexSet;
+use indexmap::{IndexMap, IndexSet};
 use itertools::{Either, Itertools};
 use priority_queue::PriorityQueue;
 
@@ -290,16 +290,15 @@ fn group_function_calls<N: HugrNode>(
     function_calls: Vec<(N, IncomingPort)>,
     circuit: &ResourceScope<impl HugrView<Node = N>>,
 ) -> Vec<Vec<(N, IncomingPort)>> {
-    function_calls
-        .into_iter()
-        .into_group_map_by(|&(node, port)| {
-            circuit
-                .hugr()
-                .single_linked_output(node, port)
-                .expect("valid function call")
-        })
-        .into_values()
-        .collect_vec()
+    let mut groups: IndexMap<_, Vec<_>> = IndexMap::new();
+    for (node, port) in function_calls {
+        let function = circuit
+            .hugr()
+            .single_linked_output(node, port)
+            .expect("valid function call");
+        groups.entry(function).or_default().push((node, port));
+    }
+    groups.into_values().collect_vec()
 }
 
 /// Sort inputs according to the ordering defined in `allowed_boundary_inputs`
-- 
2.43.0


From 11a6beda2042c77bfbe883f141585672d3cdbc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:46 +0000
Subject: [PATCH 36/52] fix: the final permutation of an encoded circuit
 follows its outputs

---
 .../serialize/pytket/encoder/value_tracker.rs | 23 ++++++-------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/tket/src/serialize/pytket/encoder/value_tracker.rs b/tket/src/serialize/pytket/encoder/value_tracker.rs
index b5d7a54..675cf30 100644
--- a/tket/src/serialize/pytket/encoder/value_tracker.rs
+++ b/tket/src/serialize/pytket/encoder/value_tracker.rs
@@ -10,7 +10,7 @@
 //! Extensions can define which elements they map to
 
 use std::borrow::Cow;
-use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet, HashSet};
 
 use hugr::core::HugrNode;
 use hugr::ops::OpParent;
@@ -618,14 +618,8 @@ pub(super) fn compute_final_permutation(
     mut actual_outputs: Vec<RegisterUnit>,
     all_inputs: &[RegisterUnit],
 ) -> Vec<circuit_json::ImplicitPermutation> {
-    let declared_outputs: Vec<&RegisterUnit> = all_inputs.iter().collect();
     let mut actual_outputs_hashes: HashSet<RegisterHash> =
         actual_outputs.iter().map(RegisterHash::from).collect();
-    let mut input_hashes: HashMap<RegisterHash, usize> = HashMap::default();
-    for (i, inp) in all_inputs.iter().enumerate() {
-        let hash = inp.into();
-        input_hashes.insert(hash, i);
-    }
     // Extend `actual_outputs` with extra registers seen in the circuit.
     for reg in all_inputs {
         let hash = reg.into();
@@ -637,17 +631,14 @@ pub(super) fn compute_final_permutation(
 
     // Compute the final permutation.
     //
-    // For each element `reg` at the output of the circuit, we find its position `i` at the input,
-    // and find out the pytket output register associated with that position in the `declared_outputs` list.
+    // The register found at the i-th output of the circuit ends up in the i-th declared register.
     let permutation = actual_outputs
-        .iter()
-        .map(|reg| {
-            let hash = reg.into();
-            let i = input_hashes.get(&hash).unwrap();
-            let out = declared_outputs[*i].clone();
+        .into_iter()
+        .zip(all_inputs)
+        .map(|(reg, out)| {
             circuit_json::ImplicitPermutation(
-                tket_json_rs::register::Qubit { id: reg.clone() },
-                tket_json_rs::register::Qubit { id: out },
+                tket_json_rs::register::Qubit { id: reg },
+                tket_json_rs::register::Qubit { id: out.clone() },
             )
         })
         .collect_vec();
-- 
2.43.0


From 2b825c89d26eddc66fa9662dd1ab9072f4f3e107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:04 +0000
Subject: [PATCH 37/52] fix: qubits allocated in an encoded circuit get
 registers of their own

---
 .../src/serialize/pytket/encoder/value_tracker.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/tket/src/serialize/pytket/encoder/value_tracker.rs b/tket/src/serialize/pytket/encoder/value_tracker.rs
index 675cf30..0eaaf4b 100644
--- a/tket/src/serialize/pytket/encoder/value_tracker.rs
+++ b/tket/src/serialize/pytket/encoder/value_tracker.rs
@@ -52,7 +52,7 @@ pub struct ValueTracker<N> {
     /// once the wire is fully explored.
     wires: BTreeMap<Wire<N>, TrackedWire>,
 
-    /// Qubits in `qubits` that are not currently registered to any wire.
+    /// Qubits in `qubits` that have not been registered to any wire.
     ///
     /// We draw names from here when a new qubit name is needed, before
     /// resorting to the `qubit_reg_generator`.
@@ -374,7 +374,7 @@ impl<N: HugrNode> ValueTracker<N> {
 
         if unexplored_neighbours == 0 {
             // We can unregister the wire immediately, since it has no unexplored
-            // neighbours. This will free up the qubit and bit registers associated with it.
+            // neighbours. This will free up the bit registers associated with it.
             self.unregister_wire(wire)
                 .expect("Wire should be registered in the tracker");
         }
@@ -416,19 +416,20 @@ impl<N: HugrNode> ValueTracker<N> {
         Some(&values[..])
     }
 
-    /// Unregister a wire, freeing up the qubit and bit registers associated with it.
+    /// Unregister a wire, freeing up the bit registers associated with it.
     ///
     /// Panics if the wire is not registered.
     fn unregister_wire(&mut self, wire: Wire<N>) -> Option<Vec<TrackedValue>> {
         let wire = self.wires.remove(&wire).unwrap();
         let values = wire.values?;
 
-        // Free up the qubit and bit registers associated with the wire.
+        // Free up the bit registers associated with the wire.
+        //
+        // Qubit registers cannot be used for newly allocated qubits, as they
+        // are still in the state left by the previous operations.
         for value in &values {
             match value {
-                TrackedValue::Qubit(qb) => {
-                    self.unused_qubits.insert(*qb);
-                }
+                TrackedValue::Qubit(_) => {}
                 TrackedValue::Bit(bit) => {
                     // Unlike qubits, bits may be tracked by multiple wires.
                     let shared = self
-- 
2.43.0


From bcf2b21eba424af900770ed911ad1ab21dd97cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:45 +0000
Subject: [PATCH 38/52] fix: reassembled circuits return their bits at the
 original outputs

---
 tket/src/serialize/pytket.rs                  |  2 +-
 tket/src/serialize/pytket/circuit.rs          | 14 ++++++++++--
 tket/src/serialize/pytket/decoder.rs          | 22 +++++++++++++++++--
 tket/src/serialize/pytket/encoder.rs          |  1 +
 .../serialize/pytket/encoder/value_tracker.rs |  3 +++
 tket/src/serialize/pytket/extension/core.rs   |  2 +-
 6 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/tket/src/serialize/pytket.rs b/tket/src/serialize/pytket.rs
index 07af6e2..7542ea9 100644
--- a/tket/src/serialize/pytket.rs
+++ b/tket/src/serialize/pytket.rs
@@ -134,7 +134,7 @@ impl TKETDecode for SerialCircuit {
     ) -> Result<Node, Self::DecodeError> {
         let mut decoder = PytketDecoderContext::new(self, hugr, target, options, None)?;
         decoder.run_decoder(&self.commands, None)?;
-        Ok(decoder.finish(&[])?.node())
+        Ok(decoder.finish(&[], &[])?.node())
     }
 
     fn encode(circuit: &Circuit, options: EncodeOptions) -> Result<Self, Self::EncodeError> {
diff --git a/tket/src/serialize/pytket/circuit.rs b/tket/src/serialize/pytket/circuit.rs
index 87b29fd..bc175ca 100644
--- a/tket/src/serialize/pytket/circuit.rs
+++ b/tket/src/serialize/pytket/circuit.rs
@@ -14,6 +14,7 @@ use hugr_core::hugr::internal::HugrMutInternals;
 use itertools::Itertools;
 use rayon::iter::{IntoParallelRefIterator, IntoParallelRefMutIterator, ParallelIterator};
 use tket_json_rs::circuit_json::{Command as PytketCommand, SerialCircuit};
+use tket_json_rs::register::ElementId as RegisterUnit;
 
 use crate::serialize::pytket::decoder::PytketDecoderContext;
 use crate::serialize::pytket::opaque::SubgraphId;
@@ -69,6 +70,13 @@ pub(super) struct EncodedCircuitInfo {
     // TODO: The decoder does not currently connect these, everything that
     // _produces_ a parameter gets included in unsupported subgraphs instead.
     pub output_params: Vec<String>,
+    /// The bit registers found at the end of the encoded region, in the order
+    /// in which they appear in the hugr outputs.
+    ///
+    /// We require this to correctly reconstruct the output order in the
+    /// reassembled hugr, since pytket circuits only store permutations of their
+    /// qubits.
+    pub output_bits: Vec<RegisterUnit>,
 }
 
 /// Nodes and edges from the original region that could not be encoded into the
@@ -195,7 +203,9 @@ impl EncodedCircuit<Node> {
                 &encoded.serial_circuit.commands,
                 Some(&encoded.additional_nodes_and_wires),
             )?;
-            let decoded_node = decoder.finish(&encoded.output_params)?.node();
+            let decoded_node = decoder
+                .finish(&encoded.output_params, &encoded.output_bits)?
+                .node();
 
             // Move any non-local edges from originating from the old input node.
             let old_input = hugr.get_io(original_region).unwrap()[0];
@@ -366,7 +376,7 @@ impl<Node: HugrNode> EncodedCircuit<Node> {
         let mut decoder =
             PytketDecoderContext::new(serial_circuit, &mut hugr, target, options, None)?;
         decoder.run_decoder(&serial_circuit.commands, None)?;
-        decoder.finish(&[])?;
+        decoder.finish(&[], &self.circuits[&region].output_bits)?;
         Ok(hugr)
     }
 
diff --git a/tket/src/serialize/pytket/decoder.rs b/tket/src/serialize/pytket/decoder.rs
index 5a5cb20..73c6c53 100644
--- a/tket/src/serialize/pytket/decoder.rs
+++ b/tket/src/serialize/pytket/decoder.rs
@@ -28,6 +28,7 @@ use itertools::Itertools;
 use serde_json::json;
 use tket_json_rs::circuit_json;
 use tket_json_rs::circuit_json::SerialCircuit;
+use tket_json_rs::register::ElementId as RegisterUnit;
 
 use super::{
     PytketDecodeError, METADATA_B_REGISTERS, METADATA_INPUT_PARAMETERS, METADATA_PHASE,
@@ -302,14 +303,31 @@ impl<'h> PytketDecoderContext<'h> {
     ///
     /// - `output_params`: A list of output parameter expressions to associate
     ///   with the region's outputs.
-    pub(super) fn finish(mut self, output_params: &[String]) -> Result<Node, PytketDecodeError> {
+    /// - `output_bits`: The bit registers to associate with the region's
+    ///   outputs, in order. Any other bits follow in the order they are declared
+    ///   in the circuit.
+    pub(super) fn finish(
+        mut self,
+        output_params: &[String],
+        output_bits: &[RegisterUnit],
+    ) -> Result<Node, PytketDecodeError> {
         // Order the final wires according to the serial circuit register order.
         let known_qubits = self
             .wire_tracker
             .known_pytket_qubits()
             .cloned()
             .collect_vec();
-        let known_bits = self.wire_tracker.known_pytket_bits().cloned().collect_vec();
+        let mut known_bits: Vec<TrackedBit> = output_bits
+            .iter()
+            .map(|reg| self.wire_tracker.tracked_bit_for_register(reg).cloned())
+            .try_collect()?;
+        let other_bits = self
+            .wire_tracker
+            .known_pytket_bits()
+            .filter(|bit| !known_bits.contains(bit))
+            .cloned()
+            .collect_vec();
+        known_bits.extend(other_bits);
         let mut qubits = known_qubits.as_slice();
         let mut bits = known_bits.as_slice();
 
diff --git a/tket/src/serialize/pytket/encoder.rs b/tket/src/serialize/pytket/encoder.rs
index 430c671..c164ce3 100644
--- a/tket/src/serialize/pytket/encoder.rs
+++ b/tket/src/serialize/pytket/encoder.rs
@@ -263,6 +263,7 @@ impl<H: HugrView> PytketEncoderContext<H> {
             serial_circuit: ser,
             input_params: tracker_result.input_params,
             output_params: tracker_result.params,
+            output_bits: tracker_result.output_bits,
             additional_nodes_and_wires: AdditionalNodesAndWires {
                 extra_subgraph,
                 extra_subgraph_params,
diff --git a/tket/src/serialize/pytket/encoder/value_tracker.rs b/tket/src/serialize/pytket/encoder/value_tracker.rs
index 0eaaf4b..63ebf5c 100644
--- a/tket/src/serialize/pytket/encoder/value_tracker.rs
+++ b/tket/src/serialize/pytket/encoder/value_tracker.rs
@@ -185,6 +185,8 @@ pub struct ValueTrackerResult {
     pub qubits: Vec<RegisterUnit>,
     /// The final list of bit registers.
     pub bits: Vec<RegisterUnit>,
+    /// The bit registers at the output, in the order of the output wires.
+    pub output_bits: Vec<RegisterUnit>,
     /// The final list of parameter expressions at the output.
     pub params: Vec<String>,
     /// The implicit permutation of the qubit registers.
@@ -513,6 +515,7 @@ impl<N: HugrNode> ValueTracker<N> {
         Ok(ValueTrackerResult {
             qubits: self.qubits,
             bits: self.bits,
+            output_bits: bit_outputs,
             params: param_outputs,
             qubit_permutation,
             input_params: self.input_params,
diff --git a/tket/src/serialize/pytket/extension/core.rs b/tket/src/serialize/pytket/extension/core.rs
index 3cabde8..822f8d0 100644
--- a/tket/src/serialize/pytket/extension/core.rs
+++ b/tket/src/serialize/pytket/extension/core.rs
@@ -86,7 +86,7 @@ impl PytketDecoder for CoreDecoder {
                     decoder.opaque_subgraphs,
                 )?;
                 nested_decoder.run_decoder(&serial_circuit.commands, None)?;
-                let internal = nested_decoder.finish(&[])?.node();
+                let internal = nested_decoder.finish(&[], &[])?.node();
 
                 decoder
                     .wire_up_node(internal, qubits, qubits, bits, bits, params)
-- 
2.43.0


From bb4a83451c240ce2e0939edcc2cb59250acf3fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:21 +0000
Subject: [PATCH 39/52] fix: converted wires are tracked with their own type

---
 tket/src/serialize/pytket/decoder/wires.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder/wires.rs b/tket/src/serialize/pytket/decoder/wires.rs
index 5cc6402..2671796 100644
--- a/tket/src/serialize/pytket/decoder/wires.rs
+++ b/tket/src/serialize/pytket/decoder/wires.rs
@@ -778,8 +778,7 @@ impl WireTracker {
         if wire == new_wire {
             Ok(FoundWire::Register(self.wires[&wire].clone()))
         } else {
-            let ty: Arc<Type> = wire_data.ty.clone();
-            self.track_wire(new_wire, ty, wire_qubits, wire_bits)?;
+            self.track_wire(new_wire, Arc::new(ty.clone()), wire_qubits, wire_bits)?;
             self.mark_wire_outdated(wire);
             Ok(FoundWire::Register(self.wires[&new_wire].clone()))
         }
-- 
2.43.0


From acbee92d87c9b3825f7048a3d6a293fb1e193e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:53 +0000
Subject: [PATCH 40/52] fix: unsupported subgraphs read their parameters at the
 right inputs

---
 tket/src/serialize/pytket/encoder.rs | 44 ++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/tket/src/serialize/pytket/encoder.rs b/tket/src/serialize/pytket/encoder.rs
index c164ce3..624073d 100644
--- a/tket/src/serialize/pytket/encoder.rs
+++ b/tket/src/serialize/pytket/encoder.rs
@@ -16,11 +16,11 @@ use hugr::ops::{OpTrait, OpType};
 use hugr::types::EdgeKind;
 
 use std::borrow::Cow;
-use std::collections::{BTreeSet, HashMap};
+use std::collections::{BTreeMap, BTreeSet, HashMap};
 use std::ops::RangeTo;
 use std::sync::{Arc, RwLock};
 
-use hugr::{Direction, HugrView, OutgoingPort, Wire};
+use hugr::{Direction, HugrView, IncomingPort, OutgoingPort, Wire};
 use itertools::Itertools;
 use tket_json_rs::circuit_json::{self, SerialCircuit};
 use unsupported_tracker::UnsupportedTracker;
@@ -225,26 +225,33 @@ impl<H: HugrView> PytketEncoderContext<H> {
     ) -> Result<(EncodedCircuitInfo, OpaqueSubgraphs<H::Node>), PytketEncodeError<H::Node>> {
         // Add any remaining unsupported nodes
         let mut extra_subgraph: Option<BTreeSet<H::Node>> = None;
-        let mut extra_subgraph_params = Vec::new();
+        let mut extra_input_params = BTreeMap::new();
         while !self.unsupported.is_empty() {
             let node = self.unsupported.iter().next().unwrap();
             let opaque_subgraphs = self.unsupported.extract_component(node, circ.hugr())?;
+            let input_params = self.subgraph_input_params(&opaque_subgraphs, circ);
             match self.emit_unsupported(&opaque_subgraphs, circ) {
                 Ok(()) => (),
-                Err(PytketEncodeError::UnsupportedSubgraphHasNoRegisters { params }) => {
+                Err(PytketEncodeError::UnsupportedSubgraphHasNoRegisters { .. }) => {
                     // We'll store the nodes in the `extra_subgraph` field of the `EncodedCircuitInfo`.
                     // So the decoder can reconstruct the original subgraph.
                     extra_subgraph
                         .get_or_insert_default()
                         .extend(opaque_subgraphs.nodes().iter().cloned());
-                    extra_subgraph_params.extend(params);
+                    extra_input_params.extend(input_params);
                 }
                 Err(e) => return Err(e),
             }
         }
+        let mut extra_subgraph_params = Vec::new();
         let extra_subgraph = extra_subgraph
             .map(|nodes| -> Result<_, PytketEncodeError<H::Node>> {
                 let subgraph = OpaqueSubgraph::try_from_nodes(nodes, circ.hugr())?;
+                // The parameters must follow the order of the subgraph's inputs.
+                for port in subgraph.incoming_ports() {
+                    extra_subgraph_params
+                        .extend(extra_input_params.remove(port).unwrap_or_default());
+                }
                 Ok(self.opaque_subgraphs.register_opaque_subgraph(subgraph))
             })
             .transpose()?;
@@ -274,6 +281,33 @@ impl<H: HugrView> PytketEncoderContext<H> {
         Ok((info, self.opaque_subgraphs))
     }
 
+    /// Returns the parameter expressions at each input port of a subgraph.
+    ///
+    /// The wires are not marked as explored.
+    fn subgraph_input_params(
+        &self,
+        subgraph: &OpaqueSubgraph<H::Node>,
+        circ: &Circuit<H>,
+    ) -> BTreeMap<(H::Node, IncomingPort), Vec<String>> {
+        let mut params = BTreeMap::new();
+        for &(node, port) in subgraph.incoming_ports() {
+            let Some((neigh, neigh_out)) = circ.hugr().single_linked_output(node, port) else {
+                continue;
+            };
+            let values = self.values.peek_wire_values(Wire::new(neigh, neigh_out));
+            let port_params = values
+                .unwrap_or_default()
+                .iter()
+                .filter_map(|v| match v {
+                    TrackedValue::Param(p) => Some(self.values.param_expression(*p).to_owned()),
+                    _ => None,
+                })
+                .collect_vec();
+            params.insert((node, port), port_params);
+        }
+        params
+    }
+
     /// Returns a reference to this encoder's configuration.
     pub fn config(&self) -> &PytketEncoderConfig<H> {
         &self.config
-- 
2.43.0


From 99a468896d92509e145c98cb1220f03949496258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:52 +0000
Subject: [PATCH 41/52] fix: unsupported subgraphs do not overwrite bits that
 are still in use

---
 tket/src/serialize/pytket/encoder.rs          | 31 ++++++++++++++++++-
 .../serialize/pytket/encoder/value_tracker.rs | 15 +++++----
 2 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/tket/src/serialize/pytket/encoder.rs b/tket/src/serialize/pytket/encoder.rs
index 624073d..a58f70f 100644
--- a/tket/src/serialize/pytket/encoder.rs
+++ b/tket/src/serialize/pytket/encoder.rs
@@ -23,6 +23,8 @@ use std::sync::{Arc, RwLock};
 use hugr::{Direction, HugrView, IncomingPort, OutgoingPort, Wire};
 use itertools::Itertools;
 use tket_json_rs::circuit_json::{self, SerialCircuit};
+use tket_json_rs::clexpr::op::ClOp;
+use tket_json_rs::clexpr::operator::{ClArgument, ClOperator, ClTerminal, ClVariable};
 use unsupported_tracker::UnsupportedTracker;
 
 use super::opaque::OpaqueSubgraphs;
@@ -651,6 +653,15 @@ impl<H: HugrView> PytketEncoderContext<H> {
             .map(|p| self.values.param_expression(p).to_owned())
             .collect();
 
+        // The outputs of the subgraph overwrite its input bits, so we need to
+        // pass a copy of the bits that are used elsewhere.
+        for i in 0..op_values.bits.len() {
+            let bit = op_values.bits[i];
+            if self.values.is_bit_tracked(bit) || op_values.bits[..i].contains(&bit) {
+                op_values.bits[i] = self.emit_bit_copy(bit, &op_values.bits);
+            }
+        }
+
         // Update the values in the node's outputs, and extend `op_values` with
         // any new output values.
         //
@@ -677,6 +688,7 @@ impl<H: HugrView> PytketEncoderContext<H> {
                 circ,
                 &mut out_qubits,
                 &mut out_bits,
+                &op_values.bits,
                 &input_param_exprs,
                 |p| {
                     let range = out_param_count..out_param_count + p.expected_count;
@@ -709,6 +721,20 @@ impl<H: HugrView> PytketEncoderContext<H> {
         Ok(())
     }
 
+    /// Emit a command copying a bit to a different register.
+    ///
+    /// The new register will not be one of the `used_bits`.
+    fn emit_bit_copy(&mut self, bit: TrackedBit, used_bits: &[TrackedBit]) -> TrackedBit {
+        let copy = self.values.new_bit_excluding(used_bits);
+        let arg = || ClArgument::Terminal(ClTerminal::Variable(ClVariable::Bit { index: 0 }));
+        let mut expression = ClOperator::default();
+        expression.op = ClOp::BitAnd;
+        expression.args = vec![arg(), arg()];
+        let op = make_tk1_classical_expression(2, &[1], &[], expression);
+        self.emit_command(op, &[], &[bit, copy], None);
+        copy
+    }
+
     /// Emit a new tket1 command.
     ///
     /// This is a general-purpose command that can be used to emit any tket1
@@ -1172,6 +1198,8 @@ impl<H: HugrView> PytketEncoderContext<H> {
     /// - `bits`: The bit registers to use for the output. Values are consumed
     ///   from this slice as needed, and dropped from the slice as they are
     ///   used.
+    /// - `used_bits`: Bit registers that cannot be used for the new output
+    ///   values.
     /// - `input_params`: The list of input parameter expressions.
     /// - `options_params_fn`: A function that computes the output parameter
     ///   expressions given the inputs.
@@ -1183,6 +1211,7 @@ impl<H: HugrView> PytketEncoderContext<H> {
         circ: &Circuit<H>,
         qubits: &mut &[TrackedQubit],
         bits: &mut &[TrackedBit],
+        used_bits: &[TrackedBit],
         input_params: &[String],
         output_params_fn: impl FnOnce(OutputParamArgs<'_>) -> Vec<String>,
     ) -> Result<TrackedValues, PytketEncodeError<H::Node>> {
@@ -1254,7 +1283,7 @@ impl<H: HugrView> PytketEncoderContext<H> {
                 let mut head_bits = bits.to_vec();
                 *bits = &[];
                 let new_bits = (head_bits.len()..count.bits).map(|_| {
-                    let b = self.values.new_bit();
+                    let b = self.values.new_bit_excluding(used_bits);
                     new_outputs.bits.push(b);
                     b
                 });
diff --git a/tket/src/serialize/pytket/encoder/value_tracker.rs b/tket/src/serialize/pytket/encoder/value_tracker.rs
index 63ebf5c..d63345b 100644
--- a/tket/src/serialize/pytket/encoder/value_tracker.rs
+++ b/tket/src/serialize/pytket/encoder/value_tracker.rs
@@ -325,6 +325,14 @@ impl<N: HugrNode> ValueTracker<N> {
         }
     }
 
+    /// Returns `true` if the bit is associated with some wire in the tracker.
+    pub(super) fn is_bit_tracked(&self, bit: TrackedBit) -> bool {
+        self.wires
+            .values()
+            .flat_map(|w| w.values.iter().flatten())
+            .any(|v| *v == TrackedValue::Bit(bit))
+    }
+
     /// Register a new parameter string expression.
     ///
     /// Returns a unique identifier for the expression.
@@ -434,12 +442,7 @@ impl<N: HugrNode> ValueTracker<N> {
                 TrackedValue::Qubit(_) => {}
                 TrackedValue::Bit(bit) => {
                     // Unlike qubits, bits may be tracked by multiple wires.
-                    let shared = self
-                        .wires
-                        .values()
-                        .flat_map(|w| w.values.iter().flatten())
-                        .any(|v| v == value);
-                    if !shared {
+                    if !self.is_bit_tracked(*bit) {
                         self.unused_bits.insert(*bit);
                     }
                 }
-- 
2.43.0


From fa575db07e50b8957c41cb72e9b1be395166a64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:13 +0000
Subject: [PATCH 42/52] fix: decoded operations may read the same bit more than
 once

---
 tket/src/serialize/pytket/decoder.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder.rs b/tket/src/serialize/pytket/decoder.rs
index 73c6c53..1ad5bed 100644
--- a/tket/src/serialize/pytket/decoder.rs
+++ b/tket/src/serialize/pytket/decoder.rs
@@ -723,9 +723,6 @@ impl<'h> PytketDecoderContext<'h> {
                 .hugr_mut()
                 .connect(wire.node(), wire.source(), node, input_idx);
         }
-        input_bits.iter().take(op_input_count.bits).for_each(|b| {
-            self.wire_tracker.mark_bit_outdated(b.clone());
-        });
 
         // Register the output wires.
         let output_qubits = output_qubits.iter().take(op_output_count.qubits).cloned();
-- 
2.43.0


From 7c3be3dd06cf2436a72c06ce28318619501c8422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:49 +0000
Subject: [PATCH 43/52] fix: every input of an encoded circuit gets a register
 of its own

---
 tket/src/serialize/pytket/encoder/value_tracker.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tket/src/serialize/pytket/encoder/value_tracker.rs b/tket/src/serialize/pytket/encoder/value_tracker.rs
index d63345b..c0362ea 100644
--- a/tket/src/serialize/pytket/encoder/value_tracker.rs
+++ b/tket/src/serialize/pytket/encoder/value_tracker.rs
@@ -249,6 +249,7 @@ impl<N: HugrNode> ValueTracker<N> {
             PytketEncodeError::NonDataflowRegion { region, optype }
         })?;
         let inp_node = circ.hugr().get_io(region).unwrap()[0];
+        let mut input_wires = Vec::with_capacity(signature.input_count());
         for (port, typ) in circ
             .hugr()
             .node_outputs(inp_node)
@@ -280,6 +281,12 @@ impl<N: HugrNode> ValueTracker<N> {
                 wire_values.push(TrackedValue::Param(param));
             }
 
+            input_wires.push((wire, wire_values));
+        }
+
+        // Unused wires free their registers when they are registered, so we wait
+        // until all the inputs have been given a register of their own.
+        for (wire, wire_values) in input_wires {
             tracker.register_wire(wire, wire_values, circ)?;
         }
 
-- 
2.43.0


From 0dea3f0eb22d5bb728c98b6933fd06f70ee0713b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:45 +0000
Subject: [PATCH 44/52] fix: unsupported subgraphs do not overwrite the bits
 read by the next operation

---
 tket/src/serialize/pytket/encoder.rs | 42 +++++++++++++++++++---------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/tket/src/serialize/pytket/encoder.rs b/tket/src/serialize/pytket/encoder.rs
index a58f70f..11a805a 100644
--- a/tket/src/serialize/pytket/encoder.rs
+++ b/tket/src/serialize/pytket/encoder.rs
@@ -338,24 +338,31 @@ impl<H: HugrView> PytketEncoderContext<H> {
         wire: Wire<H::Node>,
         circ: &Circuit<H>,
     ) -> Result<Cow<'_, [TrackedValue]>, PytketEncodeError<H::Node>> {
-        if self.values.peek_wire_values(wire).is_some() {
-            return Ok(self.values.wire_values(wire).unwrap());
-        }
+        self.emit_unsupported_source(wire, circ)?;
+        self.values
+            .wire_values(wire)
+            .ok_or_else(|| PytketEncodeOpError::WireHasNoValues { wire }.into())
+    }
 
-        // If the wire values have not been registered yet, it may be because
-        // the wire is the output of an unsupported node group.
-        //
-        // We need to emit the unsupported node here before returning the values.
-        if self.unsupported.is_unsupported(wire.node()) {
+    /// If the wire values have not been registered yet, it may be because
+    /// the wire is the output of an unsupported node group.
+    ///
+    /// In that case, emit the unsupported nodes so the wire gets its values.
+    fn emit_unsupported_source(
+        &mut self,
+        wire: Wire<H::Node>,
+        circ: &Circuit<H>,
+    ) -> Result<(), PytketEncodeError<H::Node>> {
+        if self.values.peek_wire_values(wire).is_none()
+            && self.unsupported.is_unsupported(wire.node())
+        {
             let unsupported_nodes = self
                 .unsupported
                 .extract_component(wire.node(), circ.hugr())?;
             self.emit_unsupported(&unsupported_nodes, circ)?;
             debug_assert!(!self.unsupported.is_unsupported(wire.node()));
-            return self.get_wire_values(wire, circ);
         }
-
-        Err(PytketEncodeOpError::WireHasNoValues { wire }.into())
+        Ok(())
     }
 
     /// Given a node in the HUGR, returns all the [`TrackedValue`]s associated
@@ -400,6 +407,7 @@ impl<H: HugrView> PytketEncoderContext<H> {
     ) -> Result<NodeInputValues<H::Node>, PytketEncodeError<H::Node>> {
         let mut tracked_values = TrackedValues::default();
         let mut unknown_values = Vec::new();
+        let mut wires = Vec::new();
 
         let optype = circ.hugr().get_optype(node);
         let other_input_port = optype.other_input_port();
@@ -414,10 +422,18 @@ impl<H: HugrView> PytketEncoderContext<H> {
                 .single_linked_output(node, input)
                 .expect("Dataflow input port should have a single neighbour");
             let wire = Wire::new(neigh, neigh_out);
-            if !wire_filter(wire) {
-                continue;
+            if wire_filter(wire) {
+                wires.push(wire);
             }
+        }
+
+        // Emit the unsupported nodes before reading any value. Otherwise their
+        // outputs could reuse the bits freed by the values we already read.
+        for &wire in &wires {
+            self.emit_unsupported_source(wire, circ)?;
+        }
 
+        for wire in wires {
             match self.get_wire_values(wire, circ) {
                 Ok(values) => tracked_values.extend(values.iter().copied()),
                 Err(PytketEncodeError::OpEncoding(PytketEncodeOpError::WireHasNoValues {
-- 
2.43.0


From f3d43e6d70c2a4c78c9fe0253f949b18e9b7daf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:45 +0000
Subject: [PATCH 45/52] fix: parameters of subgraphs without registers are not
 listed as outputs

---
 tket/src/serialize/pytket/encoder.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/tket/src/serialize/pytket/encoder.rs b/tket/src/serialize/pytket/encoder.rs
index 11a805a..c08ed81 100644
--- a/tket/src/serialize/pytket/encoder.rs
+++ b/tket/src/serialize/pytket/encoder.rs
@@ -678,6 +678,21 @@ impl<H: HugrView> PytketEncoderContext<H> {
             }
         }
 
+        // Check that we have qubits or bits to attach the barrier command to.
+        //
+        // This should only fail when looking at the "leftover" unsupported nodes at the end of the decoding process.
+        let output_registers = subgraph
+            .signature()
+            .output()
+            .iter()
+            .filter_map(|ty| self.config().type_to_pytket(ty))
+            .any(|count| count.qubits + count.bits > 0);
+        if op_values.qubits.is_empty() && op_values.bits.is_empty() && !output_registers {
+            return Err(PytketEncodeError::UnsupportedSubgraphHasNoRegisters {
+                params: input_param_exprs,
+            });
+        }
+
         // Update the values in the node's outputs, and extend `op_values` with
         // any new output values.
         //
@@ -715,15 +730,6 @@ impl<H: HugrView> PytketEncoderContext<H> {
             op_values.append(new_outputs);
         }
 
-        // Check that we have qubits or bits to attach the barrier command to.
-        //
-        // This should only fail when looking at the "leftover" unsupported nodes at the end of the decoding process.
-        if op_values.qubits.is_empty() && op_values.bits.is_empty() {
-            return Err(PytketEncodeError::UnsupportedSubgraphHasNoRegisters {
-                params: input_param_exprs.clone(),
-            });
-        }
-
         // Create pytket operation, and add the subcircuit as hugr
         let args = MakeOperationArgs {
             num_qubits: op_values.qubits.len(),
-- 
2.43.0


From 835d88ab098de31e68cc1cb279147135caef6501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:03 +0000
Subject: [PATCH 46/52] fix: tuple unpack rewrites with unused outputs, several
 other uses, nested unpacks

---
 tket/src/passes/tuple_unpack.rs | 94 ++++++++++++++-------------------
 1 file changed, 41 insertions(+), 53 deletions(-)

diff --git a/tket/src/passes/tuple_unpack.rs b/tket/src/passes/tuple_unpack.rs
index 52ca10d..2b24007 100644
--- a/tket/src/passes/tuple_unpack.rs
+++ b/tket/src/passes/tuple_unpack.rs
@@ -8,7 +8,7 @@ use hugr::extension::simple_op::MakeExtensionOp;
 use hugr::hugr::views::SiblingSubgraph;
 use hugr::ops::{OpTrait, OpType};
 use hugr::types::Type;
-use hugr::{HugrView, Node};
+use hugr::{HugrView, Node, PortIndex};
 use itertools::Itertools;
 
 use crate::circuit::Command;
@@ -69,9 +69,14 @@ fn make_rewrite<T: HugrView<Node = Node>>(
         return None;
     }
 
+    // Unpacks in nested regions cannot be part of the same rewrite.
+    let parent = circ.hugr().get_parent(tuple_node);
     let unpack_nodes = links
         .iter()
-        .filter(|&&neigh| is_unpack_tuple(circ.hugr().get_optype(neigh)))
+        .filter(|&&neigh| {
+            is_unpack_tuple(circ.hugr().get_optype(neigh))
+                && circ.hugr().get_parent(neigh) == parent
+        })
         .copied()
         .collect_vec();
 
@@ -79,64 +84,47 @@ fn make_rewrite<T: HugrView<Node = Node>>(
         return None;
     }
 
-    // Remove all unpack operations, but only remove the pack operation if all neighbours are unpacks.
-    let num_other_outputs = links.len() - unpack_nodes.len();
-    Some(remove_pack_unpack(
-        circ,
-        &tuple_types,
-        tuple_node,
-        unpack_nodes,
-        num_other_outputs,
-    ))
+    remove_pack_unpack(circ, &tuple_types, tuple_node, unpack_nodes)
 }
 
 /// Returns a rewrite to remove a tuple pack operation that's followed by unpack operations,
-/// and `other_tuple_links` other operations.
+/// and possibly other operations using the tuple.
+///
+/// Returns `None` if the operations cannot be replaced, e.g. because they have
+/// state order edges.
 fn remove_pack_unpack<T: HugrView<Node = Node>>(
     circ: &Circuit<T>,
     tuple_types: &[Type],
     pack_node: Node,
     unpack_nodes: Vec<Node>,
-    num_other_outputs: usize,
-) -> CircuitRewrite {
-    let num_unpack_outputs = tuple_types.len() * unpack_nodes.len();
-
+) -> Option<CircuitRewrite> {
     let mut nodes = unpack_nodes;
     nodes.push(pack_node);
-    let subgraph = SiblingSubgraph::try_from_nodes(nodes, circ.hugr()).expect("is convex");
-    let subcirc_signature = subgraph.signature(circ.hugr());
-
-    // The output port order in `Subcircuit::try_from_nodes` is not too well defined.
-    // Check that the outputs are in the expected order.
-    debug_assert!(
-        itertools::equal(
-            subcirc_signature.output().iter(),
-            tuple_types
-                .iter()
-                .cycle()
-                .take(num_unpack_outputs)
-                .chain(itertools::repeat_n(
-                    &Type::new_tuple(tuple_types.to_vec()),
-                    num_other_outputs
-                ))
-        ),
-        "Unpacked tuple values must come before tupled values"
-    );
-
-    let mut replacement = DFGBuilder::new(subcirc_signature).unwrap();
-    let mut outputs = Vec::with_capacity(num_unpack_outputs + num_other_outputs);
-
-    // Wire the inputs directly to the unpack outputs
-    outputs.extend(replacement.input_wires().cycle().take(num_unpack_outputs));
-
-    // If needed, re-add the tuple pack node and connect its output to the tuple outputs.
-    if num_other_outputs > 0 {
-        let op = MakeTuple::new(tuple_types.to_vec().into());
-        let [tuple] = replacement
-            .add_dataflow_op(op, replacement.input_wires())
-            .unwrap()
-            .outputs_arr();
-        outputs.extend(std::iter::repeat_n(tuple, num_other_outputs))
+    let subgraph = SiblingSubgraph::try_from_nodes(nodes, circ.hugr()).ok()?;
+
+    let mut replacement = DFGBuilder::new(subgraph.signature(circ.hugr())).unwrap();
+    let inputs = replacement.input_wires().collect_vec();
+
+    // The boundary of the subgraph contains each output port that is used
+    // outside of it exactly once.
+    //
+    // Remove all unpack operations, but only remove the pack operation if the
+    // tuple is not used elsewhere.
+    let mut outputs = Vec::with_capacity(subgraph.outgoing_ports().len());
+    for &(node, port) in subgraph.outgoing_ports() {
+        let wire = if node != pack_node {
+            // Wire the inputs directly to the unpack outputs
+            inputs[port.index()]
+        } else {
+            // Re-add the tuple pack node and connect its output.
+            let op = MakeTuple::new(tuple_types.to_vec().into());
+            let [tuple] = replacement
+                .add_dataflow_op(op, inputs.iter().copied())
+                .unwrap()
+                .outputs_arr();
+            tuple
+        };
+        outputs.push(wire);
     }
 
     let replacement = replacement
@@ -145,12 +133,12 @@ fn remove_pack_unpack<T: HugrView<Node = Node>>(
             panic!("Failed to create replacement for removing tuple pack/unpack operations. {e}")
         });
 
-    subgraph
+    let rewrite = subgraph
         .create_simple_replacement(circ.hugr(), replacement)
         .unwrap_or_else(|e| {
             panic!("Failed to create rewrite for removing tuple pack/unpack operations. {e}")
-        })
-        .into()
+        });
+    Some(rewrite.into())
 }
 
 #[cfg(test)]
-- 
2.43.0


From 413c2f6eb3315044b808027efbd0122ed2cf8fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:02 +0000
Subject: [PATCH 47/52] fix: keep every use of a copied wire when reassembling
 circuit chunks

---
 tket/src/passes/chunks.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tket/src/passes/chunks.rs b/tket/src/passes/chunks.rs
index b3b86db..770c67b 100644
--- a/tket/src/passes/chunks.rs
+++ b/tket/src/passes/chunks.rs
@@ -133,7 +133,11 @@ impl Chunk {
                     }
                 })
                 .collect();
-            input_map.insert(connection, connection_targets);
+            // Several inputs may be fed by the same (copyable) connection.
+            input_map
+                .entry(connection)
+                .or_insert_with(Vec::new)
+                .extend(connection_targets);
         }
 
         for (&wire, chunk_out_port) in self.outputs.iter().zip(chunk.node_inputs(chunk_out)) {
@@ -177,7 +181,11 @@ impl Chunk {
                     ConnectionTarget::TransitiveConnection(output_connection)
                 })
                 .collect();
-            input_map.insert(connection, connection_targets);
+            // Several inputs may be fed by the same (copyable) connection.
+            input_map
+                .entry(connection)
+                .or_insert_with(Vec::new)
+                .extend(connection_targets);
         }
 
         for (&wire, chunk_out_port) in self.outputs.iter().zip(hugr.node_inputs(chunk_out)) {
-- 
2.43.0


From 6b3a0b8254652c01370bd3effc725f20ba24e892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:02 +0000
Subject: [PATCH 48/52] fix: count the first operation of a circuit chunk
 towards its cost

---
 tket/src/passes/chunks.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tket/src/passes/chunks.rs b/tket/src/passes/chunks.rs
index 770c67b..260839f 100644
--- a/tket/src/passes/chunks.rs
+++ b/tket/src/passes/chunks.rs
@@ -261,7 +261,7 @@ impl CircuitChunks {
     ///
     /// The circuit is split into chunks of at most `max_size` gates.
     pub fn split(circ: &Circuit, max_size: usize) -> Self {
-        Self::split_with_cost(circ, max_size.saturating_sub(1), |_| 1)
+        Self::split_with_cost(circ, max_size, |_| 1)
     }
 
     /// Split a circuit into chunks.
@@ -292,9 +292,10 @@ impl CircuitChunks {
         let mut running_cost = C::default();
         let mut current_group = 0;
         for (_, commands) in &circ.commands().map(|cmd| cmd.node()).chunk_by(|&node| {
-            let new_cost = running_cost.clone() + op_cost(hugr.get_optype(node));
+            let node_cost = op_cost(hugr.get_optype(node));
+            let new_cost = running_cost.clone() + node_cost.clone();
             if new_cost.sub_cost(&max_cost).as_isize() > 0 {
-                running_cost = C::default();
+                running_cost = node_cost;
                 current_group += 1;
             } else {
                 running_cost = new_cost;
-- 
2.43.0


From e04f649edf7ebaa5fcdaad3de3421b3ce838c10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:02 +0000
Subject: [PATCH 49/52] fix: keep the circuit's name when reassembling chunks

---
 tket/src/passes/chunks.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/tket/src/passes/chunks.rs b/tket/src/passes/chunks.rs
index 260839f..ddf5781 100644
--- a/tket/src/passes/chunks.rs
+++ b/tket/src/passes/chunks.rs
@@ -243,6 +243,9 @@ pub struct CircuitChunks {
     /// The original circuit's signature.
     signature: Signature,
 
+    /// The original circuit's name.
+    name: Option<String>,
+
     /// The original circuit's root metadata.
     root_meta: Option<NodeMetadataMap>,
 
@@ -306,6 +309,7 @@ impl CircuitChunks {
         }
         Self {
             signature: signature.into_owned(),
+            name: circ.name().map(ToString::to_string),
             root_meta: Some(root_meta),
             input_connections,
             output_connections,
@@ -315,12 +319,7 @@ impl CircuitChunks {
 
     /// Reassemble the chunks into a circuit.
     pub fn reassemble(self) -> Result<Circuit, HugrError> {
-        let name = self
-            .root_meta
-            .as_ref()
-            .and_then(|map| map.get("name"))
-            .and_then(|s| s.as_str())
-            .unwrap_or("");
+        let name = self.name.unwrap_or_default();
 
         let mut builder = FunctionBuilder::new(name, self.signature).unwrap();
         // Take the unfinished Hugr from the builder, to avoid unnecessary
-- 
2.43.0


From 079d2759ef98759bb8fe61fc9f8cf4356f1669ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:54 +0000
Subject: [PATCH 50/52] fix: do not initialise pytket registers that are
 already held by a wire

Decoding a pytket circuit re-initialised qubits and bits held by a tuple
when a single value was requested, dropping the original, and panicked if
the signature returned more values than the circuit has registers.
---
 tket/src/serialize/pytket/decoder/wires.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder/wires.rs b/tket/src/serialize/pytket/decoder/wires.rs
index 2671796..3261ad3 100644
--- a/tket/src/serialize/pytket/decoder/wires.rs
+++ b/tket/src/serialize/pytket/decoder/wires.rs
@@ -725,9 +725,22 @@ impl WireTracker {
             // Handle lazy initialization of qubit and bit wires. These are
             // normally qubits/bits present in the pytket circuit definition,
             // but not in the region's input.
-            _ if ty == &qb_t() => self.initialize_qubit_wire(builder, qubit_args[0].clone())?,
-            _ if ty == &bool_t() || ty == &bool_type() => {
-                self.initialize_bit_wire(builder, bit_args[0].clone())?
+            //
+            // Registers that are already held by a wire (e.g. one containing
+            // multiple registers) must not be initialized again.
+            _ if ty == &qb_t()
+                && wire_qubits
+                    .first()
+                    .is_some_and(|qb| self.qubit_wires(qb).next().is_none()) =>
+            {
+                self.initialize_qubit_wire(builder, wire_qubits[0].clone())?
+            }
+            _ if (ty == &bool_t() || ty == &bool_type())
+                && wire_bits
+                    .first()
+                    .is_some_and(|bit| self.bit_wires(bit).next().is_none()) =>
+            {
+                self.initialize_bit_wire(builder, wire_bits[0].clone())?
             }
             _ => {
                 return Err(PytketDecodeErrorInner::NoMatchingWire {
-- 
2.43.0


From 0049cc3ddcb3c7ab9de88084a26aa8dfc01e3118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:40 +0000
Subject: [PATCH 51/52] fix: keep every call when modifying a function

The map of static edges to restore had one entry per callee, so that only
one of several calls to the same unmodified function was connected, and
inserting a nested region translated the calls of the enclosing region
with the node map of the nested one, dropping or miswiring them.
---
 tket/src/modifier/modifier_resolver.rs        | 11 +++--
 .../modifier/modifier_resolver/call_modify.rs | 12 ++++--
 .../modifier/modifier_resolver/dfg_modify.rs  | 41 ++++++++++++++-----
 3 files changed, 48 insertions(+), 16 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver.rs b/tket/src/modifier/modifier_resolver.rs
index ece1df9..1689725 100644
--- a/tket/src/modifier/modifier_resolver.rs
+++ b/tket/src/modifier/modifier_resolver.rs
@@ -298,6 +298,10 @@ impl<N: HugrNode> PortVector<N> {
     }
 }
 
+/// The static edges to be added from each function.
+/// The same function may be used by several nodes.
+type CallMap<N> = HashMap<N, Vec<(Node, IncomingPort)>>;
+
 /// A container for modifier resolving.
 /// This struct holds the state during the modifier resolution process.
 pub struct ModifierResolver<N = Node> {
@@ -314,7 +318,7 @@ pub struct ModifierResolver<N = Node> {
     /// This is needed to avoid modifying a node that is generated during the process.
     worklist: VecDeque<N>,
     /// A map of static edges to be added after insertion of subgraph.
-    call_map: HashMap<N, (Node, IncomingPort)>,
+    call_map: CallMap<N>,
     // TODO:
     // Should keep track of the collection of modifiers that are applied to the same function.
     // This will prevent the duplicated generation of Controlled-functions.
@@ -450,7 +454,7 @@ impl<N: HugrNode> ModifierResolver<N> {
     fn corresp_map(&mut self) -> &mut HashMap<DirWire<N>, Vec<DirWire>> {
         &mut self.corresp_map
     }
-    fn call_map(&mut self) -> &mut HashMap<N, (Node, IncomingPort)> {
+    fn call_map(&mut self) -> &mut CallMap<N> {
         &mut self.call_map
     }
 
@@ -1033,11 +1037,12 @@ impl<N: HugrNode> ModifierResolver<N> {
         self.modify_signature(&mut signature, true);
         let mut new_cfg = CFGBuilder::new(signature.clone())?;
         let mut new_bb = new_cfg.entry_builder([type_row![]], signature.output.clone())?;
+        let parent_calls = mem::take(self.call_map());
         self.modify_dfg_body(h, old_bb, &mut new_bb)?;
         let bb_id = new_bb.finish_sub_container()?;
         new_cfg.branch(&bb_id, 0, &new_cfg.exit_block())?;
 
-        let new = self.insert_sub_dfg(new_dfg, new_cfg)?;
+        let new = self.insert_sub_dfg(new_dfg, new_cfg, parent_calls)?;
 
         // connect the controls and register the IOs
         for (i, c) in self.controls().iter_mut().enumerate() {
diff --git a/tket/src/modifier/modifier_resolver/call_modify.rs b/tket/src/modifier/modifier_resolver/call_modify.rs
index 694ea46..d09f5cd 100644
--- a/tket/src/modifier/modifier_resolver/call_modify.rs
+++ b/tket/src/modifier/modifier_resolver/call_modify.rs
@@ -35,7 +35,9 @@ impl<N: HugrNode> ModifierResolver<N> {
             // If the function need not be modified, just copy the Call node as is.
             let new = self.add_node_no_modification(h, n, call.clone(), new_dfg)?;
             self.call_map()
-                .insert(callee.0, (new, call.called_function_port()));
+                .entry(callee.0)
+                .or_default()
+                .push((new, call.called_function_port()));
             return Ok(());
         };
 
@@ -48,7 +50,9 @@ impl<N: HugrNode> ModifierResolver<N> {
         let new_call_node = new_dfg.add_child_node(new_call);
 
         self.call_map()
-            .insert(new_callee, (new_call_node, new_call_fn_port));
+            .entry(new_callee)
+            .or_default()
+            .push((new_call_node, new_call_fn_port));
         // wire the controls
         let mut controls = self.pack_controls(new_dfg)?;
         for (i, control) in controls.iter_mut().enumerate() {
@@ -202,7 +206,9 @@ impl<N: HugrNode> ModifierResolver<N> {
         let load = LoadFunction::try_new(modified_sig, load.type_args).map_err(BuildError::from)?;
         let new_load = new_dfg.add_child_node(load);
         self.call_map()
-            .insert(modified_fn, (new_load, IncomingPort::from(0)));
+            .entry(modified_fn)
+            .or_default()
+            .push((new_load, IncomingPort::from(0)));
         *self.modifiers_mut() = modifiers;
 
         // Make new IndirectCall
diff --git a/tket/src/modifier/modifier_resolver/dfg_modify.rs b/tket/src/modifier/modifier_resolver/dfg_modify.rs
index a6e4da6..60158a9 100644
--- a/tket/src/modifier/modifier_resolver/dfg_modify.rs
+++ b/tket/src/modifier/modifier_resolver/dfg_modify.rs
@@ -21,7 +21,7 @@ use hugr_core::hugr::internal::PortgraphNodeMap;
 use itertools::Itertools;
 use petgraph::visit::{Topo, Walker};
 
-use super::{DirWire, ModifierFlags, ModifierResolver, ModifierResolverErrors, PortExt};
+use super::{CallMap, DirWire, ModifierFlags, ModifierResolver, ModifierResolverErrors, PortExt};
 
 impl<N: HugrNode> ModifierResolver<N> {
     /// Modifies the body of a dataflow graph.
@@ -344,8 +344,10 @@ impl<N: HugrNode> ModifierResolver<N> {
         let call_map = mem::replace(self.call_map(), old_call_map);
         let insertion_result = h.insert_from_view(h.module_root(), new_fn.hugr());
         let new_call_map = update_call_map(&call_map, &insertion_result.node_map);
-        for (old_in, (new_n, new_port)) in new_call_map.into_iter().sorted() {
-            h.connect(old_in, 0, new_n, new_port);
+        for (old_in, targets) in new_call_map.into_iter().sorted() {
+            for (new_n, new_port) in targets {
+                h.connect(old_in, 0, new_n, new_port);
+            }
         }
 
         // set unitarity metadata
@@ -418,16 +420,23 @@ impl<N: HugrNode> ModifierResolver<N> {
     }
 
     /// Inserts a sub DFG into the given parent DFG, updating the call map accordingly.
+    ///
+    /// `parent_calls` is the call map of the parent, which has to be taken out before
+    /// modifying the body of the sub DFG as its nodes belong to a different hugr.
     pub(super) fn insert_sub_dfg(
         &mut self,
         parent_dfg: &mut impl Container,
         builder: impl Container,
+        parent_calls: CallMap<N>,
     ) -> Result<Node, ModifierResolverErrors<N>> {
         let insertion_result = parent_dfg.add_hugr_view(builder.hugr());
 
         let insertion_correspondence = insertion_result.node_map;
-        let new_call_map = update_call_map(self.call_map(), &insertion_correspondence);
-        *self.call_map() = new_call_map;
+        let sub_calls = mem::replace(self.call_map(), parent_calls);
+        let new_calls = update_call_map(&sub_calls, &insertion_correspondence);
+        for (callee, targets) in new_calls.into_iter().sorted() {
+            self.call_map().entry(callee).or_default().extend(targets);
+        }
 
         Ok(insertion_result.inserted_entrypoint)
     }
@@ -443,8 +452,9 @@ impl<N: HugrNode> ModifierResolver<N> {
         // Build a new DFG with modified body.
         self.modify_signature(&mut signature, true);
         let mut builder = DFGBuilder::new(signature.clone()).unwrap();
+        let parent_calls = mem::take(self.call_map());
         self.modify_dfg_body(h, n, &mut builder)?;
-        let new_dfg = self.insert_sub_dfg(parent_dfg, builder)?;
+        let new_dfg = self.insert_sub_dfg(parent_dfg, builder, parent_calls)?;
 
         // connect the controls and register the IOs
         for (i, c) in self.controls().iter_mut().enumerate() {
@@ -498,8 +508,9 @@ impl<N: HugrNode> ModifierResolver<N> {
                 .extend(iter::repeat_n(&qb_t(), self.control_num())),
             tail_loop.just_outputs.clone(),
         )?;
+        let parent_calls = mem::take(self.call_map());
         self.modify_dfg_body(h, n, &mut builder)?;
-        let new_tail_loop = self.insert_sub_dfg(new_dfg, builder)?;
+        let new_tail_loop = self.insert_sub_dfg(new_dfg, builder, parent_calls)?;
 
         // connect the controls and register IOs
         let offset = self.control_num();
@@ -551,6 +562,7 @@ impl<N: HugrNode> ModifierResolver<N> {
 
         // remember the current control qubits
         let controls = self.controls().clone();
+        let parent_calls = mem::take(self.call_map());
 
         let iter: Vec<_> = h.children(n).enumerate().collect();
         for (i, case_node) in iter {
@@ -599,7 +611,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         }
 
         // insert the conditional
-        let new_conditional = self.insert_sub_dfg(new_dfg, builder)?;
+        let new_conditional = self.insert_sub_dfg(new_dfg, builder, parent_calls)?;
 
         // connect the controls and register the IOs
         *self.controls() = Vec::new();
@@ -625,7 +637,10 @@ impl<N: HugrNode> ModifierResolver<N> {
 }
 
 /// composition of two call maps
-fn update_call_map<A, B, C, D>(f: &HashMap<A, (B, C)>, g: &HashMap<B, D>) -> HashMap<A, (D, C)>
+fn update_call_map<A, B, C, D>(
+    f: &HashMap<A, Vec<(B, C)>>,
+    g: &HashMap<B, D>,
+) -> HashMap<A, Vec<(D, C)>>
 where
     A: Clone + Eq + std::hash::Hash,
     B: Clone + Eq + std::hash::Hash,
@@ -633,7 +648,13 @@ where
     D: Clone,
 {
     f.iter()
-        .filter_map(|(a, (b, c))| g.get(b).map(|d| (a.clone(), (d.clone(), c.clone()))))
+        .map(|(a, targets)| {
+            let targets = targets
+                .iter()
+                .filter_map(|(b, c)| g.get(b).map(|d| (d.clone(), c.clone())))
+                .collect();
+            (a.clone(), targets)
+        })
         .collect()
 }
 
-- 
2.43.0


From 7a68372009809486b82639519b4f47bdf7a698f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:41 +0000
Subject: [PATCH 52/52] fix: put the controls first in the rows of modified
 loops

The control qubits are wired before the other values carried around a
loop, but their types were declared after them.
---
 tket/src/modifier/modifier_resolver/dfg_modify.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver/dfg_modify.rs b/tket/src/modifier/modifier_resolver/dfg_modify.rs
index 60158a9..4399fc8 100644
--- a/tket/src/modifier/modifier_resolver/dfg_modify.rs
+++ b/tket/src/modifier/modifier_resolver/dfg_modify.rs
@@ -501,11 +501,10 @@ impl<N: HugrNode> ModifierResolver<N> {
         }
 
         // Build a new TailLoop with modified body.
+        let control_types: TypeRow = vec![qb_t(); self.control_num()].into();
         let mut builder = TailLoopBuilder::new(
             tail_loop.just_inputs.clone(),
-            tail_loop
-                .rest
-                .extend(iter::repeat_n(&qb_t(), self.control_num())),
+            control_types.extend(tail_loop.rest.iter()),
             tail_loop.just_outputs.clone(),
         )?;
         let parent_calls = mem::take(self.call_map());
-- 
2.43.0

