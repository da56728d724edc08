From d7633fc5d511a1e6ecaf009ea1271c9f85517924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:00 +0000
Subject: [PATCH 01/49] fix: keep cancelled terms out of canonical sums

---
 amzn-smt-eager-arithmetic/src/canonicalize.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amzn-smt-eager-arithmetic/src/canonicalize.rs b/amzn-smt-eager-arithmetic/src/canonicalize.rs
index d6486f0..b3a8e8d 100644
--- a/amzn-smt-eager-arithmetic/src/canonicalize.rs
+++ b/amzn-smt-eager-arithmetic/src/canonicalize.rs
@@ -129,7 +129,8 @@ impl<'a> Canonicalizer<'a> {
                                 Mul([Constant::Numeral(x).into(), v.into()].into()).into()
                             }
                         }
-                        Equal => v.into(),
+                        // The terms cancel out, but the variable must still be constrained
+                        Equal => Mul([Constant::Numeral(pos - neg).into(), v.into()].into()).into(),
                     }),
             );
             res
-- 
2.43.0


From 9821ec499d5e95cc144429ae2b3e25552fd01d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:36 +0000
Subject: [PATCH 02/49] fix: don't count constraints with a non-constant RHS as
 separation constraints

---
 amzn-smt-eager-arithmetic/src/stats.rs | 27 ++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/stats.rs b/amzn-smt-eager-arithmetic/src/stats.rs
index 47152eb..4f9ae63 100644
--- a/amzn-smt-eager-arithmetic/src/stats.rs
+++ b/amzn-smt-eager-arithmetic/src/stats.rs
@@ -1,7 +1,7 @@
 //! Validation of quantifier-free ALL arithmetic SMT formulas.
 // Copyright Amazon.com, Inc. or its affiliates. All Rights Reserved.
 // SPDX-License-Identifier: Apache-2.0
-use super::Constant;
+use super::{int_term, Constant};
 use anyhow::anyhow;
 use aws_smt_ir::{
     logic::{
@@ -95,8 +95,23 @@ impl Stats {
                 },
                 _ => bad(),
             };
-            // Check if this is the LHS of a separation constraint (SC)
+            // A separation constraint's RHS is a constant, or a variable if the LHS is also just a
+            // variable (otherwise, the constraint is over more than two variables, or sums them)
+            let (const_rhs, var_rhs) = match args.last() {
+                Some(Term::Constant(_)) => (true, false),
+                Some(Term::Variable(_)) => (false, true),
+                Some(Term::OtherOp(op)) => {
+                    (matches!(op.as_ref(), Arith(Neg(Term::Constant(_)))), false)
+                }
+                _ => (false, false),
+            };
+            // Check if this is a separation constraint (SC)
             match lhs {
+                // x >= y (SC)
+                [Term::Variable(_)] if var_rhs => {}
+                _ if !const_rhs => {
+                    k += 1;
+                }
                 // x >= c (SC)
                 [Term::Variable(_)] => {}
                 // -x >= c === x <= -c (SC)
@@ -319,6 +334,14 @@ impl<'a> StatsVisitor<'a> {
                 try_break!(self.with_stats(|stats| stats.constraints.insert(t)));
                 self.expecting = Expecting::Rhs;
                 try_break!(r.visit_with(self));
+                if let (Term::OtherOp(lhs), None) = (l, int_term(r)) {
+                    // The RHS is a summand that was moved from the LHS
+                    if let Op::Arith(ArithOp::Plus(args)) = lhs.as_ref() {
+                        try_break!(self.with_stats(|stats| {
+                            stats.w = stats.w.max(args.len() + 1);
+                        }));
+                    }
+                }
                 self.expecting = Expecting::Formula;
                 self.current_partition = None;
                 ControlFlow::CONTINUE
-- 
2.43.0


From a6c43a5333381e51135f1a2cc59b9528aa5a5260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:58 +0000
Subject: [PATCH 03/49] fix: handle integer constraints without variables

---
 amzn-smt-eager-arithmetic/src/canonicalize.rs |  1 +
 amzn-smt-eager-arithmetic/src/stats.rs        | 11 ++++++-----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/canonicalize.rs b/amzn-smt-eager-arithmetic/src/canonicalize.rs
index b3a8e8d..30df9f0 100644
--- a/amzn-smt-eager-arithmetic/src/canonicalize.rs
+++ b/amzn-smt-eager-arithmetic/src/canonicalize.rs
@@ -173,6 +173,7 @@ impl<'a> Canonicalizer<'a> {
         match c_pos.cmp(&c_neg) {
             Less => args.push(Self::negate(Constant::Numeral(c_neg - c_pos).into())),
             Greater => args.push(Constant::Numeral(c_pos - c_neg).into()),
+            Equal if args.is_empty() => args.push(Constant::Numeral(c_pos - c_neg).into()),
             Equal => (),
         }
         Plus(args).into()
diff --git a/amzn-smt-eager-arithmetic/src/stats.rs b/amzn-smt-eager-arithmetic/src/stats.rs
index 4f9ae63..b3ce394 100644
--- a/amzn-smt-eager-arithmetic/src/stats.rs
+++ b/amzn-smt-eager-arithmetic/src/stats.rs
@@ -326,11 +326,11 @@ impl<'a> StatsVisitor<'a> {
             [l, r] => {
                 self.expecting = Expecting::Sum;
                 try_break!(l.visit_with(self));
-                debug_assert!(
-                    self.current_partition.is_some(),
-                    "constraints contain at least one variable: {}",
-                    t
-                );
+                if self.current_partition.is_none() {
+                    // Constraints without variables don't affect the solution size
+                    self.expecting = Expecting::Formula;
+                    return ControlFlow::CONTINUE;
+                }
                 try_break!(self.with_stats(|stats| stats.constraints.insert(t)));
                 self.expecting = Expecting::Rhs;
                 try_break!(r.visit_with(self));
@@ -431,6 +431,7 @@ impl Visitor<ALL> for StatsVisitor<'_> {
                 self.visit_constraint(op.into(), args)
             }
             (Expecting::Formula, BitVec(..)) => ControlFlow::CONTINUE,
+            (Expecting::Sum, Arith(Plus(args))) if args.is_empty() => ControlFlow::CONTINUE,
             (Expecting::Sum, Arith(Plus(args))) => {
                 self.expecting = Expecting::Summand;
                 try_break!(args.visit_with(self));
-- 
2.43.0


From 9fdc5bcbccc39ac238749ac82589dae705f1e1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:21 +0000
Subject: [PATCH 04/49] fix: decode integers wider than a machine word

---
 amzn-smt-eager-arithmetic/src/encoding.rs | 27 +++++++++--------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/encoding.rs b/amzn-smt-eager-arithmetic/src/encoding.rs
index 5e819d3..063e8be 100644
--- a/amzn-smt-eager-arithmetic/src/encoding.rs
+++ b/amzn-smt-eager-arithmetic/src/encoding.rs
@@ -569,23 +569,18 @@ impl Encoder {
                 Variable::Int(v) => {
                     let bits = self.int_var_bits(v);
                     let len = bits.len();
-                    let val = bits
-                        .enumerate()
-                        .filter(|(_, bit)| bit.evaluate(assignment).unwrap())
-                        .map(|(bit, _)| {
-                            let x = 2isize.pow(bit as u32);
-                            if bit == len - 1 {
-                                -x
-                            } else {
-                                x
-                            }
-                        })
-                        .sum::<isize>();
-                    let abs = Constant::Numeral(Numeral::from(val.unsigned_abs())).into();
-                    let val = if val >= 0 {
-                        abs
+                    let (mut pos, mut neg) = (Numeral::zero(), Numeral::zero());
+                    for (bit, b) in bits.enumerate() {
+                        if b.evaluate(assignment).unwrap() {
+                            // The most significant bit is the sign bit
+                            let x = if bit == len - 1 { &mut neg } else { &mut pos };
+                            x.set_bit(bit as u64, true);
+                        }
+                    }
+                    let val = if pos >= neg {
+                        Constant::Numeral(pos - neg).into()
                     } else {
-                        Op::Arith(ArithOp::Neg(abs)).into()
+                        Op::Arith(ArithOp::Neg(Constant::Numeral(neg - pos).into())).into()
                     };
                     (symbol, val)
                 }
-- 
2.43.0


From bd438917d48084f0d0aaf7ef85dee0530e2b3498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:20 +0000
Subject: [PATCH 05/49] fix: agree on bit order of bit-vector literals and
 models

---
 amzn-smt-eager-arithmetic/src/encoding.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/encoding.rs b/amzn-smt-eager-arithmetic/src/encoding.rs
index 063e8be..80960ce 100644
--- a/amzn-smt-eager-arithmetic/src/encoding.rs
+++ b/amzn-smt-eager-arithmetic/src/encoding.rs
@@ -69,7 +69,15 @@ impl InterLogicFolder<ALL> for Encoder {
 
     fn fold_var(&mut self, var: IVar<QualIdentifier>) -> Result<Term<Self::U>, Self::Error> {
         if let Some(bv) = var.to_bitvec_literal() {
-            Ok(bv.into())
+            // `to_bitvec_literal` produces the least-significant bit first
+            Ok(match bv {
+                Constant::Binary(mut bits) => {
+                    bits.reverse();
+                    Constant::Binary(bits)
+                }
+                bv => bv,
+            }
+            .into())
         } else {
             Ok(Term::from(IVar::from(self.var(&var)?)))
         }
@@ -245,7 +253,8 @@ impl Encoder {
     > {
         match c {
             Constant::Numeral(n) => Ok(Either::Left(Self::int_const_bits(n.clone()))),
-            Constant::Binary(bits) => Ok(Either::Right(bits.iter().copied().map_into())),
+            // Binary literals start with the most-significant bit
+            Constant::Binary(bits) => Ok(Either::Right(bits.iter().rev().copied().map_into())),
             Constant::Hexadecimal(_) => {
                 todo!("hexadecimal bit iterator")
             }
@@ -588,6 +597,8 @@ impl Encoder {
                 Variable::Bv(bv) => {
                     let bits = self
                         .bit_vec_bits(&bv)
+                        // Binary literals start with the most-significant bit
+                        .rev()
                         .map(|bit| bit.evaluate(assignment).unwrap());
                     (bv.sym().clone(), Constant::Binary(bits.collect()).into())
                 }
-- 
2.43.0


From f9b6320f2fb31f45d7dd67e638022967306f0880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:43 +0000
Subject: [PATCH 06/49] fix: reject commands that change the set of assertions

---
 amzn-smt-eager-arithmetic/src/lib.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/amzn-smt-eager-arithmetic/src/lib.rs b/amzn-smt-eager-arithmetic/src/lib.rs
index d580e37..b46fba4 100644
--- a/amzn-smt-eager-arithmetic/src/lib.rs
+++ b/amzn-smt-eager-arithmetic/src/lib.rs
@@ -14,7 +14,7 @@ use aws_smt_ir::{
     },
     model::Model,
     smt2parser::{concrete::Constant, Numeral},
-    Ctx, ISort, IVar, Logic, Script, Sorted, Term, UnknownSort,
+    Command, Ctx, ISort, IVar, Logic, Script, Sorted, Term, UnknownSort,
 };
 use either::Either;
 use std::{
@@ -118,6 +118,20 @@ fn encode_inner(
     let start = Instant::now();
     let uflia = Script::<Term>::parse(smt)?;
     println!("Parse time: {:?}", start.elapsed());
+    // All assertions are solved together, so commands that change which assertions hold at the
+    // (single) `(check-sat)` can't be supported by ignoring them
+    for command in uflia.as_ref() {
+        match command {
+            Command::Push { .. }
+            | Command::Pop { .. }
+            | Command::Reset
+            | Command::ResetAssertions
+            | Command::CheckSatAssuming { .. } => {
+                anyhow::bail!("unsupported command: {}", command)
+            }
+            _ => (),
+        }
+    }
     let start = Instant::now();
     let mut ctx = Ctx::default();
     // TODO: is it necessary to eliminate lets up-front?
-- 
2.43.0


From 1ce8f39049163aa83c105b60bd7be5071f2eaec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 07/49] fix: drop terms with a negated zero coefficient

---
 amzn-smt-eager-arithmetic/src/encoding.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amzn-smt-eager-arithmetic/src/encoding.rs b/amzn-smt-eager-arithmetic/src/encoding.rs
index 80960ce..683f469 100644
--- a/amzn-smt-eager-arithmetic/src/encoding.rs
+++ b/amzn-smt-eager-arithmetic/src/encoding.rs
@@ -132,7 +132,7 @@ impl InterLogicFolder<ALL> for Encoder {
             Arith(Mul(args)) => match args.as_slice() {
                 [c, x] => {
                     let z = Constant::Numeral(Numeral::zero()).into();
-                    if c.is_zero() {
+                    if matches!(int_term(c), Some((c, _)) if c.is_zero()) {
                         z
                     } else {
                         let x = x.fold_with(self)?;
-- 
2.43.0


From ffff86d92fba4fa42c368e30bc70b9cf882e3c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:59 +0000
Subject: [PATCH 08/49] fix: convert escapes that follow an incomplete \x
 escape

---
 amzn-smt-string-fct-updater/src/transpiler.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-string-fct-updater/src/transpiler.rs b/amzn-smt-string-fct-updater/src/transpiler.rs
index 6e1fe22..791e6f0 100644
--- a/amzn-smt-string-fct-updater/src/transpiler.rs
+++ b/amzn-smt-string-fct-updater/src/transpiler.rs
@@ -109,7 +109,8 @@ fn convert_z3escapes(s: &str) -> String {
                 } else {
                     new_string.push('x');
                     new_string.push(c);
-                    state = State::Base;
+                    // c may itself start an escape sequence
+                    state = if c == '\\' { State::Esc } else { State::Base };
                 }
             }
 
@@ -124,7 +125,8 @@ fn convert_z3escapes(s: &str) -> String {
                     new_string.push(x);
                     new_string.push(c);
                 };
-                state = State::Base;
+                // c may itself start an escape sequence
+                state = if c == '\\' { State::Esc } else { State::Base };
             }
         }
     }
-- 
2.43.0


From 905da94c154411286725300ff04fe0a4f8dfd32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:05 +0000
Subject: [PATCH 09/49] fix: detect arithmetic when guessing the logic

---
 amzn-smt-string-fct-updater/src/transpiler.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/amzn-smt-string-fct-updater/src/transpiler.rs b/amzn-smt-string-fct-updater/src/transpiler.rs
index 791e6f0..e43a636 100644
--- a/amzn-smt-string-fct-updater/src/transpiler.rs
+++ b/amzn-smt-string-fct-updater/src/transpiler.rs
@@ -7,8 +7,8 @@
 use aws_smt_ir::fold::IntraLogicFolder;
 use aws_smt_ir::fold::SuperFold;
 use aws_smt_ir::smt2parser::concrete::*;
-use aws_smt_ir::{fold::Fold, logic::*, Command as IRCommand, ParseError, Script, Term as IRTerm};
-use aws_smt_ir::{IConst, ISymbol, IVar, Index, IUF};
+use aws_smt_ir::{fold::Fold, logic::all::Op, logic::*, Command as IRCommand, ParseError, Script, Term as IRTerm};
+use aws_smt_ir::{IConst, IOp, ISymbol, IVar, Index, IUF};
 
 use std::convert::Infallible;
 use std::convert::TryInto;
@@ -202,14 +202,17 @@ impl IntraLogicFolder<ALL> for ModernizeStringsBuilder {
 
                 StringOp::ReLoop(indices, t.args[0].clone()).into()
             }
-            "+" | "-" | ">" | "<" | ">=" | "<=" | "*" => {
-                self.has_arith = true;
-                t.into()
-            }
             _ => t.into(),
         })
     }
 
+    fn fold_theory_op(&mut self, op: IOp<ALL>) -> Result<Term, Self::Error> {
+        if let Op::Arith(..) = op.as_ref() {
+            self.has_arith = true;
+        }
+        Ok(op.super_fold_with(self)?.into())
+    }
+
     fn fold_set_logic(&mut self, logic: ISymbol) -> Result<Command, Self::Error> {
         self.logic = Some(logic.0.clone());
         Ok(Command::SetLogic { symbol: logic })
-- 
2.43.0


From dfbcfb14af48e3074350d8347815ea1257249d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:10 +0000
Subject: [PATCH 10/49] fix: don't panic on scripts with only set-option
 commands

---
 amzn-smt-string-fct-updater/src/transpiler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amzn-smt-string-fct-updater/src/transpiler.rs b/amzn-smt-string-fct-updater/src/transpiler.rs
index e43a636..b699ae3 100644
--- a/amzn-smt-string-fct-updater/src/transpiler.rs
+++ b/amzn-smt-string-fct-updater/src/transpiler.rs
@@ -239,7 +239,7 @@ pub fn modernize_string_fcts(commands: impl Iterator<Item = Command>) -> Vec<Com
             "QF_S"
         };
         let mut i = 0;
-        while let Command::SetOption { .. } = v[i] {
+        while let Some(Command::SetOption { .. }) = v.get(i) {
             i += 1;
         }
         v.insert(
-- 
2.43.0


From cfe201f9a00fdde54c152ab2e1231f4090312f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:11 +0000
Subject: [PATCH 11/49] fix: keep a node's function and literals when adding
 siblings

---
 amzn-smt-string-transformer/src/callgraph.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/amzn-smt-string-transformer/src/callgraph.rs b/amzn-smt-string-transformer/src/callgraph.rs
index dcef018..87057b5 100644
--- a/amzn-smt-string-transformer/src/callgraph.rs
+++ b/amzn-smt-string-transformer/src/callgraph.rs
@@ -260,7 +260,10 @@ impl CallGraph {
                     siblings: Some(sib_ids.clone()),
                     data: if !sib_strings.is_empty() {
                         // adding to the string_lits_built_from
-                        Some(CallnodeData::new(StringFct::NO_OP, sib_strings.clone()))
+                        let mut data = self.get_data_for_ind(sib_id)?.clone();
+                        data.string_lits_built_from
+                            .extend(sib_strings.iter().cloned());
+                        Some(data)
                     } else {
                         None
                     },
-- 
2.43.0


From 566f6e8fd23566d52afe5c8f6e05fb457da7f8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:59 +0000
Subject: [PATCH 12/49] fix: keep the whole string when digits must be
 preserved

---
 .../src/string_mappings.rs                      | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index 61ac689..8f1b16c 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -122,18 +122,13 @@ pub fn gen_string_keep_ranges(
     // iterate over the string to be mapped, character by character
     for c in s.chars() {
         // if we're keeping ints (decimal)
-        match (keep_ints, c.is_ascii_digit()) {
-            (KeepInts::AsInts, true) => {
-                to_ret.push('0');
-                break;
-            }
-            (KeepInts::ExactInts, true) => {
-                to_ret.push(c);
-                break;
-            }
-            _ => {}
-        }
         let new_range = char_map.get_range_for_char(c);
+        if keep_ints != KeepInts::No && c.is_ascii_digit() {
+            // digits stay as they are, so distinct digit strings stay distinct
+            to_ret.push(c);
+            cur_range = new_range;
+            continue;
+        }
         // get the next char
         // if it's a range, just use the first value in the range
         // if it's not a range, just get the next available value
-- 
2.43.0


From 16a47fa2b675e845cc3b48a149cb2ae87cd9c187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:42 +0000
Subject: [PATCH 13/49] fix: keep literal lengths in the presence of re.allchar

---
 amzn-smt-string-transformer/src/string_fcts.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/amzn-smt-string-transformer/src/string_fcts.rs b/amzn-smt-string-transformer/src/string_fcts.rs
index 96329a3..8322caa 100644
--- a/amzn-smt-string-transformer/src/string_fcts.rs
+++ b/amzn-smt-string-transformer/src/string_fcts.rs
@@ -199,7 +199,6 @@ impl StringFct {
             Self::Distinct
             | Self::StrEquality
             | Self::ReAll
-            | Self::ReAllChar
             | Self::ReCompl
             | Self::ReDiff
             | Self::ReIntersect
@@ -265,8 +264,9 @@ impl StringFct {
                     set_props = set_props.update_with_truths(StringSetProperties::Everything);
                 }
             }
-            // length-specific functions (loop and pow mean a specific number of repetitions)
-            Self::Len | Self::ReLoop | Self::RePow => {
+            // length-specific functions (allchar matches exactly one char,
+            // loop and pow mean a specific number of repetitions)
+            Self::Len | Self::ReAllChar | Self::ReLoop | Self::RePow => {
                 set_props = set_props.update_with_truths(StringSetProperties::Some {
                     len: true,
                     ranges: HashSet::new(),
-- 
2.43.0


From 263f08f65cd858852a6d1610eafac38b11a49db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:04 +0000
Subject: [PATCH 14/49] fix: keep literal lengths in the presence of str.substr

---
 amzn-smt-string-transformer/src/string_fcts.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/amzn-smt-string-transformer/src/string_fcts.rs b/amzn-smt-string-transformer/src/string_fcts.rs
index 8322caa..6d366f2 100644
--- a/amzn-smt-string-transformer/src/string_fcts.rs
+++ b/amzn-smt-string-transformer/src/string_fcts.rs
@@ -216,7 +216,6 @@ impl StringFct {
             | Self::ReplaceAll
             | Self::ReplaceRe
             | Self::ReplaceReAll
-            | Self::Substr
             | Self::SuffixOf
             | Self::ToRe => {
                 set_props = set_props.update_with_truths(StringSetProperties::Some {
@@ -296,7 +295,7 @@ impl StringFct {
                 })
             }
             // keep both length and the relevant substrings
-            Self::IndexOf | Self::SingStrAt => {
+            Self::IndexOf | Self::SingStrAt | Self::Substr => {
                 set_props = set_props.update_with_truths(StringSetProperties::Some {
                     len: true,
                     ranges: HashSet::new(),
-- 
2.43.0


From dcc8a84039aaef303619da0e082988e3f85ff129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:05 +0000
Subject: [PATCH 15/49] fix: give up on strings that can't be perturbed

---
 amzn-smt-string-transformer/src/string_mappings.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index 8f1b16c..7610476 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -59,9 +59,10 @@ fn update_and_get_next_char(char_map: &mut CharMap, offset: u32, update_map_offs
 /// in the given CharMap.
 pub fn map_string_char_to_char(s: &str, char_map: &mut CharMap) -> Result<String, StringMapError> {
     // error if the string has to maintain all properties
+    // (the gaps between substrings aren't literals, and so have no properties)
     if matches!(
-        char_map.string_lit_props.get(s).unwrap(),
-        StringSetProperties::Everything
+        char_map.string_lit_props.get(s),
+        Some(StringSetProperties::Everything)
     ) {
         return Err(StringMapError::MaintainEverythingStringProps);
     }
@@ -222,6 +223,10 @@ fn fix_repeated_string(
                     })
                 )))
     }) {
+        // past this offset no perturbation yields an ascii character anymore
+        if retry_add > 127 {
+            return Err(StringMapError::RemapRetryCountExceeded);
+        }
         // get next non-range char in the charmap
         let next_char = char::from_u32(update_and_get_next_char(
             char_map,
-- 
2.43.0


From bff2016e9680b273ab5598d0e2112c8df5e73411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:11 +0000
Subject: [PATCH 16/49] fix: fall back when a mapped string gains a substring
 relationship

---
 .../src/string_mappings.rs                    | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index 7610476..e65fdb0 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -651,6 +651,27 @@ pub fn gen_string_keep_substrings(
 
     to_ret.push_str(&mapped_suffix);
 
+    // the mapped pieces can line up so that the mapped string relates to another one in a way that
+    // the original strings don't; bail in this case
+    if char_map.string_map.iter().any(|(key, val)| {
+        key != s
+            && matches!(
+                char_map.string_lit_props.get(key),
+                Some(StringSetProperties::Some {
+                    keep_substrings: true,
+                    ..
+                })
+            )
+            && (s.contains(key) != to_ret.contains(val)
+                || s.starts_with(key) != to_ret.starts_with(val)
+                || s.ends_with(key) != to_ret.ends_with(val)
+                || key.contains(s) != val.contains(&to_ret)
+                || key.starts_with(s) != val.starts_with(&to_ret)
+                || key.ends_with(s) != val.ends_with(&to_ret))
+    }) {
+        return Err(StringMapError::MidstringPartialOverlap);
+    }
+
     // add the mapped string to the string map and the persistent map
     char_map.string_map.insert(s.to_string(), to_ret.clone());
 
-- 
2.43.0


From 50577fd9653789c99c92d841e99852817c56a33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:13 +0000
Subject: [PATCH 17/49] fix: propagate usage through all connected cliques

---
 amzn-smt-string-transformer/src/callgraph.rs | 22 ++++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/amzn-smt-string-transformer/src/callgraph.rs b/amzn-smt-string-transformer/src/callgraph.rs
index 87057b5..e2aeffc 100644
--- a/amzn-smt-string-transformer/src/callgraph.rs
+++ b/amzn-smt-string-transformer/src/callgraph.rs
@@ -476,17 +476,17 @@ impl CallGraph {
         let mut contrib_string_lits: BTreeSet<String> =
             cur_node.data.string_lits_built_from.clone();
 
-        // iterate over the cliques and collect the info from those who contain the current var
-        let mut cids: Vec<&NodeId> = cliques.keys().collect::<Vec<_>>();
-        cids.sort();
-
-        for cid in cids {
-            let clique = &cliques[cid];
-            if clique.vars.contains(&var) {
-                contrib_vars.extend(clique.vars.iter().cloned());
-                contrib_string_fcts.extend(clique.string_fcts.iter().cloned());
-                contrib_string_lits.extend(clique.string_lits.iter().cloned());
-            }
+        // iterate over the cliques and collect the info from those who contain the current var,
+        // or (transitively) share a var with one that does
+        let mut rest: Vec<&NodeSetData> = cliques.values().collect::<Vec<_>>();
+        while let Some(ind) = rest
+            .iter()
+            .position(|clique| !clique.vars.is_disjoint(&contrib_vars))
+        {
+            let clique = rest.swap_remove(ind);
+            contrib_vars.extend(clique.vars.iter().cloned());
+            contrib_string_fcts.extend(clique.string_fcts.iter().cloned());
+            contrib_string_lits.extend(clique.string_lits.iter().cloned());
         }
 
         // finally, once the data has all been collected, update the current node with the contribs
-- 
2.43.0


From 740b7eb72d8475a074893a4a5d667a3220f5f040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:54 +0000
Subject: [PATCH 18/49] fix: rename applications of declared functions

---
 .../src/transpiler_visitors.rs                       | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/amzn-smt-string-transformer/src/transpiler_visitors.rs b/amzn-smt-string-transformer/src/transpiler_visitors.rs
index 361e7d7..02792ca 100644
--- a/amzn-smt-string-transformer/src/transpiler_visitors.rs
+++ b/amzn-smt-string-transformer/src/transpiler_visitors.rs
@@ -12,7 +12,7 @@ use aws_smt_ir::args::Arguments;
 use aws_smt_ir::fold::{IntraLogicFolder, SuperFold};
 use aws_smt_ir::logic::ALL;
 use aws_smt_ir::smt2parser::concrete::*;
-use aws_smt_ir::{CoreOp, IConst, ISort, ISymbol, IVar};
+use aws_smt_ir::{CoreOp, IConst, ISort, ISymbol, IVar, IUF};
 use std::collections::hash_map::Entry;
 use std::collections::{BTreeSet, HashMap, HashSet};
 use std::convert::Infallible;
@@ -254,6 +254,16 @@ impl IntraLogicFolder<ALL> for IdentifyStringsBuilder {
         Ok(v.into())
     }
 
+    /// visit applications of declared functions
+    /// these are renamed in the same way as variables
+    fn fold_uninterpreted_func(&mut self, uf: IUF<ALL>) -> Result<Term, Self::Error> {
+        let mut uf = uf.super_fold_with(self)?;
+        if let Some(sym) = self.alpha_renaming_map.get(&uf.func) {
+            uf.func = sym.clone();
+        }
+        Ok(Term::UF(uf.into()))
+    }
+
     /// visit constants
     /// if it's a string constant, add it to the list of string constants
     fn fold_const(&mut self, constant: IConst) -> Result<Term, Self::Error> {
-- 
2.43.0


From 4e89c9e6b055a3efcf9f6f50f41a9ade0763cb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:18 +0000
Subject: [PATCH 19/49] fix: don't reconstruct unmapped chars as the mapped
 chars they look like

---
 amzn-smt-string-transformer/src/mapping_tools.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/amzn-smt-string-transformer/src/mapping_tools.rs b/amzn-smt-string-transformer/src/mapping_tools.rs
index f5f11e5..ba53f67 100644
--- a/amzn-smt-string-transformer/src/mapping_tools.rs
+++ b/amzn-smt-string-transformer/src/mapping_tools.rs
@@ -5,7 +5,7 @@ use aws_smt_ir::ISymbol;
 // SPDX-License-Identifier: Apache-2.0
 use serde::{Deserialize, Serialize};
 use serde_json::Result;
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeSet, HashMap, HashSet};
 
 use crate::transpiler::{KeepInts, MappedStringMetaObj, StringSetProperties};
 
@@ -216,6 +216,16 @@ impl Mapping {
         for (c1, c2) in &self.char_map {
             re_map.insert(*c2, *c1);
         }
+        // a mapped char that nothing maps to must not be reconstructed as itself, since then it
+        // would be confused with its original; swap these with the chars that are only mapped to
+        let mapped: BTreeSet<char> = self.char_map.iter().map(|(c1, _)| *c1).collect();
+        let mapped_to: BTreeSet<char> = self.char_map.iter().map(|(_, c2)| *c2).collect();
+        re_map.extend(
+            mapped
+                .difference(&mapped_to)
+                .copied()
+                .zip(mapped_to.difference(&mapped).copied()),
+        );
         re_map
     }
 
-- 
2.43.0


From 909f4c2411083255529137f21fb7a561eb66ef52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:50 +0000
Subject: [PATCH 20/49] fix: reconstruct different chars of a range as
 different chars

---
 amzn-smt-string-transformer/src/transpiler.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index f2c8e2a..504d542 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -806,8 +806,9 @@ fn initialize_charmap_with_ranges(
 }
 
 /// populate the rest of the ranges.
-/// we'll just map the characters in the mapped range to one of the unused range chars
+/// we'll just map the characters in the mapped range to the unused range chars
 /// the purpose: so when we remap, everything in the range gets mapped back to the range
+/// (and different characters get mapped back to different characters)
 /// (this is really only relevant for char-to-char remapping)
 fn populate_ranges(char_map: &CharMap) -> Vec<(char, char)> {
     let mut char_vec = char_map
@@ -818,8 +819,6 @@ fn populate_ranges(char_map: &CharMap) -> Vec<(char, char)> {
 
     for range in char_map.ranges.iter() {
         let mut offset = range.cur_offset; // start offset
-        let mut placeholder_char = range.start_char;
-        let mut found_char = false;
         for range_char in range.start_char..range.end_char {
             if char_map.char_map.get(&range_char).is_none() {
                 if char_map
@@ -828,11 +827,7 @@ fn populate_ranges(char_map: &CharMap) -> Vec<(char, char)> {
                 {
                     offset += 1;
                 }
-                if !found_char {
-                    placeholder_char = range_char;
-                    found_char = true;
-                }
-                char_vec.push((placeholder_char, char::from_u32(offset).unwrap()));
+                char_vec.push((range_char, char::from_u32(offset).unwrap()));
                 offset += 1;
             }
         }
-- 
2.43.0


From f5de13be5afcd60c4b02f1c93097fda02e9768f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:54 +0000
Subject: [PATCH 21/49] fix: negate xors of more than two arguments correctly

---
 amzn-smt-eager-arithmetic/src/encoding.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amzn-smt-eager-arithmetic/src/encoding.rs b/amzn-smt-eager-arithmetic/src/encoding.rs
index 683f469..6904b9f 100644
--- a/amzn-smt-eager-arithmetic/src/encoding.rs
+++ b/amzn-smt-eager-arithmetic/src/encoding.rs
@@ -95,6 +95,10 @@ impl InterLogicFolder<ALL> for Encoder {
                     CoreOp::Eq(args).into()
                 }
             }
+            // The CNF conversion only negates `xor`s of two arguments correctly
+            CoreOp::Xor(args) if args.len() > 2 => (args.into_iter())
+                .reduce(|l, r| CoreOp::Xor([l, r].into()).into())
+                .unwrap(),
             op => op.into(),
         })
     }
-- 
2.43.0


From 3544f0f4a10ae3ed195e4c5bdae48bda0cbaa63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:51 +0000
Subject: [PATCH 22/49] fix: support distinct for Boolean arguments

---
 amzn-smt-eager-arithmetic/src/canonicalize.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amzn-smt-eager-arithmetic/src/canonicalize.rs b/amzn-smt-eager-arithmetic/src/canonicalize.rs
index 30df9f0..28c224d 100644
--- a/amzn-smt-eager-arithmetic/src/canonicalize.rs
+++ b/amzn-smt-eager-arithmetic/src/canonicalize.rs
@@ -270,6 +270,8 @@ impl IntraLogicFolder<ALL> for Canonicalizer<'_> {
                         let (l, r) = Self::normalize_constraint(x, y);
                         !Term::from(CoreOp::Eq([l, r].into()))
                     })
+                } else if sort == Ok(ISort::bool()) {
+                    pairwise(&args, |x, y| !Term::from(CoreOp::Eq([x, y].into())))
                 } else {
                     CoreOp::Distinct(args).into()
                 }
-- 
2.43.0


From 234f351de29d17da5e30dbd4da414238a0e3e175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:25 +0000
Subject: [PATCH 23/49] fix: write an unsatisfiable CNF when encode's
 simplification finds one

---
 amzn-smt-eager-arithmetic/src/main.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/main.rs b/amzn-smt-eager-arithmetic/src/main.rs
index 8e09189..3b02fc6 100644
--- a/amzn-smt-eager-arithmetic/src/main.rs
+++ b/amzn-smt-eager-arithmetic/src/main.rs
@@ -65,10 +65,12 @@ fn main() -> anyhow::Result<()> {
                 .context("Unable to spawn `minisat` for CNF simplification")?;
             amzn_smt_eager_arithmetic::encode(problem, minisat.stdin.as_mut().unwrap())?;
             let exit = minisat.wait()?;
-            if exit.success() {
-                Ok(())
-            } else {
-                bail!("minisat exited with non-success status {}", exit)
+            match exit.code() {
+                Some(0) => Ok(()),
+                // Simplification found the formula to be UNSAT and didn't write it
+                Some(20) => fs::write(&cnf_outfile, "p cnf 1 2\n1 0\n-1 0\n")
+                    .with_context(|| format!("Unable to write file: {}", cnf_outfile.display())),
+                _ => bail!("minisat exited with non-success status {}", exit),
             }
         }
         Operation::Solve { instance, solver } => {
-- 
2.43.0


From 640af8c5d1a8b5d4892bfc869e3111a12ae36463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:34 +0000
Subject: [PATCH 24/49] fix: give values to integer constants that
 canonicalization removes

---
 amzn-smt-eager-arithmetic/src/canonicalize.rs | 18 ++++++++++++++++--
 amzn-smt-eager-arithmetic/src/encoding.rs     | 16 +++++++++++++++-
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/canonicalize.rs b/amzn-smt-eager-arithmetic/src/canonicalize.rs
index 28c224d..2e8b307 100644
--- a/amzn-smt-eager-arithmetic/src/canonicalize.rs
+++ b/amzn-smt-eager-arithmetic/src/canonicalize.rs
@@ -10,16 +10,22 @@ use aws_smt_ir::{
     },
     pairwise,
     smt2parser::Numeral,
-    Constant, CoreOp, Ctx, HashOrdered, ICoreOp, ILet, IOp, ISort, Sorted, Term, UnknownSort,
+    Constant, CoreOp, Ctx, HashOrdered, ICoreOp, ILet, IOp, ISort, ISymbol, IVar, Sorted, Term,
+    UnknownSort,
 };
 use either::Either;
 use num_traits::{One, Zero};
 use smallvec::{smallvec, SmallVec};
-use std::{collections::BTreeMap, iter};
+use std::{
+    collections::{BTreeMap, HashSet},
+    iter,
+};
 
 pub struct Canonicalizer<'a> {
     context: &'a mut Ctx,
     pub(super) new_asserts: Vec<Term>,
+    /// Integer constants that occur in the script, even if only in terms that cancel out.
+    pub(super) int_consts: HashSet<ISymbol>,
 }
 
 impl<'a> Canonicalizer<'a> {
@@ -27,6 +33,7 @@ impl<'a> Canonicalizer<'a> {
         Self {
             context: ctx,
             new_asserts: Default::default(),
+            int_consts: Default::default(),
         }
     }
 
@@ -220,6 +227,13 @@ impl IntraLogicFolder<ALL> for Canonicalizer<'_> {
         Some(self.context)
     }
 
+    fn fold_var(&mut self, var: IVar) -> Result<Term, Self::Error> {
+        if self.context.const_sort(var.sym()) == Some(&ISort::int()) {
+            self.int_consts.insert(var.sym().clone());
+        }
+        Ok(var.into())
+    }
+
     fn fold_core_op(&mut self, op: ICoreOp<ALL>) -> Result<Term, Self::Error> {
         let implies = |a: Term, b: Term| CoreOp::Imp([a, b].into()).into();
         Ok(match op.super_fold_with(self)? {
diff --git a/amzn-smt-eager-arithmetic/src/encoding.rs b/amzn-smt-eager-arithmetic/src/encoding.rs
index 6904b9f..7c11de6 100644
--- a/amzn-smt-eager-arithmetic/src/encoding.rs
+++ b/amzn-smt-eager-arithmetic/src/encoding.rs
@@ -22,7 +22,10 @@ use aws_smt_ir::{
 use either::Either;
 use itertools::Itertools;
 use num_traits::{ToPrimitive, Zero};
-use std::{collections::HashMap, num::NonZeroU64};
+use std::{
+    collections::{HashMap, HashSet},
+    num::NonZeroU64,
+};
 
 #[derive(Clone, Copy, Default, Debug, Hash, PartialEq, Eq)]
 pub struct ReducedLogic;
@@ -43,6 +46,8 @@ pub struct Encoder {
     next_bool_var: NonZeroU64,
     next_int_var: u64,
     var_map: HashMap<ISymbol, Variable>,
+    /// Integer constants that occur in the script before canonicalization.
+    int_consts: HashSet<ISymbol>,
     bit_vars: HashMap<IntVariable, (BoolVariable, u64)>,
     bv_bit_vars: HashMap<IVar, (BoolVariable, u64)>,
     encoded: HashMap<BasicOp, Reduced>,
@@ -214,6 +219,7 @@ impl Encoder {
             next_bool_var: NonZeroU64::new(1).unwrap(),
             next_int_var: 0,
             var_map: HashMap::new(),
+            int_consts: HashSet::new(),
             bit_vars: HashMap::new(),
             bv_bit_vars: HashMap::new(),
             encoded: Default::default(),
@@ -301,6 +307,7 @@ impl Encoder {
         let mut canonicalizer = Canonicalizer::new(&mut ctx);
         let mut script = script.try_fold(&mut canonicalizer)?;
         script.add_asserts(canonicalizer.new_asserts);
+        let int_consts = canonicalizer.int_consts;
         let bounds = {
             let mut stats = StatsVisitor::new(&mut ctx);
             match script.visit_asserted(&mut stats) {
@@ -310,6 +317,7 @@ impl Encoder {
             stats.solution_size_upper_bound_bits()
         };
         let mut encoder = Self::new(ctx, bounds);
+        encoder.int_consts = int_consts;
         let mut encoded = script.try_fold(&mut encoder)?;
         encoded.add_asserts(std::mem::take(&mut encoder.implied));
         Ok((encoded, encoder))
@@ -576,6 +584,11 @@ impl Encoder {
     /// Reconstructs a solution to the formula encoded by `self` given a solution to its boolean encoding.
     pub fn decode(mut self, assignment: &HashMap<BoolVariable, bool>) -> HashMap<ISymbol, Term> {
         let var_map = std::mem::take(&mut self.var_map);
+        // Constants that were canonicalized away can have any value
+        let unconstrained = (std::mem::take(&mut self.int_consts).into_iter())
+            .filter(|symbol| !var_map.contains_key(symbol))
+            .map(|symbol| (symbol, Constant::Numeral(Numeral::zero()).into()))
+            .collect_vec();
         var_map
             .into_iter()
             .map(|(symbol, var)| match var {
@@ -607,6 +620,7 @@ impl Encoder {
                     (bv.sym().clone(), Constant::Binary(bits.collect()).into())
                 }
             })
+            .chain(unconstrained)
             .collect()
     }
 }
-- 
2.43.0


From 3c424eefcbbbcb94faf4938e6726a5e144d1d10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:28 +0000
Subject: [PATCH 25/49] fix: map string literals in the branches of an ite

They were not collected as arguments of the surrounding string function, so
they were left unmapped, or the transformer panicked on them.
---
 amzn-smt-string-transformer/src/transpiler.rs | 50 ++++++-------------
 .../src/transpiler_visitors.rs                | 16 +++++-
 2 files changed, 28 insertions(+), 38 deletions(-)

diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index 504d542..8f6d27d 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -210,44 +210,22 @@ pub fn char_level_substrings_required(
     vars: &HashMap<ISymbol, ISymbol>,
 ) -> HashSet<ISymbol> {
     let mut vars_substring_required: HashSet<ISymbol> = HashSet::new();
-    match sfc.get_var_position_implies_char_substrings() {
-        VarArgPositionCharSubstring::RightMost => {
-            // check last arg in the list
-            if let Some(Term::Variable(symbol)) = arguments.last() {
-                for val in vars.values() {
-                    if val == symbol.sym() {
-                        vars_substring_required.insert(symbol.sym().clone());
-                        break;
-                    }
-                }
-            }
-        }
-        VarArgPositionCharSubstring::LeftMost => {
-            // check first arg in the list
-            if let Some(Term::Variable(symbol)) = arguments.first() {
-                for val in vars.values() {
-                    if val == symbol.sym() {
-                        vars_substring_required.insert(symbol.sym().clone());
-                        break;
-                    }
-                }
-            }
-        }
-        VarArgPositionCharSubstring::Any => {
-            // check all args in the list
-            for arg in arguments {
-                if let Term::Variable(symbol) = arg {
-                    for val in vars.values() {
-                        if val == symbol.sym() {
-                            vars_substring_required.insert(symbol.sym().clone());
-                            break;
-                        }
-                    }
-                }
+    let relevant_args = match sfc.get_var_position_implies_char_substrings() {
+        // check last arg in the list
+        VarArgPositionCharSubstring::RightMost => &arguments[arguments.len().saturating_sub(1)..],
+        // check first arg in the list
+        VarArgPositionCharSubstring::LeftMost => &arguments[..arguments.len().min(1)],
+        // check all args in the list
+        VarArgPositionCharSubstring::Any => arguments,
+        // if there are no positions that would imply all char substrings, do nothing
+        VarArgPositionCharSubstring::No => &[],
+    };
+    for arg in relevant_args.iter().flat_map(possible_values) {
+        if let Term::Variable(symbol) = arg {
+            if vars.values().any(|val| val == symbol.sym()) {
+                vars_substring_required.insert(symbol.sym().clone());
             }
         }
-        // if there are no positions that would imply all char substrings, do nothing
-        _ => {}
     }
     vars_substring_required
 }
diff --git a/amzn-smt-string-transformer/src/transpiler_visitors.rs b/amzn-smt-string-transformer/src/transpiler_visitors.rs
index 02792ca..8b4d7cb 100644
--- a/amzn-smt-string-transformer/src/transpiler_visitors.rs
+++ b/amzn-smt-string-transformer/src/transpiler_visitors.rs
@@ -80,7 +80,7 @@ impl IdentifyStringsBuilder {
                     sfc,
                     &self.alpha_renaming_map,
                 ));
-            for arg in op.args() {
+            for arg in op.args().flat_map(possible_values) {
                 if let Term::Variable(identifier) = arg {
                     let ident_sym = identifier.sym();
                     if self.string_var_list.contains(&ident_sym.clone()) {
@@ -112,7 +112,7 @@ impl IdentifyStringsBuilder {
         // build up all the string constant args, and use this to check for non-string equality
         let mut non_string_arguments = false;
         if let Some(op) = t.op() {
-            for arg in op.args() {
+            for arg in op.args().flat_map(possible_values) {
                 if let Term::Constant(c) = arg {
                     if let Constant::String(s) = c.as_ref() {
                         string_const_args.insert(s.to_string());
@@ -159,6 +159,18 @@ impl IdentifyStringsBuilder {
     }
 }
 
+/// the terms that an argument can be equal to: both branches of an ite, otherwise the term itself
+pub fn possible_values(t: &Term) -> Vec<&Term> {
+    if let Term::CoreOp(op) = t {
+        if let CoreOp::Ite(_, consq, alt) = op.as_ref() {
+            let mut values = possible_values(consq);
+            values.extend(possible_values(alt));
+            return values;
+        }
+    }
+    vec![t]
+}
+
 /// create the assertion for a new var (think: variable initialization)
 /// example: given "new_var1" and term t, this creates an assertion
 /// (assert (= new_var1 t))
-- 
2.43.0


From c5e58a37e7fa228166c09067d3f56f8863505460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:45 +0000
Subject: [PATCH 26/49] fix: rename the symbols of check-sat-assuming

---
 amzn-smt-string-transformer/src/transpiler.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index 8f6d27d..2a90fb9 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -830,6 +830,17 @@ pub fn transform_ast(
         .collect::<Result<Vec<Command>, _>>()
         .unwrap();
 
+    // the literals of check-sat-assuming aren't terms, so they are not visited: rename them here
+    for c in &mut commands {
+        if let Command::CheckSatAssuming { literals } = c {
+            for (sym, _) in literals {
+                if let Some(new_sym) = identify_builder.alpha_renaming_map.get(sym) {
+                    *sym = new_sym.clone();
+                }
+            }
+        }
+    }
+
     // remove the declare-consts from the list,
     // theyre all in the identify_builder list now and need to be lifted up
     commands.retain(|c| !matches!(c, Command::DeclareConst { .. } | Command::DeclareFun { .. }));
-- 
2.43.0


From afa4a0eed8c4045e597af15b43c3999220bd2cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:23 +0000
Subject: [PATCH 27/49] fix: keep assertions that equate a string function with
 another term

---
 .../src/subformula_parser.rs                       | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/amzn-smt-string-transformer/src/subformula_parser.rs b/amzn-smt-string-transformer/src/subformula_parser.rs
index 5df5c1d..a17eb2e 100644
--- a/amzn-smt-string-transformer/src/subformula_parser.rs
+++ b/amzn-smt-string-transformer/src/subformula_parser.rs
@@ -75,7 +75,11 @@ impl IntraLogicFolder<ALL> for StringSubformulaCountBuilder {
                         if let [Term::Variable(v), f @ (Term::CoreOp(..) | Term::OtherOp(..) | Term::UF(..))] =
                             args.as_slice()
                         {
-                            if v.sym_str().starts_with("new_var") {
+                            // only the first such assertion is the definition of new_varX; later ones
+                            // are assertions of the query about the function new_varX stands for
+                            if v.sym_str().starts_with("new_var")
+                                && !self.string_fct_calls.contains_key(v.sym())
+                            {
                                 self.string_fct_calls.insert(v.sym().clone(), f.clone());
                                 useless_command = true;
                             }
@@ -90,12 +94,14 @@ impl IntraLogicFolder<ALL> for StringSubformulaCountBuilder {
                 _ => {}
             }
         }
-        let output = term_to_ret.fold_with(self)?;
-        let output = Command::Assert { term: output };
         if useless_command {
+            // leave new_varX in place, so that no assertion of the query equals this one
+            let output = Command::Assert { term: term_to_ret };
             self.remap_useless_commands.insert(output.clone());
+            return Ok(output);
         }
-        Ok(output)
+        let output = term_to_ret.fold_with(self)?;
+        Ok(Command::Assert { term: output })
     }
 
     /// replace mapped variables with their corresponding terms
-- 
2.43.0


From 056bb412bf616dd1ab51ff11db449b0081fa8f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:30 +0000
Subject: [PATCH 28/49] fix: keep the arguments of re.range when it has
 literals as siblings

---
 amzn-smt-string-transformer/src/callgraph.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-string-transformer/src/callgraph.rs b/amzn-smt-string-transformer/src/callgraph.rs
index e2aeffc..e982249 100644
--- a/amzn-smt-string-transformer/src/callgraph.rs
+++ b/amzn-smt-string-transformer/src/callgraph.rs
@@ -96,6 +96,8 @@ pub struct NodeSetData {
 pub struct CallnodeData {
     /// string function associated with this node (NO_OP if it's a constraint var node)
     pub string_fct: StringFct,
+    /// relevant arguments of this string function
+    pub string_fct_args: StringFctArgs,
     /// string literals directly used to construct this node
     pub string_lits_built_from: BTreeSet<String>,
     /// information on the nodes this node is used to build (think: transitive parents);
@@ -114,8 +116,10 @@ impl CallnodeData {
     /// constructor: takes a string function and list of string literals.
     /// the propagated information all starts as None on node initialization
     pub fn new(sfc: StringFct, lits: BTreeSet<String>) -> Self {
+        let elems: Vec<_> = lits.iter().cloned().collect();
         Self {
             string_fct: sfc,
+            string_fct_args: sfc.get_args(&elems[..]),
             string_lits_built_from: lits,
             used_to_build: None,
             built_from: None,
@@ -125,8 +129,7 @@ impl CallnodeData {
 
     /// get this node's string function and associated function arguments
     pub fn get_string_fct_arg_pair(&self) -> (StringFct, StringFctArgs) {
-        let elems: Vec<_> = self.string_lits_built_from.iter().cloned().collect();
-        (self.string_fct, self.string_fct.get_args(&elems[..]))
+        (self.string_fct, self.string_fct_args.clone())
     }
 }
 
-- 
2.43.0


From 86a1684ff90234e23bdf451971082e858f4f5da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:07 +0000
Subject: [PATCH 29/49] fix: keep length and digits of strings contained in
 strings that need them

---
 .../src/string_mappings.rs                    | 10 ++++++
 amzn-smt-string-transformer/src/transpiler.rs | 36 +++++++++++++++++++
 2 files changed, 46 insertions(+)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index e65fdb0..086c1d3 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -447,6 +447,16 @@ pub fn gen_string_keep_substrings(
         }
     }
 
+    // this string might itself have properties that the string it is contained in does not
+    let (len_bool, keep_ints) = match char_map.string_lit_props.get(s) {
+        Some(StringSetProperties::Some {
+            len,
+            keep_ints: ki,
+            ..
+        }) => (len_bool || *len, KeepInts::merge(&keep_ints, *ki)),
+        _ => (len_bool, keep_ints),
+    };
+
     // only use the previously mapped string if it also preserves substrings
     // this hits an edge case where we find a substring that's also stored in
     // a non-substring way that breaks this string mapping.
diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index 2a90fb9..a1cc830 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -614,6 +614,42 @@ impl CharMap {
                     .insert(c.to_string(), cur_props.clone());
             }
         }
+        self.add_substring_len_and_ints();
+    }
+
+    /// the mapping of a string is put together from the mappings of the strings it contains;
+    /// so, if the length or digits of the string are kept then those of the contained strings have to be kept too
+    fn add_substring_len_and_ints(&mut self) {
+        let string_lit_props = self.string_lit_props.clone();
+        for (sub_string_lit, sub_props) in &mut self.string_lit_props {
+            for (string_lit, props) in &string_lit_props {
+                if let StringSetProperties::Some {
+                    len,
+                    ranges: _,
+                    keep_ints,
+                    keep_substrings: true,
+                    keep_prefix_suffix: _,
+                } = props
+                {
+                    if matches!(
+                        sub_props,
+                        StringSetProperties::Some {
+                            keep_substrings: true,
+                            ..
+                        }
+                    ) && string_lit.contains(sub_string_lit)
+                    {
+                        *sub_props = sub_props.update_with_truths(StringSetProperties::Some {
+                            len: *len,
+                            ranges: HashSet::new(),
+                            keep_ints: *keep_ints,
+                            keep_substrings: true,
+                            keep_prefix_suffix: false,
+                        });
+                    }
+                }
+            }
+        }
     }
 
     /// get rid of strings that have their mid_strings remapped but aren't remapped themselves.
-- 
2.43.0


From 9991477d3c3107d208baf465ebd60311b51ca06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 30/49] fix: link literals that are used together without a
 constraint variable

---
 amzn-smt-string-transformer/src/callgraph.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/amzn-smt-string-transformer/src/callgraph.rs b/amzn-smt-string-transformer/src/callgraph.rs
index e982249..92eaf28 100644
--- a/amzn-smt-string-transformer/src/callgraph.rs
+++ b/amzn-smt-string-transformer/src/callgraph.rs
@@ -545,8 +545,8 @@ impl CallGraph {
     }
 
     /// function to construct all the cliques in the callgraph.
-    /// for each constraint var, we construct a clique of linked nodes in the graph
-    /// this is the set of, for each constraint var cvar,
+    /// for each constraint var and function application, we construct a clique of linked nodes in the graph
+    /// this is the set of, for each such var cvar,
     ///       everything that was used_to_build what cvar was used_to_build
     /// computed as: foreach var in cvar.used_to_build:
     ///                  collect var.built_from
@@ -559,7 +559,15 @@ impl CallGraph {
     ) -> Result<HashMap<NodeId, NodeSetData>, AffectErr> {
         let mut constraint_cliques: HashMap<NodeId, NodeSetData> =
             HashMap::with_capacity(self.constraint_vars.len());
-        for cvar in &self.constraint_vars {
+        // function applications also link what they are used with, even if there is no constraint var
+        // (unless they return a Bool: information doesn't propagate through these)
+        let linking_nodes = self.forest.nodes().iter().filter_map(|(id, node)| {
+            match node.data.string_fct.string_fct_return_type() {
+                IdentType::BoolType => None,
+                _ => Some(id),
+            }
+        });
+        for cvar in linking_nodes {
             if let Some(cvar_utbs) = &self.get_data_for_ind(cvar)?.used_to_build {
                 let mut clique_vars: BTreeSet<NodeId> =
                     cvar_utbs.vars.iter().cloned().collect::<BTreeSet<_>>();
-- 
2.43.0


From f916df880172268710e56e67ca29f07313b35ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:46 +0000
Subject: [PATCH 31/49] fix: detect strings that overlap the part of a string
 mapped so far

---
 amzn-smt-string-transformer/src/string_mappings.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index 086c1d3..3d9c0d2 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -632,6 +632,11 @@ pub fn gen_string_keep_substrings(
             }
         }
 
+        // then we're overlapping the part that is already mapped (e.g., the prefix), bail out
+        if mid_ind < cur_startpoint {
+            return Err(StringMapError::MidstringPartialOverlap);
+        }
+
         // then we're overlapping the suffix, bail out
         // this is a last check, it needs to happen after cases we can safely skip
         // example: abbb, suffix is bb but bb is in position right after a
-- 
2.43.0


From 5b71c3b7979f59164d17d9cf0767dc2a2a9fc446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 32/49] fix: rename the variables of listed sub-formulas

---
 .../src/subformula_parser.rs                  | 54 +++++++++++++------
 1 file changed, 38 insertions(+), 16 deletions(-)

diff --git a/amzn-smt-string-transformer/src/subformula_parser.rs b/amzn-smt-string-transformer/src/subformula_parser.rs
index a17eb2e..e5c8ea5 100644
--- a/amzn-smt-string-transformer/src/subformula_parser.rs
+++ b/amzn-smt-string-transformer/src/subformula_parser.rs
@@ -9,7 +9,7 @@ use crate::{transpiler::IdentType, Command, SortExt, Term};
 use aws_smt_ir::{
     fold::{Fold, IntraLogicFolder, SuperFold},
     logic::ALL,
-    CoreOp, ISort, ISymbol, IVar,
+    CoreOp, ILet, IQuantifier, ISort, ISymbol, IVar, Let, Quantifier,
 };
 use serde::{Deserialize, Serialize};
 use std::{
@@ -197,31 +197,53 @@ pub fn reconstruct_orig_query_shape(commands: Vec<Command>) -> Vec<Command> {
 /// Folder to "normalize" the variable names
 /// we're going to rename them in order of appearance, to v_n (nth appearance)
 /// the point: so subterms are equal over different vars
-/// this only works over function applications; otherwise just returns the same term
+/// variables bound by a let or a quantifier are renamed in the same way, together with their binder
 struct VariableNameNormalizer {
     cur_vars: HashMap<ISymbol, ISymbol>,
 }
 
+impl VariableNameNormalizer {
+    /// the name v_n of a variable; n is the number of variables that appeared before it
+    fn rename(&mut self, var: &ISymbol) -> ISymbol {
+        let next = self.cur_vars.len();
+        self.cur_vars
+            .entry(var.clone())
+            .or_insert_with(|| format!("v{}", next).into())
+            .clone()
+    }
+}
+
 impl IntraLogicFolder<ALL> for VariableNameNormalizer {
     type Error = Infallible;
 
-    fn fold_term(&mut self, term: Term) -> Result<Term, Self::Error> {
-        match term {
-            Term::CoreOp(..) | Term::OtherOp(..) | Term::UF(..) => term.super_fold_with(self),
-            _ => Ok(term),
-        }
+    fn fold_var(&mut self, var: IVar) -> Result<Term, Self::Error> {
+        Ok(Term::Variable(self.rename(var.sym()).into()))
     }
 
-    fn fold_var(&mut self, var: IVar) -> Result<Term, Self::Error> {
-        let cur_vars = &mut self.cur_vars;
-        let new = if let Some(new_name) = cur_vars.get(var.sym()) {
-            new_name.clone()
-        } else {
-            let new_var_name: ISymbol = format!("v{}", cur_vars.len()).into();
-            cur_vars.insert(var.sym().clone(), new_var_name.clone());
-            new_var_name
+    fn fold_let(&mut self, l: ILet<ALL>) -> Result<Term, Self::Error> {
+        let bindings = l
+            .bindings
+            .iter()
+            .map(|(sym, t)| Ok((self.rename(sym), t.fold_with(self)?)))
+            .collect::<Result<Vec<_>, Self::Error>>()?;
+        let term = (&l.term).fold_with(self)?;
+        Ok(Let { bindings, term }.into())
+    }
+
+    fn fold_quantifier(&mut self, quantifier: IQuantifier<ALL>) -> Result<Term, Self::Error> {
+        let mut rename_all = |vars: &[(ISymbol, ISort)]| -> Vec<(ISymbol, ISort)> {
+            vars.iter()
+                .map(|(sym, sort)| (self.rename(sym), sort.clone()))
+                .collect()
         };
-        Ok(Term::Variable(new.into()))
+        Ok(match quantifier.as_ref() {
+            Quantifier::Forall(vars, t) => {
+                Quantifier::Forall(rename_all(vars), t.fold_with(self)?).into()
+            }
+            Quantifier::Exists(vars, t) => {
+                Quantifier::Exists(rename_all(vars), t.fold_with(self)?).into()
+            }
+        })
     }
 }
 
-- 
2.43.0


From 559aa088abf9c0ed139c714293ffd0b38cfa0ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:25 +0000
Subject: [PATCH 33/49] fix: check the no-reconstruct mapping as a whole and
 map char-to-char if it conflicts

---
 amzn-smt-string-transformer/src/transpiler.rs | 59 +++++++++++++++----
 1 file changed, 48 insertions(+), 11 deletions(-)

diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index a1cc830..9378a57 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -652,6 +652,35 @@ impl CharMap {
         }
     }
 
+    /// check the no-reconstruct mapping as a whole: different string literals have to be mapped to
+    /// different strings, and the lengths and substring relationships that matter have to be kept.
+    /// (each string is mapped with respect to the ones mapped before it, so the mappings of a range's
+    /// endpoints and the ones made char-to-char can still conflict with it)
+    fn mapping_is_consistent(&self) -> bool {
+        let mapped = self
+            .string_map
+            .iter()
+            .filter_map(|(s, mapped)| match self.string_lit_props.get(s) {
+                Some(StringSetProperties::Some {
+                    len,
+                    keep_substrings,
+                    ..
+                }) => Some((s, mapped, *len, *keep_substrings)),
+                _ => None,
+            })
+            .collect::<Vec<_>>();
+        mapped.iter().all(|(s, s_mapped, len, keep_substrings)| {
+            (!len || s.chars().count() == s_mapped.chars().count())
+                && mapped.iter().all(|(t, t_mapped, _, t_keep_substrings)| {
+                    (s == t) == (s_mapped == t_mapped)
+                        && (!(*keep_substrings && *t_keep_substrings)
+                            || s.contains(*t) == s_mapped.contains(*t_mapped)
+                                && s.starts_with(*t) == s_mapped.starts_with(*t_mapped)
+                                && s.ends_with(*t) == s_mapped.ends_with(*t_mapped))
+                })
+        })
+    }
+
     /// get rid of strings that have their mid_strings remapped but aren't remapped themselves.
     /// no need to check prefix/suffix separately, bc these are included in the mid_strings.
     /// this is required because mappings of one string where the substrings are remapped but their
@@ -939,6 +968,7 @@ pub fn transform_ast(
 
     // iterate over all the string vars
     let mut var_index = 0;
+    let mut restart_char_to_char = false;
     while var_index < string_vars.len() {
         let sym = string_vars[var_index];
         if let Some(var_defn) = identify_builder.string_var_defn_map.get(sym) {
@@ -960,24 +990,31 @@ pub fn transform_ast(
                     }
                 } else {
                     // if error while running no_reconstruct, restart with char_to_char
-                    if !char_map.char_to_char {
-                        // restart
-                        char_map.char_to_char = true;
-                        char_map.string_map.clear();
-                        replace_terms.clear();
-                        failed_mod_constraint_vars.clear();
-                        mod_constraint_vars.clear();
-                        // now, restart the loop
-                        var_index = 0;
-                        continue;
+                    restart_char_to_char = !char_map.char_to_char;
+                    if !restart_char_to_char {
+                        failed_mod_constraint_vars.insert(sym);
                     }
-                    failed_mod_constraint_vars.insert(sym);
                 }
             } else {
                 panic!("Error in propagating data for var {:?} in callgraph", sym);
             }
         }
         var_index += 1;
+        // same if the mappings turn out to conflict with each other
+        if var_index == string_vars.len() && !char_map.char_to_char {
+            restart_char_to_char |= !char_map.mapping_is_consistent();
+        }
+        if restart_char_to_char {
+            // restart
+            restart_char_to_char = false;
+            char_map.char_to_char = true;
+            char_map.string_map.clear();
+            replace_terms.clear();
+            failed_mod_constraint_vars.clear();
+            mod_constraint_vars.clear();
+            // now, restart the loop
+            var_index = 0;
+        }
     }
 
     // if we were mapping strings, then at the end remap the range endpoints to their correct chars
-- 
2.43.0


From db362be94175fb4c1b04af80efc177dc7038e16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:48 +0000
Subject: [PATCH 34/49] fix: leave escape sequences in model values as they are
 when reconstructing

---
 .../src/reconstruct_tools.rs                  | 38 ++++++++++++++-----
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/amzn-smt-string-transformer/src/reconstruct_tools.rs b/amzn-smt-string-transformer/src/reconstruct_tools.rs
index 2346589..2478a0a 100644
--- a/amzn-smt-string-transformer/src/reconstruct_tools.rs
+++ b/amzn-smt-string-transformer/src/reconstruct_tools.rs
@@ -156,17 +156,35 @@ pub fn reconstruct_and_add_assertions(
 
 /// function to reverse the mapping of a string (this only makes sense if the mapping is char-to-char)
 /// if a char is not in the char_map this is not an error, the char will be unchanged
+/// escape sequences (`\u{...}` and `\udddd`), in which solvers write characters that are not printable,
+/// are not characters to be mapped, they will also be unchanged
 pub fn reconstruct_string(reconstruct_me: Vec<char>, re_map: HashMap<char, char>) -> String {
-    reconstruct_me
-        .iter()
-        .map(|c| {
-            if let Some(new_c) = re_map.get(c) {
-                *new_c
-            } else {
-                *c
-            }
-        })
-        .collect::<String>()
+    let mut reconstructed = String::new();
+    let mut rest = reconstruct_me.as_slice();
+    while let Some(c) = rest.first() {
+        let escape_len = escape_sequence_len(rest);
+        if escape_len > 0 {
+            reconstructed.extend(&rest[..escape_len]);
+            rest = &rest[escape_len..];
+        } else {
+            reconstructed.push(*re_map.get(c).unwrap_or(c));
+            rest = &rest[1..];
+        }
+    }
+    reconstructed
+}
+
+/// length of the SMTLIB escape sequence at the start of some characters (0 if there is none)
+fn escape_sequence_len(chars: &[char]) -> usize {
+    let num_hex_digits = |cs: &[char]| cs.iter().take_while(|c| c.is_ascii_hexdigit()).count();
+    match chars {
+        ['\\', 'u', '{', rest @ ..] => match num_hex_digits(rest) {
+            n @ 1..=5 if rest.get(n) == Some(&'}') => n + 4,
+            _ => 0,
+        },
+        ['\\', 'u', rest @ ..] if num_hex_digits(rest) >= 4 => 6,
+        _ => 0,
+    }
 }
 
 /// given a (define-fun) command that declares a var to be equal to a string constant,
-- 
2.43.0


From c6e8e0f64785f622dc8bb44927e6e6cd26b5f113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:03 +0000
Subject: [PATCH 35/49] fix: do not reuse a persistent mapping that is not in
 the ranges as they are mapped now

---
 amzn-smt-string-transformer/src/string_mappings.rs |  3 +++
 amzn-smt-string-transformer/src/transpiler.rs      | 13 +++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index 3d9c0d2..9edc62a 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -570,6 +570,7 @@ pub fn gen_string_keep_substrings(
             if (req_len_bool >= &len_bool)
                 && &KeepInts::merge(req_keep_ints, keep_ints) == req_keep_ints
                 && (!keep_ranges || !req_ranges.is_empty())
+                && (!keep_ranges || char_map.mapping_respects_ranges(s, mapped_to))
             {
                 char_map.string_map.insert(s.to_string(), mapped_to.clone());
                 return Ok(mapped_to.clone());
@@ -860,6 +861,8 @@ pub fn map_string_no_reconstruct(
                             // if keep_ranges is true, then req_ranges can't be empty
                             if (req_len_bool >= &len_bool)
                                 && &KeepInts::merge(req_keep_ints, keep_ints) == req_keep_ints
+                                && (ranges.is_empty()
+                                    || char_map.mapping_respects_ranges(s, mapped_to))
                             {
                                 char_map.string_map.insert(s.to_string(), mapped_to.clone());
                                 return Ok(mapped_to.clone());
diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index 9378a57..52bc881 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -459,6 +459,19 @@ impl CharMap {
             .find(|&r| c >= r.start_char && c <= r.end_char)
     }
 
+    /// check if a mapping of a string (made in another query, where the ranges could have been mapped
+    /// differently) is in the mapped ranges exactly where the string is in the ranges
+    pub fn mapping_respects_ranges(&self, s: &str, mapped_to: &str) -> bool {
+        self.ranges.iter().all(|r| {
+            let range = r.start_char..=r.end_char;
+            let mapped_range = self.char_map[&r.start_char]..=self.char_map[&r.end_char];
+            s.chars().all(|c| range.contains(&c))
+                == mapped_to.chars().all(|c| mapped_range.contains(&c))
+                && s.chars().any(|c| range.contains(&c))
+                    == mapped_to.chars().any(|c| mapped_range.contains(&c))
+        })
+    }
+
     /// given a character that has been mapped, get the mapped range that this
     /// character belongs to (None if not in a range)
     pub fn get_backwards_range_for_char(&self, c: char) -> Option<RangeParams> {
-- 
2.43.0


From a4e0fd6cdef295e686debeaae6aa7973b7aac2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:20 +0000
Subject: [PATCH 36/49] fix: respect the range of the character that is
 replaced when perturbing a repeated mapping

---
 amzn-smt-string-transformer/src/string_mappings.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index 9edc62a..7a751c6 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -301,6 +301,8 @@ fn fix_repeated_string(
                 reps += 1;
             }
         }
+        // the next perturbation has to respect the range of the character it replaces
+        retry_char = to_ret.chars().nth(retry_ind).unwrap();
     }
     Ok(to_ret)
 }
-- 
2.43.0


From 592b987859aad55b8e46faa420e4fd3fc3915606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:56 +0000
Subject: [PATCH 37/49] fix: report cycles in the call graph instead of
 recursing forever

---
 amzn-smt-string-transformer/src/callgraph.rs | 43 +++++++++++---------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/amzn-smt-string-transformer/src/callgraph.rs b/amzn-smt-string-transformer/src/callgraph.rs
index 92eaf28..ecbb95b 100644
--- a/amzn-smt-string-transformer/src/callgraph.rs
+++ b/amzn-smt-string-transformer/src/callgraph.rs
@@ -306,11 +306,13 @@ impl CallGraph {
 
     /// function to build up information about the children or parents.
     /// this propagates through the graph either up/down until it hits a StringFct where the info is lost (
-    /// i.e. a string function through which information is not propagated)
+    /// i.e. a string function through which information is not propagated).
+    /// path is the set of nodes that are being processed, for which this node's data is collected
     fn propagate_along_path(
         &mut self,
         var: NodeId,
         direction: GraphTraversalDir,
+        path: &mut BTreeSet<NodeId>,
     ) -> Result<(NodeSetData, AffectOk), AffectErr> {
         let nodes = self.forest.nodes().clone();
         let cur_node = match nodes.get(&var) {
@@ -325,23 +327,23 @@ impl CallGraph {
         // this means we will never re-propagate, if we're collecting from
         // a node we've already collected from, just return this data
         // this keeps the alg linear in the size of the graph
-        match direction {
-            GraphTraversalDir::BuiltFrom => {
-                // children
-                if let Some(contrib) = &cur_node.data.built_from {
-                    return Ok((contrib.clone(), AffectOk::AlreadyDone));
-                }
-                self.propagate_through_relnodes(var, cur_node.children(), &cur_node.data, direction)
-            }
-            GraphTraversalDir::UsedToBuild => {
-                // parents
-                if let Some(contrib) = &cur_node.data.used_to_build {
-                    return Ok((contrib.clone(), AffectOk::AlreadyDone));
-                }
-                self.propagate_through_relnodes(var, cur_node.parents(), &cur_node.data, direction)
-            }
-            _ => Err(AffectErr::InvalidOption),
+        let (contrib, rel_nodes) = match direction {
+            // children
+            GraphTraversalDir::BuiltFrom => (&cur_node.data.built_from, cur_node.children()),
+            // parents
+            GraphTraversalDir::UsedToBuild => (&cur_node.data.used_to_build, cur_node.parents()),
+            _ => return Err(AffectErr::InvalidOption),
+        };
+        if let Some(contrib) = contrib {
+            return Ok((contrib.clone(), AffectOk::AlreadyDone));
+        }
+        // if we're already collecting data for this node, we got here through a cycle
+        if !path.insert(var) {
+            return Err(AffectErr::CycleDetected);
         }
+        let res = self.propagate_through_relnodes(var, rel_nodes, &cur_node.data, direction, path);
+        path.remove(&var);
+        res
     }
 
     /// function to actually propagate through the nodes passed in from the propagate_along_path function
@@ -351,6 +353,7 @@ impl CallGraph {
         rel_nodes: &BTreeSet<NodeId>,
         cur_data: &CallnodeData,
         direction: GraphTraversalDir,
+        path: &mut BTreeSet<NodeId>,
     ) -> Result<(NodeSetData, AffectOk), AffectErr> {
         // now the work begins
 
@@ -387,7 +390,7 @@ impl CallGraph {
                         | IdentType::ConstraintVarType
                 ) {
                     let cur_ind = *node.ind();
-                    let node_contribs_res = self.propagate_along_path(cur_ind, direction);
+                    let node_contribs_res = self.propagate_along_path(cur_ind, direction, path);
                     if let Ok((node_contribs, _)) = node_contribs_res {
                         contrib_vars.extend(node_contribs.vars.iter().cloned());
                         // check again for cycles
@@ -614,8 +617,8 @@ impl CallGraph {
         }
         let nodes = self.forest.nodes().clone();
         for (key, _node) in nodes.iter() {
-            self.propagate_along_path(*key, GraphTraversalDir::UsedToBuild)?;
-            self.propagate_along_path(*key, GraphTraversalDir::BuiltFrom)?;
+            self.propagate_along_path(*key, GraphTraversalDir::UsedToBuild, &mut BTreeSet::new())?;
+            self.propagate_along_path(*key, GraphTraversalDir::BuiltFrom, &mut BTreeSet::new())?;
         }
         let cliques = self.propagate_constraint_var_cliques()?;
         for (key, _node) in nodes.iter() {
-- 
2.43.0


From be0cbd0fd014361daf5041ac970ef7d9d3dbec98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:22 +0000
Subject: [PATCH 38/49] fix: collect the literals of every node of a partition,
 whatever the order of processing

---
 amzn-smt-string-transformer/src/callgraph.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/amzn-smt-string-transformer/src/callgraph.rs b/amzn-smt-string-transformer/src/callgraph.rs
index ecbb95b..e0856f3 100644
--- a/amzn-smt-string-transformer/src/callgraph.rs
+++ b/amzn-smt-string-transformer/src/callgraph.rs
@@ -494,6 +494,13 @@ impl CallGraph {
             contrib_string_fcts.extend(clique.string_fcts.iter().cloned());
             contrib_string_lits.extend(clique.string_lits.iter().cloned());
         }
+        // the literals of functions that return a Bool don't propagate along the graph, so these are
+        // not part of the cliques
+        for contrib_var in &contrib_vars {
+            if let Some(node) = nodes.get(contrib_var) {
+                contrib_string_lits.extend(node.data.string_lits_built_from.iter().cloned());
+            }
+        }
 
         // finally, once the data has all been collected, update the current node with the contribs
         let new_node_data = cur_node.data.clone();
-- 
2.43.0


From 1cdf533c5ae0ccb79993bc015d5d7387d6fce711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:05 +0000
Subject: [PATCH 39/49] fix: do not write a row for a benchmark that cannot be
 read

---
 amzn-smt-prediction/src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/amzn-smt-prediction/src/main.rs b/amzn-smt-prediction/src/main.rs
index 3da613c..3402dc1 100644
--- a/amzn-smt-prediction/src/main.rs
+++ b/amzn-smt-prediction/src/main.rs
@@ -191,11 +191,11 @@ fn main() -> std::io::Result<()> {
         println!("{}", file_name);
 
         // Open benchmark file
-        let b_file = File::open(&file_name)?;
-        let file_reader = BufReader::new(b_file);
+        // (read it first: the parser takes a read error for the end of the file)
+        let benchmark = std::fs::read(&file_name)?;
 
         // Parse formulas
-        let formulas = Script::<Term>::parse(file_reader);
+        let formulas = Script::<Term>::parse(benchmark.as_slice());
 
         match formulas {
             Ok(script) => {
-- 
2.43.0


From 06e79cd8a57ea09455e80424e7df5b79d2ac0fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:56 +0000
Subject: [PATCH 40/49] fix: give every declaration its own name when a symbol
 is declared again after a pop

---
 amzn-smt-string-transformer/src/transpiler.rs | 23 +++++++++----------
 .../src/transpiler_visitors.rs                | 20 +++++++++++-----
 2 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index 52bc881..77e0992 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -904,20 +904,19 @@ pub fn transform_ast(
     // assertions (initializations)
     // and, renaming vars where needed
     let mut commands = commands
-        .map(|c| c.fold_with(&mut identify_builder))
-        .collect::<Result<Vec<Command>, _>>()
-        .unwrap();
-
-    // the literals of check-sat-assuming aren't terms, so they are not visited: rename them here
-    for c in &mut commands {
-        if let Command::CheckSatAssuming { literals } = c {
-            for (sym, _) in literals {
-                if let Some(new_sym) = identify_builder.alpha_renaming_map.get(sym) {
-                    *sym = new_sym.clone();
+        .map(|c| {
+            let mut c = c.fold_with(&mut identify_builder).unwrap();
+            // the literals of check-sat-assuming aren't terms, so they are not visited: rename them here
+            if let Command::CheckSatAssuming { literals } = &mut c {
+                for (sym, _) in literals {
+                    if let Some(new_sym) = identify_builder.alpha_renaming_map.get(sym) {
+                        *sym = new_sym.clone();
+                    }
                 }
             }
-        }
-    }
+            c
+        })
+        .collect::<Vec<Command>>();
 
     // remove the declare-consts from the list,
     // theyre all in the identify_builder list now and need to be lifted up
diff --git a/amzn-smt-string-transformer/src/transpiler_visitors.rs b/amzn-smt-string-transformer/src/transpiler_visitors.rs
index 8b4d7cb..fe93cc1 100644
--- a/amzn-smt-string-transformer/src/transpiler_visitors.rs
+++ b/amzn-smt-string-transformer/src/transpiler_visitors.rs
@@ -45,6 +45,9 @@ pub struct IdentifyStringsBuilder {
     pub callgraph: CallGraph,
     /// mapping of symbols to new symbols (for alpha renaming)
     pub alpha_renaming_map: HashMap<ISymbol, ISymbol>,
+    /// number of declarations visited so far; this can be more than the number of entries in the
+    /// alpha renaming map, since a symbol can be declared again once its scope has been popped
+    num_declared: usize,
     /// list of original constraint variables that appear in a context that implies
     /// that all characters in string literals used with are all characters need to be respected
     pub char_level_substring_vars: HashSet<ISymbol>,
@@ -67,6 +70,15 @@ impl IdentifyStringsBuilder {
         }
     }
 
+    /// rename a newly declared symbol
+    fn rename_declared(&mut self, symbol: ISymbol) -> ISymbol {
+        let new_var_name = format!("a{}", self.num_declared);
+        let new_sym = ISymbol::from(new_var_name);
+        self.num_declared += 1;
+        self.alpha_renaming_map.insert(symbol, new_sym.clone());
+        new_sym
+    }
+
     /// inspect the term parameters (if any), and attach the parent/child in the callgraph
     /// also initialize direct siblings in the args
     fn inspect_parameters(&mut self, var_sym: ISymbol, t: &Term, sfc: StringFct) {
@@ -208,9 +220,7 @@ impl IntraLogicFolder<ALL> for IdentifyStringsBuilder {
     /// these are all the original variables in the query
     /// rename them to aX (where X is an int referring to this being the nth var declared)
     fn fold_declare_const(&mut self, symbol: ISymbol, sort: ISort) -> Result<Command, Self::Error> {
-        let new_var_name = format!("a{}", self.alpha_renaming_map.len());
-        let new_sym = ISymbol::from(new_var_name);
-        self.alpha_renaming_map.insert(symbol, new_sym.clone());
+        let new_sym = self.rename_declared(symbol);
 
         // if it's a string var add it to the list of string vars and the callgraph
         if sort.get_type() == IdentType::StringType {
@@ -235,9 +245,7 @@ impl IntraLogicFolder<ALL> for IdentifyStringsBuilder {
         parameters: Vec<ISort>,
         sort: ISort,
     ) -> Result<Command, Self::Error> {
-        let new_var_name = format!("a{}", self.alpha_renaming_map.len());
-        let new_sym = ISymbol::from(new_var_name);
-        self.alpha_renaming_map.insert(symbol, new_sym.clone());
+        let new_sym = self.rename_declared(symbol);
 
         // if it's a string var add it to the list of string vars and the callgraph
         if sort.get_type() == IdentType::StringType {
-- 
2.43.0


From a729c815bec5cf59d7159e11a3c2655b8c4f3e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:24 +0000
Subject: [PATCH 41/49] fix: benchmark names lose only the .smt2 extension

strip('.smt2') removes any of these characters from both ends, so that
the intermediate files of different benchmarks had the same name.
---
 amzn-smt-prediction/scripts/find_faster_fmf.py         | 2 +-
 amzn-smt-prediction/scripts/get_solver_output.py       | 2 +-
 amzn-smt-prediction/scripts/get_word_count_features.py | 2 +-
 amzn-smt-prediction/scripts/get_word_counts.py         | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/amzn-smt-prediction/scripts/find_faster_fmf.py b/amzn-smt-prediction/scripts/find_faster_fmf.py
index 5237a92..3ea57a8 100644
--- a/amzn-smt-prediction/scripts/find_faster_fmf.py
+++ b/amzn-smt-prediction/scripts/find_faster_fmf.py
@@ -31,7 +31,7 @@ if __name__=='__main__':
         i += 1
         l = l[1:-1] # Strip off leading slash and trailing newline
         b_path = path_prefix + "/" + l
-        b_name = l.replace('/', '_').strip('.smt2')
+        b_name = l.replace('/', '_').rsplit('.smt2', 1)[0]
 
         print(str(i) + ": " + b_name)
 
diff --git a/amzn-smt-prediction/scripts/get_solver_output.py b/amzn-smt-prediction/scripts/get_solver_output.py
index 6847885..8e53b14 100644
--- a/amzn-smt-prediction/scripts/get_solver_output.py
+++ b/amzn-smt-prediction/scripts/get_solver_output.py
@@ -78,7 +78,7 @@ if __name__=='__main__':
         i += 1
         l = l[1:-1] # Strip off leading slash and trailing newline
         b_path = path_prefix + "/" + l
-        b_name = l.replace('/', '_').strip('.smt2')
+        b_name = l.replace('/', '_').rsplit('.smt2', 1)[0]
 
         print(str(i) + ": " + b_name)
 
diff --git a/amzn-smt-prediction/scripts/get_word_count_features.py b/amzn-smt-prediction/scripts/get_word_count_features.py
index 90162a8..224d72a 100644
--- a/amzn-smt-prediction/scripts/get_word_count_features.py
+++ b/amzn-smt-prediction/scripts/get_word_count_features.py
@@ -98,7 +98,7 @@ if __name__=='__main__':
         i += 1
 
         b_path = l[1:-1] # Strip off leading slash and trailing newline
-        b_name = b_path.replace('/', '_').strip('.smt2')
+        b_name = b_path.replace('/', '_').rsplit('.smt2', 1)[0]
 
         print(b_name)
  
diff --git a/amzn-smt-prediction/scripts/get_word_counts.py b/amzn-smt-prediction/scripts/get_word_counts.py
index 9c7b4c6..cd4ceca 100644
--- a/amzn-smt-prediction/scripts/get_word_counts.py
+++ b/amzn-smt-prediction/scripts/get_word_counts.py
@@ -42,7 +42,7 @@ if __name__=='__main__':
         i += 1
 
         b_path = l[1:-1] # Strip off leading slash and trailing newline
-        b_name = b_path.replace('/', '_').strip('.smt2')
+        b_name = b_path.replace('/', '_').rsplit('.smt2', 1)[0]
  
         fp_raw_out   = open(path_to_read  + '/' + solver + "_rawout_" + b_name)     # Path to raw output of solver
         fp_count_out = open(path_to_write + '/' + solver + "_count_" + b_name, 'w') # Path where we will write the word counts
-- 
2.43.0


From ae1f08c8f21487702858e22c5d12b5318239f868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:24 +0000
Subject: [PATCH 42/49] fix: one feature per configured bucket

---
 amzn-smt-prediction/scripts/get_word_count_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amzn-smt-prediction/scripts/get_word_count_features.py b/amzn-smt-prediction/scripts/get_word_count_features.py
index 224d72a..029cb4c 100644
--- a/amzn-smt-prediction/scripts/get_word_count_features.py
+++ b/amzn-smt-prediction/scripts/get_word_count_features.py
@@ -39,7 +39,7 @@ def get_bucket_labels(buckets=default_buckets):
 def get_features(fp_count_out, buckets=default_buckets):
 
     # Initialize feature vector with all zeros
-    features = [0 for i in range(len(default_buckets)+1)]
+    features = [0 for i in range(len(buckets)+1)]
 
     for l in fp_count_out:
         num_words = int(l.strip())
-- 
2.43.0


From b9ad117731d111dba50eb72706401d070fbf0532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:24 +0000
Subject: [PATCH 43/49] fix: a solver may time out without having printed
 anything

---
 amzn-smt-prediction/scripts/generate_predictions.py | 2 +-
 amzn-smt-prediction/scripts/get_solver_output.py    | 4 ++--
 amzn-smt-prediction/scripts/run_eager_v_lazy.py     | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/amzn-smt-prediction/scripts/generate_predictions.py b/amzn-smt-prediction/scripts/generate_predictions.py
index 54e82d9..c086db1 100644
--- a/amzn-smt-prediction/scripts/generate_predictions.py
+++ b/amzn-smt-prediction/scripts/generate_predictions.py
@@ -297,7 +297,7 @@ def do_eager_lazy(problem_file, endpoint_eager_v_lazy):
         raw_out = subprocess.run([path_to_ea_exec, "solve", problem_file], capture_output=True, text=True, timeout=ea_timeout)
         out = raw_out.stdout.strip()
     except subprocess.TimeoutExpired as e:
-        out = str(e.stdout, 'utf-8')
+        out = str(e.stdout or b'', 'utf-8')
     if v == 'Full': print("Done.\n")
 
     # Parse the output to generate the features
diff --git a/amzn-smt-prediction/scripts/get_solver_output.py b/amzn-smt-prediction/scripts/get_solver_output.py
index 8e53b14..c954bc5 100644
--- a/amzn-smt-prediction/scripts/get_solver_output.py
+++ b/amzn-smt-prediction/scripts/get_solver_output.py
@@ -25,7 +25,7 @@ def get_cvc4_output(b_path, fmf):
         out = raw_out.stdout.strip()
 
     except subprocess.TimeoutExpired as e:
-        out = str(e.stdout, 'utf-8')
+        out = str(e.stdout or b'', 'utf-8')
 
     return out
 
@@ -38,7 +38,7 @@ def get_z3_output(b_path):
         raw_out = subprocess.run(["../solvers/z3", b_path], capture_output=True, text=True, timeout=timeout)
         out = raw_out.stdout.strip()
     except subprocess.TimeoutExpired as e:
-        out = str(e.stdout, 'utf-8')
+        out = str(e.stdout or b'', 'utf-8')
 
     return out
 
diff --git a/amzn-smt-prediction/scripts/run_eager_v_lazy.py b/amzn-smt-prediction/scripts/run_eager_v_lazy.py
index 8402b89..9ee8efa 100644
--- a/amzn-smt-prediction/scripts/run_eager_v_lazy.py
+++ b/amzn-smt-prediction/scripts/run_eager_v_lazy.py
@@ -74,7 +74,7 @@ def run_eager_arithmetic(b_path, timeout):
     except subprocess.TimeoutExpired as e:
         print('EA Timeout')
         elapsed = None
-        out = str(e.stdout, 'utf-8')
+        out = str(e.stdout or b'', 'utf-8')
         print(out)
 
     feature_string = parse_eager_encoding_output(out, b_path)
-- 
2.43.0


From abb1803cadc805244f24f9b3071d411057cfa114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:24 +0000
Subject: [PATCH 44/49] fix: pass the problem to amzn-smt-eager-arithmetic with
 --instance

---
 amzn-smt-prediction/scripts/generate_predictions.py | 2 +-
 amzn-smt-prediction/scripts/run_eager_v_lazy.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-prediction/scripts/generate_predictions.py b/amzn-smt-prediction/scripts/generate_predictions.py
index c086db1..a9e8120 100644
--- a/amzn-smt-prediction/scripts/generate_predictions.py
+++ b/amzn-smt-prediction/scripts/generate_predictions.py
@@ -294,7 +294,7 @@ def do_eager_lazy(problem_file, endpoint_eager_v_lazy):
     # Cuts off after 5 seconds, after which encoding is generally done and it is on to solving, which isn't necessary here
     if v == 'Full': print("Generating features... (calling amzn-smt-eager-arithmetic)")
     try:
-        raw_out = subprocess.run([path_to_ea_exec, "solve", problem_file], capture_output=True, text=True, timeout=ea_timeout)
+        raw_out = subprocess.run([path_to_ea_exec, "solve", "--instance", problem_file], capture_output=True, text=True, timeout=ea_timeout)
         out = raw_out.stdout.strip()
     except subprocess.TimeoutExpired as e:
         out = str(e.stdout or b'', 'utf-8')
diff --git a/amzn-smt-prediction/scripts/run_eager_v_lazy.py b/amzn-smt-prediction/scripts/run_eager_v_lazy.py
index 9ee8efa..2f47ed2 100644
--- a/amzn-smt-prediction/scripts/run_eager_v_lazy.py
+++ b/amzn-smt-prediction/scripts/run_eager_v_lazy.py
@@ -67,7 +67,7 @@ def run_eager_arithmetic(b_path, timeout):
     start = time()
 
     try:
-        raw_out = subprocess.run(["../solvers/amzn-smt-eager-arithmetic", "solve", b_path], capture_output=True, text=True, timeout=timeout)
+        raw_out = subprocess.run(["../solvers/amzn-smt-eager-arithmetic", "solve", "--instance", b_path], capture_output=True, text=True, timeout=timeout)
         elapsed = time() - start
         out = raw_out.stdout.strip()
         print(raw_out) # Print output to verify things are setup correctly. Can comment out
-- 
2.43.0


From 5aaae1ff17ececcb1fcab9fc7ef75318b4dbc46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:24 +0000
Subject: [PATCH 45/49] fix: the last line of a benchmark list may lack a
 newline

---
 amzn-smt-prediction/scripts/find_faster_fmf.py         | 2 +-
 amzn-smt-prediction/scripts/get_solver_output.py       | 2 +-
 amzn-smt-prediction/scripts/get_word_count_features.py | 2 +-
 amzn-smt-prediction/scripts/get_word_counts.py         | 2 +-
 amzn-smt-prediction/scripts/run_eager_v_lazy.py        | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/amzn-smt-prediction/scripts/find_faster_fmf.py b/amzn-smt-prediction/scripts/find_faster_fmf.py
index 3ea57a8..a5c1ddf 100644
--- a/amzn-smt-prediction/scripts/find_faster_fmf.py
+++ b/amzn-smt-prediction/scripts/find_faster_fmf.py
@@ -29,7 +29,7 @@ if __name__=='__main__':
     i = 0
     for l in fp_in:
         i += 1
-        l = l[1:-1] # Strip off leading slash and trailing newline
+        l = l.rstrip('\n')[1:] # Strip off leading slash and trailing newline
         b_path = path_prefix + "/" + l
         b_name = l.replace('/', '_').rsplit('.smt2', 1)[0]
 
diff --git a/amzn-smt-prediction/scripts/get_solver_output.py b/amzn-smt-prediction/scripts/get_solver_output.py
index c954bc5..dc80b78 100644
--- a/amzn-smt-prediction/scripts/get_solver_output.py
+++ b/amzn-smt-prediction/scripts/get_solver_output.py
@@ -76,7 +76,7 @@ if __name__=='__main__':
     i = 0
     for l in fp_in:
         i += 1
-        l = l[1:-1] # Strip off leading slash and trailing newline
+        l = l.rstrip('\n')[1:] # Strip off leading slash and trailing newline
         b_path = path_prefix + "/" + l
         b_name = l.replace('/', '_').rsplit('.smt2', 1)[0]
 
diff --git a/amzn-smt-prediction/scripts/get_word_count_features.py b/amzn-smt-prediction/scripts/get_word_count_features.py
index 029cb4c..69701a2 100644
--- a/amzn-smt-prediction/scripts/get_word_count_features.py
+++ b/amzn-smt-prediction/scripts/get_word_count_features.py
@@ -97,7 +97,7 @@ if __name__=='__main__':
     for l in fp_in:
         i += 1
 
-        b_path = l[1:-1] # Strip off leading slash and trailing newline
+        b_path = l.rstrip('\n')[1:] # Strip off leading slash and trailing newline
         b_name = b_path.replace('/', '_').rsplit('.smt2', 1)[0]
 
         print(b_name)
diff --git a/amzn-smt-prediction/scripts/get_word_counts.py b/amzn-smt-prediction/scripts/get_word_counts.py
index cd4ceca..6cf8adb 100644
--- a/amzn-smt-prediction/scripts/get_word_counts.py
+++ b/amzn-smt-prediction/scripts/get_word_counts.py
@@ -41,7 +41,7 @@ if __name__=='__main__':
     for l in fp_in:
         i += 1
 
-        b_path = l[1:-1] # Strip off leading slash and trailing newline
+        b_path = l.rstrip('\n')[1:] # Strip off leading slash and trailing newline
         b_name = b_path.replace('/', '_').rsplit('.smt2', 1)[0]
  
         fp_raw_out   = open(path_to_read  + '/' + solver + "_rawout_" + b_name)     # Path to raw output of solver
diff --git a/amzn-smt-prediction/scripts/run_eager_v_lazy.py b/amzn-smt-prediction/scripts/run_eager_v_lazy.py
index 2f47ed2..79b4ebe 100644
--- a/amzn-smt-prediction/scripts/run_eager_v_lazy.py
+++ b/amzn-smt-prediction/scripts/run_eager_v_lazy.py
@@ -102,7 +102,7 @@ if __name__=='__main__':
     i = 0
     for l in fp_in:
         i += 1
-        l = l[1:-1] # Strip off leading slash and trailing newline
+        l = l.rstrip('\n')[1:] # Strip off leading slash and trailing newline
         b_path = path_prefix + "/" + l
 
         print(str(i) + ": " + b_path)
-- 
2.43.0


From a2b8575ddaaba111834fa67a18b5436a1b0549e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:35 +0000
Subject: [PATCH 46/49] fix: predict for problems given by an absolute path

amzn-smt-prediction prepends './' to the listed path.
---
 amzn-smt-prediction/scripts/generate_predictions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-prediction/scripts/generate_predictions.py b/amzn-smt-prediction/scripts/generate_predictions.py
index a9e8120..ac63beb 100644
--- a/amzn-smt-prediction/scripts/generate_predictions.py
+++ b/amzn-smt-prediction/scripts/generate_predictions.py
@@ -1,5 +1,5 @@
 import sys, configparser, json, subprocess
-from os.path import isfile
+from os.path import isfile, relpath
 from tempfile import NamedTemporaryFile
 from time import time
 import numpy as np
@@ -152,7 +152,8 @@ def do_runtime_prediction(problem_file, endpoint_runtime):
     tmp_output_ext = str(int(time()))
     tmp_output = "off_features_" + tmp_output_ext + ".csv"
         
-    tmp_bench_list.write(problem_file)
+    # It looks for the benchmarks relative to the current directory
+    tmp_bench_list.write(relpath(problem_file))
     tmp_bench_list.flush() # Must flush since no newline
 
 
-- 
2.43.0


From d66faec7ad5f7ddafec0575eeca6121d0795e6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:34 +0000
Subject: [PATCH 47/49] fix: list the faster and slower benchmarks with their
 leading slash

The scripts that read these lists drop the first character of every line.
---
 amzn-smt-prediction/scripts/find_faster_fmf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-prediction/scripts/find_faster_fmf.py b/amzn-smt-prediction/scripts/find_faster_fmf.py
index a5c1ddf..75fdd5e 100644
--- a/amzn-smt-prediction/scripts/find_faster_fmf.py
+++ b/amzn-smt-prediction/scripts/find_faster_fmf.py
@@ -59,9 +59,9 @@ if __name__=='__main__':
         
         if(elapsed_fmf < elapsed_no_fmf):
             print(start_yellow + "FMF FASTER!" + end_yellow)
-            fp_out1.write(l + '\n')
+            fp_out1.write('/' + l + '\n')
         else:
-            fp_out2.write(l + '\n')
+            fp_out2.write('/' + l + '\n')
 
         fp_out3.write(str(elapsed_fmf) + "," + str(elapsed_no_fmf) + "\n")
 
-- 
2.43.0


From e87685cce2756342a070ef6fcdc3eac876474a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:02 +0000
Subject: [PATCH 48/49] fix: modernize benchmarks with dots in their paths

The name was cut off at the first dot instead of the file extension.
---
 amzn-smt-prediction/scripts/modernize_benchmarks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amzn-smt-prediction/scripts/modernize_benchmarks.py b/amzn-smt-prediction/scripts/modernize_benchmarks.py
index 5185629..637ee61 100644
--- a/amzn-smt-prediction/scripts/modernize_benchmarks.py
+++ b/amzn-smt-prediction/scripts/modernize_benchmarks.py
@@ -26,7 +26,7 @@ if __name__=='__main__':
     fp_in = open(sys.argv[1])
 
     for l in fp_in:
-        name     = l.split('.')[0][:-4] # Get the filename, stripping off the file extension and "_upt"
+        name     = l.rsplit('.', 1)[0][:-4] # Get the filename, stripping off the file extension and "_upt"
         filename = sys.argv[2] + name
         raw_out  = subprocess.run([path_to_exec, filename], capture_output=True, text=True)
 
-- 
2.43.0


From 32abc60da132560bf76e2a3959ec57b86f81ecc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:50 +0000
Subject: [PATCH 49/49] fix: encode hexadecimal bit-vector literals

They are accepted by the parser and the sort checks but ended in todo!().
---
 amzn-smt-eager-arithmetic/src/encoding.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/encoding.rs b/amzn-smt-eager-arithmetic/src/encoding.rs
index 7c11de6..30433e4 100644
--- a/amzn-smt-eager-arithmetic/src/encoding.rs
+++ b/amzn-smt-eager-arithmetic/src/encoding.rs
@@ -264,10 +264,17 @@ impl Encoder {
         match c {
             Constant::Numeral(n) => Ok(Either::Left(Self::int_const_bits(n.clone()))),
             // Binary literals start with the most-significant bit
-            Constant::Binary(bits) => Ok(Either::Right(bits.iter().rev().copied().map_into())),
-            Constant::Hexadecimal(_) => {
-                todo!("hexadecimal bit iterator")
-            }
+            Constant::Binary(bits) => Ok(Either::Right(Either::Left(
+                bits.iter().rev().copied().map_into(),
+            ))),
+            // Hexadecimal literals start with the most-significant digit
+            Constant::Hexadecimal(digits) => Ok(Either::Right(Either::Right(
+                (digits.iter().rev())
+                    .flat_map(|&digit| (0..4).map(move |i| digit >> i & 1 == 1))
+                    .map_into::<Bit>()
+                    .collect::<Vec<_>>()
+                    .into_iter(),
+            ))),
             c => bail!("expected integer or bit-vector constant, got: {}", c),
         }
     }
-- 
2.43.0

