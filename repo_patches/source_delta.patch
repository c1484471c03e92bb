From 1588f878bb0fa5a87dff62c593c481411dd11380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:27 +0000
Subject: [PATCH 01/10] fix: from_str_radix of the 31-bit fields returns an
 error for numbers in [p, 2^32) instead of panicking

---
 number/src/plonky3_macros.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/number/src/plonky3_macros.rs b/number/src/plonky3_macros.rs
index 0b0169f..6d80f80 100644
--- a/number/src/plonky3_macros.rs
+++ b/number/src/plonky3_macros.rs
@@ -100,9 +100,10 @@ macro_rules! powdr_field_plonky3 {
             }
 
             fn from_str_radix(s: &str, radix: u32) -> Result<Self, String> {
-                u32::from_str_radix(s, radix)
-                    .map(Self::from_canonical_u32)
-                    .map_err(|e| e.to_string())
+                let n = u32::from_str_radix(s, radix).map_err(|e| e.to_string())?;
+                <$p3_type>::from_canonical_checked(n)
+                    .map(Self)
+                    .ok_or_else(|| format!("Number \"{s}\" too large for field."))
             }
 
             fn checked_from(value: ibig::UBig) -> Option<Self> {
-- 
2.43.0


From d1ed16bac0c93e5721738db587ce6340f7c6740c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:27 +0000
Subject: [PATCH 02/10] fix: deserializing a non-canonical number as a 31-bit
 field element is an error instead of a panic

---
 number/src/plonky3_macros.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/number/src/plonky3_macros.rs b/number/src/plonky3_macros.rs
index 6d80f80..1e2fd17 100644
--- a/number/src/plonky3_macros.rs
+++ b/number/src/plonky3_macros.rs
@@ -32,15 +32,23 @@ macro_rules! powdr_field_plonky3 {
             Ord,
             PartialOrd,
             Serialize,
-            Deserialize,
             derive_more::Display,
         )]
         // Serialize/deserialize through canonical u32 so the on-disk format
         // does not depend on the inner plonky3 type's internal representation
         // (which is Montgomery form for BabyBear/KoalaBear).
-        #[serde(into = "u32", from = "u32")]
+        #[serde(into = "u32")]
         pub struct $name($p3_type);
 
+        impl<'de> Deserialize<'de> for $name {
+            fn deserialize<D: serde::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+                let n = u32::deserialize(deserializer)?;
+                <$p3_type>::from_canonical_checked(n)
+                    .map(Self)
+                    .ok_or_else(|| serde::de::Error::custom("number too large for field"))
+            }
+        }
+
         impl From<$name> for u32 {
             fn from(n: $name) -> u32 {
                 n.to_canonical_u32()
-- 
2.43.0


From d430bf9d881ba68834877f77996fc4acbcd67e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:47 +0000
Subject: [PATCH 03/10] fix: deserializing a Goldilocks element rejects numbers
 >= p (they broke equality and canonicity)

---
 number/src/goldilocks.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/number/src/goldilocks.rs b/number/src/goldilocks.rs
index 47a5259..4a85efe 100644
--- a/number/src/goldilocks.rs
+++ b/number/src/goldilocks.rs
@@ -32,13 +32,23 @@ const EPSILON: u64 = (1 << 32) - 1;
     Ord,
     Hash,
     Serialize,
-    Deserialize,
     JsonSchema,
     derive_more::Display,
 )]
 #[repr(transparent)]
 pub struct GoldilocksField(u64);
 
+impl<'de> Deserialize<'de> for GoldilocksField {
+    fn deserialize<D: serde::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        let n = u64::deserialize(deserializer)?;
+        if n < Self::ORDER {
+            Ok(Self(n))
+        } else {
+            Err(serde::de::Error::custom("number too large for field"))
+        }
+    }
+}
+
 impl GoldilocksField {
     const ORDER: u64 = 0xFFFFFFFF00000001;
 
-- 
2.43.0


From 7ed12dc862b5968cacfe6b2980c6871c3f8d8fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:53 +0000
Subject: [PATCH 04/10] fix: the range-constraint rule of the rule-based
 optimizer only relies on directly enforced range constraints (it dropped
 booleanity)

---
 .../src/rule_based_optimizer/driver.rs        | 37 +++++++++++++++++-
 .../src/rule_based_optimizer/environment.rs   | 39 +++++++++++++++++++
 .../src/rule_based_optimizer/rules.rs         |  7 +++-
 3 files changed, 79 insertions(+), 4 deletions(-)

diff --git a/constraint-solver/src/rule_based_optimizer/driver.rs b/constraint-solver/src/rule_based_optimizer/driver.rs
index ef2975e..8980d12 100644
--- a/constraint-solver/src/rule_based_optimizer/driver.rs
+++ b/constraint-solver/src/rule_based_optimizer/driver.rs
@@ -12,11 +12,11 @@ use crate::{
     constraint_system::{
         BusInteraction, BusInteractionHandler, ComputationMethod, ConstraintSystem, DerivedVariable,
     },
-    grouped_expression::{GroupedExpression, RangeConstraintProvider},
+    grouped_expression::{GroupedExpression, NoRangeConstraints, RangeConstraintProvider},
     indexed_constraint_system::IndexedConstraintSystem,
     inliner::DegreeBound,
     rule_based_optimizer::{
-        environment::Environment,
+        environment::{try_to_direct_range_constraint, Environment},
         item_db::ItemDB,
         new_var_generator::NewVarGenerator,
         rules,
@@ -98,6 +98,10 @@ pub fn rule_based_optimization<T: FieldElement, V: Hash + Eq + Ord + Clone + Dis
             // the var_mapper would use here and then re-create the
             // variables in a deterministic sequence further down.
             NewVarGenerator::new(var_mapper.next_free_id()),
+            direct_range_constraints(&system, &bus_interaction_handler)
+                .map(|(v, rc)| (var_mapper.id(&v), rc))
+                .into_grouping_map()
+                .reduce(|rc1, _, rc2| rc1.conjunction(&rc2)),
         );
 
         // Create the rule system and populate it with the initial facts.
@@ -248,6 +252,35 @@ pub fn rule_based_optimization<T: FieldElement, V: Hash + Eq + Ord + Clone + Dis
     (system, assignments)
 }
 
+/// Returns all range constraints on variables that are imposed by a single bus interaction or by
+/// a single algebraic constraint of the form `(x - a) * (x - b) = 0`, without making use of
+/// any other knowledge about the system.
+fn direct_range_constraints<'a, T: FieldElement, V: Hash + Eq + Ord + Clone + Display>(
+    system: &'a IndexedConstraintSystem<T, V>,
+    bus_interaction_handler: &'a impl BusInteractionHandler<T>,
+) -> impl Iterator<Item = (V, RangeConstraint<T>)> + 'a {
+    let from_algebraic = system
+        .algebraic_constraints()
+        .iter()
+        .filter_map(|c| try_to_direct_range_constraint(&c.expression));
+    let from_bus_interactions = system.bus_interactions().iter().flat_map(|bus_inter| {
+        let rcs = bus_interaction_handler
+            .handle_bus_interaction(bus_inter.to_range_constraints(&NoRangeConstraints));
+        bus_inter
+            .fields()
+            .zip_eq(rcs.fields())
+            .filter_map(|(expr, rc)| {
+                let (var, coeff) = expr.linear_components().exactly_one().ok()?;
+                let rc = rc
+                    .combine_sum(&RangeConstraint::from_value(-*expr.constant_offset()))
+                    .multiple(T::one() / *coeff);
+                expr.is_affine().then(|| (var.clone(), rc))
+            })
+            .collect_vec()
+    });
+    from_algebraic.chain(from_bus_interactions)
+}
+
 /// Mainly transforms a `GroupedExpression<T, Var>` back into a `GroupedExpression<T, V>`, but also re-creates
 /// any variables that were newly generated inside the expression and adds potential computation methods
 /// to the constraint system.
diff --git a/constraint-solver/src/rule_based_optimizer/environment.rs b/constraint-solver/src/rule_based_optimizer/environment.rs
index 660cb78..240291f 100644
--- a/constraint-solver/src/rule_based_optimizer/environment.rs
+++ b/constraint-solver/src/rule_based_optimizer/environment.rs
@@ -10,6 +10,7 @@ use powdr_number::FieldElement;
 use crate::{
     constraint_system::ComputationMethod,
     grouped_expression::GroupedExpression,
+    range_constraint::RangeConstraint,
     rule_based_optimizer::{
         item_db::ItemDB,
         new_var_generator::NewVarGenerator,
@@ -31,6 +32,10 @@ pub struct Environment<T: FieldElement> {
     /// (also only once in the constraint they occur in).
     single_occurrence_variables: HashSet<Var>,
     new_var_generator: RefCell<NewVarGenerator<T>>,
+
+    /// Range constraints directly imposed by a single bus interaction or by a single
+    /// algebraic constraint of the form `(x - a) * (x - b) = 0`.
+    direct_range_constraints: HashMap<Var, RangeConstraint<T>>,
 }
 
 impl<T: FieldElement> PartialEq for Environment<T> {
@@ -69,12 +74,14 @@ impl<T: FieldElement> Environment<T> {
         var_to_string: HashMap<Var, String>,
         single_occurrence_variables: HashSet<Var>,
         new_var_generator: NewVarGenerator<T>,
+        direct_range_constraints: HashMap<Var, RangeConstraint<T>>,
     ) -> Self {
         Self {
             expressions: RefCell::new(expressions),
             var_to_string,
             single_occurrence_variables,
             new_var_generator: RefCell::new(new_var_generator),
+            direct_range_constraints,
         }
     }
 
@@ -119,6 +126,19 @@ impl<T: FieldElement> Environment<T> {
         self.single_occurrence_variables.iter()
     }
 
+    /// Returns a range constraint on the expression that is implied by the
+    /// range constraints directly imposed on its variables
+    /// (see `try_to_direct_range_constraint`).
+    pub fn direct_range_constraint(&self, expr: Expr) -> RangeConstraint<T> {
+        self.expressions.borrow()[expr].range_constraint(&self.direct_range_constraints)
+    }
+
+    /// Returns true if the constraint `expr = 0` directly imposes a range constraint
+    /// on a variable.
+    pub fn is_direct_range_constraint(&self, expr: Expr) -> bool {
+        try_to_direct_range_constraint(&self.expressions.borrow()[expr]).is_some()
+    }
+
     /// Split Expr into head and tail, i.e., expr = head + tail
     pub fn try_split_into_head_tail(&self, expr: Expr) -> Option<(Expr, Expr)> {
         let db = self.expressions.borrow();
@@ -274,3 +294,22 @@ impl<T: FieldElement> Environment<T> {
             .unwrap_or_else(|| var.to_string())
     }
 }
+
+/// If `expr` has the form `c * (x - a) * (x - b)`, returns `x` and the range constraint
+/// the constraint `expr = 0` imposes on it.
+pub fn try_to_direct_range_constraint<T: FieldElement, V: Ord + Clone + Eq>(
+    expr: &GroupedExpression<T, V>,
+) -> Option<(V, RangeConstraint<T>)> {
+    let (left, right) = expr.try_as_single_product()?;
+    let mut roots = [left, right].into_iter().map(|e| {
+        let (var, coeff) = e.linear_components().exactly_one().ok()?;
+        e.is_affine()
+            .then(|| (var.clone(), -*e.constant_offset() / *coeff))
+    });
+    let (var1, a) = roots.next().unwrap()?;
+    let (var2, b) = roots.next().unwrap()?;
+    (var1 == var2).then(|| {
+        let rc = RangeConstraint::from_value(a).disjunction(&RangeConstraint::from_value(b));
+        (var1, rc)
+    })
+}
diff --git a/constraint-solver/src/rule_based_optimizer/rules.rs b/constraint-solver/src/rule_based_optimizer/rules.rs
index b4a0752..d5f4cb7 100644
--- a/constraint-solver/src/rule_based_optimizer/rules.rs
+++ b/constraint-solver/src/rule_based_optimizer/rules.rs
@@ -541,13 +541,16 @@ crepe! {
     // If we have `x * a = 0` and `x * b = 0` and `a` and `b` are
     // both non-negative and their sum is constrained, then we can replace
     // both constraints by `x * (a + b) = 0`.
+    // Since we remove the two constraints, they cannot be the reason why `a` and `b` are
+    // non-negative, so we only use range constraints directly imposed by other constraints.
     ReplaceAlgebraicConstraintsBy(extend_by_none([e1, e2]), replacement) <-
       Env(env),
       ProductConstraint(e1, x, a),
       ProductConstraint(e2, x, b),
       (e1 < e2),
-      RangeConstraintOnExpression(a, rc_a),
-      RangeConstraintOnExpression(b, rc_b),
+      (!env.is_direct_range_constraint(e1) && !env.is_direct_range_constraint(e2)),
+      let rc_a = env.direct_range_constraint(a),
+      let rc_b = env.direct_range_constraint(b),
       (rc_a.range().0 == T::zero()
         && rc_b.range().0 == T::zero() && !rc_a.combine_sum(&rc_b).is_unconstrained()),
       let replacement = extend_by_none([env.insert_owned(env.extract(x) * (env.extract(a) + env.extract(b)))]);
-- 
2.43.0


From 949816eca873cdfd4e12cf8ba6dd2b381540b1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:53 +0000
Subject: [PATCH 05/10] fix: lookups are only dropped as free if they can be
 solved for the free variable

---
 autoprecompiles/src/constraint_optimizer.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/autoprecompiles/src/constraint_optimizer.rs b/autoprecompiles/src/constraint_optimizer.rs
index 47347ad..7e85aa2 100644
--- a/autoprecompiles/src/constraint_optimizer.rs
+++ b/autoprecompiles/src/constraint_optimizer.rs
@@ -288,7 +288,7 @@ fn try_replace_by_number<T: FieldElement, V: Clone + Ord + Hash + Display>(
 /// Motivation: Suppose there is a constraint `2 * foo = bar` and `foo` only appears in this constraint.
 /// Then, if we assume that all constraints are satisfiable, the prover would be able to satisfy it for
 /// any value of `bar` by solving for `foo`. Therefore, the constraint can be removed.
-/// The same would be true for a *stateless* bus interaction, e.g. `[foo * bar] in [BYTES]`.
+/// The same would be true for a *stateless* bus interaction, e.g. `[2 * foo + bar] in [BYTES]`.
 ///
 /// This function removes *some* constraints like this (see TODOs below).
 fn remove_free_variables<T: FieldElement, V: Clone + Ord + Eq + Hash + Display>(
@@ -334,14 +334,20 @@ fn remove_free_variables<T: FieldElement, V: Clone + Ord + Eq + Hash + Display>(
                     .filter(|field| field.try_to_number().is_none())
                     .count()
                     == 1;
-                // If the expression is linear in the free variable, the prover would be able to solve for it
-                // to satisfy the constraint. Otherwise, this is not necessarily the case.
-                // Note that if the above check is true, there will only be one field of degree > 0.
-                let all_degrees_at_most_one = bus_interaction
+                // If we can solve the unknown field (or the multiplicity) for the free variable, the prover
+                // can make it take any value to satisfy the constraint, regardless of the other variables.
+                // Being linear in the free variable is not enough: In `[foo * bar + baz] in [BYTES]`,
+                // the prover cannot use `foo` to satisfy the constraint if `bar` is zero.
+                let is_solvable = bus_interaction
                     .payload
                     .iter()
-                    .all(|field| field.degree_of_variable(variable) <= 1);
-                is_stateless && has_one_unknown_field && all_degrees_at_most_one
+                    .chain(once(&bus_interaction.multiplicity))
+                    .any(|field| {
+                        AlgebraicConstraint::assert_zero(field)
+                            .try_solve_for(variable)
+                            .is_some()
+                    });
+                is_stateless && has_one_unknown_field && is_solvable
             }
         })
         .map(|(variable, _constraint)| variable.clone())
-- 
2.43.0


From ceab63eb06c3514f544e8c46b1c17b332cd6017a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:53 +0000
Subject: [PATCH 06/10] fix: variable range checker: no range constraint beyond
 25 bits (shift overflow, unsatisfiable interactions)

---
 openvm-bus-interaction-handler/src/lib.rs        |  6 ++++--
 .../src/variable_range_checker.rs                | 16 ++++++++--------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/openvm-bus-interaction-handler/src/lib.rs b/openvm-bus-interaction-handler/src/lib.rs
index 7d8e162..ea8aadb 100644
--- a/openvm-bus-interaction-handler/src/lib.rs
+++ b/openvm-bus-interaction-handler/src/lib.rs
@@ -24,7 +24,7 @@ use crate::{
     bitwise_lookup::bitwise_lookup_pure_range_constraints,
     bus_map::{default_openvm_bus_map, BusMap, OpenVmBusType},
     tuple_range_checker::TupleRangeCheckerHandler,
-    variable_range_checker::variable_range_checker_pure_range_constraints,
+    variable_range_checker::{variable_range_checker_pure_range_constraints, MAX_BITS},
 };
 
 mod bitwise_lookup;
@@ -246,7 +246,9 @@ impl<T: FieldElement> RangeConstraintHandler<T> for OpenVmBusInteractionHandler<
                 // Use the variable range checker to range-check expressions:
                 // See: https://github.com/openvm-org/openvm/blob/v1.0.0/crates/circuits/primitives/src/var_range/bus.rs
                 // Expects (x, bits), where `x` is in the range [0, 2^bits - 1]
-                let Some(num_bits) = range_constraint_to_num_bits(&rc) else {
+                let Some(num_bits) =
+                    range_constraint_to_num_bits(&rc).filter(|bits| *bits as u64 <= MAX_BITS)
+                else {
                     return Err(MakeRangeConstraintsError(format!(
                         "Failed to get number of bits from range constraint: {rc:?}"
                     )));
diff --git a/openvm-bus-interaction-handler/src/variable_range_checker.rs b/openvm-bus-interaction-handler/src/variable_range_checker.rs
index 7b687d8..815b8b2 100644
--- a/openvm-bus-interaction-handler/src/variable_range_checker.rs
+++ b/openvm-bus-interaction-handler/src/variable_range_checker.rs
@@ -6,7 +6,7 @@ use powdr_number::{FieldElement, LargeInt};
 
 /// The maximum number of bits that can be checked by the variable range checker.
 // TODO: This should be configurable
-const MAX_BITS: u64 = 25;
+pub const MAX_BITS: u64 = 25;
 
 /// Implements [BusInteractionHandler::handle_bus_interaction] for the variable range checker bus,
 /// tightening the currently known range constraints.
@@ -41,13 +41,13 @@ pub fn variable_range_checker_pure_range_constraints<T: FieldElement, V: Ord + C
     let [x, bits] = payload else {
         panic!("Expected arguments (x, bits)");
     };
-    bits.try_to_number().map(|bits| {
-        [(
-            x.clone(),
-            RangeConstraint::from_mask((1u64 << bits.to_degree()) - 1),
-        )]
-        .into()
-    })
+    // The interaction cannot be satisfied if `bits` is too large, so in this case
+    // it is not equivalent to a range constraint on `x`.
+    let bits = bits
+        .try_to_number()
+        .map(|bits| bits.to_degree())
+        .filter(|bits| *bits <= MAX_BITS)?;
+    Some([(x.clone(), RangeConstraint::from_mask((1u64 << bits) - 1))].into())
 }
 
 #[cfg(test)]
-- 
2.43.0


From eaff1bb123eab9d2ec65c67b9bb13af06f9e7325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:28 +0000
Subject: [PATCH 07/10] fix: filtering block empirical constraints a second
 time asks the predicate about the right columns

---
 autoprecompiles/src/empirical_constraints.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/autoprecompiles/src/empirical_constraints.rs b/autoprecompiles/src/empirical_constraints.rs
index 7fc8d54..8526a03 100644
--- a/autoprecompiles/src/empirical_constraints.rs
+++ b/autoprecompiles/src/empirical_constraints.rs
@@ -183,13 +183,11 @@ impl BlockEmpiricalConstraints {
                     .collect_vec();
                 let ranges = ranges
                     .into_iter()
-                    .enumerate()
-                    .filter_map(|(col_idx, range)| {
+                    .filter(|(col_idx, _)| {
                         // check that the predicate holds in all matching instructions
                         pc_instruction_indices
                             .iter()
-                            .all(|idx| predicate(&BlockCell::new(*idx, col_idx)))
-                            .then_some(range)
+                            .all(|idx| predicate(&BlockCell::new(*idx, *col_idx)))
                     })
                     .collect();
                 (pc, ranges)
-- 
2.43.0


From 141b0337404ef337d75b03ffbdcc6d1df8fcbd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:33 +0000
Subject: [PATCH 08/10] fix: a lifted la sets the register of the addi, not the
 one of the lui/auipc

composed_immediate joins 'auipc a, hi; addi b, a, lo' into 'la' when the value is a code
address, and its comment says that the upper register is the one that is not set, but the
result named the upper register as destination: b was never written.
---
 riscv-elf/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riscv-elf/src/lib.rs b/riscv-elf/src/lib.rs
index dc177e3..961bf87 100644
--- a/riscv-elf/src/lib.rs
+++ b/riscv-elf/src/lib.rs
@@ -761,7 +761,7 @@ impl InstructionLifter<'_> {
         Some((
             op,
             HighLevelArgs {
-                rd: Some(rd_ui as u32),
+                rd: Some(rd_addi as u32),
                 imm,
                 ..Default::default()
             },
-- 
2.43.0


From 0754c424d28b168bfcdb7007d2ecf9a159911139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:03 +0000
Subject: [PATCH 09/10] fix: RV64 jump destinations: resolve auipc+jalr pairs

The scan compared the (absent) source register of the auipc with the destination of the jalr,
so no pair was ever resolved and the targets of far calls were not reported as jump
destinations. It also added the offset to the address of the jalr instead of the auipc's.
---
 riscv-elf/src/rv64.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/riscv-elf/src/rv64.rs b/riscv-elf/src/rv64.rs
index 1800866..fa93578 100644
--- a/riscv-elf/src/rv64.rs
+++ b/riscv-elf/src/rv64.rs
@@ -136,13 +136,13 @@ fn scan_for_jump_targets(
                 .decode(Isa::Rv64)
                 .expect("Failed to decode instruction")
         })
-        // Remember the `rs1` and `imm` of the previous instruction if it was AUIPC, used to propagate it to the next JALR
+        // Remember the `rd` and `imm` of the previous instruction if it was AUIPC, used to propagate it to the next JALR
         .scan(None, |previous_if_auipc, insn| {
-            let previous_auipc_rs1 = std::mem::replace(
+            let previous_auipc_rd = std::mem::replace(
                 previous_if_auipc,
-                matches!(insn.opc, Op::AUIPC).then_some((insn.rs1, insn.imm)),
+                matches!(insn.opc, Op::AUIPC).then_some((insn.rd, insn.imm)),
             );
-            Some((insn, previous_auipc_rs1))
+            Some((insn, previous_auipc_rd))
         })
         .enumerate()
         .for_each(|(instruction_index, (insn, previous_if_auipc))| {
@@ -205,13 +205,16 @@ fn scan_for_jump_targets(
                     }
                 }
                 Op::JALR => {
-                    if let Some((rs1, imm)) = previous_if_auipc {
+                    if let Some((auipc_rd, imm)) = previous_if_auipc {
                         // JALR with a preceding AUIPC
-                        if insn.rd == rs1 {
+                        if insn.rs1 == auipc_rd {
                             // This is an AUIPC+JALR pair, we can resolve it statically
                             if let (Some(auipc_imm), Some(jalr_imm)) = (imm, insn.imm) {
+                                // The value is relative to the address of the AUIPC, which
+                                // is the previous instruction
+                                let auipc_addr = addr as i64 - 4;
                                 let target =
-                                    (addr as i64 + auipc_imm as i64 + jalr_imm as i64) as u64;
+                                    (auipc_addr + auipc_imm as i64 + jalr_imm as i64) as u64;
                                 jumpdests.insert(target);
 
                                 // Track non-symbol jumpdests
-- 
2.43.0


From 37b1f2f0ade750beea24cd399cbae98608e79e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:15 +0000
Subject: [PATCH 10/10] fix: rule based optimizer: do not derive a range
 constraint from itself

---
 constraint-solver/src/rule_based_optimizer/rules.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/constraint-solver/src/rule_based_optimizer/rules.rs b/constraint-solver/src/rule_based_optimizer/rules.rs
index d5f4cb7..ca1e1c4 100644
--- a/constraint-solver/src/rule_based_optimizer/rules.rs
+++ b/constraint-solver/src/rule_based_optimizer/rules.rs
@@ -256,6 +256,10 @@ crepe! {
       RangeConstraintOnVar(v, v_rc);
     RangeConstraintOnExpression(e, head_rc.combine_sum(&tail_rc)) <-
       ExpressionSumHeadTail(e, head, tail),
+      // An expression with a single summand is its own head (and the tail is zero).
+      // Its range constraint must not be derived from itself, since that would not
+      // terminate if there is a range constraint other than `[0, 0]` on zero.
+      (head != e),
       RangeConstraintOnExpression(head, head_rc),
       RangeConstraintOnExpression(tail, tail_rc);
     RangeConstraintOnExpression(e, RangeConstraint::from_value(value)) <-
-- 
2.43.0

