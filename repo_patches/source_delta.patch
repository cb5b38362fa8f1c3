From c3da06372875da9f071e027ec0d590a2bb93b383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:23 +0000
Subject: [PATCH 01/37] fix: extract one bit wide members of single variant
 enums from the right bit

The member was read as the least significant bit of the enum value whenever it
was one bit wide and the enum had no tag, even if the enum had other members.
---
 spade-mir/src/codegen/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index b057787..904dd5f 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -705,8 +705,9 @@ fn forward_expression_code(
             let member_end = &member_start + variant_list[*variant][*member_index].size();
 
             let upper_idx = &full_size - &member_start - 1u32.to_biguint();
-            let lower_idx = full_size - &member_end;
-            if upper_idx == lower_idx && tag_size == 0 {
+            let lower_idx = &full_size - &member_end;
+            // If the whole enum is a single bit it is a scalar which can't be indexed
+            if full_size == BigUint::one() {
                 op_names[0].clone()
             } else {
                 format!("{}[{}:{}]", op_names[0], upper_idx, lower_idx)
-- 
2.43.0


From 41ae4c8736c7762fbf9006532e3ced19c4126469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:51 +0000
Subject: [PATCH 02/37] fix: zero and sign extend zero size operands without
 naming a variable that does not exist

---
 spade-mir/src/codegen/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index 904dd5f..d9cb4ee 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -369,6 +369,8 @@ fn forward_expression_code(
                 let extra_bits = self_size - &operand_size;
                 match extra_bits.to_u32() {
                     Some(0) => unreachable!(),
+                    // A zero size operand has no sign bit to extend and no variable to refer to
+                    _ if operand_size == BigUint::ZERO => format!("{extra_bits}'b0"),
                     Some(1) => format!(
                         "{{{}[{}], {}}}",
                         op_names[0],
@@ -394,8 +396,12 @@ fn forward_expression_code(
             let operand_size = types[&ops[0]].size();
             let self_size = self_type.size();
             if self_size > operand_size {
-                let extra_bits = self_size - operand_size;
-                format!("{{{}'b0, {}}}", extra_bits, op_names[0])
+                let extra_bits = self_size - &operand_size;
+                if operand_size == BigUint::ZERO {
+                    format!("{extra_bits}'b0")
+                } else {
+                    format!("{{{}'b0, {}}}", extra_bits, op_names[0])
+                }
             } else {
                 op_names[0].clone()
             }
-- 
2.43.0


From fe67d89dada87abfcf1e2f7fd0d7d4ccd2cb7880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:58 +0000
Subject: [PATCH 03/37] fix: report the integers above the last literal of a
 match as not covered

---
 spade-hir-lowering/src/pattern.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/spade-hir-lowering/src/pattern.rs b/spade-hir-lowering/src/pattern.rs
index 4927d02..46ab7b7 100644
--- a/spade-hir-lowering/src/pattern.rs
+++ b/spade-hir-lowering/src/pattern.rs
@@ -32,7 +32,8 @@ fn split_int_range(
     let mut edges = other_ctors
         .flat_map(|other| {
             let (min, max) = other.as_range();
-            [min, max]
+            // Ranges are inclusive, a new range starts after the end of this one
+            [min, max + 1u32.to_bigint()]
         })
         .collect::<Vec<_>>();
     edges.sort();
@@ -41,7 +42,7 @@ fn split_int_range(
     let mut result = vec![];
     let mut current_low = min.clone();
 
-    for edge in edges.into_iter().filter(|e| e > &min && e < &max) {
+    for edge in edges.into_iter().filter(|e| e > &min && e <= &max) {
         result.push(Constructor::IntRange {
             min: current_low,
             max: &edge - 1u32.to_bigint(),
@@ -191,6 +192,7 @@ pub enum Constructor {
     Bool(bool),
     /// Enum variant constructor
     Variant(usize),
+    /// Integers between `min` and `max`, both inclusive
     IntRange {
         min: BigInt,
         max: BigInt,
@@ -327,7 +329,7 @@ impl DeconstructedPattern {
             spade_hir::PatternKind::Integer(val) => (
                 Constructor::IntRange {
                     min: val.clone(),
-                    max: (val + 1),
+                    max: val.clone(),
                 },
                 vec![],
             ),
-- 
2.43.0


From e142d06e5c7196b907e1cc17878e48fdeb8e2325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:31 +0000
Subject: [PATCH 04/37] fix: reject enum variant patterns which do not match
 every value in let and reg

---
 spade-hir-lowering/src/lib.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/spade-hir-lowering/src/lib.rs b/spade-hir-lowering/src/lib.rs
index 647896d..0b988a9 100644
--- a/spade-hir-lowering/src/lib.rs
+++ b/spade-hir-lowering/src/lib.rs
@@ -877,19 +877,27 @@ impl PatternLocal for Loc<Pattern> {
         }
     }
 
-    fn is_trivially_irrefutable(&self) -> bool {
+    fn is_trivially_irrefutable(&self, ctx: &Context) -> bool {
         match &self.kind {
             spade_hir::PatternKind::Integer(_) => false,
             spade_hir::PatternKind::Bool(_) => false,
             spade_hir::PatternKind::Bound { inner, .. } => inner
                 .as_ref()
-                .map(|pat| pat.is_trivially_irrefutable())
+                .map(|pat| pat.is_trivially_irrefutable(ctx))
                 .unwrap_or(true),
             spade_hir::PatternKind::Tuple(inner) | spade_hir::PatternKind::Array(inner) => {
-                inner.iter().all(Self::is_trivially_irrefutable)
+                inner.iter().all(|pat| pat.is_trivially_irrefutable(ctx))
             }
-            spade_hir::PatternKind::Type(_, inner) => {
-                inner.iter().all(|arg| arg.value.is_trivially_irrefutable())
+            spade_hir::PatternKind::Type(path, inner) => {
+                // An enum variant may be one of several
+                let is_struct = matches!(
+                    ctx.symtab.symtab().patternable_type_by_id(path).kind,
+                    spade_hir::symbol_table::PatternableKind::Struct
+                );
+                is_struct
+                    && inner
+                        .iter()
+                        .all(|arg| arg.value.is_trivially_irrefutable(ctx))
             }
         }
     }
@@ -917,7 +925,7 @@ impl PatternLocal for Loc<Pattern> {
     }
 
     fn check_irrefutable(&self, binding_kind: &str, ctx: &Context) -> Result<()> {
-        if self.is_trivially_irrefutable() {
+        if self.is_trivially_irrefutable(ctx) {
             return Ok(());
         }
 
-- 
2.43.0


From 6944894ce86b127311281d4e4522010eb86d6e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:08 +0000
Subject: [PATCH 05/37] fix: do not panic when a wildcard with a guard follows
 an integer pattern

---
 spade-hir-lowering/src/pattern.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/spade-hir-lowering/src/pattern.rs b/spade-hir-lowering/src/pattern.rs
index 46ab7b7..36cd0a8 100644
--- a/spade-hir-lowering/src/pattern.rs
+++ b/spade-hir-lowering/src/pattern.rs
@@ -215,7 +215,12 @@ impl Constructor {
     ) -> Vec<Self> {
         match self {
             Self::Wildcard => split_wildcard(ty, other_ctors),
-            Self::IntRange { min, max } => split_int_range(min.clone(), max.clone(), other_ctors),
+            Self::IntRange { min, max } => split_int_range(
+                min.clone(),
+                max.clone(),
+                // Wildcards have no range until they are split
+                other_ctors.flat_map(|ctor| ctor.split(ty, vec![].into_iter())),
+            ),
             _ => vec![self.clone()],
         }
     }
-- 
2.43.0


From 826a5b407e08555c88f173bb3b58767fe76d66d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:29 +0000
Subject: [PATCH 06/37] fix: check the rest of a value for exhaustiveness when
 it contains a clock

---
 spade-hir-lowering/src/pattern.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/spade-hir-lowering/src/pattern.rs b/spade-hir-lowering/src/pattern.rs
index 36cd0a8..0729c5c 100644
--- a/spade-hir-lowering/src/pattern.rs
+++ b/spade-hir-lowering/src/pattern.rs
@@ -130,13 +130,13 @@ pub(crate) fn split_wildcard(
 
                 group_missing_constructors(all_ctors, other_ctors)
             }
-            // Bit literals can't be matched on because you can't compare against z in hardware
-            spade_types::PrimitiveType::Tri => vec![],
-            // Special types for which there are no constructors which makes matching
-            // on them impossible
-            spade_types::PrimitiveType::Clock
+            // Bit literals can't be matched on because you can't compare against z in hardware,
+            // and there are no patterns for the other types here. They are still bound by
+            // variables, possibly next to other values which do need to be checked
+            spade_types::PrimitiveType::Tri
+            | spade_types::PrimitiveType::Clock
             | spade_types::PrimitiveType::Memory
-            | spade_types::PrimitiveType::InOut => vec![],
+            | spade_types::PrimitiveType::InOut => vec![Constructor::Single],
         },
         ConcreteType::Backward(_) => vec![Constructor::Single],
         ConcreteType::CopyView(_) => vec![Constructor::Single],
-- 
2.43.0


From 0d24fb6bfda9d8e31d1d2a4df7ae52d47c9d26d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:24 +0000
Subject: [PATCH 07/37] fix: give the constructor of a lowered lambda its
 generic parameters, so that lambdas inside lambdas compile

---
 .../src/passes/lower_lambda_defs.rs           | 56 ++++++++++++++++++-
 1 file changed, 53 insertions(+), 3 deletions(-)

diff --git a/spade-hir-lowering/src/passes/lower_lambda_defs.rs b/spade-hir-lowering/src/passes/lower_lambda_defs.rs
index 29bf78b..3efe1e8 100644
--- a/spade-hir-lowering/src/passes/lower_lambda_defs.rs
+++ b/spade-hir-lowering/src/passes/lower_lambda_defs.rs
@@ -9,11 +9,12 @@ use spade_common::{
 use spade_diagnostics::{Diagnostic, diag_anyhow};
 use spade_hir::{
     ArgumentList, ExprKind, Expression, Generic, Input, Parameter, ParameterList, Pattern,
-    PatternKind, Statement, TypeParam, TypeSpec, Unit, UnitHead,
+    PatternKind, Statement, TypeExpression, TypeParam, TypeSpec, Unit, UnitHead,
     expression::{CallKind, Safety},
     pretty_print::PrettyPrint,
 };
 use spade_typeinference::{GenericListToken, HasType, TypeState, equation::KnownTypeVar};
+use spade_types::KnownType;
 
 use crate::error::Result;
 
@@ -236,6 +237,45 @@ impl LambdaReplacement {
     }
 }
 
+/// The type expression denoting a fully known type, `None` if the type contains errors
+fn known_type_expression(ty: &KnownTypeVar) -> Option<Loc<TypeExpression>> {
+    let KnownTypeVar(loc, base, params) = ty;
+
+    let spec = |ty: &KnownTypeVar| match known_type_expression(ty)?.split_loc() {
+        (TypeExpression::TypeSpec(spec), loc) => Some(spec.at_loc(&loc)),
+        _ => None,
+    };
+
+    let result = match (base, params.as_slice()) {
+        (KnownType::Error, _) => return None,
+        (KnownType::Integer(value), _) => TypeExpression::Integer(value.clone()),
+        (KnownType::Bool(value), _) => TypeExpression::Bool(*value),
+        (KnownType::String(value), _) => TypeExpression::String(value.clone()),
+        (KnownType::Named(name), params) => TypeExpression::TypeSpec(TypeSpec::Declared(
+            name.clone().at_loc(loc),
+            params
+                .iter()
+                .map(known_type_expression)
+                .collect::<Option<_>>()?,
+        )),
+        (KnownType::Tuple, params) => TypeExpression::TypeSpec(TypeSpec::Tuple(
+            params.iter().map(spec).collect::<Option<_>>()?,
+        )),
+        (KnownType::Array, [inner, size]) => TypeExpression::TypeSpec(TypeSpec::Array {
+            inner: Box::new(spec(inner)?),
+            size: Box::new(known_type_expression(size)?),
+        }),
+        (KnownType::Inverted, [inner]) => {
+            TypeExpression::TypeSpec(TypeSpec::Inverted(Box::new(spec(inner)?)))
+        }
+        (KnownType::CopyView, [inner]) => {
+            TypeExpression::TypeSpec(TypeSpec::CopyView(Box::new(spec(inner)?)))
+        }
+        (KnownType::Array | KnownType::Inverted | KnownType::CopyView, _) => return None,
+    };
+    Some(result.at_loc(loc))
+}
+
 pub(crate) struct LowerLambdaDefs<'a> {
     pub type_state: &'a mut TypeState,
     pub idtracker: &'a ExprIdTracker,
@@ -300,7 +340,17 @@ impl<'a> Pass for LowerLambdaDefs<'a> {
                         })?;
                     Ok(result)
                 })
-                .collect::<Result<_>>()?;
+                .collect::<Result<Vec<_>>>()?;
+
+            // If this lambda is nested inside another lambda, its parent will be type checked
+            // again, at which point the arguments of this constructor are not enough to infer
+            // the generic parameters of the lambda.
+            let turbofish = concrete_type_params
+                .iter()
+                .map(known_type_expression)
+                .collect::<Option<Vec<_>>>()
+                .filter(|params| !params.is_empty())
+                .map(|params| ArgumentList::Positional(params).at_loc(expression));
 
             self.replacements.write().unwrap().insert(
                 (lambda_unit.clone(), concrete_type_params),
@@ -342,7 +392,7 @@ impl<'a> Pass for LowerLambdaDefs<'a> {
                         .collect(),
                 )
                 .at_loc(expression),
-                turbofish: None,
+                turbofish,
                 safety: Safety::Default,
                 verilog_attr_groups: vec![],
             }
-- 
2.43.0


From 62c805074fa6190a9d4da6a14f3fd5a8629b9def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:32 +0000
Subject: [PATCH 08/37] fix: do not panic when the condition of a pipeline
 register refers to a later stage

---
 spade-hir-lowering/src/pipelines.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/spade-hir-lowering/src/pipelines.rs b/spade-hir-lowering/src/pipelines.rs
index b4a46bc..a444e1e 100644
--- a/spade-hir-lowering/src/pipelines.rs
+++ b/spade-hir-lowering/src/pipelines.rs
@@ -65,7 +65,7 @@ pub fn handle_statement(
     name_map: &mut BTreeMap<NameID, NameID>,
     statements: &mut StatementList,
     clock: &Loc<NameID>,
-    local_conds: &mut Vec<Option<ValueName>>,
+    local_conds: &mut Vec<Option<Loc<Expression>>>,
     stage_enable_names: &mut Vec<Option<ValueName>>,
     current_stage: &mut usize,
 ) -> Result<()> {
@@ -115,10 +115,7 @@ pub fn handle_statement(
         }
         Statement::PipelineRegMarker(extra) => {
             let local_cond = match extra {
-                Some(spade_hir::PipelineRegMarkerExtra::Condition(cond)) => {
-                    statements.append(cond.lower(ctx)?);
-                    Some(cond.variable(ctx)?)
-                }
+                Some(spade_hir::PipelineRegMarkerExtra::Condition(cond)) => Some(cond.clone()),
                 Some(spade_hir::PipelineRegMarkerExtra::Count {
                     count,
                     count_typeexpr_id: _,
@@ -127,7 +124,7 @@ pub fn handle_statement(
                 }
                 None => None,
             };
-            local_conds.push(local_cond.map(|c| c.inner));
+            local_conds.push(local_cond);
             let live_vars = ctx.subs.next_stage(ctx.symtab);
 
             // Generate pipeline regs for previous live vars
@@ -291,6 +288,19 @@ pub fn lower_pipeline<'a>(
         )?
     }
 
+    // The conditions can refer to values in any stage, so they can only be lowered once all
+    // stages are known
+    let local_conds = local_conds
+        .into_iter()
+        .map(|cond| {
+            cond.map(|cond| {
+                statements.append(cond.lower(ctx)?);
+                Ok(cond.variable(ctx)?.inner)
+            })
+            .transpose()
+        })
+        .collect::<Result<Vec<_>>>()?;
+
     // Codegen enable signals for the stages that need them. We need to generate them
     // in reverse order because upstream enables depend on downstream
     let mut current_enable = None;
-- 
2.43.0


From 7c3eaffa0a686006021249f21b12fc76dbc2d5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:32 +0000
Subject: [PATCH 09/37] fix: do not panic when a zero size integer is part of
 an initial value

---
 spade-mir/src/eval.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spade-mir/src/eval.rs b/spade-mir/src/eval.rs
index d1a6552..7c72362 100644
--- a/spade-mir/src/eval.rs
+++ b/spade-mir/src/eval.rs
@@ -45,6 +45,7 @@ impl Value {
     pub fn as_string(&self) -> String {
         match self {
             Value::Bit(val) => format!("{}", if *val { 1 } else { 0 }),
+            Value::Int { size, .. } | Value::UInt { size, .. } if size.is_zero() => String::new(),
             Value::Int { size, val } => {
                 if *val >= 0i64.into() {
                     let val_str = format!("{val:b}");
-- 
2.43.0


From e698526c9cb347e4d430f2d3fdac1af8f4c41953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:42 +0000
Subject: [PATCH 10/37] fix: escape every name which is not a valid Verilog
 identifier, not only the first with that name

---
 spade-mir/src/codegen/util.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/spade-mir/src/codegen/util.rs b/spade-mir/src/codegen/util.rs
index daa3a65..ed60100 100644
--- a/spade-mir/src/codegen/util.rs
+++ b/spade-mir/src/codegen/util.rs
@@ -16,7 +16,14 @@ impl ValueName {
     // Returns true if this name needs to be escaped using `\ `
     pub fn needs_escaping(&self) -> bool {
         match self {
-            ValueName::Named(id, _, _) => *id == 0,
+            ValueName::Named(id, name, _) => {
+                // Names generated by the compiler, and names with non-ascii characters are not
+                // valid Verilog identifiers on their own
+                *id == 0
+                    || !name
+                        .chars()
+                        .all(|c| c.is_ascii_alphanumeric() || c == '_')
+            }
             ValueName::Expr(_) => false,
         }
     }
@@ -32,10 +39,15 @@ impl ValueName {
     pub fn backward_var_name(&self) -> String {
         match self {
             ValueName::Named(id, name, _) => {
-                if *id == 0 {
-                    format!("\\{}_mut ", name)
+                let suffix = if *id == 0 {
+                    String::new()
+                } else {
+                    format!("_n{id}")
+                };
+                if self.needs_escaping() {
+                    format!("\\{name}{suffix}_mut ")
                 } else {
-                    format!("{}_n{}_mut", name, id)
+                    format!("{name}{suffix}_mut")
                 }
             }
             ValueName::Expr(id) => {
-- 
2.43.0


From ac8bd97c31d7d51ec104afc13077e2614426ff6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:11 +0000
Subject: [PATCH 11/37] fix: generate valid Verilog for memories with one
 element and memories of zero size values

---
 spade-mir/src/codegen/mod.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index d9cb4ee..3147870 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -516,7 +516,12 @@ fn forward_expression_code(
             }
         }
         Operator::IndexMemory => {
-            format!("{}[{}]", op_names[0], op_names[1])
+            // The address of a memory with one element is zero sized
+            if types[&ops[1]].size() == BigUint::zero() {
+                format!("{}[0]", op_names[0])
+            } else {
+                format!("{}[{}]", op_names[0], op_names[1])
+            }
         }
         Operator::RangeIndexBits {
             start,
@@ -541,6 +546,11 @@ fn forward_expression_code(
             }
             .expect("the write ports have an incorrect type");
 
+            // A memory of zero sized values has nothing to store
+            if inner_w == BigUint::zero() {
+                return String::new();
+            }
+
             let full_port_width = 1u32.to_biguint() + addr_w + &inner_w;
 
             let initial_block = if let Some(vals) = initial {
@@ -568,7 +578,9 @@ fn forward_expression_code(
                         &full_port_width * (port + 1u32.to_biguint()) - 1u32.to_biguint();
 
                     let addr_start = &full_port_width * port + &inner_w;
-                    let addr = if *addr_w == 1u32.to_biguint() {
+                    let addr = if *addr_w == BigUint::zero() {
+                        "0".to_string()
+                    } else if *addr_w == 1u32.to_biguint() {
                         format!("{}[{}]", op_names[1], addr_start)
                     } else {
                         format!(
@@ -1058,7 +1070,7 @@ fn statement_code(statement: &Statement, ctx: &mut Context) -> Code {
                     }
                     .to_string()
                 }
-                Operator::DeclClockedMemory { .. } => forward_expression.unwrap(),
+                Operator::DeclClockedMemory { .. } => forward_expression.unwrap_or_default(),
                 Operator::ReadWriteItemsInOut(num_items) => {
                     // NOTE(repr): this code relies on the bit representation of `Option` to use the
                     // MSB as the discriminant, with 0 indicating a `None` value and 1 indicating a
-- 
2.43.0


From 862aa09e00edb20161732b06329d3f898a8f0dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:59 +0000
Subject: [PATCH 12/37] fix: reset the members of a split register to the
 members of its reset value

---
 spade-mir/src/passes/split_compound_regs.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/spade-mir/src/passes/split_compound_regs.rs b/spade-mir/src/passes/split_compound_regs.rs
index 5d101d4..a5142ef 100644
--- a/spade-mir/src/passes/split_compound_regs.rs
+++ b/spade-mir/src/passes/split_compound_regs.rs
@@ -55,12 +55,28 @@ fn generate_split_code(
                 loc: None,
             });
 
+            // The members of the register are reset to the members of the reset value
+            let (reset, reset_stmt) = match &reg.reset {
+                Some((trigger, value)) => {
+                    let reset_name = ValueName::Expr(expr_idtracker.next()).at_loc(reg);
+                    let stmt = Statement::Binding(Binding {
+                        name: reset_name.clone(),
+                        operator: Operator::IndexTuple(i as u64),
+                        operands: vec![value.clone()],
+                        ty: member.clone(),
+                        loc: None,
+                    });
+                    (Some((trigger.clone(), reset_name)), Some(stmt.at_loc(reg)))
+                }
+                None => (None, None),
+            };
+
             let reg_stmts = split_compound_reg(
                 &Register {
                     name: reg_name.clone(),
                     ty: member.clone(),
                     clock: reg.clock.clone(),
-                    reset: reg.reset.clone(),
+                    reset,
                     initial: None,
                     value: split_name.clone(),
                     loc: None,
@@ -71,6 +87,7 @@ fn generate_split_code(
 
             let split_stmts = vec![split_stmt.at_loc(reg)]
                 .into_iter()
+                .chain(reset_stmt)
                 .chain(reg_stmts)
                 .collect::<Vec<_>>();
 
-- 
2.43.0


From 16b27987d37b635a730fa96cf3af848051b49094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:59 +0000
Subject: [PATCH 13/37] fix: generate no code for zero size registers

---
 spade-mir/src/codegen/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index 3147870..bd3b2cb 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -1135,6 +1135,8 @@ fn statement_code(statement: &Statement, ctx: &mut Context) -> Code {
                 [0] &assignment
             }
         }
+        // Zero size registers have nothing to store, and are not declared
+        Statement::Register(reg) if reg.ty.size() == BigUint::zero() => code! {},
         Statement::Register(reg) => {
             let name = reg.name.var_name();
             let main_body = if let Some((rst_trig, rst_val)) = &reg.reset {
-- 
2.43.0


From e4559371d54ace223d7bbd1c0a192b939c5471f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:59 +0000
Subject: [PATCH 14/37] fix: extract the right bits when enum_clock_gating
 splits a register

---
 spade-mir/src/codegen/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index bd3b2cb..116b37b 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -527,10 +527,16 @@ fn forward_expression_code(
             start,
             end_exclusive,
         } => {
-            if end_exclusive - start == 1u32.to_biguint() {
+            if types[&ops[0]].size() == 1u32.to_biguint() {
+                op_names[0].clone()
+            } else if end_exclusive - start == 1u32.to_biguint() {
                 format!("{}[{start}]", op_names[0])
             } else {
-                format!("{}[{end_exclusive}:{start}]", op_names[0])
+                format!(
+                    "{}[{}:{start}]",
+                    op_names[0],
+                    end_exclusive - 1u32.to_biguint()
+                )
             }
         }
         Operator::DeclClockedMemory { initial } => {
-- 
2.43.0


From b88760d8400733ed254fff03dbd87324d6985952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:22 +0000
Subject: [PATCH 15/37] fix: take the latency of conditions and matched values
 into account in pipelines

---
 spade-hir-lowering/src/pipelines.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/spade-hir-lowering/src/pipelines.rs b/spade-hir-lowering/src/pipelines.rs
index a444e1e..3c2bf15 100644
--- a/spade-hir-lowering/src/pipelines.rs
+++ b/spade-hir-lowering/src/pipelines.rs
@@ -711,11 +711,12 @@ impl PipelineAvailability for Expression {
                 try_compute_availability(&[lhs.as_ref(), rhs.as_ref()], ctx)
             }
             ExprKind::UnaryOperator(_, val) => val.inner.available_in(ctx),
-            ExprKind::Match(_, values) => try_compute_availability(
-                &values
+            ExprKind::Match(value, branches) => try_compute_availability(
+                &branches
                     .iter()
                     .flat_map(|(_, if_cond, expr)| [if_cond.as_ref(), Some(expr)])
                     .flatten()
+                    .chain([value.as_ref()])
                     .collect::<Vec<_>>(),
                 ctx,
             ),
@@ -774,10 +775,13 @@ impl PipelineAvailability for Expression {
                 }
             }
             ExprKind::If {
-                cond: _,
+                cond,
                 on_true,
                 on_false,
-            } => try_compute_availability(&[on_true.as_ref(), on_false.as_ref()], ctx),
+            } => try_compute_availability(
+                &[on_true.as_ref(), on_false.as_ref(), cond.as_ref()],
+                ctx,
+            ),
             ExprKind::PipelineRef { .. } => Ok(Some(0)),
             ExprKind::Incomplete(_, _) => Ok(None),
             ExprKind::TypeLevelIf { cond, .. } => diag_bail!(
-- 
2.43.0


From a56759865cdb015b17db09b0491cef7f0c4d16eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:34 +0000
Subject: [PATCH 16/37] fix: do not tokenise the content of block comments

---
 spade-parser/src/lib.rs | 135 ++++++++++++++++++++++++----------------
 1 file changed, 81 insertions(+), 54 deletions(-)

diff --git a/spade-parser/src/lib.rs b/spade-parser/src/lib.rs
index 5251a0f..95cbd4a 100644
--- a/spade-parser/src/lib.rs
+++ b/spade-parser/src/lib.rs
@@ -116,6 +116,45 @@ impl<'source> TokenSource<'source> {
             TokenSource::Slice([]) => 0..0,
         }
     }
+
+    /// Skips past the `*/` which closes a block comment whose `/*` was the last token. What is
+    /// in the comment is not made up of tokens, so only (nested) comment delimiters are looked
+    /// for. Returns the span of the `*/`, or None if there is none, in which case the rest of
+    /// the source is skipped.
+    fn skip_block_comment(&mut self) -> Option<Span> {
+        match self {
+            TokenSource::Lexer(l) => {
+                let content = l.remainder().as_bytes();
+                let mut depth = 1;
+                let mut offset = 0;
+                while depth != 0 {
+                    match content.get(offset..offset + 2) {
+                        Some(b"/*") => {
+                            depth += 1;
+                            offset += 2;
+                        }
+                        Some(b"*/") => {
+                            depth -= 1;
+                            offset += 2;
+                        }
+                        Some(_) => offset += 1,
+                        None => {
+                            l.bump(content.len());
+                            return None;
+                        }
+                    }
+                }
+                l.bump(offset);
+                let end = l.span().end;
+                Some(end - 2..end)
+            }
+            // Comments are not part of token slices
+            TokenSource::Slice(a) => {
+                *a = &[];
+                None
+            }
+        }
+    }
 }
 
 // Clone for when you want to call a parse function but maybe discard the new parser state
@@ -3144,71 +3183,59 @@ impl<'a> Parser<'a> {
     }
 
     fn next_token(&mut self) -> Result<Token> {
-        self.next_token_helper(0)
-    }
-
-    fn next_token_helper(&mut self, block_comment_depth: usize) -> Result<Token> {
-        let lex_dot_next = {
-            let mut break_value: Option<std::result::Result<_, _>> = None;
-            while let Some(next) = self.lex.next() {
-                if matches!(next, Ok(TokenKind::Comment)) {
+        loop {
+            let out = match self.lex.next() {
+                Some(Ok(TokenKind::Comment)) => {
                     self.comments.push(Comment::Line(Token {
                         kind: TokenKind::Comment,
                         span: self.lex.span(),
                         file_id: self.file_id(),
                     }));
-                } else {
-                    break_value = Some(next);
-                    break;
+                    continue;
                 }
-            }
-            break_value
-        };
+                Some(Ok(k)) => Token::new(k, self.lex.span(), self.file_id()),
+                Some(Err(_)) => {
+                    return Err(Diagnostic::error(
+                        Loc::new((), lspan(self.lex.span()), self.file_id()),
+                        "Lexer error, unexpected symbol",
+                    ));
+                }
+                None => self.eof_token(),
+            };
 
-        let out = match lex_dot_next {
-            Some(Ok(k)) => Ok(Token::new(k, self.lex.span(), self.file_id())),
-            Some(Err(_)) => Err(Diagnostic::error(
-                Loc::new((), lspan(self.lex.span()), self.file_id()),
-                "Lexer error, unexpected symbol",
-            )),
-            None => Ok(match &self.last_token {
-                Some(last) => Token {
-                    kind: TokenKind::Eof,
-                    span: last.span.end..last.span.end,
-                    file_id: last.file_id,
-                },
-                None => Token {
-                    kind: TokenKind::Eof,
-                    span: logos::Span { start: 0, end: 0 },
-                    file_id: self.file_id(),
-                },
-            }),
-        }?;
-
-        match out.kind {
-            TokenKind::BlockCommentStart => loop {
-                let next = match self.next_token_helper(block_comment_depth + 1) {
-                    Ok(next) => next,
-                    // We don't actually care about lexer errors inside block comments,
-                    // so let's just continue.
-                    Err(_) => continue,
-                };
-                match next.kind {
-                    TokenKind::BlockCommentEnd => {
-                        if block_comment_depth == 0 {
-                            self.comments.push(Comment::Block(out, next));
-                        }
-                        break self.next_token_helper(block_comment_depth);
+            if out.kind == TokenKind::BlockCommentStart {
+                match self.lex.skip_block_comment() {
+                    Some(span) => {
+                        let end = Token::new(TokenKind::BlockCommentEnd, span, self.file_id());
+                        self.comments.push(Comment::Block(out, end));
                     }
-                    TokenKind::Eof => {
-                        break Err(Diagnostic::error(next, "Unterminated block comment")
-                            .primary_label("Expected */")
-                            .secondary_label(out, "to close this block comment"));
+                    None => {
+                        return Err(Diagnostic::error(
+                            self.eof_token(),
+                            "Unterminated block comment",
+                        )
+                        .primary_label("Expected */")
+                        .secondary_label(out, "to close this block comment"));
                     }
-                    _ => {}
                 }
+            } else {
+                return Ok(out);
+            }
+        }
+    }
+
+    fn eof_token(&self) -> Token {
+        match &self.last_token {
+            Some(last) => Token {
+                kind: TokenKind::Eof,
+                span: last.span.end..last.span.end,
+                file_id: last.file_id,
+            },
+            None => Token {
+                kind: TokenKind::Eof,
+                span: logos::Span { start: 0, end: 0 },
+                file_id: self.file_id(),
             },
-            _ => Ok(out),
         }
     }
 }
-- 
2.43.0


From ec7f5599551b4c55abbe88d93c9094d6e3c244a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:14 +0000
Subject: [PATCH 17/37] fix: allow the digits 8 and 9 in the size of octal
 literals

---
 spade-ast/src/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spade-ast/src/token.rs b/spade-ast/src/token.rs
index 3a6e9c1..5f70ebe 100644
--- a/spade-ast/src/token.rs
+++ b/spade-ast/src/token.rs
@@ -57,7 +57,7 @@ pub enum TokenKind {
         parse_int(&lex.slice()[2..], 16)
     })]
     HexInteger((BigUint, LiteralKind)),
-    #[regex(r"0o[0-7][0-7_]*([uUiI][0-7]*)?", |lex| {
+    #[regex(r"0o[0-7][0-7_]*([uUiI][0-9]*)?", |lex| {
         parse_int(&lex.slice()[2..], 8)
     })]
     OctInteger((BigUint, LiteralKind)),
-- 
2.43.0


From dc957c0055f47a1201c9196daab8fe8e0ffd855d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:03 +0000
Subject: [PATCH 18/37] fix: resolve lib:: in aliases and pub(lib) in the
 library they are written in

---
 spade-hir/src/symbol_table.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/spade-hir/src/symbol_table.rs b/spade-hir/src/symbol_table.rs
index 1c8d773..2448d81 100644
--- a/spade-hir/src/symbol_table.rs
+++ b/spade-hir/src/symbol_table.rs
@@ -549,6 +549,8 @@ pub struct SymbolTable {
     namespace: Path,
     /// The namespace which `lib` refers to currently.
     base_namespace: Path,
+    /// The base namespaces of all libraries, in order to know what library a path belongs to.
+    base_namespaces: HashSet<Path>,
     #[serde(skip)]
     diags: Arc<Mutex<DiagList>>,
 }
@@ -569,6 +571,7 @@ impl SymbolTable {
             lang_items: HashMap::default(),
             namespace: Path(vec![]),
             base_namespace: Path(vec![]),
+            base_namespaces: HashSet::default(),
             diags,
         };
 
@@ -642,9 +645,19 @@ impl SymbolTable {
     }
 
     pub fn set_base_namespace(&mut self, base_namespace: Path) {
+        self.base_namespaces.insert(base_namespace.clone());
         self.base_namespace = base_namespace
     }
 
+    /// The base namespace of the library which `path` is part of
+    fn base_namespace_of(&self, path: &Path) -> Path {
+        (0..=path.0.len())
+            .rev()
+            .map(|len| Path(path.0[0..len].to_vec()))
+            .find(|base| self.base_namespaces.contains(base))
+            .unwrap_or_else(|| self.base_namespace.clone())
+    }
+
     /// Adds a thing to the scope at `current_scope - offset`. Panics if there is no such scope
     pub fn add_thing_with_id_at_offset(
         &mut self,
@@ -1303,7 +1316,9 @@ impl SymbolTable {
             (PathPrefix::FromLib, lib_relative_path) => {
                 let segments = lib_relative_path.0.clone();
                 let off = self.current_scope();
-                let ns = self.base_namespace.clone();
+                // NOTE: `namespace` is not necessarily part of the current library, for
+                // example when following an alias from a dependency.
+                let ns = self.base_namespace_of(namespace);
 
                 (off, ns, segments)
             }
@@ -1406,7 +1421,7 @@ impl SymbolTable {
                         let vis_path = match visibility.inner {
                             Visibility::Public => Path(vec![]),
                             Visibility::Implicit => working_path.prelude(),
-                            Visibility::AtLib => self.base_namespace.clone(),
+                            Visibility::AtLib => self.base_namespace_of(&working_path.prelude()),
                             Visibility::AtSelf => working_path.prelude(),
                             Visibility::AtSuper => working_path.prelude().prelude(),
                             Visibility::AtSuperSuper => working_path.prelude().prelude().prelude(),
-- 
2.43.0


From 320ec48c448f14c97b7609e2b72b9657a63bf4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:04 +0000
Subject: [PATCH 19/37] fix: reject -1 as an int<0>

---
 spade-typeinference/src/requirements.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spade-typeinference/src/requirements.rs b/spade-typeinference/src/requirements.rs
index 71b6563..3715b1f 100644
--- a/spade-typeinference/src/requirements.rs
+++ b/spade-typeinference/src/requirements.rs
@@ -396,7 +396,11 @@ impl Requirement {
                                     )
                                 } else {
                                     (
-                                        -two.clone().pow(size_u32.saturating_sub(1)),
+                                        // An int<0> can only be 0
+                                        size_u32
+                                            .checked_sub(1)
+                                            .map(|exponent| -two.clone().pow(exponent))
+                                            .unwrap_or_else(BigInt::zero),
                                         two.pow(size_u32.saturating_sub(1)).checked_sub(&1.to_bigint()).unwrap_or(0.to_bigint())
                                     )
                                 };
-- 
2.43.0


From 4bbb744df3d37098fe4e6c521c1fa66025d1c8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:04 +0000
Subject: [PATCH 20/37] fix: report bounds like T: Trait<T> instead of
 overflowing the stack

---
 spade-typeinference/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spade-typeinference/src/lib.rs b/spade-typeinference/src/lib.rs
index 2bedefe..faaf5fb 100644
--- a/spade-typeinference/src/lib.rs
+++ b/spade-typeinference/src/lib.rs
@@ -3216,6 +3216,12 @@ impl TypeState {
                     _ => false,
                 };
 
+                // In `T: Trait<T>`, unifying the trait parameters below would end up here again
+                if traits.inner.iter().any(|t| !t.type_params.is_empty()) {
+                    self.check_type_for_recursion(*ukid, &mut vec![])
+                        .map_err(UnificationError::RecursiveType)?;
+                }
+
                 let impls = self.ensure_impls(otherid, traits, trait_is_expected, ukloc, ctx)?;
 
                 self.owned
-- 
2.43.0


From 485280c036d3ae9ea1db09ed7998dac3c94bad27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:00 +0000
Subject: [PATCH 21/37] fix: reject repeated stage labels, accept labels named
 like items

---
 spade-ast-lowering/src/pipelines.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/spade-ast-lowering/src/pipelines.rs b/spade-ast-lowering/src/pipelines.rs
index 928d73e..03df02d 100644
--- a/spade-ast-lowering/src/pipelines.rs
+++ b/spade-ast-lowering/src/pipelines.rs
@@ -1,8 +1,10 @@
+use rustc_hash::FxHashMap as HashMap;
+
 use hir::symbol_table::TypeSymbol;
 use spade_ast as ast;
 use spade_common::location_info::Loc;
 use spade_common::location_info::WithLocation;
-use spade_common::name::Path;
+use spade_common::name::{Identifier, Path};
 use spade_diagnostics::Diagnostic;
 use spade_hir as hir;
 use spade_types::meta_types::MetaType;
@@ -15,15 +17,27 @@ pub struct PipelineContext {
     pub scope: usize,
 }
 
-fn visit_pipeline_statement(statement: &ast::Statement, ctx: &mut Context) -> Result<()> {
+fn visit_pipeline_statement(
+    statement: &ast::Statement,
+    labels: &mut HashMap<Identifier, Loc<Identifier>>,
+    ctx: &mut Context,
+) -> Result<()> {
     match &statement {
         ast::Statement::Label(name) => {
-            ctx.symtab.add_unique_type(
+            if let Some(prev) = labels.insert(name.inner, *name) {
+                return Err(
+                    Diagnostic::error(name, "Multiple labels with the same name")
+                        .primary_label(format!("{name} is defined multiple times"))
+                        .secondary_label(prev, "Previous definition here"),
+                );
+            }
+
+            ctx.symtab.add_type(
                 Path::ident_with_loc(*name),
                 TypeSymbol::GenericMeta(MetaType::Int).at_loc(name),
                 None,
                 None,
-            )?;
+            );
         }
         ast::Statement::Declaration(_) => {}
         ast::Statement::Binding(_) => {}
@@ -70,8 +84,9 @@ pub fn maybe_perform_pipelining_tasks(
                 .note("All pipelines need to take at least a clock as an argument"));
             }
 
+            let mut labels = HashMap::default();
             for statement in &body.as_ref().unwrap().assume_block().statements {
-                visit_pipeline_statement(statement, ctx)?;
+                visit_pipeline_statement(statement, &mut labels, ctx)?;
             }
 
             Ok(Some(context))
-- 
2.43.0


From 777e6109f3b7e64131223e0a35a4ebbd09695567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:00 +0000
Subject: [PATCH 22/37] fix: reject traits with several items of one name

---
 spade-ast-lowering/src/impls.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/spade-ast-lowering/src/impls.rs b/spade-ast-lowering/src/impls.rs
index a0c2dec..20cd731 100644
--- a/spade-ast-lowering/src/impls.rs
+++ b/spade-ast-lowering/src/impls.rs
@@ -504,9 +504,21 @@ pub fn create_trait_from_unit_heads_inner(
         .map(|t| Ok((t.name.inner, associated_type(t, ctx)?)))
         .collect::<Result<Vec<_>>>()?;
 
+    let mut member_names = HashMap::<Identifier, Loc<Identifier>>::default();
     let trait_members = heads
         .iter()
         .map(|head| {
+            // NOTE: Multiple items in an anonymous trait are reported with its impl block
+            if let (TraitName::Named(..), Some(prev)) =
+                (&name, member_names.insert(head.name.inner, head.name))
+            {
+                return Err(
+                    Diagnostic::error(head.name, "Multiple items with the same name")
+                        .primary_label(format!("{} is defined multiple times", head.name))
+                        .secondary_label(prev, "Previous definition here"),
+                );
+            }
+
             Ok((
                 head.name.inner,
                 unit_head(head, type_params, &visited_where_clauses, ctx, None)?.at_loc(head),
-- 
2.43.0


From a7d435aeccf8d1aa833c20f11d9a653c8fb9c13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:00 +0000
Subject: [PATCH 23/37] fix: look up modules by their own name when lowering
 them

---
 spade-ast-lowering/src/lib.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/spade-ast-lowering/src/lib.rs b/spade-ast-lowering/src/lib.rs
index ffc4d59..9348fc4 100644
--- a/spade-ast-lowering/src/lib.rs
+++ b/spade-ast-lowering/src/lib.rs
@@ -1596,15 +1596,11 @@ pub fn visit_item(item: &ast::Item, ctx: &mut Context) -> Result<Vec<hir::Item>>
 
 #[tracing::instrument(skip_all, fields(module.name = %module.name.inner))]
 pub fn visit_module(module: &ast::Module, ctx: &mut Context) -> Result<()> {
-    let path = &ctx
-        .symtab
-        .current_namespace()
-        .clone()
-        .at_loc(&module.name.loc());
+    let path = &Path::ident_with_loc(module.name.clone());
 
     let (id, thing) = ctx
         .symtab
-        .lookup_thing(path, true)
+        .lookup_thing(path, false)
         .map_err(|_| diag_anyhow!(module.name, "Failed to find {path} in symtab"))?;
 
     if !matches!(thing, Thing::Module(_, _)) {
-- 
2.43.0


From 0dda69c109988a53a7ea3b998dac3807599637e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:00 +0000
Subject: [PATCH 24/37] fix: do not panic on pub(super) items of the root
 module and hidden enum variants

---
 spade-hir/src/symbol_table.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/spade-hir/src/symbol_table.rs b/spade-hir/src/symbol_table.rs
index 2448d81..66f39de 100644
--- a/spade-hir/src/symbol_table.rs
+++ b/spade-hir/src/symbol_table.rs
@@ -1418,13 +1418,21 @@ impl SymbolTable {
                     // Visibility information may not apply for the path target (e.g., local variables).
                     // If visibility information does not exist, the check is ignored.
                     if let Some(visibility) = self.visibilities.get(id) {
+                        // The root namespace has no parent, `super` is the root itself there
+                        let parent = |path: Path| {
+                            if path.0.is_empty() {
+                                path
+                            } else {
+                                path.prelude()
+                            }
+                        };
                         let vis_path = match visibility.inner {
                             Visibility::Public => Path(vec![]),
                             Visibility::Implicit => working_path.prelude(),
                             Visibility::AtLib => self.base_namespace_of(&working_path.prelude()),
                             Visibility::AtSelf => working_path.prelude(),
-                            Visibility::AtSuper => working_path.prelude().prelude(),
-                            Visibility::AtSuperSuper => working_path.prelude().prelude().prelude(),
+                            Visibility::AtSuper => parent(working_path.prelude()),
+                            Visibility::AtSuperSuper => parent(parent(working_path.prelude())),
                         };
 
                         let is_visible =
@@ -1456,7 +1464,11 @@ impl SymbolTable {
                                 invisible_segment: segment.clone(),
                                 target_item,
                                 invisible_item: invisible_item.map(Thing::loc),
-                                visibility_marker: if visibility.inner != Visibility::Implicit {
+                                // NOTE: The visibility of enum variants comes from that of their
+                                // enum, which does not need to have a marker.
+                                visibility_marker: if visibility.inner != Visibility::Implicit
+                                    && visibility.span.start() != visibility.span.end()
+                                {
                                     Some(visibility.loc())
                                 } else {
                                     None
-- 
2.43.0


From 1828e360efc88d092b1e06d3c676fc444c1aef92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:22 +0000
Subject: [PATCH 25/37] fix: report int and uint without a size instead of
 panicking

---
 spade-ast-lowering/src/builtins.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/spade-ast-lowering/src/builtins.rs b/spade-ast-lowering/src/builtins.rs
index f5389db..ecebf94 100644
--- a/spade-ast-lowering/src/builtins.rs
+++ b/spade-ast-lowering/src/builtins.rs
@@ -22,8 +22,12 @@ pub fn populate_symtab(symtab: &mut SymbolTable, item_list: &mut ItemList) {
                 .add_type_with_id(
                     id,
                     path,
-                    TypeSymbol::Declared(args.clone(), 0, TypeDeclKind::Primitive { is_inout })
-                        .nowhere(),
+                    TypeSymbol::Declared(
+                        args.clone(),
+                        args.len(),
+                        TypeDeclKind::Primitive { is_inout },
+                    )
+                    .nowhere(),
                     None,
                     None,
                 )
-- 
2.43.0


From 6e60a724d3ab8df0d0f5a0fd67fc1d0878f747be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:22 +0000
Subject: [PATCH 26/37] fix: report recursive inlined units instead of
 overflowing the stack

---
 spade-hir-lowering/src/inline.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/spade-hir-lowering/src/inline.rs b/spade-hir-lowering/src/inline.rs
index 1e85c0d..6df595f 100644
--- a/spade-hir-lowering/src/inline.rs
+++ b/spade-hir-lowering/src/inline.rs
@@ -4,7 +4,7 @@ use std::rc::Rc;
 use spade_common::id_tracker::{ExprIdTracker, NameIdTracker};
 use spade_common::location_info::{Loc, WithLocation};
 use spade_common::name::{NameID, Path};
-use spade_diagnostics::diag_anyhow;
+use spade_diagnostics::{Diagnostic, diag_anyhow};
 use spade_mir::types::Type;
 use spade_mir::{Binding, Operator, Register, Statement, UnitName, ValueName};
 use spade_typeinference::equation::{KnownTypeVar, TypedExpression};
@@ -205,6 +205,7 @@ fn perform_inlining<'a>(
     idtracker: &ExprIdTracker,
     nameidtracker: &NameIdTracker,
     cache: &'_ mut BTreeMap<UnitName, InlinedEntity<'a>>,
+    in_progress: &'_ mut Vec<&'a UnitName>,
 ) -> Result<InlinedEntity<'a>> {
     if let Some(cached) = cache.get(&target.mir.name) {
         Ok(cached.clone())
@@ -238,6 +239,17 @@ fn perform_inlining<'a>(
                     // Check if this should be inlined
                     if let Some(callee) = source_map.get(callee) {
                         if callee.mir.inline {
+                            if in_progress.contains(&&callee.mir.name) {
+                                return Err(Diagnostic::error(
+                                    stmt,
+                                    "Recursive units cannot be inlined",
+                                )
+                                .primary_label(format!(
+                                    "{} instantiates itself here",
+                                    callee.mir.name.source
+                                )));
+                            }
+
                             new_stmts.push(InlinedStatements::Normal(std::mem::take(
                                 &mut current_normal,
                             )));
@@ -314,13 +326,16 @@ fn perform_inlining<'a>(
 
                             let expr_map = inner_expr_map.into_iter().collect::<BTreeMap<_, _>>();
 
+                            in_progress.push(&callee.mir.name);
                             let inlined_callee = perform_inlining(
                                 callee,
                                 source_map,
                                 idtracker,
                                 nameidtracker,
                                 cache,
+                                in_progress,
                             )?;
+                            in_progress.pop();
 
                             new_stmts.push(InlinedStatements::InlinedCall {
                                 outer_output_name: output_name,
@@ -370,7 +385,16 @@ pub fn do_inlining(
     let partial = mir_entities
         .iter_mut()
         .filter(|entity| !entity.mir.inline)
-        .map(|entity| perform_inlining(entity, &source_map, idtracker, nameidtracker, &mut cache))
+        .map(|entity| {
+            perform_inlining(
+                entity,
+                &source_map,
+                idtracker,
+                nameidtracker,
+                &mut cache,
+                &mut vec![],
+            )
+        })
         .collect::<Result<Vec<_>>>()?;
 
     partial
-- 
2.43.0


From da5782345cb220714e043d2b085816894523a206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:44 +0000
Subject: [PATCH 27/37] fix: check that type parameters and array sizes are of
 the right kind

---
 spade-ast-lowering/src/builtins.rs |  8 ++++-
 spade-ast-lowering/src/lib.rs      | 55 ++++++++++++++++++++++++++++--
 2 files changed, 60 insertions(+), 3 deletions(-)

diff --git a/spade-ast-lowering/src/builtins.rs b/spade-ast-lowering/src/builtins.rs
index ecebf94..b7308aa 100644
--- a/spade-ast-lowering/src/builtins.rs
+++ b/spade-ast-lowering/src/builtins.rs
@@ -127,7 +127,13 @@ pub fn populate_symtab(symtab: &mut SymbolTable, item_list: &mut ItemList) {
     add_type("tri", vec![], PrimitiveType::Bool, false);
     add_type(
         "inout",
-        vec![GenericArg::uint(Identifier::intern("T")).nowhere()],
+        vec![
+            GenericArg::TypeName {
+                name: Identifier::intern("T"),
+                traits: vec![],
+            }
+            .nowhere(),
+        ],
         PrimitiveType::InOut,
         true,
     );
diff --git a/spade-ast-lowering/src/lib.rs b/spade-ast-lowering/src/lib.rs
index 9348fc4..e452a74 100644
--- a/spade-ast-lowering/src/lib.rs
+++ b/spade-ast-lowering/src/lib.rs
@@ -30,7 +30,7 @@ use spade_diagnostics::diagnostic::SuggestionParts;
 use spade_diagnostics::{CodeBundle, Diagnostic, codespan::Span, diag_anyhow, diag_bail};
 use spade_hir::{Selfness, expression::Safety, symbol_table::TypeDeclKind};
 use spade_parser::Parser;
-use spade_types::meta_types::MetaType;
+use spade_types::meta_types::{MetaType, unify_meta};
 use tracing::{Level, event};
 use type_level_if::expand_type_level_if;
 
@@ -45,7 +45,7 @@ use ast::{Binding, CallKind, ParameterList};
 use hir::expression::{BinaryOperator, IntLiteralKind};
 use hir::param_util::ArgumentError;
 use hir::symbol_table::DeclarationState;
-use hir::symbol_table::{LookupError, SymbolTable, Thing, TypeSymbol};
+use hir::symbol_table::{GenericArg, LookupError, SymbolTable, Thing, TypeSymbol};
 use hir::{ConstGeneric, ExecutableItem, PatternKind, TraitName};
 use rustc_hash::{FxHashMap as HashMap, FxHashSet as HashSet};
 use spade_ast::{self as ast, Attribute, Expression, MacroRules, TypeParam, WhereClause};
@@ -365,6 +365,44 @@ pub fn visit_type_expression(
     }
 }
 
+/// Ensures that a type expression used as a type parameter or array size is something that
+/// `expected` allows. Const generics are checked by the type checker.
+fn check_meta_type(
+    expr: &Loc<hir::TypeExpression>,
+    expected: &MetaType,
+    kind: &TypeSpecKind,
+    ctx: &Context,
+) -> Result<()> {
+    let found = match &expr.inner {
+        hir::TypeExpression::Integer(_) => MetaType::Number,
+        hir::TypeExpression::Bool(_) => MetaType::Bool,
+        hir::TypeExpression::String(_) => MetaType::Str,
+        hir::TypeExpression::ConstGeneric(_)
+        | hir::TypeExpression::TypeSpec(hir::TypeSpec::Wildcard(_)) => MetaType::Any,
+        hir::TypeExpression::TypeSpec(hir::TypeSpec::Generic(Generic::Named(name))) => {
+            match &ctx.symtab.type_symbol_by_id(name).inner {
+                TypeSymbol::GenericMeta(meta) => meta.clone(),
+                TypeSymbol::Declared(_, _, _) => MetaType::Type,
+                TypeSymbol::GenericArg { .. } => match kind {
+                    TypeSpecKind::StructMember | TypeSpecKind::EnumMember => MetaType::Type,
+                    // The type checker finds out what the parameters of units are
+                    _ => MetaType::Any,
+                },
+            }
+        }
+        hir::TypeExpression::TypeSpec(_) => MetaType::Type,
+    };
+
+    if unify_meta(&found, expected).is_some() {
+        Ok(())
+    } else {
+        Err(
+            Diagnostic::error(expr, format!("Expected {expected}, found {found}"))
+                .primary_label(format!("Expected {expected}")),
+        )
+    }
+}
+
 pub fn visit_type_spec(
     t: &Loc<ast::TypeSpec>,
     kind: &TypeSpecKind,
@@ -403,6 +441,18 @@ pub fn visit_type_spec(
                     if visited_params.len() >= *min_required_params
                         && visited_params.len() <= generic_args.len()
                     {
+                        for (param, generic_arg) in visited_params.iter().zip(generic_args) {
+                            let expected = match &generic_arg.inner {
+                                GenericArg::TypeName { .. } => MetaType::Type,
+                                GenericArg::TypeWithMeta { meta, .. } => meta.clone(),
+                            };
+                            check_meta_type(param, &expected, kind, ctx).map_err(|diag| {
+                                diag.secondary_label(
+                                    generic_arg,
+                                    format!("Because this is {expected}"),
+                                )
+                            })?;
+                        }
                         Ok(hir::TypeSpec::Declared(
                             base_id.at_loc(path),
                             visited_params,
@@ -476,6 +526,7 @@ pub fn visit_type_spec(
                 }
             };
             let size = Box::new(visit_type_expression(size, kind, ctx)?.at_loc(size));
+            check_meta_type(&size, &MetaType::Uint, kind, ctx)?;
 
             Ok(hir::TypeSpec::Array { inner, size })
         }
-- 
2.43.0


From f39737a3744c55131fce37be17bd182c2db52b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:51 +0000
Subject: [PATCH 28/37] fix: report unclosed macros instead of reading past the
 end of the file for ever

---
 spade-parser/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/spade-parser/src/lib.rs b/spade-parser/src/lib.rs
index 95cbd4a..dfcd517 100644
--- a/spade-parser/src/lib.rs
+++ b/spade-parser/src/lib.rs
@@ -2686,6 +2686,10 @@ impl<'a> Parser<'a> {
             TokenKind::CloseBrace => error_stray_delimiter(&token, TokenKind::OpenBrace),
             TokenKind::CloseBracket => error_stray_delimiter(&token, TokenKind::OpenBracket),
             TokenKind::CloseParen => error_stray_delimiter(&token, TokenKind::OpenParen),
+            TokenKind::Eof => Err(Diagnostic::from(UnexpectedToken {
+                got: token,
+                expected: vec!["macro pattern"],
+            })),
             _ => {
                 let token = self.eat_unconditional()?;
                 let loc = token.loc();
@@ -2711,6 +2715,10 @@ impl<'a> Parser<'a> {
 
                 while &s.peek()?.kind != close_token || nesting > 0 {
                     let token = s.eat_unconditional()?;
+                    if token.kind == TokenKind::Eof {
+                        // The missing delimiter is reported by `surrounded`
+                        break;
+                    }
                     let loc = token.loc();
 
                     if &token.kind == open_token {
-- 
2.43.0


From 6b256bcd05f4323fc85404f02683e07c10a182d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:09 +0000
Subject: [PATCH 29/37] fix: report divisions by zero and negative sizes in
 type level arithmetic instead of panicking

---
 spade-typeinference/src/constraints.rs       | 19 +++++++++++++------
 spade-typeinference/src/mir_type_lowering.rs | 20 ++++++++++++++++----
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/spade-typeinference/src/constraints.rs b/spade-typeinference/src/constraints.rs
index d142e8e..059f252 100644
--- a/spade-typeinference/src/constraints.rs
+++ b/spade-typeinference/src/constraints.rs
@@ -1,4 +1,4 @@
-use num::{BigInt, Signed};
+use num::{BigInt, Signed, Zero};
 use serde::{Deserialize, Serialize};
 use spade_common::{
     location_info::{Loc, WithLocation},
@@ -174,6 +174,14 @@ impl ConstraintExpr {
                     _ => self.clone(),
                 }
             };
+        // Division by zero has no value, so the constraint stays unresolved
+        let int_division =
+            |lhs: &ConstraintExpr, rhs: &ConstraintExpr, op: &dyn Fn(BigInt, BigInt) -> BigInt| {
+                match rhs.evaluate(type_state) {
+                    ConstraintExpr::Integer(r) if r.is_zero() => self.clone(),
+                    _ => int_binop(lhs, rhs, op),
+                }
+            };
         let bool_binop = |lhs: &ConstraintExpr,
                           rhs: &ConstraintExpr,
                           op: &dyn Fn(bool, bool) -> bool| {
@@ -194,21 +202,20 @@ impl ConstraintExpr {
                     KnownType::Bool(b) => ConstraintExpr::Bool(b.clone()),
                     KnownType::String(s) => ConstraintExpr::String(s.clone()),
                     KnownType::Error => self.clone(),
+                    // Types have no value, so the constraint stays unresolved
                     KnownType::Named(_)
                     | KnownType::Tuple
                     | KnownType::Array
                     | KnownType::Inverted
-                    | KnownType::CopyView => {
-                        panic!("Inferred non-integer or bool for constraint variable")
-                    }
+                    | KnownType::CopyView => self.clone(),
                 },
                 TypeVar::Unknown(_, _, _, _) => self.clone(),
             },
             ConstraintExpr::Sum(lhs, rhs) => int_binop(lhs, rhs, &|l, r| l + r),
             ConstraintExpr::Difference(lhs, rhs) => int_binop(lhs, rhs, &|l, r| l - r),
             ConstraintExpr::Product(lhs, rhs) => int_binop(lhs, rhs, &|l, r| l * r),
-            ConstraintExpr::Div(lhs, rhs) => int_binop(lhs, rhs, &|l, r| l / r),
-            ConstraintExpr::Mod(lhs, rhs) => int_binop(lhs, rhs, &|l, r| l % r),
+            ConstraintExpr::Div(lhs, rhs) => int_division(lhs, rhs, &|l, r| l / r),
+            ConstraintExpr::Mod(lhs, rhs) => int_division(lhs, rhs, &|l, r| l % r),
             ConstraintExpr::Sub(inner) => match inner.evaluate(type_state) {
                 ConstraintExpr::Integer(val) => ConstraintExpr::Integer(-val),
                 _ => self.clone(),
diff --git a/spade-typeinference/src/mir_type_lowering.rs b/spade-typeinference/src/mir_type_lowering.rs
index b5c91c6..f79e4a2 100644
--- a/spade-typeinference/src/mir_type_lowering.rs
+++ b/spade-typeinference/src/mir_type_lowering.rs
@@ -2,6 +2,7 @@ use rustc_hash::FxHashMap as HashMap;
 
 use hir::symbol_table::SymbolTable;
 use hir::{Parameter, TypeExpression, TypeSpec};
+use num::Signed;
 use spade_common::id_tracker::ExprID;
 use spade_common::location_info::{Loc, WithLocation};
 use spade_common::name::NameID;
@@ -9,6 +10,7 @@ use spade_diagnostics::Diagnostic;
 use spade_hir::pretty_print::PrettyPrint;
 use spade_hir::{self as hir, ConstGenericWithId, Generic};
 use spade_hir::{TypeDeclaration, TypeList};
+use spade_types::meta_types::MetaType;
 use spade_types::{ConcreteType, KnownType, PrimitiveType};
 
 use crate::TypeState;
@@ -287,9 +289,19 @@ impl TypeState {
                     .map(|v| self.inner_ungenerify_type(v, symtab, type_list))
                     .collect::<Option<Vec<_>>>()?;
 
-                type_list
-                    .get(&t)
-                    .map(|t| Self::type_decl_to_concrete(&t.inner, type_list, params))
+                let decl = type_list.get(&t)?;
+
+                // Sizes computed from other sizes can turn out negative, no such type exists
+                let has_negative_size =
+                    decl.generic_args.iter().zip(&params).any(|(arg, param)| {
+                        arg.meta == MetaType::Uint
+                            && matches!(param, ConcreteType::Integer(val) if val.is_negative())
+                    });
+                if has_negative_size {
+                    return None;
+                }
+
+                Some(Self::type_decl_to_concrete(&decl.inner, type_list, params))
             }
             TypeVar::Known(_, KnownType::Integer(val), params) => {
                 assert!(params.is_empty(), "integers cannot have type parameters");
@@ -323,7 +335,7 @@ impl TypeState {
                 });
 
                 match (value, size) {
-                    (Some(value), Some(size)) => Some(ConcreteType::Array {
+                    (Some(value), Some(size)) if !size.is_negative() => Some(ConcreteType::Array {
                         inner: Box::new(value),
                         size,
                     }),
-- 
2.43.0


From ecfec7f84c2c20741b298b7a28c7e2aab34b0f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:08 +0000
Subject: [PATCH 30/37] fix: evaluate unsigned arithmetic and indexing in
 initial values

---
 spade-mir/src/eval.rs | 132 ++++++++++++++++++++++++++++++++----------
 1 file changed, 102 insertions(+), 30 deletions(-)

diff --git a/spade-mir/src/eval.rs b/spade-mir/src/eval.rs
index 7c72362..4d99184 100644
--- a/spade-mir/src/eval.rs
+++ b/spade-mir/src/eval.rs
@@ -1,6 +1,8 @@
 use itertools::Itertools;
 use num::BigInt;
 use num::BigUint;
+use num::CheckedSub;
+use num::Integer;
 use num::ToPrimitive;
 use num::Zero;
 use num::range;
@@ -29,16 +31,63 @@ pub enum Value {
 }
 
 impl Value {
-    pub fn assume_int(&self) -> BigInt {
+    /// The value as an integer, or None if (a part of) it is undefined. Panics on values which
+    /// aren't integers
+    fn as_integer(&self) -> Option<BigInt> {
         match self {
-            Value::Int { val, .. } => val.clone(),
-            other => panic!("Assumed value to be int, was {other:?}"),
+            Value::Int { val, .. } => Some(val.clone()),
+            Value::UInt { val, .. } => Some(BigInt::from(val.clone())),
+            Value::Undef(_) => None,
+            other => panic!("Assumed value to be an integer, was {other:?}"),
         }
     }
-    pub fn assume_uint(&self) -> BigUint {
-        match self {
-            Value::UInt { val, .. } => val.clone(),
-            other => panic!("Assumed value to be uint, was {other:?}"),
+
+    /// The value of an integer expression of the specified type, wrapped to the size of the type
+    fn integer(ty: &Type, val: Option<BigInt>) -> Self {
+        let size = ty.size();
+        let Some(val) = val else {
+            return Value::Undef(size);
+        };
+        let bits = size
+            .to_usize()
+            .unwrap_or_else(|| panic!("Variable size {size} is too large to fit a 'usize'"));
+        let modulus = BigInt::from(1) << bits;
+        let wrapped = val.mod_floor(&modulus);
+        match ty {
+            Type::UInt(_) => Value::UInt {
+                size,
+                val: wrapped
+                    .to_biguint()
+                    .expect("the result of mod_floor is positive"),
+            },
+            _ => Value::Int {
+                size,
+                val: if &wrapped * 2 >= modulus {
+                    wrapped - modulus
+                } else {
+                    wrapped
+                },
+            },
+        }
+    }
+
+    /// The value of the specified type which is stored in `bits`, as returned by `as_string`
+    fn from_bits(ty: &Type, bits: &str) -> Self {
+        let undefined = || Value::Undef(bits.len().into());
+        match ty {
+            Type::Int(_) | Type::UInt(_) if bits.contains('X') => undefined(),
+            Type::Int(_) | Type::UInt(_) => Value::integer(
+                ty,
+                Some(BigInt::parse_bytes(bits.as_bytes(), 2).unwrap_or_default()),
+            ),
+            _ => Value::Concat(
+                bits.chars()
+                    .map(|bit| match bit {
+                        'X' => Value::Undef(1u32.to_biguint()),
+                        bit => Value::Bit(bit == '1'),
+                    })
+                    .collect(),
+            ),
         }
     }
 
@@ -160,7 +209,7 @@ impl Value {
                 let mut current = 0u32.to_biguint();
 
                 for next in inner {
-                    current = (current << next.width().to_u64().unwrap()) + next.as_u64()
+                    current = (current << next.width().to_u64().unwrap()) + next.as_u32_chunks()
                 }
                 current
             }
@@ -226,23 +275,17 @@ pub fn eval_statements(statements: &[Loc<Statement>]) -> Value {
 
                 name_types.insert(name.inner.clone(), ty.clone());
 
+                let integer_operand = |i: usize| name_vals[&ops[i]].as_integer();
+
                 let val = match operator {
-                    Operator::Add => Value::Int {
-                        size: ty.size(),
-                        val: name_vals[&ops[0]].assume_int() + name_vals[&ops[1]].assume_int(),
-                    },
-                    Operator::UnsignedAdd => Value::UInt {
-                        size: ty.size(),
-                        val: name_vals[&ops[0]].assume_uint() + name_vals[&ops[1]].assume_uint(),
-                    },
-                    Operator::Sub => Value::Int {
-                        size: ty.size(),
-                        val: name_vals[&ops[0]].assume_int() - name_vals[&ops[1]].assume_int(),
-                    },
-                    Operator::UnsignedSub => Value::UInt {
-                        size: ty.size(),
-                        val: name_vals[&ops[0]].assume_uint() - name_vals[&ops[1]].assume_uint(),
-                    },
+                    Operator::Add | Operator::UnsignedAdd => {
+                        let (l, r) = (integer_operand(0), integer_operand(1));
+                        Value::integer(ty, l.zip(r).map(|(l, r)| l + r))
+                    }
+                    Operator::Sub | Operator::UnsignedSub => {
+                        let (l, r) = (integer_operand(0), integer_operand(1));
+                        Value::integer(ty, l.zip(r).map(|(l, r)| l - r))
+                    }
                     Operator::Mul => todo!(),
                     Operator::UnsignedMul => todo!(),
                     Operator::Div => todo!(),
@@ -269,10 +312,7 @@ pub fn eval_statements(statements: &[Loc<Statement>]) -> Value {
                     Operator::BitwiseAnd => todo!(),
                     Operator::BitwiseOr => todo!(),
                     Operator::BitwiseXor => todo!(),
-                    Operator::USub => Value::Int {
-                        size: ty.size(),
-                        val: -name_vals[&ops[0]].assume_int(),
-                    },
+                    Operator::USub => Value::integer(ty, integer_operand(0).map(|val| -val)),
                     Operator::Not => todo!(),
                     Operator::BitwiseNot => todo!(),
                     Operator::DivPow2 => todo!(),
@@ -289,7 +329,24 @@ pub fn eval_statements(statements: &[Loc<Statement>]) -> Value {
                         Value::Concat(ops.iter().rev().map(|op| name_vals[op].clone()).collect())
                     }
                     Operator::DeclClockedMemory { .. } => todo!(),
-                    Operator::IndexArray => todo!(),
+                    Operator::IndexArray => {
+                        let bits = name_vals[&ops[0]].as_string();
+                        let width = ty.size();
+                        // The first element is stored in the least significant bits
+                        let end = integer_operand(1)
+                            .and_then(|index| index.to_biguint())
+                            .and_then(|index| {
+                                BigUint::from(bits.len()).checked_sub(&(index * &width))
+                            })
+                            .and_then(|end| end.to_usize());
+                        let start = end
+                            .zip(width.to_usize())
+                            .and_then(|(end, width)| end.checked_sub(width));
+                        match start.zip(end) {
+                            Some((start, end)) => Value::from_bits(ty, &bits[start..end]),
+                            None => Value::Undef(width),
+                        }
+                    }
                     Operator::IndexMemory => todo!(),
                     Operator::RangeIndexArray { .. } => todo!(),
                     Operator::RangeIndexBits { .. } => todo!(),
@@ -332,7 +389,22 @@ pub fn eval_statements(statements: &[Loc<Statement>]) -> Value {
                     }
                     Operator::IsEnumVariant { .. } => todo!(),
                     Operator::EnumMember { .. } => todo!(),
-                    Operator::IndexTuple(_) => todo!(),
+                    Operator::IndexTuple(index) => {
+                        let bits = name_vals[&ops[0]].as_string();
+                        let members = match &name_types[&ops[0]] {
+                            Type::Tuple(members) => members.iter().collect::<Vec<_>>(),
+                            Type::Struct(members) => members.iter().map(|(_, ty)| ty).collect(),
+                            other => panic!("Attempted tuple indexing of {other}"),
+                        };
+                        let widths = members
+                            .iter()
+                            .map(|member| member.size().to_usize())
+                            .collect::<Option<Vec<_>>>()
+                            .expect("Tuple members are too large to fit a 'usize'");
+                        let index = *index as usize;
+                        let start = widths[..index].iter().sum::<usize>();
+                        Value::from_bits(ty, &bits[start..start + widths[index]])
+                    }
                     Operator::ReadPort => todo!(),
                     Operator::ReadWriteItemsInOut(_) => todo!(),
                     Operator::FlipPort => todo!(),
-- 
2.43.0


From 91aa053814ca5fd2d3cb1c87c92454a89bf4ce3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:08 +0000
Subject: [PATCH 31/37] fix: do not panic on aliases of types whose
 declarations have errors

---
 spade-ast-lowering/src/auto_traits.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/spade-ast-lowering/src/auto_traits.rs b/spade-ast-lowering/src/auto_traits.rs
index 2bc9022..7b7fa91 100644
--- a/spade-ast-lowering/src/auto_traits.rs
+++ b/spade-ast-lowering/src/auto_traits.rs
@@ -64,9 +64,9 @@ impl TyExt for Loc<TypeSpec> {
                 inner.get_copy_witness(ctx).map(|w| w.recurse(&self.loc()))
             }
             TypeSpec::Declared(base, params) => {
-                let Some(ty) = ctx.item_list.types.get(base).cloned() else {
-                    unreachable!()
-                };
+                // Types whose declarations have errors are not in the list, the errors are
+                // reported with the declarations
+                let ty = ctx.item_list.types.get(base).cloned()?;
 
                 ty.get_copy_witness(ctx).or_else(|| {
                     params
@@ -103,9 +103,9 @@ impl TyExt for Loc<TypeSpec> {
                 inner.get_data_witness(ctx).map(|w| w.recurse(&self.loc()))
             }
             TypeSpec::Declared(base, params) => {
-                let Some(ty) = ctx.item_list.types.get(base).cloned() else {
-                    unreachable!()
-                };
+                // Types whose declarations have errors are not in the list, the errors are
+                // reported with the declarations
+                let ty = ctx.item_list.types.get(base).cloned()?;
 
                 ty.get_data_witness(ctx).or_else(|| {
                     params
-- 
2.43.0


From 9de7da061b928a111f25904848ec6aaedac40203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:27 +0000
Subject: [PATCH 32/37] fix: report violated constraints found while checking
 literals, labels and memories instead of panicking

---
 spade-typeinference/src/expression.rs | 14 ++++++--------
 spade-typeinference/src/lib.rs        | 24 ++++++++++++------------
 2 files changed, 18 insertions(+), 20 deletions(-)

diff --git a/spade-typeinference/src/expression.rs b/spade-typeinference/src/expression.rs
index 645e097..2f937a2 100644
--- a/spade-typeinference/src/expression.rs
+++ b/spade-typeinference/src/expression.rs
@@ -128,8 +128,8 @@ impl TypeState {
                         self.owned.trace_stack.push(|| TraceStackEntry::RecoveringPipelineLabel(name.inner.clone(), var.debug_resolve(self)));
                         var
                     };
-                    // NOTE: Safe unwrap, depth is fresh
-                    self.unify(&depth, &var, ctx).unwrap()
+                    self.unify(&depth, &var, ctx)
+                        .into_default_diagnostic(stage, self)?
                 },
                 spade_hir::expression::PipelineRefKind::Relative(expr) => {
                     let expr_var = self.hir_type_expr_to_var(expr, generic_list, ctx)?;
@@ -145,8 +145,8 @@ impl TypeState {
                         &total_offset,
                         ConstraintSource::PipelineRegOffset{reg: expr.loc(), total: self.get_pipeline_state(expr)?.total_depth.loc()}
                     );
-                    // Safe unwrap, depth is a fresh type var
-                    self.unify(&depth, &total_offset, ctx).unwrap()
+                    self.unify(&depth, &total_offset, ctx)
+                        .into_default_diagnostic(stage, self)?
                 },
             };
 
@@ -182,23 +182,21 @@ impl TypeState {
                 IntLiteralKind::Unsized => self.new_generic_number(expression.loc(), ctx),
                 IntLiteralKind::Signed(size) => {
                     let (t, size_var) = self.new_split_generic_int(expression.loc(), ctx.symtab);
-                    // NOTE: Safe unwrap, we're unifying a generic int with a size
                     if let Some(sz) = size {
                         size_var
                             .unify_with(&self.new_concrete_int(sz.clone(), expression.loc()), self)
                             .commit(self, ctx)
-                            .unwrap();
+                            .into_default_diagnostic(expression, self)?;
                     }
                     (t, size_var)
                 },
                 IntLiteralKind::Unsigned(size) => {
                     let (t, size_var) = self.new_split_generic_uint(expression.loc(), ctx.symtab);
-                    // NOTE: Safe unwrap, we're unifying a generic int with a size
                     if let Some(sz) = size {
                         size_var
                             .unify_with(&self.new_concrete_int(sz.clone(), expression.loc()), self)
                             .commit(self, ctx)
-                            .unwrap();
+                            .into_default_diagnostic(expression, self)?;
                     }
                     (t, size_var)
                 }
diff --git a/spade-typeinference/src/lib.rs b/spade-typeinference/src/lib.rs
index faaf5fb..06dade9 100644
--- a/spade-typeinference/src/lib.rs
+++ b/spade-typeinference/src/lib.rs
@@ -1235,7 +1235,7 @@ impl TypeState {
                 new_type
                     .unify_with(&self.t_err(expression.loc()), self)
                     .commit(self, ctx)
-                    .unwrap();
+                    .into_default_diagnostic(expression, self)?;
             }
             ExprKind::Identifier(_) => self.visit_identifier(expression, ctx)?,
             ExprKind::TypeLevelBool(_) => {
@@ -1266,7 +1266,7 @@ impl TypeState {
                 new_type
                     .unify_with(&self.t_err(expression.loc()), self)
                     .commit(self, ctx)
-                    .unwrap();
+                    .into_default_diagnostic(expression, self)?;
             }
             ExprKind::FieldAccess(_, _) => {
                 self.visit_field_access(expression, ctx, generic_list)?
@@ -1374,10 +1374,11 @@ impl TypeState {
             match self.visit_expression_result(expression, ctx, generic_list, new_type) {
                 Ok(_) => {}
                 Err(e) => {
-                    new_type
+                    // NOTE: The unification can fail on an unrelated constraint, but `e` is
+                    // reported in any case
+                    let _ = new_type
                         .unify_with(&self.t_err(expression.loc()), self)
-                        .commit(self, ctx)
-                        .unwrap();
+                        .commit(self, ctx);
 
                     self.owned.diags.errors.push(e);
                 }
@@ -1701,8 +1702,8 @@ impl TypeState {
             ConstraintSource::MemoryIndexing,
         );
 
-        // NOTE: Unwrap is safe, size is still generic at this point
-        self.unify(&addr_size, &addr_size_arg, ctx).unwrap();
+        self.unify(&addr_size, &addr_size_arg, ctx)
+            .into_default_diagnostic(args[1].value, self)?;
         self.unify_expression_generic_error(args[1].value, &port_type, ctx)?;
 
         Ok(())
@@ -1725,8 +1726,8 @@ impl TypeState {
             ConstraintSource::MemoryIndexing,
         );
 
-        // NOTE: Unwrap is safe, size is still generic at this point
-        self.unify(&addr_size, &addr_size_arg, ctx).unwrap();
+        self.unify(&addr_size, &addr_size_arg, ctx)
+            .into_default_diagnostic(args[1].value, self)?;
 
         Ok(())
     }
@@ -2378,7 +2379,7 @@ impl TypeState {
                     current_stage_depth
                         .unify_with(&self.t_err(stmt.loc()), self)
                         .commit(self, ctx)
-                        .unwrap();
+                        .into_default_diagnostic(stmt, self)?;
                 }
                 Ok(())
             }
@@ -2505,13 +2506,12 @@ impl TypeState {
                     });
                     var
                 };
-                // Safe unwrap, unifying with a fresh var
                 self.unify(
                     &var,
                     &self.get_pipeline_state(name)?.current_stage_depth.clone(),
                     ctx,
                 )
-                .unwrap();
+                .into_default_diagnostic(name, self)?;
                 Ok(())
             }
             Statement::Assert(expr) => {
-- 
2.43.0


From fc8f765c218bfd06150a26c2d1d34d1d8cc13ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:34 +0000
Subject: [PATCH 33/37] fix: reject registers holding inverted values in nested
 blocks instead of panicking

---
 spade-typeinference/src/lib.rs | 86 +++++++++++++++++++++++++---------
 1 file changed, 64 insertions(+), 22 deletions(-)

diff --git a/spade-typeinference/src/lib.rs b/spade-typeinference/src/lib.rs
index 06dade9..0dd93b7 100644
--- a/spade-typeinference/src/lib.rs
+++ b/spade-typeinference/src/lib.rs
@@ -889,12 +889,19 @@ impl TypeState {
             Statement::Binding(Binding {
                 pattern,
                 ty: _,
-                value: _,
+                value,
             }) => {
+                self.nested_data_constraints(value, ctx)?;
                 self.pattern_data_constraint(pattern, pipeline_loc, ctx)?;
             }
             Statement::Expression(e) => self.expression_data_constraints(e, pipeline_loc, ctx)?,
             Statement::Register(reg) => {
+                self.nested_data_constraints(&reg.value, ctx)?;
+                if let Some((trigger, value)) = &reg.reset {
+                    self.nested_data_constraints(trigger, ctx)?;
+                    self.nested_data_constraints(value, ctx)?;
+                }
+
                 TypedExpression::Id(reg.value.id)
                     .unify_with(&self.new_generic_data(reg.keyword, ctx), self)
                     .commit(self, ctx)
@@ -918,8 +925,11 @@ impl TypeState {
                 // A pipeline register on its own is OK because it itself has no data
             }
             Statement::Label(_) => {}
-            Statement::Assert(_) => {}
-            Statement::Set { .. } => {}
+            Statement::Assert(expr) => self.nested_data_constraints(expr, ctx)?,
+            Statement::Set { target, value } => {
+                self.nested_data_constraints(target, ctx)?;
+                self.nested_data_constraints(value, ctx)?;
+            }
         }
         Ok(())
     }
@@ -999,8 +1009,6 @@ impl TypeState {
         Ok(())
     }
 
-    /// Relies on the ast lowering pass disallowing any statements which contains data requirements
-    /// in non-root blocks.
     fn expression_data_constraints(
         &mut self,
         expr: &Loc<Expression>,
@@ -1027,10 +1035,14 @@ impl TypeState {
             }
 
             ExprKind::If {
-                cond: _,
+                cond,
                 on_true,
-                on_false: _,
+                on_false,
             } => {
+                self.nested_data_constraints(cond, ctx)?;
+                self.nested_data_constraints(on_true, ctx)?;
+                self.nested_data_constraints(on_false, ctx)?;
+
                 TypedExpression::Id(on_true.id)
                     .unify_with(&self.new_generic_data(on_true.loc(), ctx), self)
                     .commit(self, ctx)
@@ -1050,7 +1062,15 @@ impl TypeState {
                     )?;
             }
 
-            ExprKind::Match(_, branches) => {
+            ExprKind::Match(target, branches) => {
+                self.nested_data_constraints(target, ctx)?;
+                for (_pat, cond, value) in branches {
+                    if let Some(cond) = cond {
+                        self.nested_data_constraints(cond, ctx)?;
+                    }
+                    self.nested_data_constraints(value, ctx)?;
+                }
+
                 if let Some((_pat, _cond, value)) = branches.first() {
                     TypedExpression::Id(value.id)
                     .unify_with(&self.new_generic_data(expr.loc(), ctx), self)
@@ -1079,30 +1099,52 @@ impl TypeState {
             | ExprKind::TriLiteral(_)
             | ExprKind::TypeLevelBool(_)
             | ExprKind::TypeLevelInteger(_)
-            | ExprKind::TupleLiteral(_)
-            | ExprKind::ArrayLiteral(_)
-            | ExprKind::ArrayShorthandLiteral(_, _)
-            | ExprKind::Index(_, _)
-            | ExprKind::RangeIndex { .. }
-            | ExprKind::TupleIndex(_, _)
-            | ExprKind::FieldAccess(_, _)
-            | ExprKind::TypeCast(_, _)
-            | ExprKind::MethodCall { .. }
-            | ExprKind::Call { .. }
-            | ExprKind::AssociatedCall { .. }
-            | ExprKind::BinaryOperator(_, _, _)
-            | ExprKind::UnaryOperator(_, _)
             | ExprKind::PipelineRef { .. }
-            | ExprKind::LambdaDef { .. }
             | ExprKind::StageValid
             | ExprKind::StageReady
             | ExprKind::StaticUnreachable(_)
             | ExprKind::Incomplete(_, _)
             | ExprKind::Null => {}
+
+            ExprKind::TupleLiteral(inner) | ExprKind::ArrayLiteral(inner) => {
+                for expr in inner {
+                    self.nested_data_constraints(expr, ctx)?;
+                }
+            }
+            ExprKind::ArrayShorthandLiteral(inner, _)
+            | ExprKind::RangeIndex { target: inner, .. }
+            | ExprKind::TupleIndex(inner, _)
+            | ExprKind::FieldAccess(inner, _)
+            | ExprKind::TypeCast(inner, _)
+            | ExprKind::UnaryOperator(_, inner)
+            | ExprKind::LambdaDef { body: inner, .. } => {
+                self.nested_data_constraints(inner, ctx)?;
+            }
+            ExprKind::Index(lhs, rhs) | ExprKind::BinaryOperator(lhs, _, rhs) => {
+                self.nested_data_constraints(lhs, ctx)?;
+                self.nested_data_constraints(rhs, ctx)?;
+            }
+            ExprKind::MethodCall { target, args, .. } => {
+                self.nested_data_constraints(target, ctx)?;
+                for arg in args.expressions() {
+                    self.nested_data_constraints(arg, ctx)?;
+                }
+            }
+            ExprKind::Call { args, .. } | ExprKind::AssociatedCall { args, .. } => {
+                for arg in args.expressions() {
+                    self.nested_data_constraints(arg, ctx)?;
+                }
+            }
         };
         Ok(())
     }
 
+    /// Applies the data constraints of an expression which is not the body of a unit. There are no
+    /// pipeline stages in its blocks, so what is bound in them is not pipelined
+    fn nested_data_constraints(&mut self, expr: &Loc<Expression>, ctx: &Context) -> Result<()> {
+        self.expression_data_constraints(expr, &None, ctx)
+    }
+
     fn setup_pipeline_state(
         &mut self,
         unit_kind: &Loc<UnitKind>,
-- 
2.43.0


From 9d62f3897f5e47165b72367af99c2f60b6073c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:59 +0000
Subject: [PATCH 34/37] fix: reject negative sizes in struct and enum members
 instead of panicking

---
 spade-ast-lowering/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/spade-ast-lowering/src/lib.rs b/spade-ast-lowering/src/lib.rs
index e452a74..0f8d549 100644
--- a/spade-ast-lowering/src/lib.rs
+++ b/spade-ast-lowering/src/lib.rs
@@ -22,7 +22,7 @@ use global_symbols::visit_meta_type;
 use impls::visit_impl;
 use itertools::Itertools;
 use lambda::visit_lambda;
-use num::{BigInt, BigUint, FromPrimitive, Zero};
+use num::{BigInt, BigUint, FromPrimitive, Signed, Zero};
 use pipelines::PipelineContext;
 use recursive::recursive;
 use spade_diagnostics::diag_list::{DiagList, ResultExt};
@@ -374,7 +374,13 @@ fn check_meta_type(
     ctx: &Context,
 ) -> Result<()> {
     let found = match &expr.inner {
-        hir::TypeExpression::Integer(_) => MetaType::Number,
+        hir::TypeExpression::Integer(val) => match kind {
+            TypeSpecKind::StructMember | TypeSpecKind::EnumMember if val.is_negative() => {
+                MetaType::Int
+            }
+            // The type checker rejects negative sizes in units
+            _ => MetaType::Number,
+        },
         hir::TypeExpression::Bool(_) => MetaType::Bool,
         hir::TypeExpression::String(_) => MetaType::Str,
         hir::TypeExpression::ConstGeneric(_)
-- 
2.43.0


From 2ce2c3e0e5e7d904bda4f847472ff8c2fec29ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:52 +0000
Subject: [PATCH 35/37] fix: never give two things in a Verilog module the same
 name

---
 spade-mir/src/codegen/mod.rs | 13 ++---
 spade-mir/src/renaming.rs    | 94 ++++++++++++++++++++++++++++++------
 spade-mir/src/unit_name.rs   | 19 +++++++-
 3 files changed, 102 insertions(+), 24 deletions(-)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index 116b37b..6a0ed1f 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -1461,19 +1461,20 @@ pub fn entity_code(
         (None, None)
     };
 
+    let mut body = Code::new();
+
+    for stmt in &entity.statements {
+        body.join(&statement_declaration(stmt, source_code, &mut name_map))
+    }
+
     let mut ctx = Context {
         types,
         source_code,
-        instance_names: &mut InstanceNameTracker::new(),
+        instance_names: &mut InstanceNameTracker::avoiding(name_map.names()),
         instance_map,
         unit_nameid: &entity.name.source,
     };
 
-    let mut body = Code::new();
-
-    for stmt in &entity.statements {
-        body.join(&statement_declaration(stmt, source_code, &mut name_map))
-    }
     for stmt in &entity.statements {
         body.join(&statement_code(stmt, &mut ctx))
     }
diff --git a/spade-mir/src/renaming.rs b/spade-mir/src/renaming.rs
index a371af2..e7e017e 100644
--- a/spade-mir/src/renaming.rs
+++ b/spade-mir/src/renaming.rs
@@ -1,4 +1,5 @@
-use rustc_hash::FxHashMap as HashMap;
+use num::{BigUint, Zero};
+use rustc_hash::{FxHashMap as HashMap, FxHashSet as HashSet};
 use serde::{Deserialize, Serialize};
 use spade_common::{
     id_tracker::ExprID,
@@ -6,6 +7,8 @@ use spade_common::{
     name::NameID,
 };
 
+use crate::codegen::util::{mangle_input, mangle_output};
+use crate::types::Type;
 use crate::{Binding, Entity, MirInput, Register, ValueName};
 
 /// Mapping from verilog name back to the corresponding NameID
@@ -38,6 +41,11 @@ impl VerilogNameMap {
         );
     }
 
+    /// All names which are used in the Verilog, without escape characters
+    pub fn names(&self) -> impl Iterator<Item = &str> {
+        self.inner.keys().map(String::as_str)
+    }
+
     pub fn lookup_name(&self, name: &str) -> Option<&VerilogNameSource> {
         self.inner.get(name)
     }
@@ -53,8 +61,10 @@ pub enum VerilogNameSource {
 
 #[derive(Clone)]
 pub struct NameState {
-    /// Mapping between names and the amount of copies of that name we've seen so far
+    /// The next ID to try for each name
     names: HashMap<String, u64>,
+    /// Names in the Verilog which are taken, without escape characters
+    taken: HashSet<String>,
     /// Mapping between ValueName and predictable name
     name_map: HashMap<Loc<ValueName>, Loc<ValueName>>,
 }
@@ -69,20 +79,47 @@ impl NameState {
     pub fn new() -> NameState {
         Self {
             names: HashMap::default(),
+            taken: HashSet::default(),
             name_map: HashMap::default(),
         }
     }
 
-    pub fn push(&mut self, name: &Loc<ValueName>) {
+    /// Ensures that no `Named` value which is pushed after this gets the specified name
+    fn reserve(&mut self, name: &str) {
+        self.taken.insert(name.to_string());
+    }
+
+    /// Names the specified value will have in the Verilog
+    fn verilog_names(name: &ValueName, ty: &Type) -> Vec<String> {
+        let mut result = vec![name.unescaped_var_name()];
+        if ty.backward_size() != BigUint::zero() {
+            result.push(
+                name.backward_var_name()
+                    .trim_start_matches('\\')
+                    .trim_end_matches(' ')
+                    .to_string(),
+            )
+        }
+        result
+    }
+
+    pub fn push(&mut self, name: &Loc<ValueName>, ty: &Type) {
         let new_name = match &name.inner {
             ValueName::Named(_, name_str, source) => {
-                let id = self
-                    .names
-                    .entry(name_str.clone())
-                    .and_modify(|v| *v += 1)
-                    .or_insert(0);
+                let mut id = self.names.get(name_str).copied().unwrap_or(0);
 
-                ValueName::Named(*id, name_str.clone(), source.clone())
+                // The human readable name can be the same as a name generated from another one
+                let new_name = loop {
+                    let candidate = ValueName::Named(id, name_str.clone(), source.clone());
+                    id += 1;
+                    let verilog_names = Self::verilog_names(&candidate, ty);
+                    if verilog_names.iter().all(|n| !self.taken.contains(n)) {
+                        self.taken.extend(verilog_names);
+                        break candidate;
+                    }
+                };
+                self.names.insert(name_str.clone(), id);
+                new_name
             }
             v @ ValueName::Expr(_) => v.clone(),
         }
@@ -114,8 +151,33 @@ pub fn make_names_predictable(e: &mut Entity) -> NameState {
             inline: _,
         } = e;
 
-        for input in inputs {
-            state.push(&input.clone().val_name);
+        // The ports and the unnamed values have names which can not be changed
+        state.reserve("output__");
+        state.reserve("input__");
+        for input in inputs.iter().filter(|input| input.no_mangle.is_none()) {
+            state.reserve(&mangle_input(&None, &input.name));
+            if input.ty.backward_size() != BigUint::zero() {
+                state.reserve(&mangle_output(&None, &input.name));
+            }
+        }
+        for stmt in statements.iter() {
+            if let crate::Statement::Binding(Binding { name, ty, .. })
+            | crate::Statement::Register(Register { name, ty, .. })
+            | crate::Statement::Constant(name, ty, _) = &stmt.inner
+            {
+                if let ValueName::Expr(_) = &name.inner {
+                    for name in NameState::verilog_names(name, ty) {
+                        state.reserve(&name)
+                    }
+                }
+            }
+        }
+
+        // Unmangled ports share their names with their values, those have to come first
+        let (unmangled, mangled): (Vec<_>, Vec<_>) =
+            inputs.iter().partition(|input| input.no_mangle.is_some());
+        for input in unmangled.into_iter().chain(mangled) {
+            state.push(&input.val_name, &input.ty);
         }
 
         for stmt in statements {
@@ -124,19 +186,19 @@ pub fn make_names_predictable(e: &mut Entity) -> NameState {
                     name,
                     operator: _,
                     operands: _,
-                    ty: _,
+                    ty,
                     loc: _,
-                }) => state.push(name),
+                }) => state.push(name, ty),
                 crate::Statement::Register(Register {
                     name,
-                    ty: _,
+                    ty,
                     clock: _,
                     reset: _,
                     initial: _,
                     value: _,
                     loc: _,
-                }) => state.push(name),
-                crate::Statement::Constant(name, _, _) => state.push(name),
+                }) => state.push(name, ty),
+                crate::Statement::Constant(name, ty, _) => state.push(name, ty),
                 crate::Statement::Assert(_) => {}
                 crate::Statement::Set {
                     target: _,
diff --git a/spade-mir/src/unit_name.rs b/spade-mir/src/unit_name.rs
index a48f1f0..a102dbd 100644
--- a/spade-mir/src/unit_name.rs
+++ b/spade-mir/src/unit_name.rs
@@ -1,4 +1,4 @@
-use std::collections::{BTreeMap, HashMap};
+use std::collections::{BTreeMap, HashMap, HashSet};
 
 use derive_where::derive_where;
 use itertools::Itertools;
@@ -63,6 +63,8 @@ impl InstanceMap {
 
 pub struct InstanceNameTracker {
     previous_names: HashMap<String, usize>,
+    /// Names which are used for other things than instances in the module
+    taken: HashSet<String>,
 }
 
 impl Default for InstanceNameTracker {
@@ -75,6 +77,15 @@ impl InstanceNameTracker {
     pub fn new() -> Self {
         Self {
             previous_names: HashMap::new(),
+            taken: HashSet::new(),
+        }
+    }
+
+    /// Ensures that no instances get any of the specified names
+    pub fn avoiding<'a>(names: impl Iterator<Item = &'a str>) -> Self {
+        Self {
+            taken: names.map(str::to_string).collect(),
+            ..Self::new()
         }
     }
 
@@ -93,8 +104,12 @@ impl InstanceNameTracker {
             .previous_names
             .entry(instance_name.to_string())
             .or_default();
-        let result = format!("{instance_name}_{e}");
+        let mut result = format!("{instance_name}_{e}");
         *e += 1;
+        while self.taken.contains(&result) {
+            result = format!("{instance_name}_{e}");
+            *e += 1;
+        }
 
         map.inner
             .entry(in_unit)
-- 
2.43.0


From f24376205bb33a6f1fdc93c7126097ed399e53cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:14 +0000
Subject: [PATCH 36/37] fix: do not index one bit wide values when truncating
 and sign extending

---
 spade-mir/src/codegen/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index 6a0ed1f..acfa19b 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -346,6 +346,12 @@ fn forward_expression_code(
                 [0] "end";
             }.to_string()
         }
+        // One bit wide values are scalars, which can not be indexed
+        Operator::Truncate
+            if self_type.size() == BigUint::one() && types[&ops[0]].size() == BigUint::one() =>
+        {
+            op_names[0].to_string()
+        }
         Operator::Truncate => {
             format!(
                 "{}[{}:0]",
@@ -371,6 +377,10 @@ fn forward_expression_code(
                     Some(0) => unreachable!(),
                     // A zero size operand has no sign bit to extend and no variable to refer to
                     _ if operand_size == BigUint::ZERO => format!("{extra_bits}'b0"),
+                    // One bit wide values are scalars, which can not be indexed
+                    _ if operand_size == BigUint::one() => {
+                        format!("{{{}{{{}}}}}", self_type.size(), op_names[0])
+                    }
                     Some(1) => format!(
                         "{{{}[{}], {}}}",
                         op_names[0],
-- 
2.43.0


From 033b58ac470ebfaacff6d38cf8aab7442f6c407c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:41 +0000
Subject: [PATCH 37/37] fix: drive array elements of inverted wires once when
 they are indexed several times

---
 spade-mir/src/passes/deduplicate_mut_wires.rs | 28 ++++++++++++-------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/spade-mir/src/passes/deduplicate_mut_wires.rs b/spade-mir/src/passes/deduplicate_mut_wires.rs
index 5cdab6b..8bd8fa5 100644
--- a/spade-mir/src/passes/deduplicate_mut_wires.rs
+++ b/spade-mir/src/passes/deduplicate_mut_wires.rs
@@ -2,7 +2,7 @@ use num::BigUint;
 use rustc_hash::FxHashMap as HashMap;
 use spade_common::location_info::{Loc, WithLocation};
 
-use crate::{Binding, Operator, Statement, ValueName};
+use crate::{Binding, ConstantValue, Operator, Statement, ValueName};
 
 use super::MirPass;
 
@@ -107,10 +107,12 @@ fn op_needs_deduplication(op: &Operator) -> bool {
 }
 
 fn replace_duplicate_mut_wires(stmts: &[Loc<Statement>]) -> Vec<Loc<Statement>> {
-    let mut seen_statements: HashMap<
-        (&Operator, &Vec<Loc<ValueName>>, &crate::types::Type),
-        ValueName,
-    > = HashMap::default();
+    let mut seen_statements: HashMap<(&Operator, Vec<&ValueName>, &crate::types::Type), ValueName> =
+        HashMap::default();
+    // The same constant index can have several names, use the first one when comparing operands
+    let mut seen_constants: HashMap<(&crate::types::Type, &ConstantValue), &ValueName> =
+        HashMap::default();
+    let mut constant_names: HashMap<&ValueName, &ValueName> = HashMap::default();
     let mut replaced_names = HashMap::default();
 
     for stmt in stmts {
@@ -122,9 +124,14 @@ fn replace_duplicate_mut_wires(stmts: &[Loc<Statement>]) -> Vec<Loc<Statement>>
                 ty,
                 loc: _,
             }) => {
+                let operands = operands
+                    .iter()
+                    .map(|op| constant_names.get(&op.inner).copied().unwrap_or(&op.inner))
+                    .collect::<Vec<_>>();
                 // We're only interested in mut wires
                 if ty.backward_size() != BigUint::ZERO && op_needs_deduplication(operator) {
-                    if let Some(prev_name) = seen_statements.get(&(operator, operands, ty)) {
+                    if let Some(prev_name) = seen_statements.get(&(operator, operands.clone(), ty))
+                    {
                         replaced_names.insert(
                             name.clone(),
                             recursive_lookup(&replaced_names, prev_name.clone().at_loc(stmt))
@@ -137,10 +144,11 @@ fn replace_duplicate_mut_wires(stmts: &[Loc<Statement>]) -> Vec<Loc<Statement>>
             Statement::Register(_) => {
                 // Empty, registers cannot contain mut wires
             }
-            Statement::Constant(_, _, _)
-            | Statement::Assert(_)
-            | Statement::Set { .. }
-            | Statement::Error => {}
+            Statement::Constant(name, ty, value) => {
+                let first = *seen_constants.entry((ty, value)).or_insert(&name.inner);
+                constant_names.insert(&name.inner, first);
+            }
+            Statement::Assert(_) | Statement::Set { .. } | Statement::Error => {}
         }
     }
 
-- 
2.43.0

