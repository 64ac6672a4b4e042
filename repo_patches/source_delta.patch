From 7245f3f1d7426d6e3354cc2505e6bf473c7cdb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 01/58] fix: evaluate the whole right hand side before
 assigning the elements of a complex variable

Assigning a complex value element by element made the elements assigned last
read the already overwritten ones, for example in `v[0] = [v[0][1], v[0][0]]`.
---
 .../src/flatten_complex_types.rs              | 72 +++++++++++++++++--
 1 file changed, 67 insertions(+), 5 deletions(-)

diff --git a/zokrates_analysis/src/flatten_complex_types.rs b/zokrates_analysis/src/flatten_complex_types.rs
index 3aa597c..b5acc8c 100644
--- a/zokrates_analysis/src/flatten_complex_types.rs
+++ b/zokrates_analysis/src/flatten_complex_types.rs
@@ -1,4 +1,4 @@
-use std::collections::BTreeMap;
+use std::collections::{BTreeMap, BTreeSet};
 use std::convert::{TryFrom, TryInto};
 use std::marker::PhantomData;
 use std::ops::*;
@@ -14,6 +14,8 @@ use zokrates_field::Field;
 
 #[derive(Default)]
 pub struct Flattener<T: Field> {
+    /// the number of temporary variables introduced so far
+    temporary_count: usize,
     phantom: PhantomData<T>,
 }
 
@@ -184,6 +186,31 @@ impl<'ast, T: Field> Flattener<T> {
         f.fold_program(p)
     }
 
+    // defines a new variable with value `e`, and returns its definition as well as an expression reading it
+    fn define_temporary(
+        &mut self,
+        e: zir::ZirExpression<'ast, T>,
+    ) -> (zir::ZirStatement<'ast, T>, zir::ZirExpression<'ast, T>) {
+        use zir::Typed;
+
+        let id = zir::Identifier::internal(self.temporary_count);
+        self.temporary_count += 1;
+
+        let ty = e.get_type();
+        let value = match ty {
+            zir::Type::FieldElement => zir::FieldElementExpression::identifier(id.clone()).into(),
+            zir::Type::Boolean => zir::BooleanExpression::identifier(id.clone()).into(),
+            zir::Type::Uint(bitwidth) => zir::UExpression::identifier(id.clone())
+                .annotate(bitwidth)
+                .into(),
+        };
+
+        (
+            zir::ZirStatement::definition(zir::Variable::new(id, ty), e),
+            value,
+        )
+    }
+
     fn fold_program(&mut self, p: typed::TypedProgram<'ast, T>) -> zir::ZirProgram<'ast, T> {
         fold_program(self, p)
     }
@@ -577,6 +604,25 @@ impl<'ast, T: Field> Folder<'ast, T> for ArgumentFinder<'ast, T> {
     }
 }
 
+// When assigning `expressions` to `assignees` one after the other, returns whether one of the expressions would read
+// an assignee which was already overwritten
+fn reads_overwritten_assignee<'ast, T: Field>(
+    assignees: &[zir::ZirAssignee<'ast>],
+    expressions: &[zir::ZirExpression<'ast, T>],
+) -> bool {
+    let mut overwritten: BTreeSet<&zir::Identifier<'ast>> = BTreeSet::new();
+
+    assignees.iter().zip(expressions).any(|(a, e)| {
+        let reads_overwritten = !overwritten.is_empty() && {
+            let mut finder = ArgumentFinder::default();
+            finder.fold_expression(e.clone());
+            finder.identifiers.keys().any(|id| overwritten.contains(id))
+        };
+        overwritten.insert(&a.id);
+        reads_overwritten
+    })
+}
+
 fn fold_assembly_statement<'ast, T: Field>(
     f: &mut Flattener<T>,
     statements_buffer: &mut Vec<zir::ZirStatement<'ast, T>>,
@@ -651,10 +697,26 @@ fn fold_statement<'ast, T: Field>(
             let a = f.fold_assignee(a);
             let e = f.fold_expression(statements_buffer, e);
             assert_eq!(a.len(), e.len());
-            a.into_iter()
-                .zip(e)
-                .map(|(a, e)| zir::ZirStatement::definition(a, e))
-                .collect()
+
+            if reads_overwritten_assignee(&a, &e) {
+                // the right hand side must be evaluated before any element is assigned
+                let (temporaries, values): (Vec<_>, Vec<_>) =
+                    e.into_iter().map(|e| f.define_temporary(e)).unzip();
+
+                temporaries
+                    .into_iter()
+                    .chain(
+                        a.into_iter()
+                            .zip(values)
+                            .map(|(a, e)| zir::ZirStatement::definition(a, e)),
+                    )
+                    .collect()
+            } else {
+                a.into_iter()
+                    .zip(e)
+                    .map(|(a, e)| zir::ZirStatement::definition(a, e))
+                    .collect()
+            }
         }
         typed::TypedStatement::Assertion(s) => {
             let e = f.fold_boolean_expression(statements_buffer, s.expression);
-- 
2.43.0


From 2468c31661794653ca50309ad3da9bfa3683fe6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:47 +0000
Subject: [PATCH 02/58] fix: compute a sound upper bound for the result of
 unsigned shifts

The bound was computed by masking the shifted upper bound of the operand, which
makes it 0 for operands such as `0u32 - x`, whose upper bound is a power of two.
---
 zokrates_analysis/src/uint_optimizer.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/zokrates_analysis/src/uint_optimizer.rs b/zokrates_analysis/src/uint_optimizer.rs
index c006cdd..5697e5d 100644
--- a/zokrates_analysis/src/uint_optimizer.rs
+++ b/zokrates_analysis/src/uint_optimizer.rs
@@ -341,9 +341,15 @@ impl<'ast, T: Field> Folder<'ast, T> for UintOptimizer<'ast, T> {
                     UExpressionInner::Value(by) => {
                         let e_max: num_bigint::BigUint =
                             left.metadata.as_ref().unwrap().max.to_biguint();
-                        let max = e_max
-                            .shl(by.value as usize)
-                            .bitand(&(2_u128.pow(range as u32) - 1).into());
+                        let range_max = range_max.to_biguint();
+                        let shifted_max = e_max.shl(by.value as usize);
+
+                        // if bits can be shifted out of range, then the result can be any multiple of `2**by` in range
+                        let max = if shifted_max > range_max {
+                            range_max.clone().shl(by.value as usize).bitand(&range_max)
+                        } else {
+                            shifted_max
+                        };
 
                         let max = T::try_from(max).unwrap();
 
@@ -365,9 +371,9 @@ impl<'ast, T: Field> Folder<'ast, T> for UintOptimizer<'ast, T> {
                     UExpressionInner::Value(by) => {
                         let e_max: num_bigint::BigUint =
                             left.metadata.as_ref().unwrap().max.to_biguint();
-                        let max = e_max
-                            .bitand(&(2_u128.pow(range as u32) - 1).into())
-                            .shr(by.value as usize);
+                        // the term is reduced before being shifted
+                        let max =
+                            std::cmp::min(e_max, range_max.to_biguint()).shr(by.value as usize);
 
                         let max = T::try_from(max).unwrap();
 
-- 
2.43.0


From 93885aa32dd08f44d5d1b4c0a825459f1e68a71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:19 +0000
Subject: [PATCH 03/58] fix: shift constants by more bits than the host integer
 holds

Shifting an unsigned constant by 128 or more made the compiler panic, or in
release mode evaluate the shift with a wrapped around shift amount.
---
 zokrates_analysis/src/propagation.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/zokrates_analysis/src/propagation.rs b/zokrates_analysis/src/propagation.rs
index 03c98c3..c5b30b8 100644
--- a/zokrates_analysis/src/propagation.rs
+++ b/zokrates_analysis/src/propagation.rs
@@ -792,7 +792,11 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for Propagator<'ast, T> {
                 let right = self.fold_uint_expression(*e.right)?;
                 match (left.into_inner(), right.into_inner()) {
                     (UExpressionInner::Value(v), UExpressionInner::Value(by)) => {
-                        Ok(UExpression::value(v.value >> by.value))
+                        Ok(UExpression::value(if by.value >= bitwidth as u128 {
+                            0
+                        } else {
+                            v.value >> by.value
+                        }))
                     }
                     (e, by) => Ok(UExpression::right_shift(
                         e.annotate(bitwidth),
@@ -806,9 +810,11 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for Propagator<'ast, T> {
                 let right = self.fold_uint_expression(*e.right)?;
                 match (left.into_inner(), right.into_inner()) {
                     (UExpressionInner::Value(v), UExpressionInner::Value(by)) => {
-                        Ok(UExpression::value(
-                            (v.value << by.value) & (2_u128.pow(bitwidth as u32) - 1),
-                        ))
+                        Ok(UExpression::value(if by.value >= bitwidth as u128 {
+                            0
+                        } else {
+                            (v.value << by.value) & (2_u128.pow(bitwidth as u32) - 1)
+                        }))
                     }
                     (e, by) => Ok(UExpression::left_shift(
                         e.annotate(bitwidth),
-- 
2.43.0


From f907a5b8418d7646e1708c12fa23c786b2c21b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:31 +0000
Subject: [PATCH 04/58] fix: report unsigned division and remainder by the
 constant zero as an error

The compiler panicked when evaluating them on constants.
---
 zokrates_analysis/src/propagation.rs     | 2 ++
 zokrates_analysis/src/zir_propagation.rs | 1 +
 2 files changed, 3 insertions(+)

diff --git a/zokrates_analysis/src/propagation.rs b/zokrates_analysis/src/propagation.rs
index c5b30b8..b559310 100644
--- a/zokrates_analysis/src/propagation.rs
+++ b/zokrates_analysis/src/propagation.rs
@@ -749,6 +749,7 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for Propagator<'ast, T> {
                 self.fold_uint_expression(*e.left)?.into_inner(),
                 self.fold_uint_expression(*e.right)?.into_inner(),
             ) {
+                (_, UExpressionInner::Value(v)) if v.value == 0 => Err(Error::DivisionByZero),
                 (UExpressionInner::Value(v1), UExpressionInner::Value(v2)) => {
                     Ok(UExpression::value(
                         (v1.value / v2.value) % 2_u128.pow(bitwidth.to_usize().try_into().unwrap()),
@@ -770,6 +771,7 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for Propagator<'ast, T> {
                 self.fold_uint_expression(*e.left)?.into_inner(),
                 self.fold_uint_expression(*e.right)?.into_inner(),
             ) {
+                (_, UExpressionInner::Value(v)) if v.value == 0 => Err(Error::DivisionByZero),
                 (UExpressionInner::Value(v1), UExpressionInner::Value(v2)) => {
                     Ok(UExpression::value(
                         (v1.value % v2.value) % 2_u128.pow(bitwidth.to_usize().try_into().unwrap()),
diff --git a/zokrates_analysis/src/zir_propagation.rs b/zokrates_analysis/src/zir_propagation.rs
index d826099..0e88f6e 100644
--- a/zokrates_analysis/src/zir_propagation.rs
+++ b/zokrates_analysis/src/zir_propagation.rs
@@ -760,6 +760,7 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for ZirPropagator<'ast, T> {
                 let e2 = self.fold_uint_expression(*e.right)?;
 
                 match (e1.into_inner(), e2.into_inner()) {
+                    (_, UExpressionInner::Value(n)) if n.value == 0 => Err(Error::DivisionByZero),
                     (UExpressionInner::Value(n1), UExpressionInner::Value(n2)) => {
                         Ok(UExpression::value(
                             (n1.value % n2.value) % 2_u128.pow(bitwidth.to_usize() as u32),
-- 
2.43.0


From d0e8a347095e428dde22f04cf7545e7979723233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:31 +0000
Subject: [PATCH 05/58] fix: accept any expression as the base of a power

The compiler panicked when the base was not linear, for example in `(a * b) ** 2`.
---
 zokrates_codegen/src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/zokrates_codegen/src/lib.rs b/zokrates_codegen/src/lib.rs
index 9f6eea1..479090a 100644
--- a/zokrates_codegen/src/lib.rs
+++ b/zokrates_codegen/src/lib.rs
@@ -2200,9 +2200,15 @@ impl<'ast, T: Field> Flattener<'ast, T> {
                         let base_flattened =
                             self.flatten_field_expression(statements_flattened, *e.left.clone());
 
-                        // we require from the base to be linear
-                        // TODO change that
-                        assert!(base_flattened.is_linear());
+                        // the base must be linear, as we multiply it with itself
+                        let base_flattened = if base_flattened.is_linear() {
+                            base_flattened
+                        } else {
+                            let id = self.use_sym();
+                            statements_flattened
+                                .push_back(FlatStatement::definition(id, base_flattened));
+                            FlatExpression::identifier(id)
+                        };
 
                         // convert the exponent to bytes, big endian
                         let ebytes_be = exp.value.to_be_bytes();
-- 
2.43.0


From ced1adfb25144094e014dbeb6ae50f9401730fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:52 +0000
Subject: [PATCH 06/58] fix: canonicalize slices of any constant array

The compiler panicked when slicing a constant array which was not a list of
values, for example in `[0f; 1][0..1]`.
---
 zokrates_ast/src/typed/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zokrates_ast/src/typed/mod.rs b/zokrates_ast/src/typed/mod.rs
index 1178666..049d25d 100644
--- a/zokrates_ast/src/typed/mod.rs
+++ b/zokrates_ast/src/typed/mod.rs
@@ -3544,7 +3544,7 @@ impl<'ast, T: Field> Constant for ArrayExpression<'ast, T> {
                             _ => unreachable!(),
                         };
 
-                        let v = match e.array.into_inner() {
+                        let v = match e.array.into_canonical_constant().into_inner() {
                             ArrayExpressionInner::Value(v) => v,
                             _ => unreachable!(),
                         };
@@ -3589,7 +3589,7 @@ impl<'ast, T: Field> Constant for ArrayExpression<'ast, T> {
                     _ => unreachable!("should be a uint value"),
                 };
 
-                let v = match e.array.into_inner() {
+                let v = match e.array.into_canonical_constant().into_inner() {
                     ArrayExpressionInner::Value(v) => v,
                     _ => unreachable!("should be an array value"),
                 };
-- 
2.43.0


From 2095226b7229d4e09be54e17c94bc0f73e591fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:55 +0000
Subject: [PATCH 07/58] fix: do not mistake truncated bit decompositions for
 exact ones

The bits of an unsigned expression reduced to its bitwidth were cached as if they
were a decomposition of the whole expression, and decompositions wider than the
bitwidth were forced to fit in it. For example, `a < b` was true for any `a` and
`b` after `a - b` was reduced, and `a - b` could not be reduced after `a < b`.
---
 zokrates_codegen/src/lib.rs | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/zokrates_codegen/src/lib.rs b/zokrates_codegen/src/lib.rs
index 479090a..4f6ef00 100644
--- a/zokrates_codegen/src/lib.rs
+++ b/zokrates_codegen/src/lib.rs
@@ -1391,9 +1391,10 @@ impl<'ast, T: Field> Flattener<'ast, T> {
             } // force to be a field element
             UExpressionInner::Identifier(x) => {
                 let field = FlatExpression::identifier(*self.layout.get(&x.id).unwrap());
+                // the cached decomposition can be wider than the target, in which case we only need the lowest bits
                 let bits = self.bits_cache.get(&field).map(|bits| {
-                    assert_eq!(bits.len(), target_bitwidth.to_usize());
-                    bits.clone()
+                    assert!(bits.len() >= target_bitwidth.to_usize());
+                    bits[bits.len() - target_bitwidth.to_usize()..].to_vec()
                 });
                 FlatUExpression::with_field(field).bits(bits)
             }
@@ -1944,12 +1945,14 @@ impl<'ast, T: Field> Flattener<'ast, T> {
                             FlatExpression::add(acc, e)
                         });
 
-                    // force the sum to be 0
-                    statements_flattened.push_back(FlatStatement::condition(
-                        FlatExpression::value(T::from(0)),
-                        sum,
-                        error,
-                    ));
+                    // force the sum to be 0, unless we are truncating
+                    if from == to {
+                        statements_flattened.push_back(FlatStatement::condition(
+                            FlatExpression::value(T::from(0)),
+                            sum,
+                            error,
+                        ));
+                    }
 
                     // sanity check that we have at most `to` values
                     assert!(res.len() <= to);
@@ -1990,15 +1993,16 @@ impl<'ast, T: Field> Flattener<'ast, T> {
                         error,
                     ));
 
+                    // cache the whole decomposition, as it cannot be recovered from the truncated one
+                    self.bits_cache
+                        .insert(e.field.clone().unwrap(), bits.clone());
+                    self.bits_cache.insert(sum, bits.clone());
+
                     // truncate to the `to` lowest bits
                     let bits = bits[from - to..].to_vec();
 
                     assert_eq!(bits.len(), to);
 
-                    self.bits_cache
-                        .insert(e.field.clone().unwrap(), bits.clone());
-                    self.bits_cache.insert(sum, bits.clone());
-
                     bits
                 }
             };
@@ -2418,10 +2422,11 @@ impl<'ast, T: Field> Flattener<'ast, T> {
                     }
                 };
 
-                // register bits
+                // register bits, keeping the decomposition we already know if any
                 if let Some(bits) = bits {
                     self.bits_cache
-                        .insert(FlatExpression::identifier(var), bits);
+                        .entry(FlatExpression::identifier(var))
+                        .or_insert(bits);
                 }
             }
             ZirStatement::Assertion(s) => {
-- 
2.43.0


From da33a3eb309beff8d6187835b7527fd698f6807b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:57 +0000
Subject: [PATCH 08/58] fix: specialize the expected type of function calls in
 return statements

Returning a call to a function returning a generic struct leaked the generic
parameter of the struct into the caller, leading to the error 'Array length
should be fixed'.
---
 zokrates_core/src/semantics.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/zokrates_core/src/semantics.rs b/zokrates_core/src/semantics.rs
index b1646e1..785dbc0 100644
--- a/zokrates_core/src/semantics.rs
+++ b/zokrates_core/src/semantics.rs
@@ -327,7 +327,8 @@ impl<'ast, T: Field> Scope<'ast, T> {
 /// Checker checks the semantics of a program, keeping track of functions and variables in scope
 #[derive(Default)]
 pub struct Checker<'ast, T> {
-    return_type: Option<DeclarationType<'ast, T>>,
+    // the declared return type of the current function, as well as the specialized one, as seen from its body
+    return_type: Option<(DeclarationType<'ast, T>, Type<'ast, T>)>,
     scope: Scope<'ast, T>,
     functions: HashSet<DeclarationFunctionKey<'ast, T>>,
 }
@@ -1332,7 +1333,21 @@ impl<'ast, T: Field> Checker<'ast, T> {
                     return Err(errors);
                 }
 
-                self.return_type = Some(output.clone());
+                let generics_assignment = GGenericsAssignment(
+                    generics
+                        .iter()
+                        .flatten()
+                        .map(|g: &DeclarationConstant<'ast, T>| match g {
+                            DeclarationConstant::Generic(id) => (id.clone(), g.clone().into()),
+                            _ => unreachable!(),
+                        })
+                        .collect(),
+                );
+
+                let specialized_output =
+                    specialize_declaration_type(output.clone(), &generics_assignment).unwrap();
+
+                self.return_type = Some((output.clone(), specialized_output));
                 Ok(DeclarationSignature::new()
                     .generics(generics)
                     .inputs(inputs)
@@ -1948,23 +1963,17 @@ impl<'ast, T: Field> Checker<'ast, T> {
                 let mut errors = vec![];
 
                 // we clone the return type because there might be other return statements
-                let return_type = self.return_type.clone().unwrap();
+                let (return_type, specialized_return_type) = self.return_type.clone().unwrap();
 
                 let e_checked = e
                     .map(|e| {
                         match e.value {
                             Expression::FunctionCall(fun_id_expression, generics, arguments) => {
-                                let ty = zokrates_ast::typed::types::try_from_g_type(
-                                    return_type.clone(),
-                                )
-                                .map(Some)
-                                .unwrap();
-
                                 self.check_function_call_expression(
                                     *fun_id_expression,
                                     generics,
                                     arguments,
-                                    ty,
+                                    Some(specialized_return_type),
                                     module_id,
                                     types,
                                 )
-- 
2.43.0


From 08cfa162cb12c37bd77a10d1fc24c816325acb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:14 +0000
Subject: [PATCH 09/58] fix: print generic parameters without a name

Reporting an invalid value of a generic struct made the compiler panic.
---
 zokrates_ast/src/typed/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zokrates_ast/src/typed/types.rs b/zokrates_ast/src/typed/types.rs
index 8a0614a..7033cfa 100644
--- a/zokrates_ast/src/typed/types.rs
+++ b/zokrates_ast/src/typed/types.rs
@@ -115,7 +115,7 @@ impl<'ast> Hash for GenericIdentifier<'ast> {
 
 impl<'ast> fmt::Display for GenericIdentifier<'ast> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "{}", self.name())
+        write!(f, "{}", self.name.unwrap_or("_"))
     }
 }
 
-- 
2.43.0


From 79e70ea86ad7aa9794702b68db0cf781555accef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:20 +0000
Subject: [PATCH 10/58] fix: do not apply the ssa transformation twice to
 slices

Assigning to a variable an expression which slices an array containing that same
variable made the variable refer to itself, which panicked later on.
---
 zokrates_analysis/src/reducer/mod.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/zokrates_analysis/src/reducer/mod.rs b/zokrates_analysis/src/reducer/mod.rs
index 2c2c37e..ce02e80 100644
--- a/zokrates_analysis/src/reducer/mod.rs
+++ b/zokrates_analysis/src/reducer/mod.rs
@@ -367,18 +367,17 @@ impl<'ast, 'a, T: Field> ResultFolder<'ast, T> for Reducer<'ast, 'a, T> {
         &mut self,
         e: zokrates_ast::typed::SliceExpression<'ast, T>,
     ) -> Result<zokrates_ast::typed::SliceOrExpression<'ast, T>, Self::Error> {
-        let array = self.ssa.fold_array_expression(*e.array);
-        let array = self.propagator.fold_array_expression(array)?;
+        // the expression is already in ssa form
+
+        let array = self.propagator.fold_array_expression(*e.array)?;
         let array = self.fold_array_expression(array)?;
         let array = self.propagator.fold_array_expression(array)?;
 
-        let from = self.ssa.fold_uint_expression(*e.from);
-        let from = self.propagator.fold_uint_expression(from)?;
+        let from = self.propagator.fold_uint_expression(*e.from)?;
         let from = self.fold_uint_expression(from)?;
         let from = self.propagator.fold_uint_expression(from)?;
 
-        let to = self.ssa.fold_uint_expression(*e.to);
-        let to = self.propagator.fold_uint_expression(to)?;
+        let to = self.propagator.fold_uint_expression(*e.to)?;
         let to = self.fold_uint_expression(to)?;
         let to = self.propagator.fold_uint_expression(to)?;
 
-- 
2.43.0


From ead3c0e8b1be9544dd4e2054929f778ccd7492f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:20 +0000
Subject: [PATCH 11/58] fix: accept loops whose lower bound is larger than
 their upper bound

Computing the size of such a loop overflowed, which made the compiler panic. They
now have no iteration, like any other empty range.
---
 zokrates_analysis/src/reducer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zokrates_analysis/src/reducer/mod.rs b/zokrates_analysis/src/reducer/mod.rs
index ce02e80..145ff01 100644
--- a/zokrates_analysis/src/reducer/mod.rs
+++ b/zokrates_analysis/src/reducer/mod.rs
@@ -309,7 +309,7 @@ impl<'ast, 'a, T: Field> ResultFolder<'ast, T> for Reducer<'ast, 'a, T> {
 
                 match (from.as_inner(), to.as_inner()) {
                     (UExpressionInner::Value(from), UExpressionInner::Value(to))
-                        if to.value - from.value > MAX_FOR_LOOP_SIZE =>
+                        if to.value.saturating_sub(from.value) > MAX_FOR_LOOP_SIZE =>
                     {
                         Err(Error::LoopTooLarge(to.value.saturating_sub(from.value)))
                     }
-- 
2.43.0


From 02fdcda669ad816563c06f2e4b9e65a0b819b7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:09 +0000
Subject: [PATCH 12/58] fix: accept any field element expression in comparisons

The compiler panicked when comparing an expression which is not linear, for
example in `a * a < b`.
---
 zokrates_codegen/src/lib.rs | 38 +++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/zokrates_codegen/src/lib.rs b/zokrates_codegen/src/lib.rs
index 4f6ef00..c37550a 100644
--- a/zokrates_codegen/src/lib.rs
+++ b/zokrates_codegen/src/lib.rs
@@ -794,8 +794,10 @@ impl<'ast, T: Field> Flattener<'ast, T> {
                 .flatten_select_expression(statements_flattened, e)
                 .get_field_unchecked(),
             BooleanExpression::FieldLt(e) => {
-                let lhs_flattened = self.flatten_field_expression(statements_flattened, *e.left);
-                let rhs_flattened = self.flatten_field_expression(statements_flattened, *e.right);
+                let lhs_flattened =
+                    self.flatten_field_expression_to_linear(statements_flattened, *e.left);
+                let rhs_flattened =
+                    self.flatten_field_expression_to_linear(statements_flattened, *e.right);
 
                 match (lhs_flattened, rhs_flattened) {
                     (e, FlatExpression::Value(c)) => {
@@ -2078,6 +2080,26 @@ impl<'ast, T: Field> Flattener<'ast, T> {
         FlatUExpression::with_field(result)
     }
 
+    /// Flattens a field expression to a linear expression, introducing a variable if needed
+    ///
+    /// # Arguments
+    ///
+    /// * `statements_flattened` - Vector where new flattened statements can be added.
+    /// * `expr` - `FieldElementExpression` that will be flattened.
+    fn flatten_field_expression_to_linear(
+        &mut self,
+        statements_flattened: &mut FlatStatements<'ast, T>,
+        expr: FieldElementExpression<'ast, T>,
+    ) -> FlatExpression<T> {
+        let e = self.flatten_field_expression(statements_flattened, expr);
+
+        if e.is_linear() {
+            e
+        } else {
+            self.define(e, statements_flattened).into()
+        }
+    }
+
     /// Flattens a field expression
     ///
     /// # Arguments
@@ -2454,8 +2476,10 @@ impl<'ast, T: Field> Flattener<'ast, T> {
                         )
                     }
                     BooleanExpression::FieldLt(e) => {
-                        let lhs = self.flatten_field_expression(statements_flattened, *e.left);
-                        let rhs = self.flatten_field_expression(statements_flattened, *e.right);
+                        let lhs =
+                            self.flatten_field_expression_to_linear(statements_flattened, *e.left);
+                        let rhs =
+                            self.flatten_field_expression_to_linear(statements_flattened, *e.right);
 
                         match (lhs, rhs) {
                             (e, FlatExpression::Value(c)) => self.enforce_constant_lt_check(
@@ -2500,8 +2524,10 @@ impl<'ast, T: Field> Flattener<'ast, T> {
                         }
                     }
                     BooleanExpression::FieldLe(e) => {
-                        let lhs = self.flatten_field_expression(statements_flattened, *e.left);
-                        let rhs = self.flatten_field_expression(statements_flattened, *e.right);
+                        let lhs =
+                            self.flatten_field_expression_to_linear(statements_flattened, *e.left);
+                        let rhs =
+                            self.flatten_field_expression_to_linear(statements_flattened, *e.right);
 
                         match (lhs, rhs) {
                             (e, FlatExpression::Value(c)) => self.enforce_constant_le_check(
-- 
2.43.0


From a0e7bd08e77bb7a904f6263d98d4266dd3016858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:22 +0000
Subject: [PATCH 13/58] fix: check that the divisor is not zero for every
 unsigned remainder

As for divisions, the check must not depend on the result of the remainder being used.
---
 zokrates_analysis/src/panic_extractor.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/zokrates_analysis/src/panic_extractor.rs b/zokrates_analysis/src/panic_extractor.rs
index dd2628c..80a9730 100644
--- a/zokrates_analysis/src/panic_extractor.rs
+++ b/zokrates_analysis/src/panic_extractor.rs
@@ -150,6 +150,25 @@ impl<'ast, T: Field> Folder<'ast, T> for PanicExtractor<'ast, T> {
                 );
                 UExpression::div(n, d).into_inner()
             }
+            UExpressionInner::Rem(e) => {
+                let n = self.fold_uint_expression(*e.left);
+                let d = self.fold_uint_expression(*e.right);
+                self.panic_buffer.push(
+                    ZirStatement::assertion(
+                        BooleanExpression::not(
+                            BooleanExpression::uint_eq(
+                                d.clone().span(span),
+                                UExpression::value(0).annotate(b).span(span),
+                            )
+                            .span(span),
+                        )
+                        .span(span),
+                        RuntimeError::DivisionByZero,
+                    )
+                    .span(span),
+                );
+                UExpression::rem(n, d).into_inner()
+            }
             e => fold_uint_expression_cases(self, b, e),
         }
     }
-- 
2.43.0


From a140a0cd7222e1d490c059a3abe09e00e368dd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:18 +0000
Subject: [PATCH 14/58] fix: check the bounds of nested array accesses

---
 zokrates_analysis/src/out_of_bounds.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/zokrates_analysis/src/out_of_bounds.rs b/zokrates_analysis/src/out_of_bounds.rs
index e00cf17..d05f847 100644
--- a/zokrates_analysis/src/out_of_bounds.rs
+++ b/zokrates_analysis/src/out_of_bounds.rs
@@ -1,7 +1,7 @@
 use std::fmt;
 use zokrates_ast::typed::{
-    result_folder::*, Expr, SelectExpression, SelectOrExpression, Type, TypedAssignee,
-    TypedProgram, UExpressionInner,
+    result_folder::*, Expr, Select, SelectExpression, SelectOrExpression, Type, TypedAssignee,
+    TypedExpression, TypedProgram, UExpressionInner,
 };
 use zokrates_field::Field;
 
@@ -25,9 +25,14 @@ impl OutOfBoundsChecker {
 impl<'ast, T: Field> ResultFolder<'ast, T> for OutOfBoundsChecker {
     type Error = Error;
 
-    fn fold_select_expression<E: Expr<'ast, T>>(
+    fn fold_select_expression<
+        E: Expr<'ast, T>
+            + Select<'ast, T>
+            + Into<TypedExpression<'ast, T>>
+            + From<TypedExpression<'ast, T>>,
+    >(
         &mut self,
-        _: &E::Ty,
+        ty: &E::Ty,
         s: SelectExpression<'ast, T, E>,
     ) -> Result<SelectOrExpression<'ast, T, E>, Self::Error> {
         match (s.index.as_inner(), s.array.size().as_inner()) {
@@ -37,7 +42,7 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for OutOfBoundsChecker {
                     s, s.array, size
                 )))
             }
-            _ => Ok(SelectOrExpression::Select(s)),
+            _ => fold_select_expression(self, ty, s),
         }
     }
 
-- 
2.43.0


From 8770424bfe1dc3ab4792e27d042a67febc05c43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:54 +0000
Subject: [PATCH 15/58] fix: report slices which are out of bounds as an error

---
 zokrates_analysis/src/propagation.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/zokrates_analysis/src/propagation.rs b/zokrates_analysis/src/propagation.rs
index b559310..4d5cafe 100644
--- a/zokrates_analysis/src/propagation.rs
+++ b/zokrates_analysis/src/propagation.rs
@@ -1161,6 +1161,31 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for Propagator<'ast, T> {
         }
     }
 
+    fn fold_slice_expression(
+        &mut self,
+        e: SliceExpression<'ast, T>,
+    ) -> Result<SliceOrExpression<'ast, T>, Self::Error> {
+        let array = self.fold_array_expression(*e.array)?;
+        let from = self.fold_uint_expression(*e.from)?;
+        let to = self.fold_uint_expression(*e.to)?;
+
+        match (from.as_inner(), to.as_inner(), array.ty().size.as_inner()) {
+            (
+                UExpressionInner::Value(from),
+                UExpressionInner::Value(to),
+                UExpressionInner::Value(size),
+            ) if from.value > to.value || to.value > size.value => {
+                Err(Error::InvalidValue(format!(
+                    "Invalid slice `{}..{}` of an array of size {}",
+                    from, to, size
+                )))
+            }
+            _ => Ok(SliceOrExpression::Slice(SliceExpression::new(
+                array, from, to,
+            ))),
+        }
+    }
+
     fn fold_select_expression<
         E: Expr<'ast, T>
             + Select<'ast, T>
-- 
2.43.0


From b7adde10334970404055d965eb5525b8e192e786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:53 +0000
Subject: [PATCH 16/58] fix: linearize the elements of an array accessed at a
 variable index

---
 zokrates_codegen/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/zokrates_codegen/src/lib.rs b/zokrates_codegen/src/lib.rs
index c37550a..65ed5f5 100644
--- a/zokrates_codegen/src/lib.rs
+++ b/zokrates_codegen/src/lib.rs
@@ -2044,7 +2044,13 @@ impl<'ast, T: Field> Flattener<'ast, T> {
                     .span(span),
                 );
 
-                let element = e.flatten(self, statements_flattened);
+                let element = e.flatten(self, statements_flattened).flat();
+
+                let element = if element.is_linear() {
+                    element
+                } else {
+                    self.define(element, statements_flattened).into()
+                };
 
                 (condition, element)
             })
@@ -2062,7 +2068,7 @@ impl<'ast, T: Field> Flattener<'ast, T> {
                     statements_flattened.push_back(
                         FlatStatement::definition(
                             conditional_element_id,
-                            FlatExpression::mul(condition, element.flat()).span(span),
+                            FlatExpression::mul(condition, element).span(span),
                         )
                         .span(span),
                     );
-- 
2.43.0


From 3db497dcf681842addc2c386380488f6cb5e1600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:43 +0000
Subject: [PATCH 17/58] fix: do not offset subtractions by the size of the
 right operand before its reduction

---
 zokrates_codegen/src/lib.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/zokrates_codegen/src/lib.rs b/zokrates_codegen/src/lib.rs
index 65ed5f5..ec5781d 100644
--- a/zokrates_codegen/src/lib.rs
+++ b/zokrates_codegen/src/lib.rs
@@ -1449,10 +1449,15 @@ impl<'ast, T: Field> Flattener<'ast, T> {
             }
             UExpressionInner::Sub(e) => {
                 // see uint optimizer for the reasoning here
-                let offset = FlatExpression::value(T::from(2).pow(std::cmp::max(
-                    e.right.metadata.as_ref().unwrap().bitwidth() as usize,
-                    target_bitwidth as usize,
-                )));
+                let right_metadata = e.right.metadata.as_ref().unwrap();
+
+                let right_bitwidth = if right_metadata.should_reduce.is_true() {
+                    target_bitwidth as usize
+                } else {
+                    std::cmp::max(right_metadata.bitwidth() as usize, target_bitwidth as usize)
+                };
+
+                let offset = FlatExpression::value(T::from(2).pow(right_bitwidth));
 
                 let left_flattened = self
                     .flatten_uint_expression(statements_flattened, *e.left)
-- 
2.43.0


From 118acfe53def423c4c6dac5b283d3938b6ae8d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:34 +0000
Subject: [PATCH 18/58] fix: keep the range checks of writes at variable
 indices in a deterministic order

---
 zokrates_analysis/src/variable_write_remover.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/zokrates_analysis/src/variable_write_remover.rs b/zokrates_analysis/src/variable_write_remover.rs
index 8880fc2..ad98872 100644
--- a/zokrates_analysis/src/variable_write_remover.rs
+++ b/zokrates_analysis/src/variable_write_remover.rs
@@ -4,7 +4,6 @@
 //! @author Thibaut Schaeffer <thibaut@schaeff.fr>
 //! @date 2018
 
-use std::collections::HashSet;
 use std::fmt;
 use zokrates_ast::common::{Span, WithSpan};
 use zokrates_ast::typed::result_folder::ResultFolder;
@@ -38,7 +37,7 @@ impl<'ast> VariableWriteRemover {
         base: TypedExpression<'ast, T>,
         indices: Vec<Access<'ast, T>>,
         new_expression: TypedExpression<'ast, T>,
-        statements: &mut HashSet<TypedStatement<'ast, T>>,
+        statements: &mut Vec<TypedStatement<'ast, T>>,
         span: Option<Span>,
     ) -> TypedExpression<'ast, T> {
         let mut indices = indices;
@@ -57,14 +56,19 @@ impl<'ast> VariableWriteRemover {
 
                     match head {
                         Access::Select(head) => {
-                            statements.insert(TypedStatement::assertion(
+                            let range_check = TypedStatement::assertion(
                                 BooleanExpression::uint_lt(
                                     head.clone(),
                                     UExpression::from(size).span(span),
                                 )
                                 .span(span),
                                 RuntimeError::SelectRangeCheck,
-                            ));
+                            );
+
+                            // the same check is needed for each element on the way, keep the order deterministic
+                            if !statements.contains(&range_check) {
+                                statements.push(range_check);
+                            }
 
                             ArrayExpression::value(
                                 (0..size)
@@ -647,7 +651,7 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for VariableWriteRemover {
                         })
                         .collect::<Result<_, _>>()?;
 
-                    let mut range_checks = HashSet::new();
+                    let mut range_checks = vec![];
                     let e = Self::choose_many(base, indices, expr, &mut range_checks, span);
 
                     Ok(range_checks
-- 
2.43.0


From af2bdfb9d97f79e327d03904e5a25ab5a96cbe8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:09 +0000
Subject: [PATCH 19/58] Expose the optimizer and the unoptimized program to
 property-based testing (cfg zokrates_pbt)

---
 zokrates_core/src/compile.rs | 21 +++++++++++++++++++++
 zokrates_core/src/lib.rs     |  3 +++
 2 files changed, 24 insertions(+)

diff --git a/zokrates_core/src/compile.rs b/zokrates_core/src/compile.rs
index 3f9e327..353bc15 100644
--- a/zokrates_core/src/compile.rs
+++ b/zokrates_core/src/compile.rs
@@ -202,6 +202,27 @@ pub fn compile<'ast, T: Field, E: Into<imports::Error>>(
     })
 }
 
+/// Compile up to the intermediate representation, without optimizing it. Only built for property-based testing.
+#[cfg(zokrates_pbt)]
+pub fn compile_unoptimized<'ast, T: Field, E: Into<imports::Error>>(
+    source: String,
+    location: FilePath,
+    resolver: Option<&dyn Resolver<E>>,
+    config: CompileConfig,
+    arena: &'ast Arena<String>,
+) -> Result<
+    CompilationArtifacts<'ast, T, impl IntoIterator<Item = ir::Statement<'ast, T>> + 'ast>,
+    CompileErrors,
+> {
+    let (typed_ast, abi): (ZirProgram<'_, T>, _) =
+        check_with_arena(source, location, resolver, &config, arena)?;
+
+    Ok(CompilationArtifacts {
+        prog: from_flat(from_program_and_config(typed_ast)),
+        abi,
+    })
+}
+
 pub fn check<T: Field, E: Into<imports::Error>>(
     source: String,
     location: FilePath,
diff --git a/zokrates_core/src/lib.rs b/zokrates_core/src/lib.rs
index 874b996..ad7f126 100644
--- a/zokrates_core/src/lib.rs
+++ b/zokrates_core/src/lib.rs
@@ -1,5 +1,8 @@
 pub mod compile;
 pub mod imports;
 mod macros;
+#[cfg(not(zokrates_pbt))]
 mod optimizer;
+#[cfg(zokrates_pbt)]
+pub mod optimizer;
 mod semantics;
-- 
2.43.0


From e99a7888bda9e66f3b23566b73ea4076a91b4e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:40 +0000
Subject: [PATCH 20/58] fix: do not panic when the solver of a directive with
 constant inputs fails

---
 zokrates_core/src/optimizer/redefinition.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/zokrates_core/src/optimizer/redefinition.rs b/zokrates_core/src/optimizer/redefinition.rs
index 5588046..b5f5b05 100644
--- a/zokrates_core/src/optimizer/redefinition.rs
+++ b/zokrates_core/src/optimizer/redefinition.rs
@@ -153,12 +153,15 @@ impl<T: Field> RedefinitionOptimizer<T> {
                     })
                     .collect::<Vec<Result<T, QuadComb<T>>>>();
 
-                match inputs.iter().all(|i| i.is_ok()) {
-                    true => {
-                        // unwrap inputs to their constant value
-                        let inputs: Vec<_> = inputs.into_iter().map(|i| i.unwrap()).collect();
-                        // run the solver
-                        let outputs = Interpreter::execute_solver(&d.solver, &inputs, &[]).unwrap();
+                // if all inputs are constant, run the solver. If it fails, keep the directive so that the execution fails
+                let outputs = inputs
+                    .iter()
+                    .map(|i| i.as_ref().ok().copied())
+                    .collect::<Option<Vec<_>>>()
+                    .and_then(|inputs| Interpreter::execute_solver(&d.solver, &inputs, &[]).ok());
+
+                match outputs {
+                    Some(outputs) => {
                         assert_eq!(outputs.len(), d.outputs.len());
 
                         // insert the results in the substitution
@@ -168,7 +171,7 @@ impl<T: Field> RedefinitionOptimizer<T> {
                         }
                         vec![]
                     }
-                    false => {
+                    None => {
                         //reconstruct the input expressions
                         let inputs: Vec<_> = inputs
                             .into_iter()
-- 
2.43.0


From ef5021007d2d28ccc7fd1937fd8dc2aaa1eec73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:40 +0000
Subject: [PATCH 21/58] fix: do not panic on constraints whose linear terms
 cancel out

---
 zokrates_core/src/optimizer/redefinition.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zokrates_core/src/optimizer/redefinition.rs b/zokrates_core/src/optimizer/redefinition.rs
index b5f5b05..033f3f7 100644
--- a/zokrates_core/src/optimizer/redefinition.rs
+++ b/zokrates_core/src/optimizer/redefinition.rs
@@ -87,6 +87,12 @@ impl<T: Field> RedefinitionOptimizer<T> {
                     true => (Some(Statement::constraint(quad, lin, s.error)), None, None),
                     false => match lin.try_summand() {
                         // if the right side is a single variable
+                        // the terms cancel out, there is no variable to redefine
+                        Ok((_, coefficient)) if coefficient == T::zero() => (
+                            Some(Statement::constraint(quad, LinComb::zero(), s.error)),
+                            None,
+                            None,
+                        ),
                         Ok((variable, coefficient)) => match quad.try_linear() {
                             // if the left side is linear
                             Ok(l) => (None, Some((variable, l / &coefficient)), None),
-- 
2.43.0


From 33862402fb3877d9fdc68f0af266a54f1340c66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:40 +0000
Subject: [PATCH 22/58] fix: do not substitute variables of assembly blocks
 which remain in use

---
 zokrates_core/src/optimizer/redefinition.rs | 52 ++++++++++++++++++---
 1 file changed, 46 insertions(+), 6 deletions(-)

diff --git a/zokrates_core/src/optimizer/redefinition.rs b/zokrates_core/src/optimizer/redefinition.rs
index 033f3f7..1df24d8 100644
--- a/zokrates_core/src/optimizer/redefinition.rs
+++ b/zokrates_core/src/optimizer/redefinition.rs
@@ -67,6 +67,24 @@ impl<T: Field> RedefinitionOptimizer<T> {
         }
     }
 
+    /// Ignore the variables a statement relies on, except the ones it introduces
+    fn ignore_used(&mut self, s: &Statement<T>) {
+        let mut ignore = |l: &LinComb<T>| self.ignore.extend(l.value.iter().map(|(v, _)| *v));
+
+        match s {
+            Statement::Constraint(s) => {
+                ignore(&s.quad.left);
+                ignore(&s.quad.right);
+                ignore(&s.lin);
+            }
+            Statement::Directive(d) => d.inputs.iter().for_each(|i| {
+                ignore(&i.left);
+                ignore(&i.right);
+            }),
+            _ => {}
+        }
+    }
+
     fn fold_statement_cases<'ast>(
         &mut self,
         s: Statement<'ast, T>,
@@ -86,14 +104,24 @@ impl<T: Field> RedefinitionOptimizer<T> {
                 {
                     true => (Some(Statement::constraint(quad, lin, s.error)), None, None),
                     false => match lin.try_summand() {
-                        // if the right side is a single variable
                         // the terms cancel out, there is no variable to redefine
                         Ok((_, coefficient)) if coefficient == T::zero() => (
                             Some(Statement::constraint(quad, LinComb::zero(), s.error)),
                             None,
                             None,
                         ),
+                        // if the right side is a single variable
                         Ok((variable, coefficient)) => match quad.try_linear() {
+                            // a variable cannot be defined in terms of itself
+                            Ok(l) if l.value.iter().any(|(v, _)| *v == variable) => (
+                                Some(Statement::constraint(
+                                    l,
+                                    LinComb::summand(coefficient, variable),
+                                    s.error,
+                                )),
+                                None,
+                                Some(variable),
+                            ),
                             // if the left side is linear
                             Ok(l) => (None, Some((variable, l / &coefficient)), None),
                             // if the left side isn't linear
@@ -118,6 +146,10 @@ impl<T: Field> RedefinitionOptimizer<T> {
 
                 // insert into the substitution map
                 if let Some((k, v)) = to_insert {
+                    if aggressive {
+                        // the substitution is not applied recursively, so these variables must stay defined
+                        self.ignore.extend(v.value.iter().map(|(v, _)| *v));
+                    }
                     self.substitution.insert(k, v.into_canonical());
                 };
 
@@ -186,7 +218,7 @@ impl<T: Field> RedefinitionOptimizer<T> {
                                     .unwrap_or_else(|q| q)
                             })
                             .collect();
-                        if !aggressive {
+                        if !aggressive || d.outputs.len() > 1 {
                             // to prevent the optimiser from replacing variables introduced by directives, add them to the ignored set
                             for o in d.outputs.iter().cloned() {
                                 self.ignore.insert(o);
@@ -212,14 +244,15 @@ impl<'ast, T: Field> Folder<'ast, T> for RedefinitionOptimizer<T> {
                     .into_iter()
                     .flat_map(|s| {
                         let span = s.get_span();
-                        self.fold_statement_cases(s, true)
-                            .into_iter()
-                            .map(move |s| s.span(span))
+                        let statements = self.fold_statement_cases(s, true);
+                        // what is emitted refers to these variables, so they must stay defined
+                        statements.iter().for_each(|s| self.ignore_used(s));
+                        statements.into_iter().map(move |s| s.span(span))
                     })
                     .collect();
 
                 // clean up
-                let statements = statements
+                let statements: Vec<_> = statements
                     .into_iter()
                     .filter(|s| match s {
                         // we remove a directive iff it has a single output and this output is in the substitution map, meaning it was propagated
@@ -230,6 +263,13 @@ impl<'ast, T: Field> Folder<'ast, T> for RedefinitionOptimizer<T> {
                     })
                     .collect();
 
+                // the directives left in this block introduce their outputs for good
+                for s in &statements {
+                    if let Statement::Directive(d) = s {
+                        self.ignore.extend(d.outputs.iter().cloned());
+                    }
+                }
+
                 vec![Statement::block(statements)]
             }
             s => self.fold_statement_cases(s, false),
-- 
2.43.0


From fa29a3abb350d5d98fae259d80082ef7f3dd7c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:54 +0000
Subject: [PATCH 23/58] fix: convert i32::MIN to a field element without
 overflowing

---
 zokrates_field/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zokrates_field/src/lib.rs b/zokrates_field/src/lib.rs
index 3308f86..6a93115 100644
--- a/zokrates_field/src/lib.rs
+++ b/zokrates_field/src/lib.rs
@@ -363,7 +363,7 @@ mod prime_field {
                 fn from(num: i32) -> Self {
                     if num < 0 {
                         FieldPrime {
-                            v: -Fr::from((-num) as u32),
+                            v: -Fr::from(num.unsigned_abs()),
                         }
                     } else {
                         FieldPrime {
-- 
2.43.0


From fd7c703492fc007f753d3517642dc1251ed1e97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:54 +0000
Subject: [PATCH 24/58] fix: decode arrays of elements that take no field
 element

---
 zokrates_abi/src/lib.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/zokrates_abi/src/lib.rs b/zokrates_abi/src/lib.rs
index 2f92063..2d6e8fe 100644
--- a/zokrates_abi/src/lib.rs
+++ b/zokrates_abi/src/lib.rs
@@ -170,11 +170,22 @@ impl<T: Field> Decode<T> for Value<T> {
                     unreachable!()
                 })
             }
-            ConcreteType::Array(array_type) => Value::Array(
-                raw.chunks(array_type.ty.get_primitive_count())
-                    .map(|c| Value::decode(c.to_vec(), *array_type.ty.clone()))
-                    .collect(),
-            ),
+            ConcreteType::Array(array_type) => {
+                // the elements can be empty, so split by the size of the array instead of using `chunks`
+                let size = *array_type.size as usize;
+                let count = array_type.ty.get_primitive_count();
+
+                Value::Array(
+                    (0..size)
+                        .map(|i| {
+                            Value::decode(
+                                raw[i * count..(i + 1) * count].to_vec(),
+                                *array_type.ty.clone(),
+                            )
+                        })
+                        .collect(),
+                )
+            }
             ConcreteType::Struct(members) => Value::Struct(
                 members
                     .into_iter()
-- 
2.43.0


From bc7278ec765cab7cc45bd047844172882e470a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:54 +0000
Subject: [PATCH 25/58] fix: read decimal field values with leading zeros as
 decimals, and refuse those above the modulus

---
 zokrates_abi/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zokrates_abi/src/lib.rs b/zokrates_abi/src/lib.rs
index 2d6e8fe..7974906 100644
--- a/zokrates_abi/src/lib.rs
+++ b/zokrates_abi/src/lib.rs
@@ -255,7 +255,7 @@ pub fn parse_value<T: Field>(
 ) -> Result<Value<T>, Error> {
     match (&expected_type, value) {
         (ConcreteType::FieldElement, serde_json::Value::String(s)) => {
-            T::try_from_dec_str(s.as_str())
+            T::try_from_str(s.as_str(), 10)
                 .or_else(|_| T::try_from_str(s.as_str().trim_start_matches("0x"), 16))
                 .map(Value::Field)
                 .map_err(|_| Error::Type(format!("Could not parse `{}` to field type", s)))
-- 
2.43.0


From 86c526d89dc1524771988791283ae0d78d682820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:54 +0000
Subject: [PATCH 26/58] fix: report the right curve for pallas and vesta
 programs

---
 zokrates_ast/src/ir/serialize.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zokrates_ast/src/ir/serialize.rs b/zokrates_ast/src/ir/serialize.rs
index 4e5ff7a..1c809d6 100644
--- a/zokrates_ast/src/ir/serialize.rs
+++ b/zokrates_ast/src/ir/serialize.rs
@@ -67,8 +67,8 @@ impl<
             ProgEnum::Bls12_381Program(_) => Bls12_381Field::name(),
             ProgEnum::Bls12_377Program(_) => Bls12_377Field::name(),
             ProgEnum::Bw6_761Program(_) => Bw6_761Field::name(),
-            ProgEnum::PallasProgram(_) => Bls12_377Field::name(),
-            ProgEnum::VestaProgram(_) => Bw6_761Field::name(),
+            ProgEnum::PallasProgram(_) => PallasField::name(),
+            ProgEnum::VestaProgram(_) => VestaField::name(),
         }
     }
 }
-- 
2.43.0


From 35baf5ce17f10f733bd13a2c33fc2c54da49de54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:54 +0000
Subject: [PATCH 27/58] fix: report damaged program files as errors instead of
 panicking

---
 zokrates_ast/src/ir/serialize.rs | 51 ++++++++++++++++----------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/zokrates_ast/src/ir/serialize.rs b/zokrates_ast/src/ir/serialize.rs
index 1c809d6..af661d3 100644
--- a/zokrates_ast/src/ir/serialize.rs
+++ b/zokrates_ast/src/ir/serialize.rs
@@ -306,44 +306,45 @@ impl<'de, R: Read + Seek>
     fn read<T: Field>(
         mut r: R,
         header: &ProgHeader,
-    ) -> ProgIterator<
-        'de,
-        T,
-        UnwrappedStreamDeserializer<'de, serde_cbor::de::IoRead<R>, Statement<'de, T>>,
+    ) -> Result<
+        ProgIterator<
+            'de,
+            T,
+            UnwrappedStreamDeserializer<'de, serde_cbor::de::IoRead<R>, Statement<'de, T>>,
+        >,
+        String,
     > {
         let parameters = {
             let section = &header.sections[0];
-            r.seek(std::io::SeekFrom::Start(section.offset)).unwrap();
+            r.seek(std::io::SeekFrom::Start(section.offset))
+                .map_err(|_| String::from("Invalid section offset"))?;
 
             let mut p = serde_cbor::Deserializer::from_reader(r.by_ref());
-            Vec::deserialize(&mut p)
-                .map_err(|_| String::from("Cannot read parameters"))
-                .unwrap()
+            Vec::deserialize(&mut p).map_err(|_| String::from("Cannot read parameters"))?
         };
 
         let solvers = {
             let section = &header.sections[2];
-            r.seek(std::io::SeekFrom::Start(section.offset)).unwrap();
+            r.seek(std::io::SeekFrom::Start(section.offset))
+                .map_err(|_| String::from("Invalid section offset"))?;
 
             let mut p = serde_cbor::Deserializer::from_reader(r.by_ref());
-            Vec::deserialize(&mut p)
-                .map_err(|_| String::from("Cannot read solvers"))
-                .unwrap()
+            Vec::deserialize(&mut p).map_err(|_| String::from("Cannot read solvers"))?
         };
 
         let module_map = {
             let section = &header.sections[3];
-            r.seek(std::io::SeekFrom::Start(section.offset)).unwrap();
+            r.seek(std::io::SeekFrom::Start(section.offset))
+                .map_err(|_| String::from("Invalid section offset"))?;
 
             let mut p = serde_cbor::Deserializer::from_reader(r.by_ref());
-            ModuleMap::deserialize(&mut p)
-                .map_err(|_| String::from("Cannot read module map"))
-                .unwrap()
+            ModuleMap::deserialize(&mut p).map_err(|_| String::from("Cannot read module map"))?
         };
 
         let statements_deserializer = {
             let section = &header.sections[1];
-            r.seek(std::io::SeekFrom::Start(section.offset)).unwrap();
+            r.seek(std::io::SeekFrom::Start(section.offset))
+                .map_err(|_| String::from("Invalid section offset"))?;
 
             let p = serde_cbor::Deserializer::from_reader(r);
             let s = p.into_iter::<Statement<T>>();
@@ -351,13 +352,13 @@ impl<'de, R: Read + Seek>
             UnwrappedStreamDeserializer { s }
         };
 
-        ProgIterator::new(
+        Ok(ProgIterator::new(
             parameters,
             statements_deserializer,
             header.return_count as usize,
             module_map,
             solvers,
-        )
+        ))
     }
 
     pub fn deserialize(mut r: R) -> Result<Self, String> {
@@ -375,15 +376,15 @@ impl<'de, R: Read + Seek>
 
         match header.curve_id {
             m if m == Bls12_381Field::id() => {
-                Ok(ProgEnum::Bls12_381Program(Self::read(r, &header)))
+                Ok(ProgEnum::Bls12_381Program(Self::read(r, &header)?))
             }
-            m if m == Bn128Field::id() => Ok(ProgEnum::Bn128Program(Self::read(r, &header))),
+            m if m == Bn128Field::id() => Ok(ProgEnum::Bn128Program(Self::read(r, &header)?)),
             m if m == Bls12_377Field::id() => {
-                Ok(ProgEnum::Bls12_377Program(Self::read(r, &header)))
+                Ok(ProgEnum::Bls12_377Program(Self::read(r, &header)?))
             }
-            m if m == Bw6_761Field::id() => Ok(ProgEnum::Bw6_761Program(Self::read(r, &header))),
-            m if m == PallasField::id() => Ok(ProgEnum::PallasProgram(Self::read(r, &header))),
-            m if m == VestaField::id() => Ok(ProgEnum::VestaProgram(Self::read(r, &header))),
+            m if m == Bw6_761Field::id() => Ok(ProgEnum::Bw6_761Program(Self::read(r, &header)?)),
+            m if m == PallasField::id() => Ok(ProgEnum::PallasProgram(Self::read(r, &header)?)),
+            m if m == VestaField::id() => Ok(ProgEnum::VestaProgram(Self::read(r, &header)?)),
             _ => Err(String::from("Unknown curve identifier")),
         }
     }
-- 
2.43.0


From 4156dd2ef0020073787feebff4c46251f78a2f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:54 +0000
Subject: [PATCH 28/58] fix: do not count variables that are only logged as
 constrained

---
 zokrates_ast/src/ir/check.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zokrates_ast/src/ir/check.rs b/zokrates_ast/src/ir/check.rs
index e4c1652..f09d3dd 100644
--- a/zokrates_ast/src/ir/check.rs
+++ b/zokrates_ast/src/ir/check.rs
@@ -1,5 +1,6 @@
 use crate::ir::folder::Folder;
 use crate::ir::DirectiveStatement;
+use crate::ir::LogStatement;
 use crate::ir::Parameter;
 use crate::ir::ProgIterator;
 use crate::ir::Statement;
@@ -49,4 +50,8 @@ impl<'ast, T: Field> Folder<'ast, T> for UnconstrainedVariableDetector {
         self.variables.extend(d.outputs.iter());
         vec![Statement::Directive(d)]
     }
+    fn fold_log_statement(&mut self, l: LogStatement<T>) -> Vec<Statement<'ast, T>> {
+        // logging a variable does not constrain it
+        vec![Statement::Log(l)]
+    }
 }
-- 
2.43.0


From eb5f3634354ecd240b927d91fc2bd2b9903069de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:54 +0000
Subject: [PATCH 29/58] fix: write r1cs coefficients of fields larger than 32
 bytes in full

---
 zokrates_circom/src/r1cs.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/zokrates_circom/src/r1cs.rs b/zokrates_circom/src/r1cs.rs
index 00c0d8d..a72c7bd 100644
--- a/zokrates_circom/src/r1cs.rs
+++ b/zokrates_circom/src/r1cs.rs
@@ -171,13 +171,13 @@ pub fn write_r1cs<T: Field, W: Write>(writer: &mut W, p: Prog<T>) -> Result<()>
         .sum();
     writer.write_u64::<LittleEndian>(size)?;
 
-    write_constraints(writer, constraints)?;
+    write_constraints(writer, constraints, modulo_byte_count as usize)?;
 
     // section type: header
     // type
     writer.write_u32::<LittleEndian>(1)?;
-    // size
-    writer.write_u64::<LittleEndian>(32 + 32)?;
+    // size: 32 bytes on top of the modulus
+    writer.write_u64::<LittleEndian>(32 + modulo_byte_count as u64)?;
 
     // header
     write_header(writer, header)?;
@@ -196,20 +196,25 @@ pub fn write_r1cs<T: Field, W: Write>(writer: &mut W, p: Prog<T>) -> Result<()>
 fn write_constraints<T: Field, W: Write>(
     writer: &mut W,
     constraints: Vec<Constraint<T>>,
+    modulo_byte_count: usize,
 ) -> Result<()> {
     for c in constraints {
-        write_lincomb(writer, c.0)?;
-        write_lincomb(writer, c.1)?;
-        write_lincomb(writer, c.2)?;
+        write_lincomb(writer, c.0, modulo_byte_count)?;
+        write_lincomb(writer, c.1, modulo_byte_count)?;
+        write_lincomb(writer, c.2, modulo_byte_count)?;
     }
     Ok(())
 }
 
-fn write_lincomb<T: Field, W: Write>(writer: &mut W, l: LinComb<T>) -> Result<()> {
+fn write_lincomb<T: Field, W: Write>(
+    writer: &mut W,
+    l: LinComb<T>,
+    modulo_byte_count: usize,
+) -> Result<()> {
     writer.write_u32::<LittleEndian>(l.len() as u32)?;
     for (var, coeff) in l {
         writer.write_u32::<LittleEndian>(var as u32)?;
-        let mut res = vec![0u8; 32];
+        let mut res = vec![0u8; modulo_byte_count];
         for (value, padded) in coeff.to_biguint().to_bytes_le().iter().zip(res.iter_mut()) {
             *padded = *value;
         }
-- 
2.43.0


From 5001657e8fe0213fa5445e125c64275a73817da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:54 +0000
Subject: [PATCH 30/58] fix: map ~one to the constant one in nova step circuits

---
 zokrates_bellperson/src/nova.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zokrates_bellperson/src/nova.rs b/zokrates_bellperson/src/nova.rs
index ae4b619..008c555 100644
--- a/zokrates_bellperson/src/nova.rs
+++ b/zokrates_bellperson/src/nova.rs
@@ -214,6 +214,9 @@ impl<'ast, T: Field + BellpersonFieldExtensions + Cycle> StepCircuit<T::Bellpers
 
         let mut symbols = BTreeMap::new();
 
+        // `~one` must be the constant of the constraint system and not a value chosen by the prover
+        symbols.insert(Variable::one(), CS::one());
+
         let mut witness = Witness::default();
 
         let outputs = self.computation.program.returns();
-- 
2.43.0


From 81e3cab65d12e93ea03135652e67eccc198cf9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:26 +0000
Subject: [PATCH 31/58] fix: do not replace a part of the file name by the
 extension when resolving imports

---
 zokrates_fs_resolver/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/zokrates_fs_resolver/src/lib.rs b/zokrates_fs_resolver/src/lib.rs
index 1289bbe..af10ef9 100644
--- a/zokrates_fs_resolver/src/lib.rs
+++ b/zokrates_fs_resolver/src/lib.rs
@@ -41,7 +41,14 @@ impl<'a> Resolver<io::Error> for FileSystemResolver<'a> {
             _ => PathBuf::from(self.stdlib_root_path.unwrap_or("")),
         };
 
-        let path_owned = base.join(import_location.clone()).with_extension("zok");
+        // the extension can be omitted. `with_extension` would replace `bar` in `foo.bar`
+        let mut path_owned = base.join(import_location.clone());
+        if path_owned.extension() != Some("zok".as_ref()) {
+            if let Some(mut name) = path_owned.file_name().map(|n| n.to_os_string()) {
+                name.push(".zok");
+                path_owned.set_file_name(name);
+            }
+        }
 
         if !path_owned.is_file() {
             return Err(io::Error::new(
-- 
2.43.0


From 4b74819338eb509bf2e6d22d76fe9bc216aa3142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:26 +0000
Subject: [PATCH 32/58] fix: give a file imported by different paths a single
 module id

---
 zokrates_fs_resolver/src/lib.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/zokrates_fs_resolver/src/lib.rs b/zokrates_fs_resolver/src/lib.rs
index af10ef9..f621991 100644
--- a/zokrates_fs_resolver/src/lib.rs
+++ b/zokrates_fs_resolver/src/lib.rs
@@ -1,3 +1,5 @@
+use std::cell::RefCell;
+use std::collections::HashMap;
 use std::fs::read_to_string;
 use std::io;
 
@@ -8,12 +10,15 @@ use zokrates_common::Resolver;
 #[derive(Debug, Default)]
 pub struct FileSystemResolver<'a> {
     stdlib_root_path: Option<&'a str>,
+    // many paths can lead to the same file: it is identified by the first one which was used
+    paths: RefCell<HashMap<PathBuf, PathBuf>>,
 }
 
 impl<'a> FileSystemResolver<'a> {
     pub fn with_stdlib_root(stdlib_root_path: &'a str) -> Self {
         FileSystemResolver {
             stdlib_root_path: Some(stdlib_root_path),
+            paths: RefCell::default(),
         }
     }
 }
@@ -58,7 +63,13 @@ impl<'a> Resolver<io::Error> for FileSystemResolver<'a> {
         }
 
         let source = read_to_string(&path_owned)?;
-        Ok((source, path_owned))
+        let location = self
+            .paths
+            .borrow_mut()
+            .entry(path_owned.canonicalize()?)
+            .or_insert(path_owned)
+            .clone();
+        Ok((source, location))
     }
 }
 
-- 
2.43.0


From d6dc9e0f2961249ca1e526fdb19d5169842f4156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:26 +0000
Subject: [PATCH 33/58] fix: resolve the constants of modules which main does
 not refer to

---
 zokrates_analysis/src/constant_resolver.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zokrates_analysis/src/constant_resolver.rs b/zokrates_analysis/src/constant_resolver.rs
index 5ff42f4..c02c2b1 100644
--- a/zokrates_analysis/src/constant_resolver.rs
+++ b/zokrates_analysis/src/constant_resolver.rs
@@ -61,6 +61,12 @@ impl<'ast, T: Field> Folder<'ast, T> for ConstantResolver<'ast, T> {
     fn fold_program(&mut self, p: TypedProgram<'ast, T>) -> TypedProgram<'ast, T> {
         self.fold_module_id(p.main.clone());
 
+        // also visit the modules which cannot be reached from the main module through identifiers
+        let module_ids: Vec<_> = self.modules.keys().cloned().collect();
+        for id in module_ids {
+            self.fold_module_id(id);
+        }
+
         TypedProgram {
             modules: std::mem::take(&mut self.modules),
             ..p
-- 
2.43.0


From 388828089150020eec48e3d0f84da459e991171f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:26 +0000
Subject: [PATCH 34/58] fix: reject cyclic imports instead of overflowing the
 stack

---
 zokrates_core/src/compile.rs | 24 ++++++++++++++++++++----
 zokrates_core/src/imports.rs | 14 +++++++++++++-
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/zokrates_core/src/compile.rs b/zokrates_core/src/compile.rs
index 353bc15..f6fc6dc 100644
--- a/zokrates_core/src/compile.rs
+++ b/zokrates_core/src/compile.rs
@@ -272,7 +272,14 @@ pub fn parse_program<'ast, T: Field, E: Into<imports::Error>>(
 ) -> Result<Program<'ast>, CompileErrors> {
     let mut modules = HashMap::new();
 
-    let main = parse_module::<T, E>(source, location.clone(), resolver, &mut modules, arena)?;
+    let main = parse_module::<T, E>(
+        source,
+        location.clone(),
+        resolver,
+        &mut vec![],
+        &mut modules,
+        arena,
+    )?;
 
     modules.insert(location.clone(), main);
 
@@ -286,6 +293,8 @@ pub fn parse_module<'ast, T: Field, E: Into<imports::Error>>(
     source: &'ast str,
     location: FilePath,
     resolver: Option<&dyn Resolver<E>>,
+    // the modules being parsed, from the main module to the one which imports this one
+    parents: &mut Vec<OwnedModuleId>,
     modules: &mut HashMap<OwnedModuleId, Module<'ast>>,
     arena: &'ast Arena<String>,
 ) -> Result<Module<'ast>, CompileErrors> {
@@ -305,13 +314,20 @@ pub fn parse_module<'ast, T: Field, E: Into<imports::Error>>(
 
     log::debug!("Apply imports to absy for {}", location.display());
 
-    Importer::apply_imports::<T, E>(
+    parents.push(location.clone());
+
+    let module = Importer::apply_imports::<T, E>(
         module_without_imports,
-        location.clone(),
+        location,
         resolver,
+        parents,
         modules,
         arena,
-    )
+    )?;
+
+    parents.pop();
+
+    Ok(module)
 }
 
 #[cfg(test)]
diff --git a/zokrates_core/src/imports.rs b/zokrates_core/src/imports.rs
index 3bc08c5..f0f5fe0 100644
--- a/zokrates_core/src/imports.rs
+++ b/zokrates_core/src/imports.rs
@@ -71,6 +71,7 @@ impl Importer {
         destination: Module<'ast>,
         location: PathBuf,
         resolver: Option<&dyn Resolver<E>>,
+        parents: &mut Vec<OwnedModuleId>,
         modules: &mut HashMap<OwnedModuleId, Module<'ast>>,
         arena: &'ast Arena<String>,
     ) -> Result<Module<'ast>, CompileErrors> {
@@ -79,7 +80,7 @@ impl Importer {
             .into_iter()
             .map(|s| match s.value.symbol {
                 Symbol::Here(SymbolDefinition::Import(import)) => {
-                    Importer::resolve::<T, E>(import, &location, resolver, modules, arena)
+                    Importer::resolve::<T, E>(import, &location, resolver, parents, modules, arena)
                 }
                 _ => Ok(s),
             })
@@ -92,6 +93,7 @@ impl Importer {
         import: CanonicalImportNode<'ast>,
         location: &Path,
         resolver: Option<&dyn Resolver<E>>,
+        parents: &mut Vec<OwnedModuleId>,
         modules: &mut HashMap<OwnedModuleId, Module<'ast>>,
         arena: &'ast Arena<String>,
     ) -> Result<SymbolDeclarationNode<'ast>, CompileErrors> {
@@ -225,6 +227,15 @@ impl Importer {
                                 .unwrap(),
                         );
 
+                        if parents.contains(&new_location) {
+                            return Err(CompileErrorInner::ImportError(
+                                Error::new(format!("Cyclic import of {}", module_id.display()))
+                                    .with_span(Some(span)),
+                            )
+                            .in_file(location)
+                            .into());
+                        }
+
                         match modules.get(&new_location) {
                             Some(_) => {}
                             None => {
@@ -233,6 +244,7 @@ impl Importer {
                                     source,
                                     new_location.clone(),
                                     resolver,
+                                    parents,
                                     modules,
                                     arena,
                                 )?;
-- 
2.43.0


From 4d12e59be4c283542775654e75feaa0ff86a5334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:26 +0000
Subject: [PATCH 35/58] fix: accept names which start with a type name, a
 visibility, mut or a boolean

---
 zokrates_parser/src/zokrates.pest | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/zokrates_parser/src/zokrates.pest b/zokrates_parser/src/zokrates.pest
index af4998e..0521636 100644
--- a/zokrates_parser/src/zokrates.pest
+++ b/zokrates_parser/src/zokrates.pest
@@ -22,13 +22,16 @@ constant_generics_list = _{ identifier ~ ("," ~ identifier)* }
 parameter_list = _{(parameter ~ ("," ~ parameter)*)?}
 parameter = { vis? ~ ty ~ _mut? ~ identifier }
 
+// the end of a keyword: `fieldx` is an identifier
+word_end = _{ !(ASCII_ALPHANUMERIC | "_") }
+
 // basic types
-ty_field = {"field"}
-ty_bool = {"bool"}
-ty_u8 = {"u8"}
-ty_u16 = {"u16"}
-ty_u32 = {"u32"}
-ty_u64 = {"u64"}
+ty_field = @{"field" ~ word_end}
+ty_bool = @{"bool" ~ word_end}
+ty_u8 = @{"u8" ~ word_end}
+ty_u16 = @{"u16" ~ word_end}
+ty_u32 = @{"u32" ~ word_end}
+ty_u64 = @{"u64" ~ word_end}
 ty_basic = { ty_field | ty_bool | ty_u8 | ty_u16 | ty_u32 | ty_u64 }
 ty_basic_or_struct_or_tuple = { ty_basic | ty_struct | ty_tuple }
 ty_array = { ty_basic_or_struct_or_tuple ~ ("[" ~ expression ~ "]")+ }
@@ -45,10 +48,10 @@ ty_struct_definition = { "struct" ~ identifier ~ constant_generics_declaration?
 struct_field_list = _{ (struct_field ~ semicolon)* }
 struct_field = { typed_identifier }
 
-vis_private = {"private"}
-vis_public = {"public"}
+vis_private = @{"private" ~ word_end}
+vis_public = @{"public" ~ word_end}
 vis = { vis_private | vis_public }
-_mut = {"mut"}
+_mut = @{"mut" ~ word_end}
 
 
 // Statements
@@ -145,7 +148,7 @@ decimal_suffix_u32 = { "u32" }
 decimal_suffix_u64 = { "u64" }
 decimal_suffix_field = { "f" }
 
-boolean_literal = { "true" | "false" }
+boolean_literal = @{ ("true" | "false") ~ word_end }
 
 hex_literal = !{ "0x" ~ hex_number }
 hex_number = { hex_number_u64 | hex_number_u32 | hex_number_u16 | hex_number_u8 }
-- 
2.43.0


From dadf160d57ad167ef6ebc366fe14b0c3c44a8879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:26 +0000
Subject: [PATCH 36/58] fix: report literals which do not fit in the type of
 their suffix instead of panicking

---
 zokrates_pest_ast/src/lib.rs | 37 ++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/zokrates_pest_ast/src/lib.rs b/zokrates_pest_ast/src/lib.rs
index 2fca23a..52b904b 100644
--- a/zokrates_pest_ast/src/lib.rs
+++ b/zokrates_pest_ast/src/lib.rs
@@ -2,8 +2,8 @@
 #![allow(clippy::clone_on_copy)]
 
 use from_pest::FromPest;
-use pest::error::Error as PestError;
-use pest::iterators::Pairs;
+use pest::error::{Error as PestError, ErrorVariant};
+use pest::iterators::{Pair, Pairs};
 use std::fmt;
 use zokrates_parser::parse;
 use zokrates_parser::Rule;
@@ -1179,9 +1179,42 @@ impl fmt::Display for Error {
 #[allow(clippy::result_large_err)]
 pub fn generate_ast(input: &str) -> Result<ast::File, Error> {
     let parse_tree = parse(input).map_err(Error)?;
+    parse_tree
+        .clone()
+        .flatten()
+        .filter(|pair| pair.as_rule() == Rule::decimal_literal)
+        .try_for_each(check_decimal_literal)?;
     Ok(Prog::from(parse_tree).0)
 }
 
+// check that the value of a decimal literal fits in the type given by its suffix
+#[allow(clippy::result_large_err)]
+fn check_decimal_literal(literal: Pair<Rule>) -> Result<(), Error> {
+    let span = literal.as_span();
+    let mut pairs = literal.into_inner();
+    let value = pairs.next().map(|p| p.as_str()).unwrap_or_default();
+    let suffix = pairs.next().map(|p| p.as_str()).unwrap_or_default();
+
+    let in_range = match suffix {
+        "u8" => value.parse::<u8>().is_ok(),
+        "u16" => value.parse::<u16>().is_ok(),
+        "u32" => value.parse::<u32>().is_ok(),
+        "u64" => value.parse::<u64>().is_ok(),
+        _ => true,
+    };
+
+    if in_range {
+        Ok(())
+    } else {
+        Err(Error(PestError::new_from_span(
+            ErrorVariant::CustomError {
+                message: format!("literal out of range for `{}`", suffix),
+            },
+            span,
+        )))
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::ast::*;
-- 
2.43.0


From 273d04385f62a37aa0e03164868f198a7789f2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:26 +0000
Subject: [PATCH 37/58] fix: reject exponents of other types than u32

---
 zokrates_core/src/semantics.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/zokrates_core/src/semantics.rs b/zokrates_core/src/semantics.rs
index 785dbc0..8cfc1bf 100644
--- a/zokrates_core/src/semantics.rs
+++ b/zokrates_core/src/semantics.rs
@@ -2677,9 +2677,13 @@ impl<'ast, T: Field> Checker<'ast, T> {
                 };
 
                 match (e1_checked, e2_checked) {
-                    (TypedExpression::FieldElement(e1), TypedExpression::Uint(e2)) => Ok(
-                        TypedExpression::FieldElement(FieldElementExpression::pow(e1, e2)),
-                    ),
+                    (TypedExpression::FieldElement(e1), TypedExpression::Uint(e2))
+                        if e2.bitwidth() == UBitwidth::B32 =>
+                    {
+                        Ok(TypedExpression::FieldElement(FieldElementExpression::pow(
+                            e1, e2,
+                        )))
+                    }
                     (t1, t2) => Err(ErrorInner {
                         span: Some(span),
 
-- 
2.43.0


From 5087c54ba6c93cbd0b700b57eb7cb6c18d6cde92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:26 +0000
Subject: [PATCH 38/58] fix: reject conditional expressions whose branches are
 integers of different widths

---
 zokrates_core/src/semantics.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zokrates_core/src/semantics.rs b/zokrates_core/src/semantics.rs
index 8cfc1bf..d20b137 100644
--- a/zokrates_core/src/semantics.rs
+++ b/zokrates_core/src/semantics.rs
@@ -2788,7 +2788,9 @@ impl<'ast, T: Field> Checker<'ast, T> {
                             (TypedExpression::Tuple(consequence), TypedExpression::Tuple(alternative)) => {
                                 Ok(TupleExpression::conditional(condition, consequence, alternative, kind).into())
                             },
-                            (TypedExpression::Uint(consequence), TypedExpression::Uint(alternative)) => {
+                            (TypedExpression::Uint(consequence), TypedExpression::Uint(alternative))
+                                if consequence.bitwidth() == alternative.bitwidth() =>
+                            {
                                 Ok(UExpression::conditional(condition, consequence, alternative, kind).into())
                             },
                             (TypedExpression::Int(consequence), TypedExpression::Int(alternative)) => {
-- 
2.43.0


From c2948fe809f6af40c90c0d63636c7c3ad82e1f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:26 +0000
Subject: [PATCH 39/58] fix: pad messages which end at a block boundary with a
 single block in sha256Padded

---
 zokrates_stdlib/stdlib/hashes/sha256/sha256Padded.zok | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zokrates_stdlib/stdlib/hashes/sha256/sha256Padded.zok b/zokrates_stdlib/stdlib/hashes/sha256/sha256Padded.zok
index 60dea98..6315d40 100644
--- a/zokrates_stdlib/stdlib/hashes/sha256/sha256Padded.zok
+++ b/zokrates_stdlib/stdlib/hashes/sha256/sha256Padded.zok
@@ -6,10 +6,10 @@ import "utils/casts/u32_from_bits";
 // A padding function that takes a bool[L] array as input and pads it to 512-bit blocks
 def pad<L, M>(bool[L] m) -> u32[M][16] {
     u32 length = L + 64 + 1;
-    assert(length / 512 + 1 == M);
+    assert((length - 1) / 512 + 1 == M);
 
     u32 r = length % 512;
-    u32 k = 512 - r;
+    u32 k = (512 - r) % 512;
     bool[M * 512] result_in_bits = [...m, true, ...[false; k + 32], ...u32_to_bits(L)];
     u32[M][16] mut result = [[0; 16]; M];
 
@@ -26,7 +26,7 @@ def pad<L, M>(bool[L] m) -> u32[M][16] {
 // A function that takes a bool[N] array as input, pads it,
 // and returns the sha256 output as a u32[8]
 def sha256Padded<N>(bool[N] input) -> u32[8] {
-    u32 block_count = (N + 64 + 1) / 512 + 1;
+    u32 block_count = (N + 64) / 512 + 1;
     u32[block_count][16] padded = pad(input);
     return sha256(padded);
 }
-- 
2.43.0


From 19303a7b3d23676e56fe35f10242b4f06338a937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:26 +0000
Subject: [PATCH 40/58] fix: log expressions which are not linear

---
 zokrates_codegen/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/zokrates_codegen/src/lib.rs b/zokrates_codegen/src/lib.rs
index ec5781d..453e4e1 100644
--- a/zokrates_codegen/src/lib.rs
+++ b/zokrates_codegen/src/lib.rs
@@ -2812,8 +2812,15 @@ impl<'ast, T: Field> Flattener<'ast, T> {
                             t,
                             e.into_iter()
                                 .map(|e| {
-                                    self.flatten_expression(statements_flattened, e)
-                                        .get_field_unchecked()
+                                    let e = self
+                                        .flatten_expression(statements_flattened, e)
+                                        .get_field_unchecked();
+
+                                    // only linear expressions can be logged
+                                    match e.is_linear() {
+                                        true => e,
+                                        false => self.define(e, statements_flattened).into(),
+                                    }
                                 })
                                 .collect(),
                         )
-- 
2.43.0


From 325be18c5ddc084909a2f89bce93e7c84706ec36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:27 +0000
Subject: [PATCH 41/58] fix: report a failing assertion that something is not
 zero as such

---
 zokrates_codegen/src/lib.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/zokrates_codegen/src/lib.rs b/zokrates_codegen/src/lib.rs
index 453e4e1..615899f 100644
--- a/zokrates_codegen/src/lib.rs
+++ b/zokrates_codegen/src/lib.rs
@@ -2694,7 +2694,7 @@ impl<'ast, T: Field> Flattener<'ast, T> {
                                     let x = self
                                         .flatten_uint_expression(statements_flattened, *b.right)
                                         .get_field_unchecked();
-                                    self.enforce_not_zero_assertion(statements_flattened, x)
+                                    self.enforce_not_zero_assertion(statements_flattened, x, error)
                                 } else if let UExpressionInner::Value(ValueExpression {
                                     value: 0,
                                     ..
@@ -2703,7 +2703,7 @@ impl<'ast, T: Field> Flattener<'ast, T> {
                                     let x = self
                                         .flatten_uint_expression(statements_flattened, *b.left)
                                         .get_field_unchecked();
-                                    self.enforce_not_zero_assertion(statements_flattened, x)
+                                    self.enforce_not_zero_assertion(statements_flattened, x, error)
                                 } else {
                                     self.enforce_naive_assertion(
                                         statements_flattened,
@@ -2728,7 +2728,7 @@ impl<'ast, T: Field> Flattener<'ast, T> {
                                     }),
                                 ) if zero == T::from(0) => {
                                     let x = self.flatten_field_expression(statements_flattened, x);
-                                    self.enforce_not_zero_assertion(statements_flattened, x)
+                                    self.enforce_not_zero_assertion(statements_flattened, x, error)
                                 }
                                 (left, right) => self.enforce_naive_assertion(
                                     statements_flattened,
@@ -2868,10 +2868,12 @@ impl<'ast, T: Field> Flattener<'ast, T> {
     ///
     /// * `statements_flattened` - `FlatStatements<'ast, T>` Vector where new flattened statements can be added.
     /// * `x` - `FlatExpression<T>` The expression to be constrained to not be zero.
+    /// * `error` - the error to report if it is
     fn enforce_not_zero_assertion(
         &mut self,
         statements_flattened: &mut FlatStatements<'ast, T>,
         x: FlatExpression<T>,
+        error: zokrates_ast::zir::RuntimeError,
     ) {
         // introduce intermediate variable
         let x_id = self.define(x, statements_flattened);
@@ -2890,7 +2892,7 @@ impl<'ast, T: Field> Flattener<'ast, T> {
         statements_flattened.push_back(FlatStatement::condition(
             FlatExpression::value(T::one()),
             FlatExpression::mul(invx.into(), x_id.into()),
-            RuntimeError::Inverse,
+            error.into(),
         ));
     }
 
-- 
2.43.0


From 06a06cc18bd971636f4299992531358dca949b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:01 +0000
Subject: [PATCH 42/58] fix: reject return statements in for-loops

---
 zokrates_core/src/semantics.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/zokrates_core/src/semantics.rs b/zokrates_core/src/semantics.rs
index d20b137..42102ee 100644
--- a/zokrates_core/src/semantics.rs
+++ b/zokrates_core/src/semantics.rs
@@ -1767,7 +1767,14 @@ impl<'ast, T: Field> Checker<'ast, T> {
 
         let checked_statements = statements
             .into_iter()
-            .map(|s| self.check_statement(s, module_id, types))
+            .map(|s| match s.value {
+                // a function returns in one place only, its last statement
+                Statement::Return(_) => Err(vec![ErrorInner {
+                    span: Some(s.span().in_module(module_id)),
+                    message: "Return statements are not allowed in for-loops".into(),
+                }]),
+                _ => self.check_statement(s, module_id, types),
+            })
             .collect::<Result<Vec<_>, _>>()?;
 
         Ok(TypedStatement::for_(var, from, to, checked_statements).with_span(span))
-- 
2.43.0


From 1c2a9bd4cd630bb8f510f34de5182d1972c9c46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:01 +0000
Subject: [PATCH 43/58] fix: return an error instead of panicking on slices in
 assignees

---
 zokrates_core/src/semantics.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/zokrates_core/src/semantics.rs b/zokrates_core/src/semantics.rs
index 42102ee..5543e10 100644
--- a/zokrates_core/src/semantics.rs
+++ b/zokrates_core/src/semantics.rs
@@ -2198,10 +2198,13 @@ impl<'ast, T: Field> Checker<'ast, T> {
                             RangeOrExpression::Expression(e) => {
                                 self.check_expression(e, module_id, types)?
                             }
-                            r => unimplemented!(
-                                "Using slices in assignments is not supported yet, found {}",
-                                r
-                            ),
+                            r => return Err(ErrorInner {
+                                span: Some(span),
+                                message: format!(
+                                    "Using slices in assignments is not supported yet, found {}",
+                                    r
+                                ),
+                            }),
                         };
 
                         let checked_typed_index =
-- 
2.43.0


From 018cdb190ef6c9dd449b6ed3cd30a64967afefa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:01 +0000
Subject: [PATCH 44/58] fix: return an error instead of panicking when
 accessing untyped integers

---
 zokrates_core/src/semantics.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/zokrates_core/src/semantics.rs b/zokrates_core/src/semantics.rs
index 5543e10..f448af3 100644
--- a/zokrates_core/src/semantics.rs
+++ b/zokrates_core/src/semantics.rs
@@ -333,6 +333,16 @@ pub struct Checker<'ast, T> {
     functions: HashSet<DeclarationFunctionKey<'ast, T>>,
 }
 
+// whether a type contains integers, whose type is to be determined by the context
+fn contains_int<'ast, T: Field>(ty: &Type<'ast, T>) -> bool {
+    match ty {
+        Type::Int => true,
+        Type::Array(t) => contains_int(&t.ty),
+        Type::Tuple(t) => t.elements.iter().any(contains_int),
+        _ => false,
+    }
+}
+
 impl<'ast, T: Field> Checker<'ast, T> {
     /// Check a `Program`
     ///
@@ -1941,7 +1951,7 @@ impl<'ast, T: Field> Checker<'ast, T> {
                 let mut errors = vec![];
 
                 for e in &expressions {
-                    if let TypedExpression::Int(e) = e {
+                    if contains_int(&e.get_type()) {
                         errors.push(ErrorInner {
                             span: Some(span),
                             message: format!("Cannot determine type for expression `{}`", e),
@@ -3174,6 +3184,15 @@ impl<'ast, T: Field> Checker<'ast, T> {
                             })?;
 
                         match array {
+                            TypedExpression::Array(a) if contains_int(&a.get_type()) => {
+                                Err(ErrorInner {
+                                    span: Some(span),
+                                    message: format!(
+                                        "Cannot determine type for expression `{}`",
+                                        a
+                                    ),
+                                })
+                            }
                             TypedExpression::Array(a) => {
                                 match a.inner_type().clone() {
                                     Type::FieldElement => {
@@ -3209,6 +3228,13 @@ impl<'ast, T: Field> Checker<'ast, T> {
 
                         match ty {
                             Some(ty) => match ty {
+                                _ if contains_int(&t.get_type()) => Err(ErrorInner {
+                                    span: Some(span),
+                                    message: format!(
+                                        "Cannot determine type for expression `{}`",
+                                        t
+                                    ),
+                                }),
                                 Type::Int => unreachable!(),
                                 Type::FieldElement => {
                                     Ok(FieldElementExpression::element(t, index).into())
-- 
2.43.0


From 3d43b668e37b7dc5b736991f0208f303bf7e40ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:01 +0000
Subject: [PATCH 45/58] fix: return an error instead of panicking on large
 tuple indices

---
 zokrates_ast/src/untyped/from_ast.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/zokrates_ast/src/untyped/from_ast.rs b/zokrates_ast/src/untyped/from_ast.rs
index ff37ce6..699e678 100644
--- a/zokrates_ast/src/untyped/from_ast.rs
+++ b/zokrates_ast/src/untyped/from_ast.rs
@@ -686,7 +686,8 @@ impl<'ast> From<pest::PostfixExpression<'ast>> for untyped::ExpressionNode<'ast>
                     }
                     pest::IdentifierOrDecimal::Decimal(id) => untyped::Expression::Element(
                         Box::new(acc),
-                        id.span.as_str().parse().unwrap(),
+                        // no tuple has as many elements as that
+                        id.span.as_str().parse().unwrap_or(u32::MAX),
                     )
                     .span(m.span),
                 },
@@ -793,9 +794,11 @@ impl<'ast> From<pest::Assignee<'ast>> for untyped::AssigneeNode<'ast> {
                     pest::IdentifierOrDecimal::Identifier(id) => {
                         untyped::Assignee::Member(Box::new(acc), Box::new(id.span.as_str()))
                     }
-                    pest::IdentifierOrDecimal::Decimal(id) => {
-                        untyped::Assignee::Element(Box::new(acc), id.span.as_str().parse().unwrap())
-                    }
+                    pest::IdentifierOrDecimal::Decimal(id) => untyped::Assignee::Element(
+                        Box::new(acc),
+                        // no tuple has as many elements as that
+                        id.span.as_str().parse().unwrap_or(u32::MAX),
+                    ),
                 },
             }
             .span(span)
-- 
2.43.0


From 4ba1372620ddaa828a602004e04cec80a7df1d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:01 +0000
Subject: [PATCH 46/58] fix: fold the expression of an assembly assignment
 before its assignee

---
 zokrates_ast/src/typed/folder.rs        | 3 ++-
 zokrates_ast/src/typed/result_folder.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/zokrates_ast/src/typed/folder.rs b/zokrates_ast/src/typed/folder.rs
index 424109b..677315f 100644
--- a/zokrates_ast/src/typed/folder.rs
+++ b/zokrates_ast/src/typed/folder.rs
@@ -790,8 +790,9 @@ pub fn fold_assembly_assignment<'ast, T: Field, F: Folder<'ast, T>>(
     f: &mut F,
     s: AssemblyAssignment<'ast, T>,
 ) -> Vec<TypedAssemblyStatement<'ast, T>> {
-    let assignee = f.fold_assignee(s.assignee);
+    // the expression refers to the variables as they are before the assignment
     let expression = f.fold_expression(s.expression);
+    let assignee = f.fold_assignee(s.assignee);
     vec![TypedAssemblyStatement::assignment(assignee, expression)]
 }
 
diff --git a/zokrates_ast/src/typed/result_folder.rs b/zokrates_ast/src/typed/result_folder.rs
index d8541ad..a6373eb 100644
--- a/zokrates_ast/src/typed/result_folder.rs
+++ b/zokrates_ast/src/typed/result_folder.rs
@@ -769,8 +769,9 @@ pub fn fold_assembly_assignment<'ast, T: Field, F: ResultFolder<'ast, T>>(
     f: &mut F,
     s: AssemblyAssignment<'ast, T>,
 ) -> Result<Vec<TypedAssemblyStatement<'ast, T>>, F::Error> {
-    let assignee = f.fold_assignee(s.assignee)?;
+    // the expression refers to the variables as they are before the assignment
     let expression = f.fold_expression(s.expression)?;
+    let assignee = f.fold_assignee(s.assignee)?;
     Ok(vec![TypedAssemblyStatement::assignment(
         assignee, expression,
     )])
-- 
2.43.0


From c9df7e6ddbd335169a95d337bce746e2b94781f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:01 +0000
Subject: [PATCH 47/58] fix: check that the branches of a conditional have the
 same type after inlining

---
 zokrates_analysis/src/propagation.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/zokrates_analysis/src/propagation.rs b/zokrates_analysis/src/propagation.rs
index 4d5cafe..51ac78d 100644
--- a/zokrates_analysis/src/propagation.rs
+++ b/zokrates_analysis/src/propagation.rs
@@ -20,7 +20,7 @@ use zokrates_ast::common::expressions::{
 use zokrates_ast::common::operators::OpEq;
 use zokrates_ast::common::{FlatEmbed, ResultFold, WithSpan};
 use zokrates_ast::typed::result_folder::*;
-use zokrates_ast::typed::types::Type;
+use zokrates_ast::typed::types::{IntoType, Type};
 use zokrates_ast::typed::*;
 use zokrates_field::Field;
 
@@ -196,9 +196,27 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for Propagator<'ast, T> {
                 (consequence, alternative) if consequence == alternative => {
                     ConditionalOrExpression::Expression(consequence.into_inner())
                 }
-                (consequence, alternative) => ConditionalOrExpression::Conditional(
-                    ConditionalExpression::new(condition, consequence, alternative, e.kind),
-                ),
+                (consequence, alternative) => {
+                    // the sizes of arrays are only known at this point
+                    if let (Ok(t_consequence), Ok(t_alternative)) = (
+                        ConcreteType::try_from(consequence.ty().clone().into_type()),
+                        ConcreteType::try_from(alternative.ty().clone().into_type()),
+                    ) {
+                        if t_consequence != t_alternative {
+                            return Err(Error::Type(format!(
+                                "The branches of a conditional expression must have the same type, found {} of type {} and {} of type {}",
+                                consequence, t_consequence, alternative, t_alternative
+                            )));
+                        }
+                    }
+
+                    ConditionalOrExpression::Conditional(ConditionalExpression::new(
+                        condition,
+                        consequence,
+                        alternative,
+                        e.kind,
+                    ))
+                }
             },
         })
     }
-- 
2.43.0


From ddb87181231fd29978b1ef8a15da3389e520f05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:19 +0000
Subject: [PATCH 48/58] fix: check the type of returned values after inlining

---
 zokrates_analysis/src/reducer/mod.rs | 32 +++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/zokrates_analysis/src/reducer/mod.rs b/zokrates_analysis/src/reducer/mod.rs
index 145ff01..3550136 100644
--- a/zokrates_analysis/src/reducer/mod.rs
+++ b/zokrates_analysis/src/reducer/mod.rs
@@ -29,13 +29,14 @@ use zokrates_ast::typed::SliceOrExpression;
 use zokrates_ast::typed::{result_folder::*, ArrayExpression};
 use zokrates_ast::typed::{CanonicalConstantIdentifier, EmbedCall, Variable};
 
-use zokrates_ast::typed::TypedAssignee;
+use zokrates_ast::typed::types::{try_from_g_type, ConcreteType, IntoType, Type};
 use zokrates_ast::typed::{
     BlockExpression, CoreIdentifier, Expr, FunctionCall, FunctionCallExpression,
     FunctionCallOrExpression, Id, TypedExpression, TypedFunction, TypedFunctionSymbol,
     TypedFunctionSymbolDeclaration, TypedModule, TypedProgram, TypedStatement, UExpression,
     UExpressionInner,
 };
+use zokrates_ast::typed::{Typed, TypedAssignee};
 
 use zokrates_ast::untyped::OwnedModuleId;
 use zokrates_field::Field;
@@ -215,6 +216,8 @@ impl<'ast, 'a, T: Field> ResultFolder<'ast, T> for Reducer<'ast, 'a, T> {
 
                 let return_value = self.propagator.fold_expression(return_value)?;
 
+                check_return_type(ty.clone().into_type(), &return_value)?;
+
                 Ok(FunctionCallOrExpression::Expression(
                     E::from(return_value).into_inner(),
                 ))
@@ -393,6 +396,23 @@ impl<'ast, 'a, T: Field> ResultFolder<'ast, T> for Reducer<'ast, 'a, T> {
     }
 }
 
+// check the type of a returned value against the declared one, as the sizes of arrays are only known after inlining
+fn check_return_type<'ast, T: Field>(
+    expected: Type<'ast, T>,
+    value: &TypedExpression<'ast, T>,
+) -> Result<(), Error> {
+    match (
+        ConcreteType::try_from(expected),
+        ConcreteType::try_from(value.get_type()),
+    ) {
+        (Ok(expected), Ok(found)) if expected != found => Err(Error::Type(format!(
+            "Cannot return {} of type {} from a function with return type {}",
+            value, found, expected
+        ))),
+        _ => Ok(()),
+    }
+}
+
 pub fn reduce_program<T: Field>(p: TypedProgram<T>) -> Result<TypedProgram<T>, Error> {
     // inline all constants and replace them in the program
 
@@ -417,6 +437,16 @@ pub fn reduce_program<T: Field>(p: TypedProgram<T>) -> Result<TypedProgram<T>, E
         0 => {
             let main_function = Reducer::new(&p).fold_function(main_function)?;
 
+            for s in &main_function.statements {
+                if let TypedStatement::Return(s) = s {
+                    let output = *main_function.signature.output.clone();
+
+                    if let Ok(output) = try_from_g_type(output) {
+                        check_return_type(output, &s.inner)?;
+                    }
+                }
+            }
+
             Ok(TypedProgram {
                 main: p.main.clone(),
                 modules: vec![(
-- 
2.43.0


From 0f97d2695ad0129023111743887a9179ce2e9914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:19 +0000
Subject: [PATCH 49/58] fix: give the members of struct literals their declared
 types

---
 zokrates_core/src/semantics.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/zokrates_core/src/semantics.rs b/zokrates_core/src/semantics.rs
index f448af3..baf4497 100644
--- a/zokrates_core/src/semantics.rs
+++ b/zokrates_core/src/semantics.rs
@@ -2208,13 +2208,15 @@ impl<'ast, T: Field> Checker<'ast, T> {
                             RangeOrExpression::Expression(e) => {
                                 self.check_expression(e, module_id, types)?
                             }
-                            r => return Err(ErrorInner {
-                                span: Some(span),
-                                message: format!(
+                            r => {
+                                return Err(ErrorInner {
+                                    span: Some(span),
+                                    message: format!(
                                     "Using slices in assignments is not supported yet, found {}",
                                     r
                                 ),
-                            }),
+                                })
+                            }
                         };
 
                         let checked_typed_index =
@@ -3517,10 +3519,10 @@ impl<'ast, T: Field> Checker<'ast, T> {
 
                 let mut generics_map = GGenericsAssignment::default();
 
-                let members = declared_struct_type
+                declared_struct_type
                     .iter()
                     .zip(inferred_values.iter())
-                    .map(|(m, v)| {
+                    .try_for_each(|(m, v)| {
                         if !check_type(&m.ty, &v.get_type(), &mut generics_map) {
                             Err(ErrorInner {
                                 span: Some(span),
@@ -3531,10 +3533,22 @@ impl<'ast, T: Field> Checker<'ast, T> {
                                 ),
                             })
                         } else {
-                            Ok(StructMember::new(m.id.clone(), v.get_type().clone()))
+                            Ok(())
                         }
+                    })?;
+
+                // the members have the declared types, which the values may still turn out not to have once sizes are known
+                let members = declared_struct_type
+                    .iter()
+                    .zip(inferred_values.iter())
+                    .map(|(m, v)| {
+                        StructMember::new(
+                            m.id.clone(),
+                            specialize_declaration_type(*m.ty.clone(), &generics_map)
+                                .unwrap_or_else(|_| v.get_type()),
+                        )
                     })
-                    .collect::<Result<Vec<_>, _>>()?;
+                    .collect();
 
                 let generics = generics_map.0.values().cloned().map(Some).collect();
 
-- 
2.43.0


From 1ca8dd7a9fdf23a08e062d4bde55eb5698d82b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:30 +0000
Subject: [PATCH 50/58] fix: reduce the result of bitwise operations on
 constant field elements

---
 zokrates_analysis/src/propagation.rs     | 29 ++++++++++-----------
 zokrates_analysis/src/zir_propagation.rs | 33 ++++++++++++------------
 2 files changed, 30 insertions(+), 32 deletions(-)

diff --git a/zokrates_analysis/src/propagation.rs b/zokrates_analysis/src/propagation.rs
index 51ac78d..d4f86c5 100644
--- a/zokrates_analysis/src/propagation.rs
+++ b/zokrates_analysis/src/propagation.rs
@@ -7,6 +7,7 @@
 //! @author Thibaut Schaeffer <thibaut@schaeff.fr>
 //! @date 2018
 
+use crate::zir_propagation::reduce;
 use num::traits::Pow;
 use num_bigint::BigUint;
 use std::collections::HashMap;
@@ -994,10 +995,9 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for Propagator<'ast, T> {
 
                 match (e1, e2) {
                     (FieldElementExpression::Value(n1), FieldElementExpression::Value(n2)) => {
-                        Ok(FieldElementExpression::value(
-                            T::try_from(n1.value.to_biguint().bitxor(n2.value.to_biguint()))
-                                .unwrap(),
-                        ))
+                        Ok(FieldElementExpression::value(reduce(
+                            n1.value.to_biguint().bitxor(n2.value.to_biguint()),
+                        )))
                     }
                     (FieldElementExpression::Value(n), e)
                     | (e, FieldElementExpression::Value(n))
@@ -1021,10 +1021,9 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for Propagator<'ast, T> {
                         Ok(FieldElementExpression::Value(n))
                     }
                     (FieldElementExpression::Value(n1), FieldElementExpression::Value(n2)) => {
-                        Ok(FieldElementExpression::value(
-                            T::try_from(n1.value.to_biguint().bitand(n2.value.to_biguint()))
-                                .unwrap(),
-                        ))
+                        Ok(FieldElementExpression::value(reduce(
+                            n1.value.to_biguint().bitand(n2.value.to_biguint()),
+                        )))
                     }
                     (e1, e2) => Ok(FieldElementExpression::bitand(e1, e2)),
                 }
@@ -1041,10 +1040,9 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for Propagator<'ast, T> {
                         Ok(e)
                     }
                     (FieldElementExpression::Value(n1), FieldElementExpression::Value(n2)) => {
-                        Ok(FieldElementExpression::value(
-                            T::try_from(n1.value.to_biguint().bitor(n2.value.to_biguint()))
-                                .unwrap(),
-                        ))
+                        Ok(FieldElementExpression::value(reduce(
+                            n1.value.to_biguint().bitor(n2.value.to_biguint()),
+                        )))
                     }
                     (e1, e2) => Ok(FieldElementExpression::bitor(e1, e2)),
                 }
@@ -1079,10 +1077,9 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for Propagator<'ast, T> {
                         let two = BigUint::from(2usize);
                         let mask: BigUint = two.pow(T::get_required_bits()).sub(1usize);
 
-                        Ok(FieldElementExpression::value(
-                            T::try_from(n.value.to_biguint().shl(by.value as usize).bitand(mask))
-                                .unwrap(),
-                        ))
+                        Ok(FieldElementExpression::value(reduce(
+                            n.value.to_biguint().shl(by.value as usize).bitand(mask),
+                        )))
                     }
                     (e, by) => Ok(FieldElementExpression::left_shift(e, by)),
                 }
diff --git a/zokrates_analysis/src/zir_propagation.rs b/zokrates_analysis/src/zir_propagation.rs
index 0e88f6e..0158250 100644
--- a/zokrates_analysis/src/zir_propagation.rs
+++ b/zokrates_analysis/src/zir_propagation.rs
@@ -20,6 +20,11 @@ use zokrates_field::Field;
 
 type Constants<'ast, T> = HashMap<Identifier<'ast>, ZirExpression<'ast, T>>;
 
+// the result of a bitwise operation on field elements, which can be larger than the modulus
+pub(crate) fn reduce<T: Field>(n: BigUint) -> T {
+    T::try_from(n % (T::max_value().to_biguint() + 1usize)).unwrap()
+}
+
 #[derive(Debug, PartialEq, Eq)]
 pub enum Error {
     OutOfBounds(usize, usize),
@@ -365,10 +370,9 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for ZirPropagator<'ast, T> {
 
                 match (e1, e2) {
                     (FieldElementExpression::Value(n1), FieldElementExpression::Value(n2)) => {
-                        Ok(FieldElementExpression::value(
-                            T::try_from(n1.value.to_biguint().bitxor(n2.value.to_biguint()))
-                                .unwrap(),
-                        ))
+                        Ok(FieldElementExpression::value(reduce(
+                            n1.value.to_biguint().bitxor(n2.value.to_biguint()),
+                        )))
                     }
                     (e1, e2) if e1.eq(&e2) => Ok(FieldElementExpression::value(T::from(0))),
                     (e1, e2) => Ok(FieldElementExpression::bitxor(e1, e2)),
@@ -386,10 +390,9 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for ZirPropagator<'ast, T> {
                         Ok(FieldElementExpression::Value(n))
                     }
                     (FieldElementExpression::Value(n1), FieldElementExpression::Value(n2)) => {
-                        Ok(FieldElementExpression::value(
-                            T::try_from(n1.value.to_biguint().bitand(n2.value.to_biguint()))
-                                .unwrap(),
-                        ))
+                        Ok(FieldElementExpression::value(reduce(
+                            n1.value.to_biguint().bitand(n2.value.to_biguint()),
+                        )))
                     }
                     (e1, e2) => Ok(FieldElementExpression::bitand(e1, e2)),
                 }
@@ -406,10 +409,9 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for ZirPropagator<'ast, T> {
                         Ok(e)
                     }
                     (FieldElementExpression::Value(n1), FieldElementExpression::Value(n2)) => {
-                        Ok(FieldElementExpression::value(
-                            T::try_from(n1.value.to_biguint().bitor(n2.value.to_biguint()))
-                                .unwrap(),
-                        ))
+                        Ok(FieldElementExpression::value(reduce(
+                            n1.value.to_biguint().bitor(n2.value.to_biguint()),
+                        )))
                     }
                     (e1, e2) => Ok(FieldElementExpression::bitor(e1, e2)),
                 }
@@ -444,10 +446,9 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for ZirPropagator<'ast, T> {
                         let two = BigUint::from(2usize);
                         let mask: BigUint = two.pow(T::get_required_bits()).sub(1usize);
 
-                        Ok(FieldElementExpression::value(
-                            T::try_from(n.value.to_biguint().shl(by.value as usize).bitand(mask))
-                                .unwrap(),
-                        ))
+                        Ok(FieldElementExpression::value(reduce(
+                            n.value.to_biguint().shl(by.value as usize).bitand(mask),
+                        )))
                     }
                     (expr, by) => Ok(FieldElementExpression::left_shift(expr, by)),
                 }
-- 
2.43.0


From 32c8313cfa4077c1a2be4a3c08eca618665fffc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:30 +0000
Subject: [PATCH 51/58] fix: check the branches of conditionals against the
 type of the expression

---
 zokrates_analysis/src/propagation.rs | 49 ++++++++++++++++------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/zokrates_analysis/src/propagation.rs b/zokrates_analysis/src/propagation.rs
index d4f86c5..c99e8f9 100644
--- a/zokrates_analysis/src/propagation.rs
+++ b/zokrates_analysis/src/propagation.rs
@@ -183,34 +183,41 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for Propagator<'ast, T> {
         E: Expr<'ast, T> + Conditional<'ast, T> + PartialEq + ResultFold<Self, Self::Error>,
     >(
         &mut self,
-        _: &E::Ty,
+        ty: &E::Ty,
         e: ConditionalExpression<'ast, T, E>,
     ) -> Result<ConditionalOrExpression<'ast, T, E>, Self::Error> {
+        // the sizes of arrays are only known at this point
+        let check_type = |branch: &E| match (
+            ConcreteType::try_from(branch.ty().clone().into_type()),
+            ConcreteType::try_from(ty.clone().into_type()),
+        ) {
+            (Ok(branch_ty), Ok(ty)) if branch_ty != ty => Err(Error::Type(format!(
+                "Expected branch {} of a conditional expression to be of type {}, found {}",
+                branch, ty, branch_ty
+            ))),
+            _ => Ok(()),
+        };
+
         Ok(match self.fold_boolean_expression(*e.condition)? {
             BooleanExpression::Value(v) if v.value => {
-                ConditionalOrExpression::Expression(e.consequence.fold(self)?.into_inner())
+                let consequence = e.consequence.fold(self)?;
+                check_type(&consequence)?;
+                ConditionalOrExpression::Expression(consequence.into_inner())
             }
             BooleanExpression::Value(v) if !v.value => {
-                ConditionalOrExpression::Expression(e.alternative.fold(self)?.into_inner())
+                let alternative = e.alternative.fold(self)?;
+                check_type(&alternative)?;
+                ConditionalOrExpression::Expression(alternative.into_inner())
             }
-            condition => match (e.consequence.fold(self)?, e.alternative.fold(self)?) {
-                (consequence, alternative) if consequence == alternative => {
-                    ConditionalOrExpression::Expression(consequence.into_inner())
-                }
-                (consequence, alternative) => {
-                    // the sizes of arrays are only known at this point
-                    if let (Ok(t_consequence), Ok(t_alternative)) = (
-                        ConcreteType::try_from(consequence.ty().clone().into_type()),
-                        ConcreteType::try_from(alternative.ty().clone().into_type()),
-                    ) {
-                        if t_consequence != t_alternative {
-                            return Err(Error::Type(format!(
-                                "The branches of a conditional expression must have the same type, found {} of type {} and {} of type {}",
-                                consequence, t_consequence, alternative, t_alternative
-                            )));
-                        }
-                    }
+            condition => {
+                let consequence = e.consequence.fold(self)?;
+                let alternative = e.alternative.fold(self)?;
+                check_type(&consequence)?;
+                check_type(&alternative)?;
 
+                if consequence == alternative {
+                    ConditionalOrExpression::Expression(consequence.into_inner())
+                } else {
                     ConditionalOrExpression::Conditional(ConditionalExpression::new(
                         condition,
                         consequence,
@@ -218,7 +225,7 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for Propagator<'ast, T> {
                         e.kind,
                     ))
                 }
-            },
+            }
         })
     }
 
-- 
2.43.0


From 2ef0699809dec7e430b7fee6eb153227e4f3666b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:30 +0000
Subject: [PATCH 52/58] fix: check the type of array elements after inlining

---
 zokrates_analysis/src/propagation.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/zokrates_analysis/src/propagation.rs b/zokrates_analysis/src/propagation.rs
index c99e8f9..6db4e47 100644
--- a/zokrates_analysis/src/propagation.rs
+++ b/zokrates_analysis/src/propagation.rs
@@ -1312,11 +1312,32 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for Propagator<'ast, T> {
     ) -> Result<ArrayExpressionInner<'ast, T>, Error> {
         match e {
             ArrayExpressionInner::Value(exprs) => {
+                let exprs = exprs
+                    .into_iter()
+                    .map(|e| self.fold_expression_or_spread(e))
+                    .collect::<Result<Vec<_>, _>>()?;
+
+                for e in &exprs {
+                    let found = match e {
+                        TypedExpressionOrSpread::Expression(e) => e.get_type(),
+                        TypedExpressionOrSpread::Spread(s) => s.array.inner_type().clone(),
+                    };
+
+                    if let (Ok(t1), Ok(t2)) = (
+                        ConcreteType::try_from(found),
+                        ConcreteType::try_from(*ty.ty.clone()),
+                    ) {
+                        if t1 != t2 {
+                            return Err(Error::Type(format!(
+                                "Array element `{}` expected to have type `{}`, found type `{}`",
+                                e, t2, t1
+                            )));
+                        }
+                    }
+                }
+
                 Ok(ArrayExpressionInner::Value(
                     exprs
-                        .into_iter()
-                        .map(|e| self.fold_expression_or_spread(e))
-                        .collect::<Result<Vec<_>, _>>()?
                         .into_iter()
                         .flat_map(|e| {
                             match e {
-- 
2.43.0


From b8f337ff10a38f4af7f0ecb4e379784c41623af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:28 +0000
Subject: [PATCH 53/58] fix: do not accept whitespace in hexadecimal literals

---
 zokrates_parser/src/zokrates.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zokrates_parser/src/zokrates.pest b/zokrates_parser/src/zokrates.pest
index 0521636..45fd3f6 100644
--- a/zokrates_parser/src/zokrates.pest
+++ b/zokrates_parser/src/zokrates.pest
@@ -150,7 +150,7 @@ decimal_suffix_field = { "f" }
 
 boolean_literal = @{ ("true" | "false") ~ word_end }
 
-hex_literal = !{ "0x" ~ hex_number }
+hex_literal = ${ "0x" ~ hex_number }
 hex_number = { hex_number_u64 | hex_number_u32 | hex_number_u16 | hex_number_u8 }
 hex_number_u8 = { ASCII_HEX_DIGIT{2} }
 hex_number_u16 = { ASCII_HEX_DIGIT{4} }
-- 
2.43.0


From 3e34c862153452207b8a9b8578b7175959c02085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:24 +0000
Subject: [PATCH 54/58] fix: keep the arguments of witness assignments which
 propagation removed from the expression

---
 zokrates_analysis/src/dead_code.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/zokrates_analysis/src/dead_code.rs b/zokrates_analysis/src/dead_code.rs
index d1baba9..0ec5e60 100644
--- a/zokrates_analysis/src/dead_code.rs
+++ b/zokrates_analysis/src/dead_code.rs
@@ -23,7 +23,19 @@ impl<'ast, T: Field> Folder<'ast, T> for DeadCodeEliminator<'ast> {
             .flat_map(|s| self.fold_statement(s))
             .collect();
         statements.reverse();
-        ZirFunction { statements, ..f }
+
+        // the arguments of witness assignments are read even if propagation removed them from the expression
+        let arguments = f
+            .arguments
+            .into_iter()
+            .map(|a| Folder::<T>::fold_parameter(self, a))
+            .collect();
+
+        ZirFunction {
+            arguments,
+            statements,
+            ..f
+        }
     }
 
     fn fold_if_else_statement(
-- 
2.43.0


From 1c54b0b8d1dc24244cad7c6773117108af67452c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:24 +0000
Subject: [PATCH 55/58] fix: return an error instead of panicking on dynamic
 accesses to empty arrays

---
 zokrates_analysis/src/out_of_bounds.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zokrates_analysis/src/out_of_bounds.rs b/zokrates_analysis/src/out_of_bounds.rs
index d05f847..484c5c3 100644
--- a/zokrates_analysis/src/out_of_bounds.rs
+++ b/zokrates_analysis/src/out_of_bounds.rs
@@ -42,6 +42,10 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for OutOfBoundsChecker {
                     s, s.array, size
                 )))
             }
+            (_, UExpressionInner::Value(size)) if size.value == 0 => Err(Error(format!(
+                "Out of bounds access `{}` because `{}` has size {}",
+                s, s.array, size
+            ))),
             _ => fold_select_expression(self, ty, s),
         }
     }
-- 
2.43.0


From e55e6ed206118bed8b0924ee69cf4a2e57c2e958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:03 +0000
Subject: [PATCH 56/58] fix: return an error instead of panicking on literals
 of types which are not structs

---
 zokrates_core/src/semantics.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/zokrates_core/src/semantics.rs b/zokrates_core/src/semantics.rs
index baf4497..4f4d4b9 100644
--- a/zokrates_core/src/semantics.rs
+++ b/zokrates_core/src/semantics.rs
@@ -3435,9 +3435,12 @@ impl<'ast, T: Field> Checker<'ast, T> {
                 }?;
 
                 let mut declared_struct_type = match ty.ty {
-                    DeclarationType::Struct(struct_type) => struct_type,
-                    _ => unreachable!(),
-                };
+                    DeclarationType::Struct(struct_type) => Ok(struct_type),
+                    _ => Err(ErrorInner {
+                        span: Some(span),
+                        message: format!("`{}` is not a struct", id),
+                    }),
+                }?;
 
                 declared_struct_type.generics = (0..declared_struct_type.generics.len())
                     .map(|index| {
-- 
2.43.0


From 3dd11c56601b3c0bce6e0017c113ccaaadd156e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:25 +0000
Subject: [PATCH 57/58] fix: return an error instead of overflowing on the size
 of an array literal

---
 zokrates_core/src/semantics.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/zokrates_core/src/semantics.rs b/zokrates_core/src/semantics.rs
index 4f4d4b9..a01b366 100644
--- a/zokrates_core/src/semantics.rs
+++ b/zokrates_core/src/semantics.rs
@@ -3377,16 +3377,22 @@ impl<'ast, T: Field> Checker<'ast, T> {
                 let size: UExpression<'ast, T> = unwrapped_expressions_or_spreads
                     .iter()
                     .map(|e| e.size())
-                    .fold(None, |acc, e| match acc {
+                    .try_fold(None, |acc: Option<(u32, UExpression<'ast, T>)>, e| match acc {
                         Some((c_acc, e_acc)) => match e.as_inner() {
-                            UExpressionInner::Value(e) => Some(((c_acc + e.value as u32), e_acc)),
-                            _ => Some((c_acc, e_acc + e)),
+                            UExpressionInner::Value(e) => c_acc
+                                .checked_add(e.value as u32)
+                                .map(|c_acc| Some((c_acc, e_acc)))
+                                .ok_or_else(|| ErrorInner {
+                                    span: Some(span),
+                                    message: "Array is too large".into(),
+                                }),
+                            _ => Ok(Some((c_acc, e_acc + e))),
                         },
-                        None => match e.as_inner() {
+                        None => Ok(match e.as_inner() {
                             UExpressionInner::Value(e) => Some((e.value as u32, 0u32.into())),
                             _ => Some((0u32, e)),
-                        },
-                    })
+                        }),
+                    })?
                     .map(|(c_size, e_size)| e_size + c_size.into())
                     .unwrap_or_else(|| 0u32.into());
 
-- 
2.43.0


From 80dc2bd2947dfba3394a3b52e2ca2f21f51c73b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:53:28 +0000
Subject: [PATCH 58/58] fix: reject constraints of assembly blocks such as a *
 a * a === d, which were compiled to 0 === d

---
 zokrates_ast/src/zir/lqc.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/zokrates_ast/src/zir/lqc.rs b/zokrates_ast/src/zir/lqc.rs
index e34877c..f2b38d8 100644
--- a/zokrates_ast/src/zir/lqc.rs
+++ b/zokrates_ast/src/zir/lqc.rs
@@ -61,9 +61,15 @@ impl<'ast, T: Field> std::ops::Sub for LinQuadComb<'ast, T> {
 }
 
 impl<'ast, T: Field> LinQuadComb<'ast, T> {
+    fn is_constant(&self) -> bool {
+        self.linear.is_empty() && self.quadratic.is_empty()
+    }
+
     fn try_mul(self, rhs: Self) -> Result<Self, ()> {
-        // fail if the result has degree higher than 2
-        if !(self.quadratic.is_empty() || rhs.quadratic.is_empty()) {
+        // fail if the result has degree higher than 2: quadratic terms can only be multiplied by a constant
+        if !(self.quadratic.is_empty() || rhs.is_constant())
+            || !(rhs.quadratic.is_empty() || self.is_constant())
+        {
             return Err(());
         }
 
-- 
2.43.0

