From e7b9ffd03726feca93f1a67c372c9c69b760db0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:31 +0000
Subject: [PATCH 01/21] fix: Allocate CPS stacks of zero capacity

---
 lib/ffi/src/cps/stack.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/ffi/src/cps/stack.rs b/lib/ffi/src/cps/stack.rs
index 2496edb..80cc15c 100644
--- a/lib/ffi/src/cps/stack.rs
+++ b/lib/ffi/src/cps/stack.rs
@@ -14,7 +14,8 @@ pub struct Stack {
 
 impl Stack {
     pub fn new(capacity: usize) -> Self {
-        let layout = Self::get_layout(capacity).pad_to_align();
+        // A block of memory must never be empty to be allocated and grown.
+        let layout = Self::get_layout(capacity.max(1)).pad_to_align();
 
         Self {
             capacity: layout.size(),
-- 
2.43.0


From b28b61607cb760a68d6dcec891aabcd4114eac28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 02/21] fix: Slice strings from indices below one

---
 packages/core/ffi/src/string/byte.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/core/ffi/src/string/byte.rs b/packages/core/ffi/src/string/byte.rs
index 28e6e25..ffeaa6d 100644
--- a/packages/core/ffi/src/string/byte.rs
+++ b/packages/core/ffi/src/string/byte.rs
@@ -9,7 +9,7 @@ fn _pen_core_byte_slice(
     start: ffi::Number,
     end: ffi::Number,
 ) -> ffi::ByteString {
-    let start = f64::from(start) as usize;
+    let start = f64::from(start).max(1.0) as usize;
     let end = f64::from(end).min(string.as_slice().len() as f64) as usize;
 
     if start > end || start > string.as_slice().len() || end == 0 {
-- 
2.43.0


From afde0fc039e96f1dbb7219bb287135f867fbea3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 03/21] fix: Read string views sliced out of their bounds

---
 packages/core/ffi/src/view.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/packages/core/ffi/src/view.rs b/packages/core/ffi/src/view.rs
index fb35f09..bcbb632 100644
--- a/packages/core/ffi/src/view.rs
+++ b/packages/core/ffi/src/view.rs
@@ -5,11 +5,9 @@ fn _pen_core_view_starts_with(
     end: ffi::Number,
     prefix: ffi::ByteString,
 ) -> ffi::Boolean {
-    let string = string.as_slice();
-    let start = f64::from(start) as usize - 1;
-    let prefix = prefix.as_slice();
-
-    (&string[start..(start + prefix.len()).min(f64::from(end) as usize)] == prefix).into()
+    slice(&string, start, end)
+        .starts_with(prefix.as_slice())
+        .into()
 }
 
 #[ffi::bindgen]
@@ -18,7 +16,15 @@ fn _pen_core_view_to_string(
     start: ffi::Number,
     end: ffi::Number,
 ) -> ffi::ByteString {
-    string.as_slice()[f64::from(start) as usize - 1..f64::from(end) as usize].into()
+    slice(&string, start, end).into()
+}
+
+// A view can be sliced out of its bounds.
+fn slice(string: &ffi::ByteString, start: ffi::Number, end: ffi::Number) -> &[u8] {
+    let start = f64::from(start).max(1.0) as usize - 1;
+    let end = (f64::from(end) as usize).min(string.as_slice().len());
+
+    string.as_slice().get(start..end).unwrap_or_default()
 }
 
 #[cfg(test)]
-- 
2.43.0


From 7323586bf6c0a146a1392c30e361a12eb3eb2961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:07 +0000
Subject: [PATCH 04/21] fix: parse modules only of blanks

---
 lib/parse/src/parser.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/lib/parse/src/parser.rs b/lib/parse/src/parser.rs
index 138eb84..d3926e9 100644
--- a/lib/parse/src/parser.rs
+++ b/lib/parse/src/parser.rs
@@ -56,15 +56,18 @@ pub fn module(input: Input) -> IResult<Module> {
 
 pub fn comments(input: Input) -> IResult<Vec<Comment>> {
     map(
-        all_consuming(many0((
-            multispace0,
-            alt((
-                map(comment, Some),
-                map(raw_string_literal, |_| None),
-                map(none_of("\"#"), |_| None),
+        all_consuming(terminated(
+            many0((
+                multispace0,
+                alt((
+                    map(comment, Some),
+                    map(raw_string_literal, |_| None),
+                    map(none_of("\"#"), |_| None),
+                )),
+                multispace0,
             )),
             multispace0,
-        ))),
+        )),
         |comments| {
             comments
                 .into_iter()
-- 
2.43.0


From cefe315f51a0ef1502f55d5dea16bcccf1ff6147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:07 +0000
Subject: [PATCH 05/21] fix: keep parentheses of function types at ends of
 union types in formatting

---
 lib/format/src/lib.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/format/src/lib.rs b/lib/format/src/lib.rs
index e05ac8a..f6d2c83 100644
--- a/lib/format/src/lib.rs
+++ b/lib/format/src/lib.rs
@@ -309,11 +309,10 @@ fn compile_type<'a>(context: &Context<'a>, type_: &'a Type) -> Document<'a> {
             let union = builder.sequence(
                 types
                     .iter()
-                    .enumerate()
-                    .map(|(index, type_)| {
+                    .map(|type_| {
                         let document = compile_type(context, type_);
 
-                        if index != types.len() - 1 && matches!(type_, Type::Function(_)) {
+                        if matches!(type_, Type::Function(_)) {
                             builder.sequence(["(".into(), document, ")".into()])
                         } else {
                             document
-- 
2.43.0


From f31e607fe0595f18d99eb775d2d5c8d655f11b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:07 +0000
Subject: [PATCH 06/21] fix: keep parentheses of operands in formatting

---
 lib/format/src/lib.rs | 94 +++++++++++++++++++++++++++----------------
 1 file changed, 59 insertions(+), 35 deletions(-)

diff --git a/lib/format/src/lib.rs b/lib/format/src/lib.rs
index f6d2c83..3d8dda1 100644
--- a/lib/format/src/lib.rs
+++ b/lib/format/src/lib.rs
@@ -474,7 +474,7 @@ fn compile_expression<'a>(context: &mut Context<'a>, expression: &'a Expression)
         Expression::BinaryOperation(operation) => compile_binary_operation(context, operation),
         Expression::Call(call) => {
             let separator = builder.sequence([",".into(), line()]);
-            let function = compile_expression(context, call.function());
+            let function = compile_suffix_operand(context, call.function());
             let arguments = builder.sequence(
                 call.arguments()
                     .iter()
@@ -645,24 +645,25 @@ fn compile_expression<'a>(context: &mut Context<'a>, expression: &'a Expression)
             ])
         }
         Expression::RecordDeconstruction(deconstruction) => builder.sequence([
-            compile_expression(context, deconstruction.expression()),
+            compile_suffix_operand(context, deconstruction.expression()),
             ".".into(),
             deconstruction.name().into(),
         ]),
         Expression::String(string) => builder.strings(["\"", string.value(), "\""]),
-        Expression::UnaryOperation(operation) => {
-            let operand = compile_expression(context, operation.expression());
-            let operand = if matches!(operation.expression(), Expression::BinaryOperation(_)) {
-                builder.sequence(["(".into(), operand, ")".into()])
-            } else {
-                operand
-            };
-
-            match operation.operator() {
-                UnaryOperator::Not => builder.sequence(["!".into(), operand]),
-                UnaryOperator::Try => builder.sequence([operand, "?".into()]),
-            }
-        }
+        Expression::UnaryOperation(operation) => match operation.operator() {
+            UnaryOperator::Not => builder.sequence([
+                "!".into(),
+                parenthesize_if(
+                    context,
+                    matches!(operation.expression(), Expression::BinaryOperation(_)),
+                    operation.expression(),
+                ),
+            ]),
+            UnaryOperator::Try => builder.sequence([
+                compile_suffix_operand(context, operation.expression()),
+                "?".into(),
+            ]),
+        },
         Expression::Variable(variable) => variable.name().into(),
     }
 }
@@ -821,15 +822,27 @@ fn compile_binary_operation<'a>(
     operation: &'a BinaryOperation,
 ) -> Document<'a> {
     let builder = context.builder();
-    let document = builder.sequence([
-        compile_operand(context, operation.lhs(), operation.operator()),
-        builder.indent(builder.sequence([
-            line(),
-            compile_binary_operator(operation.operator()),
-            " ".into(),
-            compile_operand(context, operation.rhs(), operation.operator()),
-        ])),
-    ]);
+    let document =
+        builder.sequence([
+            parenthesize_if(
+                context,
+                operand_priority(operation.lhs())
+                    .is_some_and(|priority| priority < operator_priority(operation.operator())),
+                operation.lhs(),
+            ),
+            builder.indent(builder.sequence([
+                line(),
+                compile_binary_operator(operation.operator()),
+                " ".into(),
+                parenthesize_if(
+                    context,
+                    operand_priority(operation.rhs()).is_some_and(|priority| {
+                        priority <= operator_priority(operation.operator())
+                    }),
+                    operation.rhs(),
+                ),
+            ])),
+        ]);
 
     flatten_if(
         operation.lhs().position().line_number() == operation.rhs().position().line_number(),
@@ -837,20 +850,31 @@ fn compile_binary_operation<'a>(
     )
 }
 
-fn compile_operand<'a>(
+fn operand_priority(operand: &Expression) -> Option<usize> {
+    match operand {
+        Expression::BinaryOperation(operation) => Some(operator_priority(operation.operator())),
+        _ => None,
+    }
+}
+
+fn compile_suffix_operand<'a>(context: &mut Context<'a>, operand: &'a Expression) -> Document<'a> {
+    let parenthesized = match operand {
+        Expression::BinaryOperation(_) => true,
+        Expression::UnaryOperation(operation) => operation.operator() == UnaryOperator::Not,
+        _ => false,
+    };
+
+    parenthesize_if(context, parenthesized, operand)
+}
+
+fn parenthesize_if<'a>(
     context: &mut Context<'a>,
-    operand: &'a Expression,
-    parent_operator: BinaryOperator,
+    parenthesized: bool,
+    expression: &'a Expression,
 ) -> Document<'a> {
-    let document = compile_expression(context, operand);
+    let document = compile_expression(context, expression);
 
-    if match operand {
-        Expression::BinaryOperation(operation) => Some(operation),
-        _ => None,
-    }
-    .map(|operand| operator_priority(operand.operator()) < operator_priority(parent_operator))
-    .unwrap_or_default()
-    {
+    if parenthesized {
         context
             .builder()
             .sequence(["(".into(), document, ")".into()])
-- 
2.43.0


From 341587630ab467285ddf45691af91e89afa7ca26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:07 +0000
Subject: [PATCH 07/21] fix: keep statements and conditions apart in formatting

---
 lib/format/src/lib.rs | 78 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 70 insertions(+), 8 deletions(-)

diff --git a/lib/format/src/lib.rs b/lib/format/src/lib.rs
index 3d8dda1..851ad42 100644
--- a/lib/format/src/lib.rs
+++ b/lib/format/src/lib.rs
@@ -416,12 +416,14 @@ fn compile_block<'a>(context: &mut Context<'a>, block: &'a Block) -> Document<'a
                     .map(|statement| statement.position())
                     .chain([block.expression().position()]),
             )
-            .map(|(statement, next_position)| {
+            .enumerate()
+            .map(|(index, (statement, next_position))| {
                 let block_comment = compile_block_comment(context, statement.position());
                 // TODO Use end positions of spans when they are available.
                 let line_count = next_position.line_number() as isize
                     - statement.position().line_number() as isize;
-                let statement_document = compile_statement(context, statement);
+                let statement_document =
+                    compile_statement(context, statement, &block.statements()[..index]);
 
                 let extra_line = if (count_lines(&statement_document)
                     + context
@@ -444,7 +446,7 @@ fn compile_block<'a>(context: &mut Context<'a>, block: &'a Block) -> Document<'a
             line(),
             statements,
             compile_line_comment(context, block.expression().position(), |context| {
-                compile_expression(context, block.expression())
+                compile_expression_statement(context, block.expression(), block.statements())
             }),
         ])),
         line(),
@@ -452,21 +454,73 @@ fn compile_block<'a>(context: &mut Context<'a>, block: &'a Block) -> Document<'a
     ])
 }
 
-fn compile_statement<'a>(context: &mut Context<'a>, statement: &'a Statement) -> Document<'a> {
+fn compile_statement<'a>(
+    context: &mut Context<'a>,
+    statement: &'a Statement,
+    previous_statements: &[Statement],
+) -> Document<'a> {
     let builder = context.builder();
 
     builder.sequence([
         if let Some(name) = statement.name() {
-            builder.strings([name, " = "])
+            builder.sequence([
+                builder.strings([name, " = "]),
+                compile_expression(context, statement.expression()),
+            ])
         } else {
-            empty()
+            compile_expression_statement(context, statement.expression(), previous_statements)
         },
-        compile_expression(context, statement.expression()),
         compile_suffix_comment(context, statement.position()),
         builder.r#break(line()),
     ])
 }
 
+// Prevent expressions from continuing ones in previous statements.
+fn compile_expression_statement<'a>(
+    context: &mut Context<'a>,
+    expression: &'a Expression,
+    previous_statements: &[Statement],
+) -> Document<'a> {
+    let parenthesized =
+        previous_statements
+            .last()
+            .is_some_and(|statement| match leftmost_expression(expression) {
+                Expression::Map(_) => matches!(
+                    rightmost_expression(statement.expression()),
+                    Expression::Variable(_)
+                ),
+                Expression::Number(number) => match number.value() {
+                    NumberRepresentation::FloatingPoint(string) => string.starts_with(['+', '-']),
+                    NumberRepresentation::Binary(_) | NumberRepresentation::Hexadecimal(_) => false,
+                },
+                _ => false,
+            });
+
+    parenthesize_if(context, parenthesized, expression)
+}
+
+fn leftmost_expression(expression: &Expression) -> &Expression {
+    match expression {
+        Expression::BinaryOperation(operation) => leftmost_expression(operation.lhs()),
+        Expression::Call(call) => leftmost_expression(call.function()),
+        Expression::RecordDeconstruction(operation) => leftmost_expression(operation.expression()),
+        Expression::UnaryOperation(operation) if operation.operator() == UnaryOperator::Try => {
+            leftmost_expression(operation.expression())
+        }
+        _ => expression,
+    }
+}
+
+fn rightmost_expression(expression: &Expression) -> &Expression {
+    match expression {
+        Expression::BinaryOperation(operation) => rightmost_expression(operation.rhs()),
+        Expression::UnaryOperation(operation) if operation.operator() == UnaryOperator::Not => {
+            rightmost_expression(operation.expression())
+        }
+        _ => expression,
+    }
+}
+
 fn compile_expression<'a>(context: &mut Context<'a>, expression: &'a Expression) -> Document<'a> {
     let builder = context.builder();
 
@@ -674,7 +728,15 @@ fn compile_if<'a>(context: &mut Context<'a>, if_: &'a If) -> Document<'a> {
         builder.sequence(if_.branches().iter().map(|branch| {
             builder.sequence([
                 "if ".into(),
-                compile_expression(context, branch.condition()),
+                parenthesize_if(
+                    context,
+                    // Distinguish conditions from patterns of lists.
+                    matches!(
+                        leftmost_expression(branch.condition()),
+                        Expression::List(_) | Expression::ListComprehension(_)
+                    ),
+                    branch.condition(),
+                ),
                 " ".into(),
                 compile_block(context, branch.block()),
                 " else ".into(),
-- 
2.43.0


From 00a27e5fbbc183a45e5a44cd56bb78b6ef559106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:19 +0000
Subject: [PATCH 08/21] fix: keep nested HAMTs at their levels on deletion of
 keys from maps

---
 packages/prelude/Map.pen | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/packages/prelude/Map.pen b/packages/prelude/Map.pen
index a01543b..7be4212 100644
--- a/packages/prelude/Map.pen
+++ b/packages/prelude/Map.pen
@@ -246,10 +246,11 @@ deleteKey = \(ctx MapContext, hamt hamt, key any, layer number, level number) ha
 }
 
 normalizeHamt = \(h hamt) entry {
-  if e = getSingleEntry(h, 1, none) as none {
-    h
-  } else {
+  # Only key-values can be moved up because other HAMTs are specific to their levels.
+  if e = getSingleEntry(h, 1, none) as keyValue {
     e
+  } else {
+    h
   }
 }
 
-- 
2.43.0


From 901195ec25a1ad5db05e03770088e6cbb338b0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:19 +0000
Subject: [PATCH 09/21] fix: hash elements of lists rather than their nodes

---
 packages/prelude/List.pen | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/prelude/List.pen b/packages/prelude/List.pen
index e3e6280..755fd98 100644
--- a/packages/prelude/List.pen
+++ b/packages/prelude/List.pen
@@ -123,7 +123,7 @@ hashNode = \(f \(any) number, node \() node | none, h number) number {
     hashNode(
       f,
       n.rest,
-      _pen_prelude_combine_hashes(h, f(n)),
+      _pen_prelude_combine_hashes(h, f(n.first())),
     )
   } else {
     h
-- 
2.43.0


From b10c0d16dbe8f9e66d4f63a96a510c3e4db8c822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:19 +0000
Subject: [PATCH 10/21] fix: tell hashes of lists of different sizes apart

---
 packages/prelude/List.pen | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/prelude/List.pen b/packages/prelude/List.pen
index 755fd98..d80e05e 100644
--- a/packages/prelude/List.pen
+++ b/packages/prelude/List.pen
@@ -115,7 +115,9 @@ equalNodes = \(f \(any, any) boolean | none, x node | none, y node | none) boole
 }
 
 HashList = \(f \(any) number, l List) number {
-  hashNode(f, l.node, 0)
+  headerHash = 3
+
+  hashNode(f, l.node, headerHash)
 }
 
 hashNode = \(f \(any) number, node \() node | none, h number) number {
-- 
2.43.0


From 01e927adaa89ba54308ab536b33c90a250ea0d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:19 +0000
Subject: [PATCH 11/21] fix: collect types of results of spawned functions

---
 lib/hir-mir/src/variant_type_collection.rs | 32 +++++++++++++++++-----
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/lib/hir-mir/src/variant_type_collection.rs b/lib/hir-mir/src/variant_type_collection.rs
index ffe4191..c734656 100644
--- a/lib/hir-mir/src/variant_type_collection.rs
+++ b/lib/hir-mir/src/variant_type_collection.rs
@@ -1,7 +1,9 @@
 use crate::context::Context;
 use fnv::FnvHashSet;
 use hir::{
-    analysis::{expression_visitor, union_type_member_calculator, AnalysisError},
+    analysis::{
+        expression_visitor, type_canonicalizer, union_type_member_calculator, AnalysisError,
+    },
     ir::*,
     types::{self, Type},
 };
@@ -19,13 +21,29 @@ pub fn collect(context: &Context, module: &Module) -> Result<FnvHashSet<Type>, A
     expression_visitor::visit(module, |expression| match expression {
         Expression::Call(call) => {
             if let Expression::BuiltInFunction(function) = call.function() {
-                if function.name() == BuiltInFunctionName::Race {
-                    let position = call.position();
+                match function.name() {
+                    BuiltInFunctionName::Race => {
+                        let position = call.position();
 
-                    lower_types.insert(
-                        types::List::new(types::Any::new(position.clone()), position.clone())
-                            .into(),
-                    );
+                        lower_types.insert(
+                            types::List::new(types::Any::new(position.clone()), position.clone())
+                                .into(),
+                        );
+                    }
+                    // Results of spawned functions go through `any`.
+                    BuiltInFunctionName::Spawn => {
+                        if let Some(Type::Function(function_type)) = call.function_type() {
+                            if let Ok(Some(function_type)) =
+                                type_canonicalizer::canonicalize_function(
+                                    function_type.result(),
+                                    context.types(),
+                                )
+                            {
+                                lower_types.insert(function_type.result().clone());
+                            }
+                        }
+                    }
+                    _ => {}
                 }
             }
         }
-- 
2.43.0


From 649610a851b309d49a387a3366ba0aed8f859bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:19 +0000
Subject: [PATCH 12/21] fix: visit conditions of list comprehensions

---
 lib/hir/src/analysis/expression_visitor.rs | 4 ++++
 lib/hir/src/analysis/type_visitor.rs       | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/lib/hir/src/analysis/expression_visitor.rs b/lib/hir/src/analysis/expression_visitor.rs
index 2f19277..32eeaf0 100644
--- a/lib/hir/src/analysis/expression_visitor.rs
+++ b/lib/hir/src/analysis/expression_visitor.rs
@@ -78,6 +78,10 @@ fn visit_expression<'a>(expression: &'a Expression, visit: &mut impl FnMut(&'a E
                 for iteratee in branch.iteratees() {
                     visit_expression(iteratee.expression());
                 }
+
+                if let Some(condition) = branch.condition() {
+                    visit_expression(condition);
+                }
             }
 
             visit_expression(comprehension.element());
diff --git a/lib/hir/src/analysis/type_visitor.rs b/lib/hir/src/analysis/type_visitor.rs
index 25c8cc3..7e3aae3 100644
--- a/lib/hir/src/analysis/type_visitor.rs
+++ b/lib/hir/src/analysis/type_visitor.rs
@@ -162,6 +162,10 @@ fn visit_expression<'a>(expression: &'a Expression, visit: &mut impl FnMut(&'a T
 
                     visit_expression(iteratee.expression(), visit);
                 }
+
+                if let Some(condition) = branch.condition() {
+                    visit_expression(condition, visit);
+                }
             }
 
             visit_expression(comprehension.element(), visit);
-- 
2.43.0


From ced578e759898583289e07646dbbd45ce0acb26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:14 +0000
Subject: [PATCH 13/21] fix: decode escaped backslashes in JSON strings

Encode escapes backslashes but Decode did not undo that, so that a string with a
backslash in it came back with two.
---
 packages/json/Decode.pen | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/packages/json/Decode.pen b/packages/json/Decode.pen
index 2ca7fd5..7875db8 100644
--- a/packages/json/Decode.pen
+++ b/packages/json/Decode.pen
@@ -106,10 +106,14 @@ stringCharacter = \(v View) stringResult | error {
   if w = raw(v, "\\\"") as View {
     stringResult{string: "\"", input: w}
   } else {
-    if View'Length(v) == 0 {
-      error("unexpected end of string")
+    if w = raw(v, "\\\\") as View {
+      stringResult{string: "\\", input: w}
     } else {
-      stringResult{string: View'ToString(View'Slice(v, 1, 1)), input: View'Seek(v, 1)}
+      if View'Length(v) == 0 {
+        error("unexpected end of string")
+      } else {
+        stringResult{string: View'ToString(View'Slice(v, 1, 1)), input: View'Seek(v, 1)}
+      }
     }
   }
 }
-- 
2.43.0


From 0daca92f8d635d4c9163d40c0c7e53f1f4831a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:57 +0000
Subject: [PATCH 14/21] fix: refuse comparing maps of values that cannot be
 compared

Maps whose values are of any or function types were compared by a stand-in which
says that their values are never equal, so that a map was not equal to itself.
---
 lib/hir-mir/src/transformation/equal_operation/operation.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/hir-mir/src/transformation/equal_operation/operation.rs b/lib/hir-mir/src/transformation/equal_operation/operation.rs
index 2479f8b..c23cb16 100644
--- a/lib/hir-mir/src/transformation/equal_operation/operation.rs
+++ b/lib/hir-mir/src/transformation/equal_operation/operation.rs
@@ -83,6 +83,12 @@ fn transform_canonical(
             .into()
         }
         Type::Map(map_type) => {
+            if !type_comparability_checker::check(type_, context.types(), context.records())? {
+                return Err(
+                    AnalysisError::TypeNotComparable(position.clone(), type_.clone()).into(),
+                );
+            }
+
             let any_map_type = collection_type::transform_map(context, position)?;
 
             Call::new(
-- 
2.43.0


From 7a62f491ff4122a988a8b3d0bf4bcaba271a8940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:11 +0000
Subject: [PATCH 15/21] fix: evaluate operands of equalities of none

---
 .../equal_operation/operation.rs               | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/lib/hir-mir/src/transformation/equal_operation/operation.rs b/lib/hir-mir/src/transformation/equal_operation/operation.rs
index c23cb16..8adfa50 100644
--- a/lib/hir-mir/src/transformation/equal_operation/operation.rs
+++ b/lib/hir-mir/src/transformation/equal_operation/operation.rs
@@ -117,7 +117,23 @@ fn transform_canonical(
             )
             .into()
         }
-        Type::None(_) => Boolean::new(true, position.clone()).into(),
+        // Operands are evaluated although their values are known.
+        Type::None(_) => [rhs, lhs]
+            .into_iter()
+            .filter(|operand| !matches!(operand, Expression::Variable(_)))
+            .fold(
+                Boolean::new(true, position.clone()).into(),
+                |expression, operand| {
+                    Let::new(
+                        None,
+                        Some(type_.clone()),
+                        operand.clone(),
+                        expression,
+                        position.clone(),
+                    )
+                    .into()
+                },
+            ),
         Type::Number(_) => EqualityOperation::new(
             Some(type_.clone()),
             EqualityOperator::Equal,
-- 
2.43.0


From 646caae8bc2d4f65dc2703f18f0bb33ad0145da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:35 +0000
Subject: [PATCH 16/21] fix: move on to the next layer of hashes when keys
 collide at the last level

---
 packages/prelude/Map.pen | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/packages/prelude/Map.pen b/packages/prelude/Map.pen
index 7be4212..fa3582c 100644
--- a/packages/prelude/Map.pen
+++ b/packages/prelude/Map.pen
@@ -188,9 +188,11 @@ setKeyValue = \(
     if ctx.equalKeys(e.key, key) {
       update(keyValue{key: key, value: value}, false)
     } else {
-      l = level + 1
-      u = setKeyValue(ctx, newHamt(), e.key, e.value, layer, l)
-      u = setKeyValue(ctx, u.hamt, key, value, layer, l)
+      last = level > maxLevel()
+      a = if last { layer + 1 } else { layer }
+      l = if last { 1 } else { level + 1 }
+      u = setKeyValue(ctx, newHamt(), e.key, e.value, a, l)
+      u = setKeyValue(ctx, u.hamt, key, value, a, l)
 
       update(u.hamt, true)
     }
-- 
2.43.0


From 8c854f3ffc84c24aeb3fc5c4140a40225204969f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:00 +0000
Subject: [PATCH 17/21] fix: tell hashes of sequences of booleans apart

---
 packages/prelude/ffi/src/lib.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/packages/prelude/ffi/src/lib.rs b/packages/prelude/ffi/src/lib.rs
index 06efe37..fbaf2fb 100644
--- a/packages/prelude/ffi/src/lib.rs
+++ b/packages/prelude/ffi/src/lib.rs
@@ -20,13 +20,14 @@ fn _pen_prelude_equal_strings(one: ffi::ByteString, other: ffi::ByteString) -> f
 
 #[ffi::bindgen]
 fn _pen_prelude_combine_hashes(one: ffi::Number, other: ffi::Number) -> ffi::Number {
-    f64::from_bits(
-        f64::from(one)
-            .to_bits()
-            .wrapping_mul(HASH_MULTIPLIER)
-            .wrapping_add(f64::from(other).to_bits()),
-    )
-    .into()
+    let hash = f64::from(one)
+        .to_bits()
+        .wrapping_mul(HASH_MULTIPLIER)
+        .wrapping_add(f64::from(other).to_bits());
+
+    // Mix upper bits into lower ones without losing any of them. A linear
+    // combination lets sequences of similar hashes collide easily.
+    f64::from_bits(hash ^ (hash >> 32)).into()
 }
 
 #[ffi::bindgen]
-- 
2.43.0


From 9ab4883d45ba8387431ee2bb351b758a6669874c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:40 +0000
Subject: [PATCH 18/21] fix: rename local variables of the same names as
 arguments of functions

---
 lib/mir/src/analysis/alpha_conversion.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/mir/src/analysis/alpha_conversion.rs b/lib/mir/src/analysis/alpha_conversion.rs
index a264221..ad83277 100644
--- a/lib/mir/src/analysis/alpha_conversion.rs
+++ b/lib/mir/src/analysis/alpha_conversion.rs
@@ -43,7 +43,18 @@ pub fn transform(module: &Module) -> Module {
                             definition.arguments().to_vec(),
                             definition.result_type().clone(),
                             transform_expression(
-                                &Context::new(name_counts.clone()),
+                                &Context::new(
+                                    name_counts
+                                        .clone()
+                                        .into_iter()
+                                        .chain(
+                                            definition
+                                                .arguments()
+                                                .iter()
+                                                .map(|argument| (argument.name(), 1)),
+                                        )
+                                        .collect(),
+                                ),
                                 definition.body(),
                                 &Default::default(),
                             ),
-- 
2.43.0


From 27239ef7ccaa0587c756cbc1d20ebe4e6d9e983c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:54 +0000
Subject: [PATCH 19/21] fix: tell hashes of numbers and strings apart

---
 packages/prelude/ffi/src/lib.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/packages/prelude/ffi/src/lib.rs b/packages/prelude/ffi/src/lib.rs
index fbaf2fb..eea5e3d 100644
--- a/packages/prelude/ffi/src/lib.rs
+++ b/packages/prelude/ffi/src/lib.rs
@@ -36,8 +36,11 @@ fn _pen_prelude_hash_number(number: ffi::Number) -> ffi::Number {
 
     // We normalize a floating point number before hash calculation.
     // https://internals.rust-lang.org/t/f32-f64-should-implement-hash/5436
-    hash(
-        &(if number == 0.0 {
+    //
+    // A tag tells numbers apart from strings, of which lengths are hashed too.
+    hash(&(
+        0u8,
+        (if number == 0.0 {
             0.0
         } else if number.is_nan() {
             f64::NAN
@@ -45,7 +48,7 @@ fn _pen_prelude_hash_number(number: ffi::Number) -> ffi::Number {
             number
         })
         .to_bits(),
-    )
+    ))
 }
 
 #[ffi::bindgen]
@@ -61,7 +64,7 @@ fn _pen_prelude_hash_to_index(
 ) -> ffi::Number {
     ((((f64::from(_pen_prelude_combine_hashes(
         hash,
-        _pen_prelude_hash_number(layer),
+        self::hash(&f64::from(layer).to_bits()),
     ))
     .to_bits()
         >> (5 * (f64::from(level) as u64 - 1)))
-- 
2.43.0


From d22cd5e6261e0f99337f7030552c1991b45d30a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:48 +0000
Subject: [PATCH 20/21] fix: take an escaped back slash before a letter for a
 back slash

---
 lib/ast-hir/src/string.rs | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/lib/ast-hir/src/string.rs b/lib/ast-hir/src/string.rs
index 24ebad3..5686d22 100644
--- a/lib/ast-hir/src/string.rs
+++ b/lib/ast-hir/src/string.rs
@@ -1,23 +1,24 @@
 use regex::bytes::{Captures, Regex};
 use std::{str, sync::LazyLock};
 
-static HEX_CHARACTER_REGEX: LazyLock<Regex> =
-    LazyLock::new(|| Regex::new(r"\\x([0-9a-fA-F][0-9a-fA-F])").unwrap());
+static ESCAPE_REGEX: LazyLock<Regex> =
+    LazyLock::new(|| Regex::new(r#"\\([\\"nrt]|x[0-9a-fA-F][0-9a-fA-F])"#).unwrap());
 
 pub fn compile(string: &str) -> Vec<u8> {
-    HEX_CHARACTER_REGEX
-        .replace_all(
-            string
-                .replace("\\\\", "\\")
-                .replace("\\\"", "\"")
-                .replace("\\n", "\n")
-                .replace("\\r", "\r")
-                .replace("\\t", "\t")
-                .as_bytes(),
-            |captures: &Captures| {
-                vec![u8::from_str_radix(str::from_utf8(&captures[1]).unwrap(), 16).unwrap()]
-            },
-        )
+    // Replace all escape sequences at once so that results of replacements are not
+    // taken as other escape sequences.
+    ESCAPE_REGEX
+        .replace_all(string.as_bytes(), |captures: &Captures| {
+            vec![match &captures[1] {
+                b"n" => b'\n',
+                b"r" => b'\r',
+                b"t" => b'\t',
+                [b'x', digits @ ..] => {
+                    u8::from_str_radix(str::from_utf8(digits).unwrap(), 16).unwrap()
+                }
+                character => character[0],
+            }]
+        })
         .into()
 }
 
-- 
2.43.0


From d14fc22edcf3d371e495e2318149833fd23ac54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:29 +0000
Subject: [PATCH 21/21] fix: escape control characters of JSON strings

---
 packages/json/Decode.pen | 40 ++++++++++++++++++++++++++++++----------
 packages/json/Encode.pen |  5 +++++
 2 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/packages/json/Decode.pen b/packages/json/Decode.pen
index 7875db8..af7b9e8 100644
--- a/packages/json/Decode.pen
+++ b/packages/json/Decode.pen
@@ -103,21 +103,41 @@ stringCharacters = \(v View) stringsResult | error {
 }
 
 stringCharacter = \(v View) stringResult | error {
-  if w = raw(v, "\\\"") as View {
-    stringResult{string: "\"", input: w}
+  if w = raw(v, "\\") as View {
+    escapedCharacter(w)
   } else {
-    if w = raw(v, "\\\\") as View {
-      stringResult{string: "\\", input: w}
+    if View'Length(v) == 0 {
+      error("unexpected end of string")
     } else {
-      if View'Length(v) == 0 {
-        error("unexpected end of string")
-      } else {
-        stringResult{string: View'ToString(View'Slice(v, 1, 1)), input: View'Seek(v, 1)}
-      }
+      stringResult{string: View'ToString(View'Slice(v, 1, 1)), input: View'Seek(v, 1)}
     }
   }
 }
 
+escapedCharacter = \(v View) stringResult | error {
+  s = if View'StartsWith(v, "\"") {
+    "\""
+  } else if View'StartsWith(v, "\\") {
+    "\\"
+  } else if View'StartsWith(v, "/") {
+    "/"
+  } else if View'StartsWith(v, "b") {
+    "\x08"
+  } else if View'StartsWith(v, "f") {
+    "\x0c"
+  } else if View'StartsWith(v, "n") {
+    "\n"
+  } else if View'StartsWith(v, "r") {
+    "\r"
+  } else if View'StartsWith(v, "t") {
+    "\t"
+  } else {
+    error("unknown escape sequence")
+  }?
+
+  stringResult{string: s, input: View'Seek(v, 1)}
+}
+
 number = \(v View) valueResult | error {
   i = View'Start(v)
 
@@ -253,7 +273,7 @@ raw = \(v View, s string) View | error {
 }
 
 blank = \(v View) View {
-  if View'StartsWith(v, " ") | View'StartsWith(v, "\t") | View'StartsWith(v, "\n") {
+  if Boolean'Any([boolean View'StartsWith(v, s()) for s in [string " ", "\t", "\n", "\r"]]) {
     blank(View'Seek(v, 1))
   } else {
     v
diff --git a/packages/json/Encode.pen b/packages/json/Encode.pen
index d3e5577..2aee7a5 100644
--- a/packages/json/Encode.pen
+++ b/packages/json/Encode.pen
@@ -35,6 +35,11 @@ value = \(v Value) [string] {
 string = \(s string) [string] {
   s = Utf8'Replace(s, "\\", "\\\\")
   s = Utf8'Replace(s, "\"", "\\\"")
+  s = Utf8'Replace(s, "\x08", "\\b")
+  s = Utf8'Replace(s, "\x0c", "\\f")
+  s = Utf8'Replace(s, "\n", "\\n")
+  s = Utf8'Replace(s, "\r", "\\r")
+  s = Utf8'Replace(s, "\t", "\\t")
 
   [string "\"", s, "\""]
 }
-- 
2.43.0

