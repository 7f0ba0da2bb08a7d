From d02825d63f117401cdad603e4d0bedcc62de2e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:12 +0000
Subject: [PATCH 01/14] fix: Grow stacks created with no capacity

---
 lib/ffi/src/cps/stack.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/ffi/src/cps/stack.rs b/lib/ffi/src/cps/stack.rs
index 2496edb..06ca24a 100644
--- a/lib/ffi/src/cps/stack.rs
+++ b/lib/ffi/src/cps/stack.rs
@@ -14,7 +14,7 @@ pub struct Stack {
 
 impl Stack {
     pub fn new(capacity: usize) -> Self {
-        let layout = Self::get_layout(capacity).pad_to_align();
+        let layout = Self::get_layout(capacity.max(1)).pad_to_align();
 
         Self {
             capacity: layout.size(),
-- 
2.43.0


From c2e72a4640b813e3ca74cd492ec33fdb8ac412a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:12 +0000
Subject: [PATCH 02/14] fix: Share reference-counted values between threads
 only if their payloads can be

---
 lib/ffi/src/arc.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/ffi/src/arc.rs b/lib/ffi/src/arc.rs
index 10f204c..4122fca 100644
--- a/lib/ffi/src/arc.rs
+++ b/lib/ffi/src/arc.rs
@@ -18,6 +18,10 @@ pub struct Arc<T> {
     phantom: PhantomData<T>,
 }
 
+unsafe impl<T: Send + Sync> Send for Arc<T> {}
+
+unsafe impl<T: Send + Sync> Sync for Arc<T> {}
+
 impl<T> Arc<T> {
     pub fn new(payload: T) -> Self {
         let mut block = ArcBlock::new(Layout::new::<T>());
-- 
2.43.0


From 7c60919790f3320ac1de33b147cef42f9ca557e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:12 +0000
Subject: [PATCH 03/14] fix: Lay out closure metadata as compiled code reads it

---
 lib/ffi/src/closure.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/ffi/src/closure.rs b/lib/ffi/src/closure.rs
index ca3c4b8..6832f64 100644
--- a/lib/ffi/src/closure.rs
+++ b/lib/ffi/src/closure.rs
@@ -5,6 +5,7 @@ use core::{
     sync::atomic::{AtomicPtr, Ordering},
 };
 
+#[repr(C)]
 struct ClosureMetadata<T> {
     drop: extern "C" fn(&mut ClosureInner<T>),
     #[allow(dead_code)]
-- 
2.43.0


From d92c3c7737161ff12c89ede200a64e9da22a1c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 04/14] fix: Copy shared buffers on write

---
 lib/ffi/src/arc/arc_buffer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/ffi/src/arc/arc_buffer.rs b/lib/ffi/src/arc/arc_buffer.rs
index 037f453..8cf32c6 100644
--- a/lib/ffi/src/arc/arc_buffer.rs
+++ b/lib/ffi/src/arc/arc_buffer.rs
@@ -47,6 +47,11 @@ impl ArcBuffer {
     }
 
     pub fn as_slice_mut(&mut self) -> &mut [u8] {
+        // Copy the bytes on write if the others share them.
+        if !self.block.is_null() && self.block.get_mut().is_none() {
+            *self = self.as_slice().into();
+        }
+
         unsafe {
             if self.block.is_null() {
                 slice::from_raw_parts_mut(core::ptr::NonNull::dangling().as_ptr(), 0)
-- 
2.43.0


From d29a91eddb04fd7a119534f4f1caf811818bb893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:37 +0000
Subject: [PATCH 05/14] fix: Keep parentheses of function types at ends of
 union types

---
 lib/format/src/lib.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/format/src/lib.rs b/lib/format/src/lib.rs
index e05ac8a..f6d2c83 100644
--- a/lib/format/src/lib.rs
+++ b/lib/format/src/lib.rs
@@ -309,11 +309,10 @@ fn compile_type<'a>(context: &Context<'a>, type_: &'a Type) -> Document<'a> {
             let union = builder.sequence(
                 types
                     .iter()
-                    .enumerate()
-                    .map(|(index, type_)| {
+                    .map(|type_| {
                         let document = compile_type(context, type_);
 
-                        if index != types.len() - 1 && matches!(type_, Type::Function(_)) {
+                        if matches!(type_, Type::Function(_)) {
                             builder.sequence(["(".into(), document, ")".into()])
                         } else {
                             document
-- 
2.43.0


From 3b7051df216c35748cb20599b8aab3974353fae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:54 +0000
Subject: [PATCH 06/14] fix: Keep parentheses of right operands with the same
 priorities

---
 lib/format/src/lib.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/format/src/lib.rs b/lib/format/src/lib.rs
index f6d2c83..9f5d65f 100644
--- a/lib/format/src/lib.rs
+++ b/lib/format/src/lib.rs
@@ -822,12 +822,16 @@ fn compile_binary_operation<'a>(
 ) -> Document<'a> {
     let builder = context.builder();
     let document = builder.sequence([
-        compile_operand(context, operation.lhs(), operation.operator()),
+        compile_operand(context, operation.lhs(), |operator| {
+            operator_priority(operator) < operator_priority(operation.operator())
+        }),
         builder.indent(builder.sequence([
             line(),
             compile_binary_operator(operation.operator()),
             " ".into(),
-            compile_operand(context, operation.rhs(), operation.operator()),
+            compile_operand(context, operation.rhs(), |operator| {
+                operator_priority(operator) <= operator_priority(operation.operator())
+            }),
         ])),
     ]);
 
@@ -840,7 +844,7 @@ fn compile_binary_operation<'a>(
 fn compile_operand<'a>(
     context: &mut Context<'a>,
     operand: &'a Expression,
-    parent_operator: BinaryOperator,
+    is_parenthesized: impl Fn(BinaryOperator) -> bool,
 ) -> Document<'a> {
     let document = compile_expression(context, operand);
 
@@ -848,7 +852,7 @@ fn compile_operand<'a>(
         Expression::BinaryOperation(operation) => Some(operation),
         _ => None,
     }
-    .map(|operand| operator_priority(operand.operator()) < operator_priority(parent_operator))
+    .map(|operand| is_parenthesized(operand.operator()))
     .unwrap_or_default()
     {
         context
-- 
2.43.0


From f09b3b44434f95ec58ac29ad41fa995e3400d3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:13 +0000
Subject: [PATCH 07/14] fix: Keep parentheses of operations as operands of
 suffix operators

---
 lib/format/src/lib.rs | 47 +++++++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/lib/format/src/lib.rs b/lib/format/src/lib.rs
index 9f5d65f..12654ce 100644
--- a/lib/format/src/lib.rs
+++ b/lib/format/src/lib.rs
@@ -474,7 +474,7 @@ fn compile_expression<'a>(context: &mut Context<'a>, expression: &'a Expression)
         Expression::BinaryOperation(operation) => compile_binary_operation(context, operation),
         Expression::Call(call) => {
             let separator = builder.sequence([",".into(), line()]);
-            let function = compile_expression(context, call.function());
+            let function = compile_suffix_operand(context, call.function());
             let arguments = builder.sequence(
                 call.arguments()
                     .iter()
@@ -645,24 +645,29 @@ fn compile_expression<'a>(context: &mut Context<'a>, expression: &'a Expression)
             ])
         }
         Expression::RecordDeconstruction(deconstruction) => builder.sequence([
-            compile_expression(context, deconstruction.expression()),
+            compile_suffix_operand(context, deconstruction.expression()),
             ".".into(),
             deconstruction.name().into(),
         ]),
         Expression::String(string) => builder.strings(["\"", string.value(), "\""]),
-        Expression::UnaryOperation(operation) => {
-            let operand = compile_expression(context, operation.expression());
-            let operand = if matches!(operation.expression(), Expression::BinaryOperation(_)) {
-                builder.sequence(["(".into(), operand, ")".into()])
-            } else {
-                operand
-            };
+        Expression::UnaryOperation(operation) => match operation.operator() {
+            UnaryOperator::Not => {
+                let operand = compile_expression(context, operation.expression());
 
-            match operation.operator() {
-                UnaryOperator::Not => builder.sequence(["!".into(), operand]),
-                UnaryOperator::Try => builder.sequence([operand, "?".into()]),
+                builder.sequence([
+                    "!".into(),
+                    if matches!(operation.expression(), Expression::BinaryOperation(_)) {
+                        builder.sequence(["(".into(), operand, ")".into()])
+                    } else {
+                        operand
+                    },
+                ])
             }
-        }
+            UnaryOperator::Try => builder.sequence([
+                compile_suffix_operand(context, operation.expression()),
+                "?".into(),
+            ]),
+        },
         Expression::Variable(variable) => variable.name().into(),
     }
 }
@@ -863,6 +868,22 @@ fn compile_operand<'a>(
     }
 }
 
+fn compile_suffix_operand<'a>(context: &mut Context<'a>, operand: &'a Expression) -> Document<'a> {
+    let document = compile_expression(context, operand);
+
+    if match operand {
+        Expression::BinaryOperation(_) => true,
+        Expression::UnaryOperation(operation) => operation.operator() == UnaryOperator::Not,
+        _ => false,
+    } {
+        context
+            .builder()
+            .sequence(["(".into(), document, ")".into()])
+    } else {
+        document
+    }
+}
+
 fn compile_binary_operator(operator: BinaryOperator) -> Document<'static> {
     match operator {
         BinaryOperator::Or => "|",
-- 
2.43.0


From fac79cef2132698291d3e64b72c9752319daf12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 08/14] fix: Keep numbers as operands of suffix operators apart
 from them

---
 lib/format/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/format/src/lib.rs b/lib/format/src/lib.rs
index 12654ce..a689c7c 100644
--- a/lib/format/src/lib.rs
+++ b/lib/format/src/lib.rs
@@ -872,7 +872,7 @@ fn compile_suffix_operand<'a>(context: &mut Context<'a>, operand: &'a Expression
     let document = compile_expression(context, operand);
 
     if match operand {
-        Expression::BinaryOperation(_) => true,
+        Expression::BinaryOperation(_) | Expression::Number(_) => true,
         Expression::UnaryOperation(operation) => operation.operator() == UnaryOperator::Not,
         _ => false,
     } {
-- 
2.43.0


From 49d1c8168b8090833d2e2e00345e9fc7572958ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:12 +0000
Subject: [PATCH 09/14] fix: Keep signed numbers apart from previous statements

---
 lib/format/src/lib.rs | 53 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 48 insertions(+), 5 deletions(-)

diff --git a/lib/format/src/lib.rs b/lib/format/src/lib.rs
index a689c7c..823f325 100644
--- a/lib/format/src/lib.rs
+++ b/lib/format/src/lib.rs
@@ -416,12 +416,13 @@ fn compile_block<'a>(context: &mut Context<'a>, block: &'a Block) -> Document<'a
                     .map(|statement| statement.position())
                     .chain([block.expression().position()]),
             )
-            .map(|(statement, next_position)| {
+            .enumerate()
+            .map(|(index, (statement, next_position))| {
                 let block_comment = compile_block_comment(context, statement.position());
                 // TODO Use end positions of spans when they are available.
                 let line_count = next_position.line_number() as isize
                     - statement.position().line_number() as isize;
-                let statement_document = compile_statement(context, statement);
+                let statement_document = compile_statement(context, statement, index == 0);
 
                 let extra_line = if (count_lines(&statement_document)
                     + context
@@ -444,7 +445,7 @@ fn compile_block<'a>(context: &mut Context<'a>, block: &'a Block) -> Document<'a
             line(),
             statements,
             compile_line_comment(context, block.expression().position(), |context| {
-                compile_expression(context, block.expression())
+                compile_block_expression(context, block.expression(), block.statements().is_empty())
             }),
         ])),
         line(),
@@ -452,7 +453,45 @@ fn compile_block<'a>(context: &mut Context<'a>, block: &'a Block) -> Document<'a
     ])
 }
 
-fn compile_statement<'a>(context: &mut Context<'a>, statement: &'a Statement) -> Document<'a> {
+fn compile_block_expression<'a>(
+    context: &mut Context<'a>,
+    expression: &'a Expression,
+    is_first: bool,
+) -> Document<'a> {
+    let document = compile_expression(context, expression);
+
+    // A sign at a beginning of an expression continues a previous expression.
+    if !is_first && is_signed_number(get_first_operand(expression)) {
+        context
+            .builder()
+            .sequence(["(".into(), document, ")".into()])
+    } else {
+        document
+    }
+}
+
+fn is_signed_number(expression: &Expression) -> bool {
+    matches!(
+        expression,
+        Expression::Number(number) if matches!(
+            number.value(),
+            NumberRepresentation::FloatingPoint(string) if string.starts_with(['+', '-'])
+        )
+    )
+}
+
+fn get_first_operand(expression: &Expression) -> &Expression {
+    match expression {
+        Expression::BinaryOperation(operation) => get_first_operand(operation.lhs()),
+        _ => expression,
+    }
+}
+
+fn compile_statement<'a>(
+    context: &mut Context<'a>,
+    statement: &'a Statement,
+    is_first: bool,
+) -> Document<'a> {
     let builder = context.builder();
 
     builder.sequence([
@@ -461,7 +500,11 @@ fn compile_statement<'a>(context: &mut Context<'a>, statement: &'a Statement) ->
         } else {
             empty()
         },
-        compile_expression(context, statement.expression()),
+        compile_block_expression(
+            context,
+            statement.expression(),
+            is_first || statement.name().is_some(),
+        ),
         compile_suffix_comment(context, statement.position()),
         builder.r#break(line()),
     ])
-- 
2.43.0


From 5479dc10693e64c4e64d048857de32c929ea361b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:19 +0000
Subject: [PATCH 10/14] fix: Keep parentheses of lists as conditions

---
 lib/format/src/lib.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/lib/format/src/lib.rs b/lib/format/src/lib.rs
index 823f325..ec79acb 100644
--- a/lib/format/src/lib.rs
+++ b/lib/format/src/lib.rs
@@ -483,6 +483,13 @@ fn is_signed_number(expression: &Expression) -> bool {
 fn get_first_operand(expression: &Expression) -> &Expression {
     match expression {
         Expression::BinaryOperation(operation) => get_first_operand(operation.lhs()),
+        Expression::Call(call) => get_first_operand(call.function()),
+        Expression::RecordDeconstruction(deconstruction) => {
+            get_first_operand(deconstruction.expression())
+        }
+        Expression::UnaryOperation(operation) if operation.operator() == UnaryOperator::Try => {
+            get_first_operand(operation.expression())
+        }
         _ => expression,
     }
 }
@@ -721,7 +728,7 @@ fn compile_if<'a>(context: &mut Context<'a>, if_: &'a If) -> Document<'a> {
         builder.sequence(if_.branches().iter().map(|branch| {
             builder.sequence([
                 "if ".into(),
-                compile_expression(context, branch.condition()),
+                compile_condition(context, branch.condition()),
                 " ".into(),
                 compile_block(context, branch.block()),
                 " else ".into(),
@@ -741,6 +748,22 @@ fn compile_if<'a>(context: &mut Context<'a>, if_: &'a If) -> Document<'a> {
     )
 }
 
+fn compile_condition<'a>(context: &mut Context<'a>, condition: &'a Expression) -> Document<'a> {
+    let document = compile_expression(context, condition);
+
+    // A bracket after an `if` keyword begins a list pattern.
+    if matches!(
+        get_first_operand(condition),
+        Expression::List(_) | Expression::ListComprehension(_)
+    ) {
+        context
+            .builder()
+            .sequence(["(".into(), document, ")".into()])
+    } else {
+        document
+    }
+}
+
 fn compile_if_type<'a>(context: &mut Context<'a>, if_: &'a IfType) -> Document<'a> {
     let builder = context.builder();
     let document = builder.sequence([
-- 
2.43.0


From 286e477fe2a093abc0bba003ec8e61d384c6f6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:16 +0000
Subject: [PATCH 11/14] fix: Parse comments in blank sources

---
 lib/parse/src/parser.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/lib/parse/src/parser.rs b/lib/parse/src/parser.rs
index 138eb84..65ebdf8 100644
--- a/lib/parse/src/parser.rs
+++ b/lib/parse/src/parser.rs
@@ -56,19 +56,21 @@ pub fn module(input: Input) -> IResult<Module> {
 
 pub fn comments(input: Input) -> IResult<Vec<Comment>> {
     map(
-        all_consuming(many0((
+        all_consuming(preceded(
             multispace0,
-            alt((
-                map(comment, Some),
-                map(raw_string_literal, |_| None),
-                map(none_of("\"#"), |_| None),
+            many0((
+                alt((
+                    map(comment, Some),
+                    map(raw_string_literal, |_| None),
+                    map(none_of("\"#"), |_| None),
+                )),
+                multispace0,
             )),
-            multispace0,
-        ))),
+        )),
         |comments| {
             comments
                 .into_iter()
-                .flat_map(|(_, comment, _)| comment)
+                .flat_map(|(comment, _)| comment)
                 .collect()
         },
     )
-- 
2.43.0


From 8b367277c96bd0eb76ffbd171f6b839680bf6c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:04 +0000
Subject: [PATCH 12/14] fix: Flush files before reporting success of writes

---
 packages/os/ffi/library/src/file.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/os/ffi/library/src/file.rs b/packages/os/ffi/library/src/file.rs
index cb9de6b..8ad22bd 100644
--- a/packages/os/ffi/library/src/file.rs
+++ b/packages/os/ffi/library/src/file.rs
@@ -3,6 +3,7 @@ use crate::utilities;
 use std::{error::Error, ops::DerefMut, path::Path, sync::Arc};
 use tokio::{
     fs,
+    io::AsyncWriteExt,
     sync::{RwLock, RwLockWriteGuard},
 };
 
@@ -74,7 +75,12 @@ async fn _pen_os_write_file(
     file: File,
     bytes: ffi::ByteString,
 ) -> Result<ffi::Number, Box<dyn Error>> {
-    utilities::write(file.lock().await.deref_mut(), bytes).await
+    let mut file = file.lock().await;
+    let count = utilities::write(file.deref_mut(), bytes).await?;
+
+    file.flush().await?;
+
+    Ok(count)
 }
 
 #[ffi::bindgen]
-- 
2.43.0


From 4a1272c7203eb99f6a4733a26d1b00a98e666588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:59 +0000
Subject: [PATCH 13/14] fix: Clamp indices of byte slices and views into
 strings

---
 packages/core/ffi/src/string/byte.rs |  2 +-
 packages/core/ffi/src/view.rs        | 18 ++++++++++++------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/packages/core/ffi/src/string/byte.rs b/packages/core/ffi/src/string/byte.rs
index 28e6e25..8a93bed 100644
--- a/packages/core/ffi/src/string/byte.rs
+++ b/packages/core/ffi/src/string/byte.rs
@@ -9,7 +9,7 @@ fn _pen_core_byte_slice(
     start: ffi::Number,
     end: ffi::Number,
 ) -> ffi::ByteString {
-    let start = f64::from(start) as usize;
+    let start = (f64::from(start) as usize).max(1);
     let end = f64::from(end).min(string.as_slice().len() as f64) as usize;
 
     if start > end || start > string.as_slice().len() || end == 0 {
diff --git a/packages/core/ffi/src/view.rs b/packages/core/ffi/src/view.rs
index fb35f09..babb25b 100644
--- a/packages/core/ffi/src/view.rs
+++ b/packages/core/ffi/src/view.rs
@@ -5,11 +5,9 @@ fn _pen_core_view_starts_with(
     end: ffi::Number,
     prefix: ffi::ByteString,
 ) -> ffi::Boolean {
-    let string = string.as_slice();
-    let start = f64::from(start) as usize - 1;
-    let prefix = prefix.as_slice();
-
-    (&string[start..(start + prefix.len()).min(f64::from(end) as usize)] == prefix).into()
+    get_slice(&string, start, end)
+        .starts_with(prefix.as_slice())
+        .into()
 }
 
 #[ffi::bindgen]
@@ -18,7 +16,15 @@ fn _pen_core_view_to_string(
     start: ffi::Number,
     end: ffi::Number,
 ) -> ffi::ByteString {
-    string.as_slice()[f64::from(start) as usize - 1..f64::from(end) as usize].into()
+    get_slice(&string, start, end).into()
+}
+
+fn get_slice(string: &ffi::ByteString, start: ffi::Number, end: ffi::Number) -> &[u8] {
+    let string = string.as_slice();
+    let start = (f64::from(start) as usize).max(1) - 1;
+    let end = (f64::from(end) as usize).min(string.len());
+
+    string.get(start..end).unwrap_or_default()
 }
 
 #[cfg(test)]
-- 
2.43.0


From 97e775aaad4e2db72f04e1116e953be4a1010c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:04 +0000
Subject: [PATCH 14/14] fix: keep arguments apart from the variables that
 shadow them

---
 lib/mir/src/analysis/alpha_conversion.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/mir/src/analysis/alpha_conversion.rs b/lib/mir/src/analysis/alpha_conversion.rs
index a264221..808443a 100644
--- a/lib/mir/src/analysis/alpha_conversion.rs
+++ b/lib/mir/src/analysis/alpha_conversion.rs
@@ -43,7 +43,18 @@ pub fn transform(module: &Module) -> Module {
                             definition.arguments().to_vec(),
                             definition.result_type().clone(),
                             transform_expression(
-                                &Context::new(name_counts.clone()),
+                                &Context::new(
+                                    name_counts
+                                        .iter()
+                                        .map(|(&name, &count)| (name, count))
+                                        .chain(
+                                            definition
+                                                .arguments()
+                                                .iter()
+                                                .map(|argument| (argument.name(), 1)),
+                                        )
+                                        .collect(),
+                                ),
                                 definition.body(),
                                 &Default::default(),
                             ),
-- 
2.43.0

