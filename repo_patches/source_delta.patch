From e569c03580f97883cb4efe571820440f94cd0c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:39 +0000
Subject: [PATCH 01/66] fix: parse `expr! = value` instead of looping forever

---
 parse-js/src/parse/expr/mod.rs | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/parse-js/src/parse/expr/mod.rs b/parse-js/src/parse/expr/mod.rs
index 54d37bc..fb514cd 100644
--- a/parse-js/src/parse/expr/mod.rs
+++ b/parse-js/src/parse/expr/mod.rs
@@ -1345,26 +1345,18 @@ impl<'a> Parser<'a> {
           continue;
         }
         // TypeScript: Non-null assertion: expr!
-        // We need to distinguish between non-null assertion (expr!) and
-        // inequality operators (!= and !==).
+        // `!=` and `!==` are lexed as single tokens, so a lone `!` is always the
+        // assertion, even when it is followed by an assignment (`expr! = value`).
         TT::Exclamation if self.is_typescript() && !t.preceded_by_line_terminator => {
-          let next = self.peek();
-          if next.typ != TT::Equals && next.typ != TT::EqualsEquals {
-            // This is a non-null assertion: expr!
-            use crate::ast::expr::NonNullAssertionExpr;
-            left = Node::new(
-              left.loc + t.loc,
-              NonNullAssertionExpr {
-                expression: Box::new(left),
-              },
-            )
-            .into_wrapped();
-            continue;
-          }
-          // Otherwise it's != or !==, so restore checkpoint and continue loop to re-process
-          // We restore so the binary operator handling code below can process != or !==
-          self.restore_checkpoint(cp);
-          continue; // Restart loop to re-process the ! token as part of != or !==
+          use crate::ast::expr::NonNullAssertionExpr;
+          left = Node::new(
+            left.loc + t.loc,
+            NonNullAssertionExpr {
+              expression: Box::new(left),
+            },
+          )
+          .into_wrapped();
+          continue;
         }
         // Tagged templates allow line terminators between the tag expression and
         // the template literal (`tag\n\`x\``). ASI must not split in that case.
-- 
2.43.0


From b70e3992bf9fde8dace55d7a160555e22a57a2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:57 +0000
Subject: [PATCH 02/66] fix: legacy octal escapes consume a third digit only
 after 0-3

---
 parse-js/src/parse/expr/lit.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parse-js/src/parse/expr/lit.rs b/parse-js/src/parse/expr/lit.rs
index d25dd19..cb56b41 100644
--- a/parse-js/src/parse/expr/lit.rs
+++ b/parse-js/src/parse/expr/lit.rs
@@ -137,7 +137,9 @@ fn decode_escape_sequence(
     '0'..='7' => {
       let mut consumed = first.len_utf8();
       let mut value = first.to_digit(8).unwrap();
-      for ch in raw[consumed..].chars().take(2) {
+      // `ZeroToThree OctalDigit OctalDigit` or `FourToSeven OctalDigit`.
+      let max_more_digits = if first <= '3' { 2 } else { 1 };
+      for ch in raw[consumed..].chars().take(max_more_digits) {
         if ('0'..='7').contains(&ch) {
           consumed += ch.len_utf8();
           value = (value << 3) + ch.to_digit(8).unwrap();
@@ -313,7 +315,9 @@ fn decode_escape_sequence_utf16(
     '0'..='7' => {
       let mut consumed = first.len_utf8();
       let mut value = first.to_digit(8).unwrap() as u16;
-      for ch in raw[consumed..].chars().take(2) {
+      // `ZeroToThree OctalDigit OctalDigit` or `FourToSeven OctalDigit`.
+      let max_more_digits = if first <= '3' { 2 } else { 1 };
+      for ch in raw[consumed..].chars().take(max_more_digits) {
         if ('0'..='7').contains(&ch) {
           consumed += ch.len_utf8();
           value = (value << 3) + ch.to_digit(8).unwrap() as u16;
-- 
2.43.0


From 8f7dae89368c37ecc58a1c9bdd1d51fe0568d3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:57 +0000
Subject: [PATCH 03/66] fix: do not slice a string inside a character when
 pairing surrogate escapes

---
 parse-js/src/parse/expr/lit.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parse-js/src/parse/expr/lit.rs b/parse-js/src/parse/expr/lit.rs
index cb56b41..9701750 100644
--- a/parse-js/src/parse/expr/lit.rs
+++ b/parse-js/src/parse/expr/lit.rs
@@ -255,8 +255,7 @@ fn decode_escape_sequence(
         // decode to a valid Unicode scalar.
         if (0xD800..=0xDBFF).contains(&value) {
           let rest = &after_u[4..];
-          if rest.len() >= 6 && rest.starts_with("\\u") {
-            let low_hex = &rest[2..6];
+          if let Some(low_hex) = rest.strip_prefix("\\u").and_then(|r| r.get(..4)) {
             if low_hex.chars().all(|c| c.is_ascii_hexdigit()) {
               let low = u32::from_str_radix(low_hex, 16).unwrap();
               if (0xDC00..=0xDFFF).contains(&low) {
-- 
2.43.0


From 704e07d03c28f9e03ca21f60c8e5819f72a491bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:15 +0000
Subject: [PATCH 04/66] fix: normalise CR and CRLF to LF in template literal
 values

---
 parse-js/src/parse/expr/lit.rs | 39 ++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/parse-js/src/parse/expr/lit.rs b/parse-js/src/parse/expr/lit.rs
index 9701750..b82e95d 100644
--- a/parse-js/src/parse/expr/lit.rs
+++ b/parse-js/src/parse/expr/lit.rs
@@ -459,13 +459,36 @@ fn decode_literal(raw: &str, allow_line_terminators: bool) -> Result<String, Lit
           len: ch.len_utf8(),
         });
       }
-      norm.push(ch);
       offset += ch.len_utf8();
+      if ch == '\r' {
+        // Template values use LF for every <CR><LF> and <CR>.
+        norm.push('\n');
+        if raw[offset..].starts_with('\n') {
+          offset += 1;
+        }
+        continue;
+      }
+      norm.push(ch);
     }
   }
   Ok(norm)
 }
 
+/// The raw value of a template part: <CR><LF> and <CR> are normalised to LF.
+fn template_raw_utf16(content: &str) -> Box<[u16]> {
+  let mut raw = Vec::<u16>::with_capacity(content.len());
+  let mut units = content.encode_utf16().peekable();
+  while let Some(unit) = units.next() {
+    if unit == 0x0d {
+      units.next_if_eq(&0x0a);
+      raw.push(0x0a);
+    } else {
+      raw.push(unit);
+    }
+  }
+  raw.into_boxed_slice()
+}
+
 fn decode_literal_utf16(raw: &str, allow_line_terminators: bool) -> Result<Vec<u16>, LiteralError> {
   let mut norm = Vec::<u16>::new();
   let mut offset = 0;
@@ -497,10 +520,18 @@ fn decode_literal_utf16(raw: &str, allow_line_terminators: bool) -> Result<Vec<u
           len: ch.len_utf8(),
         });
       }
+      offset += ch.len_utf8();
+      if ch == '\r' {
+        // Template values use LF for every <CR><LF> and <CR>.
+        norm.push(0x0a);
+        if raw[offset..].starts_with('\n') {
+          offset += 1;
+        }
+        continue;
+      }
       let mut buf = [0u16; 2];
       let encoded = ch.encode_utf16(&mut buf);
       norm.extend_from_slice(encoded);
-      offset += ch.len_utf8();
     }
   }
   Ok(norm)
@@ -1196,7 +1227,7 @@ impl<'a> Parser<'a> {
     let raw = self.bytes(t.loc);
     let (content_offset, first_content) =
       template_content(raw, is_end).ok_or_else(|| t.error(SyntaxErrorType::UnexpectedEnd))?;
-    let first_raw = first_content.encode_utf16().collect::<Vec<_>>().into_boxed_slice();
+    let first_raw = template_raw_utf16(first_content);
     raw_parts.push(first_raw);
     let first_legacy_escape = find_legacy_escape_sequence(first_content);
     if !tagged && invalid_escape.is_none() {
@@ -1252,7 +1283,7 @@ impl<'a> Parser<'a> {
         let raw = self.bytes(string.loc);
         let (offset, content) = template_content(raw, string_is_end)
           .ok_or_else(|| string.error(SyntaxErrorType::UnexpectedEnd))?;
-        let raw_part = content.encode_utf16().collect::<Vec<_>>().into_boxed_slice();
+        let raw_part = template_raw_utf16(content);
         raw_parts.push(raw_part);
         let legacy_escape = find_legacy_escape_sequence(content);
         if !tagged && invalid_escape.is_none() {
-- 
2.43.0


From fd6a27410b6497ea94c2ecae8c4998ab59dcd8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:15 +0000
Subject: [PATCH 05/66] fix: reject regular expression literals with both the u
 and the v flag

---
 parse-js/src/parse/expr/lit.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parse-js/src/parse/expr/lit.rs b/parse-js/src/parse/expr/lit.rs
index b82e95d..c76d481 100644
--- a/parse-js/src/parse/expr/lit.rs
+++ b/parse-js/src/parse/expr/lit.rs
@@ -682,6 +682,14 @@ fn validate_regex_flags(raw: &str, start: usize) -> Result<(), RegexError> {
         len: ch.len_utf8(),
       });
     }
+    // `u` and `v` are mutually exclusive.
+    if matches!(ch, 'u' | 'v') && seen_flags & (1 << 5 | 1 << 6) != 0 {
+      return Err(RegexError {
+        kind: RegexErrorKind::InvalidFlag,
+        offset: start + offset,
+        len: ch.len_utf8(),
+      });
+    }
     seen_flags |= bit;
   }
   Ok(())
-- 
2.43.0


From 62be4f766223d6b35af581a16620873a100e22ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:29 +0000
Subject: [PATCH 06/66] fix: keep trailing array elisions when emitting array
 literals

---
 emit-js/src/expr.rs    | 4 ++++
 emit-js/src/expr_js.rs | 4 ++++
 emit-js/src/hir.rs     | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/emit-js/src/expr.rs b/emit-js/src/expr.rs
index e4c4eef..8f06404 100644
--- a/emit-js/src/expr.rs
+++ b/emit-js/src/expr.rs
@@ -270,6 +270,10 @@ where
           LitArrElem::Empty => {}
         }
       }
+      // A trailing elision needs its own comma.
+      if matches!(arr.stx.elements.last(), Some(LitArrElem::Empty)) {
+        self.out.write_char(',')?;
+      }
       self.out.write_char(']')?;
       Ok(())
     })
diff --git a/emit-js/src/expr_js.rs b/emit-js/src/expr_js.rs
index 4fc35ee..fb03d8b 100644
--- a/emit-js/src/expr_js.rs
+++ b/emit-js/src/expr_js.rs
@@ -487,6 +487,10 @@ fn emit_array_literal(em: &mut Emitter, arr: &Node<LitArrExpr>) -> EmitResult {
       LitArrElem::Empty => {}
     }
   }
+  // A trailing elision needs its own comma.
+  if matches!(arr.stx.elements.last(), Some(LitArrElem::Empty)) {
+    em.write_punct(",");
+  }
   em.write_punct("]");
   Ok(())
 }
diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index 16afeb9..cd80111 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -1789,6 +1789,10 @@ fn emit_array_literal(
       hir_js::ArrayElement::Empty => {}
     }
   }
+  // A trailing elision needs its own comma.
+  if matches!(array.elements.last(), Some(hir_js::ArrayElement::Empty)) {
+    em.write_punct(",");
+  }
   em.write_punct("]");
   Ok(())
 }
-- 
2.43.0


From 2039463f1df41cb03341c964f43894da7a0fc401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:55 +0000
Subject: [PATCH 07/66] fix: parenthesise expression statements whose leftmost
 token would start a declaration or block

---
 emit-js/src/stmt.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/emit-js/src/stmt.rs b/emit-js/src/stmt.rs
index e8f21b6..a9d99e8 100644
--- a/emit-js/src/stmt.rs
+++ b/emit-js/src/stmt.rs
@@ -2,6 +2,7 @@ use crate::expr_js::{emit_expr, ExprCtx};
 use crate::module_names::{
   emit_module_binding_identifier_or_string_literal, is_module_binding_identifier_token,
 };
+use crate::stmt_start::expr_stmt_needs_parens;
 use crate::ts_type::{emit_ts_type, emit_type_parameters};
 use crate::{EmitError, EmitMode, EmitResult, Emitter};
 use parse_js::ast::class_or_object::{
@@ -104,10 +105,7 @@ fn emit_expr_stmt(em: &mut Emitter, expr: &Node<Expr>) -> EmitResult {
 }
 
 fn expr_needs_paren_in_stmt(expr: &Node<Expr>) -> bool {
-  matches!(
-    expr.stx.as_ref(),
-    Expr::LitObj(_) | Expr::Func(_) | Expr::Class(_) | Expr::ArrowFunc(_)
-  )
+  matches!(expr.stx.as_ref(), Expr::ArrowFunc(_)) || expr_stmt_needs_parens(expr)
 }
 
 fn emit_stmt_as_body(em: &mut Emitter, stmt: &Node<Stmt>) -> EmitResult {
-- 
2.43.0


From 633ec546537dc8edc8e437babbc2a62aab9bd72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:26 +0000
Subject: [PATCH 08/66] fix: parenthesise call-like callees of new expressions

---
 emit-js/src/expr.rs       | 21 +++++++-------------
 emit-js/src/expr_js.rs    | 25 +++++++++++------------
 emit-js/src/hir.rs        | 17 +++++++++-------
 emit-js/src/precedence.rs | 42 ++++++++++++++++++++++++++++++---------
 hir-js/src/lower.rs       | 31 +++++++++++++++++++----------
 5 files changed, 82 insertions(+), 54 deletions(-)

diff --git a/emit-js/src/expr.rs b/emit-js/src/expr.rs
index 8f06404..0b0148f 100644
--- a/emit-js/src/expr.rs
+++ b/emit-js/src/expr.rs
@@ -19,8 +19,8 @@ use parse_js::operator::{OperatorName, OPERATORS};
 use crate::emitter::{with_node_context, EmitError, EmitOptions, EmitResult};
 use crate::escape::emit_string_literal;
 use crate::precedence::{
-  child_min_prec_for_binary, expr_prec, needs_parens, starts_with_optional_chaining, Prec, Side,
-  CALL_MEMBER_PRECEDENCE,
+  child_min_prec_for_binary, expr_prec, needs_parens, new_call, new_callee_needs_parens, Prec,
+  Side, CALL_MEMBER_PRECEDENCE,
 };
 use crate::Emitter;
 
@@ -527,17 +527,10 @@ where
   fn emit_new_expr(&mut self, argument: &Node<Expr>) -> EmitResult {
     write!(self.out, "new ")?;
 
-    match argument.stx.as_ref() {
-      Expr::Call(call) => {
-        if call.stx.optional_chaining {
-          write!(self.out, "(")?;
-          self.emit_call(call)?;
-          write!(self.out, ")")?;
-          return Ok(());
-        }
-
+    match new_call(argument) {
+      Some(call) => {
         let callee = &call.stx.callee;
-        if starts_with_optional_chaining(callee) {
+        if new_callee_needs_parens(callee) {
           write!(self.out, "(")?;
           self.emit_memberish_receiver(callee)?;
           write!(self.out, ")")?;
@@ -562,8 +555,8 @@ where
         write!(self.out, ")")?;
         Ok(())
       }
-      _ => {
-        if starts_with_optional_chaining(argument) {
+      None => {
+        if new_callee_needs_parens(argument) {
           write!(self.out, "(")?;
           self.emit_expr_with_min_prec(argument, CALL_MEMBER_PRECEDENCE)?;
           write!(self.out, ")")?;
diff --git a/emit-js/src/expr_js.rs b/emit-js/src/expr_js.rs
index fb03d8b..9f0c2c7 100644
--- a/emit-js/src/expr_js.rs
+++ b/emit-js/src/expr_js.rs
@@ -1,6 +1,9 @@
 use crate::emitter::{EmitError, EmitErrorKind, EmitResult, Emitter};
 use crate::escape::{cooked_template_segment, emit_template_literal_segment};
-use crate::precedence::{child_min_prec_for_binary, starts_with_optional_chaining, Side};
+use crate::precedence::{
+  child_min_prec_for_binary, is_new_without_arguments, new_call, new_callee_needs_parens, Side,
+  NEW_WITHOUT_ARGUMENTS_PRECEDENCE,
+};
 use crate::stmt::{emit_class_like, emit_decorators};
 use crate::ts_type::{emit_ts_type, emit_type_expr, emit_type_parameters};
 use parse_js::ast::class_or_object::{ClassOrObjKey, ClassOrObjVal, ObjMember, ObjMemberType};
@@ -93,6 +96,9 @@ fn expr_precedence(expr: &Node<Expr>) -> Result<u8, EmitError> {
         .map(|op| op.precedence)
         .ok_or_else(|| EmitError::unsupported("unknown operator"))?,
     ),
+    Expr::Unary(unary) if is_new_without_arguments(unary) => {
+      Ok(NEW_WITHOUT_ARGUMENTS_PRECEDENCE.value())
+    }
     Expr::Unary(unary) => Ok(
       OPERATORS
         .get(&unary.stx.operator)
@@ -416,17 +422,10 @@ fn emit_unary(em: &mut Emitter, unary: &Node<UnaryExpr>, ctx: ExprCtx) -> EmitRe
 fn emit_new_expr(em: &mut Emitter, argument: &Node<Expr>, ctx: ExprCtx) -> EmitResult {
   em.write_keyword("new");
 
-  match argument.stx.as_ref() {
-    Expr::Call(call) => {
-      if call.stx.optional_chaining {
-        em.write_punct("(");
-        emit_call(em, call, ctx)?;
-        em.write_punct(")");
-        return Ok(());
-      }
-
+  match new_call(argument) {
+    Some(call) => {
       let callee = &call.stx.callee;
-      if starts_with_optional_chaining(callee) {
+      if new_callee_needs_parens(callee) {
         em.write_punct("(");
         emit_expr_with_min_prec(em, callee, CALL_MEMBER_PRECEDENCE, ctx)?;
         em.write_punct(")");
@@ -448,8 +447,8 @@ fn emit_new_expr(em: &mut Emitter, argument: &Node<Expr>, ctx: ExprCtx) -> EmitR
       em.write_punct(")");
       Ok(())
     }
-    _ => {
-      if starts_with_optional_chaining(argument) {
+    None => {
+      if new_callee_needs_parens(argument) {
         em.write_punct("(");
         emit_expr_with_min_prec(em, argument, CALL_MEMBER_PRECEDENCE, ctx)?;
         em.write_punct(")");
diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index cd80111..e00fe33 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -1695,7 +1695,7 @@ fn emit_call(
   body: &Body,
   call: &hir_js::CallExpr,
 ) -> EmitResult {
-  let callee_needs_parens = call.is_new && starts_with_optional_chaining(ctx, body, call.callee);
+  let callee_needs_parens = call.is_new && new_callee_needs_parens(ctx, body, call.callee);
   if call.is_new {
     em.write_keyword("new");
   }
@@ -2393,16 +2393,19 @@ fn arrow_concise_body_needs_parens(expr: &Expr) -> bool {
   )
 }
 
-fn starts_with_optional_chaining(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) -> bool {
-  let expr = ctx.expr(body, expr_id);
-  match &expr.kind {
+/// Whether an expression printed right after `new` needs parentheses: an unparenthesised
+/// call (or an optional chain) in the callee would end the `new` expression early.
+fn new_callee_needs_parens(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) -> bool {
+  match &ctx.expr(body, expr_id).kind {
+    ExprKind::Call(call) => !call.is_new,
+    ExprKind::ImportCall { .. } => true,
     ExprKind::Member(member) => {
-      member.optional || starts_with_optional_chaining(ctx, body, member.object)
+      member.optional || new_callee_needs_parens(ctx, body, member.object)
     }
-    ExprKind::Call(call) => call.optional || starts_with_optional_chaining(ctx, body, call.callee),
+    ExprKind::TaggedTemplate { tag, .. } => new_callee_needs_parens(ctx, body, *tag),
     ExprKind::TypeAssertion { expr, .. }
     | ExprKind::NonNull { expr }
-    | ExprKind::Satisfies { expr, .. } => starts_with_optional_chaining(ctx, body, *expr),
+    | ExprKind::Satisfies { expr, .. } => new_callee_needs_parens(ctx, body, *expr),
     _ => false,
   }
 }
diff --git a/emit-js/src/precedence.rs b/emit-js/src/precedence.rs
index 8b3f46b..062c66d 100644
--- a/emit-js/src/precedence.rs
+++ b/emit-js/src/precedence.rs
@@ -1,5 +1,5 @@
-use parse_js::ast::expr::Expr;
-use parse_js::ast::node::Node;
+use parse_js::ast::expr::{CallExpr, Expr, UnaryExpr};
+use parse_js::ast::node::{Node, ParenthesizedExpr};
 use parse_js::operator::{Associativity, OperatorName, OPERATORS};
 
 /// Wrapper around a precedence value with total ordering.
@@ -30,6 +30,9 @@ pub const TYPE_ASSERTION_PRECEDENCE: Prec = Prec::new(15);
 pub const SATISFIES_PRECEDENCE: Prec = TYPE_ASSERTION_PRECEDENCE;
 /// Precedence for optional chaining, member access, and call-like operators.
 pub const CALL_MEMBER_PRECEDENCE: Prec = Prec::new(18);
+/// Precedence for `new a` without an argument list: as the object of a member access or
+/// call it needs parentheses, or it would take what follows.
+pub const NEW_WITHOUT_ARGUMENTS_PRECEDENCE: Prec = Prec::new(17);
 /// Precedence for atomic expressions (identifiers, literals, etc.).
 pub const PRIMARY_PRECEDENCE: Prec = Prec::new(19);
 /// Precedence for arrow functions (lower than assignment to force parentheses when
@@ -70,6 +73,7 @@ pub fn expr_prec(expr: &Node<Expr>) -> Prec {
   match expr.stx.as_ref() {
     Expr::Binary(binary) => Prec::new(OPERATORS[&binary.stx.operator].precedence),
     Expr::Cond(_) => Prec::new(OPERATORS[&OperatorName::Conditional].precedence),
+    Expr::Unary(unary) if is_new_without_arguments(unary) => NEW_WITHOUT_ARGUMENTS_PRECEDENCE,
     Expr::Unary(unary) => Prec::new(OPERATORS[&unary.stx.operator].precedence),
     Expr::UnaryPostfix(unary) => Prec::new(OPERATORS[&unary.stx.operator].precedence),
     Expr::Call(_) | Expr::Member(_) | Expr::ComputedMember(_) | Expr::Instantiation(_) => {
@@ -109,18 +113,38 @@ pub fn expr_prec(expr: &Node<Expr>) -> Prec {
   }
 }
 
-pub fn starts_with_optional_chaining(expr: &Node<Expr>) -> bool {
+/// Whether `expr`, printed right after `new`, needs parentheses: an unparenthesised
+/// call (or an optional chain) in the callee would end the `new` expression early.
+pub fn new_callee_needs_parens(expr: &Node<Expr>) -> bool {
   match expr.stx.as_ref() {
-    Expr::Instantiation(inst) => starts_with_optional_chaining(&inst.stx.expression),
+    Expr::Call(_) | Expr::Import(_) => true,
     Expr::Member(member) => {
-      member.stx.optional_chaining || starts_with_optional_chaining(&member.stx.left)
+      member.stx.optional_chaining || new_callee_needs_parens(&member.stx.left)
     }
     Expr::ComputedMember(member) => {
-      member.stx.optional_chaining || starts_with_optional_chaining(&member.stx.object)
-    }
-    Expr::Call(call) => {
-      call.stx.optional_chaining || starts_with_optional_chaining(&call.stx.callee)
+      member.stx.optional_chaining || new_callee_needs_parens(&member.stx.object)
     }
+    Expr::TaggedTemplate(tagged) => new_callee_needs_parens(&tagged.stx.function),
+    Expr::Instantiation(inst) => new_callee_needs_parens(&inst.stx.expression),
+    Expr::NonNullAssertion(non_null) => new_callee_needs_parens(&non_null.stx.expression),
     _ => false,
   }
 }
+
+/// Whether this is `new a` without an argument list. A parenthesised call operand
+/// (`new (a())`) is the callee, not the argument list.
+pub fn is_new_without_arguments(unary: &Node<UnaryExpr>) -> bool {
+  unary.stx.operator == OperatorName::New && new_call(&unary.stx.argument).is_none()
+}
+
+/// The callee and arguments of a `new` expression's operand, if it has an argument list.
+pub fn new_call(argument: &Node<Expr>) -> Option<&Node<CallExpr>> {
+  match argument.stx.as_ref() {
+    Expr::Call(call)
+      if !call.stx.optional_chaining && argument.assoc.get::<ParenthesizedExpr>().is_none() =>
+    {
+      Some(call)
+    }
+    _ => None,
+  }
+}
diff --git a/hir-js/src/lower.rs b/hir-js/src/lower.rs
index 3e08153..dd9c3b3 100644
--- a/hir-js/src/lower.rs
+++ b/hir-js/src/lower.rs
@@ -41,7 +41,7 @@ use parse_js::ast::expr::FuncExpr;
 use parse_js::ast::func::Func;
 use parse_js::ast::func::FuncBody;
 use parse_js::ast::import_export::*;
-use parse_js::ast::node::Node;
+use parse_js::ast::node::{Node, ParenthesizedExpr};
 use parse_js::ast::stmt::decl::ClassDecl;
 use parse_js::ast::stmt::decl::FuncDecl;
 use parse_js::ast::stmt::decl::VarDeclarator as AstVarDeclarator;
@@ -1971,16 +1971,25 @@ fn lower_expr(
         prefix: true,
       },
       OperatorName::New => {
-        if let AstExpr::Call(call) = unary.stx.argument.stx.as_ref() {
-          lower_call_expr(call, builder, ctx, true)
-        } else {
-          let callee = lower_expr(&unary.stx.argument, builder, ctx);
-          ExprKind::Call(CallExpr {
-            callee,
-            args: Vec::new(),
-            optional: false,
-            is_new: true,
-          })
+        // `new (a())` constructs the result of the call: only an unparenthesised call
+        // operand is the `new` expression's own argument list.
+        let parenthesized = unary
+          .stx
+          .argument
+          .assoc
+          .get::<ParenthesizedExpr>()
+          .is_some();
+        match unary.stx.argument.stx.as_ref() {
+          AstExpr::Call(call) if !parenthesized => lower_call_expr(call, builder, ctx, true),
+          _ => {
+            let callee = lower_expr(&unary.stx.argument, builder, ctx);
+            ExprKind::Call(CallExpr {
+              callee,
+              args: Vec::new(),
+              optional: false,
+              is_new: true,
+            })
+          }
         }
       }
       op => {
-- 
2.43.0


From d5ffa22c063f165cccf7a47c117e48bbb6a89b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:10 +0000
Subject: [PATCH 09/66] fix: parenthesise comma and low-precedence operands
 where the grammar asks for an assignment or left-hand-side expression

---
 emit-js/src/expr.rs       | 22 ++++++-------
 emit-js/src/expr_js.rs    | 66 ++++++++++++++++++++++++++++++---------
 emit-js/src/hir.rs        | 37 ++++++++++++----------
 emit-js/src/pat.rs        | 19 +++++++++--
 emit-js/src/precedence.rs |  6 ++++
 emit-js/src/stmt.rs       | 24 +++++++-------
 emit-js/src/ts_stmt.rs    |  4 +--
 7 files changed, 119 insertions(+), 59 deletions(-)

diff --git a/emit-js/src/expr.rs b/emit-js/src/expr.rs
index 0b0148f..f2db126 100644
--- a/emit-js/src/expr.rs
+++ b/emit-js/src/expr.rs
@@ -20,7 +20,7 @@ use crate::emitter::{with_node_context, EmitError, EmitOptions, EmitResult};
 use crate::escape::emit_string_literal;
 use crate::precedence::{
   child_min_prec_for_binary, expr_prec, needs_parens, new_call, new_callee_needs_parens, Prec,
-  Side, CALL_MEMBER_PRECEDENCE,
+  Side, ASSIGNMENT_EXPR_PRECEDENCE, CALL_MEMBER_PRECEDENCE, LEFT_HAND_SIDE_PRECEDENCE,
 };
 use crate::Emitter;
 
@@ -262,10 +262,10 @@ where
           self.out.write_char(',')?;
         }
         match elem {
-          LitArrElem::Single(expr) => self.emit_expr_with_min_prec(expr, Prec::new(1))?,
+          LitArrElem::Single(expr) => self.emit_expr_with_min_prec(expr, ASSIGNMENT_EXPR_PRECEDENCE)?,
           LitArrElem::Rest(expr) => {
             self.out.write_str("...")?;
-            self.emit_expr_with_min_prec(expr, Prec::new(1))?;
+            self.emit_expr_with_min_prec(expr, ASSIGNMENT_EXPR_PRECEDENCE)?;
           }
           LitArrElem::Empty => {}
         }
@@ -303,7 +303,7 @@ where
       }
       ObjMemberType::Rest { val } => {
         self.out.write_str("...")?;
-        self.emit_expr_with_min_prec(val, Prec::new(1))
+        self.emit_expr_with_min_prec(val, ASSIGNMENT_EXPR_PRECEDENCE)
       }
     })
   }
@@ -314,7 +314,7 @@ where
         self.emit_pattern_fragment(|em| crate::pat::emit_class_or_object_key(em, key))?;
         self.out.write_char(':')?;
         self.out.write_str(self.sep())?;
-        self.emit_expr_with_min_prec(expr, Prec::new(1))
+        self.emit_expr_with_min_prec(expr, ASSIGNMENT_EXPR_PRECEDENCE)
       }
       ClassOrObjVal::Prop(None) => Err(EmitError::unsupported("object property missing value")),
       _ => Err(EmitError::unsupported("object member kind not supported")),
@@ -407,7 +407,7 @@ where
 
       if let Some(extends) = &class.extends {
         self.out.write_str(" extends ")?;
-        self.emit_expr_with_min_prec(extends, Prec::new(1))?;
+        self.emit_expr_with_min_prec(extends, LEFT_HAND_SIDE_PRECEDENCE)?;
       }
       if !class.implements.is_empty() {
         self.out.write_str(" implements ")?;
@@ -431,11 +431,11 @@ where
   fn emit_import_expr(&mut self, import: &Node<ImportExpr>) -> EmitResult {
     with_node_context(import.loc, || {
       self.out.write_str("import(")?;
-      self.emit_expr_with_min_prec(&import.stx.module, Prec::new(1))?;
+      self.emit_expr_with_min_prec(&import.stx.module, ASSIGNMENT_EXPR_PRECEDENCE)?;
       if let Some(attrs) = &import.stx.attributes {
         self.out.write_char(',')?;
         self.out.write_str(self.sep())?;
-        self.emit_expr_with_min_prec(attrs, Prec::new(1))?;
+        self.emit_expr_with_min_prec(attrs, ASSIGNMENT_EXPR_PRECEDENCE)?;
       }
       self.out.write_char(')')?;
       Ok(())
@@ -549,7 +549,7 @@ where
           if *spread {
             write!(self.out, "...")?;
           }
-          self.emit_expr_with_min_prec(value, Prec::new(1))?;
+          self.emit_expr_with_min_prec(value, ASSIGNMENT_EXPR_PRECEDENCE)?;
         }
 
         write!(self.out, ")")?;
@@ -674,7 +674,7 @@ where
             if *spread {
               write!(self.out, "...")?;
             }
-            self.emit_expr_with_min_prec(value, Prec::new(1))?;
+            self.emit_expr_with_min_prec(value, ASSIGNMENT_EXPR_PRECEDENCE)?;
           }
           write!(self.out, ")")?;
           return Ok(());
@@ -696,7 +696,7 @@ where
         if *spread {
           write!(self.out, "...")?;
         }
-        self.emit_expr_with_min_prec(value, Prec::new(1))?;
+        self.emit_expr_with_min_prec(value, ASSIGNMENT_EXPR_PRECEDENCE)?;
       }
       write!(self.out, ")")?;
       Ok(())
diff --git a/emit-js/src/expr_js.rs b/emit-js/src/expr_js.rs
index 9f0c2c7..c990429 100644
--- a/emit-js/src/expr_js.rs
+++ b/emit-js/src/expr_js.rs
@@ -1,7 +1,8 @@
 use crate::emitter::{EmitError, EmitErrorKind, EmitResult, Emitter};
 use crate::escape::{cooked_template_segment, emit_template_literal_segment};
 use crate::precedence::{
-  child_min_prec_for_binary, is_new_without_arguments, new_call, new_callee_needs_parens, Side,
+  child_min_prec_for_binary, expr_prec, is_new_without_arguments, needs_parens, new_call,
+  new_callee_needs_parens, Prec, Side, ASSIGNMENT_EXPR_PRECEDENCE, LEFT_HAND_SIDE_PRECEDENCE,
   NEW_WITHOUT_ARGUMENTS_PRECEDENCE,
 };
 use crate::stmt::{emit_class_like, emit_decorators};
@@ -23,6 +24,7 @@ const PRIMARY_PRECEDENCE: u8 = 19;
 const CALL_MEMBER_PRECEDENCE: u8 = 18;
 const POSTFIX_PRECEDENCE: u8 = 17;
 const ARROW_PRECEDENCE: u8 = 3;
+const ASSIGNMENT_PRECEDENCE: u8 = ASSIGNMENT_EXPR_PRECEDENCE.value();
 
 /// Context for expression emission. Currently unused but kept to allow
 /// statement-start callers to request safer forms in the future.
@@ -45,6 +47,42 @@ pub fn emit_expr(em: &mut Emitter, expr: &Node<Expr>, ctx: ExprCtx) -> EmitResul
   }
 }
 
+/// Emits `expr` where the grammar asks for an AssignmentExpression: a comma expression
+/// is parenthesised.
+pub(crate) fn emit_assignment_expr(
+  em: &mut Emitter,
+  expr: &Node<Expr>,
+  ctx: ExprCtx,
+) -> EmitResult {
+  emit_expr_parenthesized_below(em, expr, ASSIGNMENT_EXPR_PRECEDENCE, ctx)
+}
+
+/// Emits `expr` where the grammar asks for a LeftHandSideExpression.
+pub(crate) fn emit_left_hand_side_expr(
+  em: &mut Emitter,
+  expr: &Node<Expr>,
+  ctx: ExprCtx,
+) -> EmitResult {
+  emit_expr_parenthesized_below(em, expr, LEFT_HAND_SIDE_PRECEDENCE, ctx)
+}
+
+fn emit_expr_parenthesized_below(
+  em: &mut Emitter,
+  expr: &Node<Expr>,
+  min_prec: Prec,
+  ctx: ExprCtx,
+) -> EmitResult {
+  let parens = needs_parens(expr_prec(expr), min_prec);
+  if parens {
+    em.write_punct("(");
+  }
+  emit_expr(em, expr, ctx)?;
+  if parens {
+    em.write_punct(")");
+  }
+  Ok(())
+}
+
 fn emit_expr_with_min_prec(
   em: &mut Emitter,
   expr: &Node<Expr>,
@@ -302,7 +340,7 @@ fn emit_call(em: &mut Emitter, call: &Node<CallExpr>, ctx: ExprCtx) -> EmitResul
         if *spread {
           em.write_punct("...");
         }
-        emit_expr_with_min_prec(em, value, 1, ctx)?;
+        emit_expr_with_min_prec(em, value, ASSIGNMENT_PRECEDENCE, ctx)?;
       }
       em.write_punct(")");
       return Ok(());
@@ -323,7 +361,7 @@ fn emit_call(em: &mut Emitter, call: &Node<CallExpr>, ctx: ExprCtx) -> EmitResul
     if *spread {
       em.write_punct("...");
     }
-    emit_expr_with_min_prec(em, value, 1, ctx)?;
+    emit_expr_with_min_prec(em, value, ASSIGNMENT_PRECEDENCE, ctx)?;
   }
   em.write_punct(")");
   Ok(())
@@ -442,7 +480,7 @@ fn emit_new_expr(em: &mut Emitter, argument: &Node<Expr>, ctx: ExprCtx) -> EmitR
         if *spread {
           em.write_punct("...");
         }
-        emit_expr_with_min_prec(em, value, 1, ctx)?;
+        emit_expr_with_min_prec(em, value, ASSIGNMENT_PRECEDENCE, ctx)?;
       }
       em.write_punct(")");
       Ok(())
@@ -478,10 +516,10 @@ fn emit_array_literal(em: &mut Emitter, arr: &Node<LitArrExpr>) -> EmitResult {
       em.write_punct(",");
     }
     match elem {
-      LitArrElem::Single(expr) => emit_expr(em, expr, ExprCtx::Default)?,
+      LitArrElem::Single(expr) => emit_assignment_expr(em, expr, ExprCtx::Default)?,
       LitArrElem::Rest(expr) => {
         em.write_punct("...");
-        emit_expr(em, expr, ExprCtx::Default)?;
+        emit_assignment_expr(em, expr, ExprCtx::Default)?;
       }
       LitArrElem::Empty => {}
     }
@@ -515,7 +553,7 @@ fn emit_obj_member(em: &mut Emitter, member: &Node<ObjMember>) -> EmitResult {
     }
     ObjMemberType::Rest { val } => {
       em.write_punct("...");
-      emit_expr(em, val, ExprCtx::Default)
+      emit_assignment_expr(em, val, ExprCtx::Default)
     }
   }
 }
@@ -530,7 +568,7 @@ fn emit_obj_valued_member(
       emit_class_or_object_key(em, key)?;
       if let Some(init) = init {
         em.write_punct(":");
-        emit_expr(em, init, ExprCtx::Default)?;
+        emit_assignment_expr(em, init, ExprCtx::Default)?;
       }
       Ok(())
     }
@@ -639,7 +677,7 @@ fn emit_param_decl(em: &mut Emitter, param: &Node<ParamDecl>) -> EmitResult {
   }
   if let Some(default) = &param.default_value {
     em.write_punct("=");
-    emit_expr(em, default, ExprCtx::Default)?;
+    emit_assignment_expr(em, default, ExprCtx::Default)?;
   }
   Ok(())
 }
@@ -680,7 +718,7 @@ fn emit_array_pattern(em: &mut Emitter, arr: &Node<ArrPat>) -> EmitResult {
       emit_pat(em, &elem.target)?;
       if let Some(default) = &elem.default_value {
         em.write_punct("=");
-        emit_expr(em, default, ExprCtx::Default)?;
+        emit_assignment_expr(em, default, ExprCtx::Default)?;
       }
     }
   }
@@ -722,7 +760,7 @@ fn emit_obj_pat_prop(em: &mut Emitter, prop: &Node<ObjPatProp>) -> EmitResult {
   }
   if let Some(default) = &prop.stx.default_value {
     em.write_punct("=");
-    emit_expr(em, default, ExprCtx::Default)?;
+    emit_assignment_expr(em, default, ExprCtx::Default)?;
   }
   Ok(())
 }
@@ -847,7 +885,7 @@ fn emit_func_body(em: &mut Emitter, body: &Option<FuncBody>, ctx: ExprCtx) -> Em
       em.write_punct("}");
       Ok(())
     }
-    Some(FuncBody::Expression(expr)) => emit_expr(em, expr, ctx),
+    Some(FuncBody::Expression(expr)) => emit_assignment_expr(em, expr, ctx),
     None => Err(EmitError::unsupported("function missing body")),
   }
 }
@@ -885,10 +923,10 @@ fn emit_class_expression(em: &mut Emitter, class: &Node<ClassExpr>) -> EmitResul
 fn emit_import_expr(em: &mut Emitter, import: &Node<ImportExpr>, ctx: ExprCtx) -> EmitResult {
   em.write_keyword("import");
   em.write_punct("(");
-  emit_expr(em, &import.stx.module, ctx)?;
+  emit_assignment_expr(em, &import.stx.module, ctx)?;
   if let Some(attrs) = &import.stx.attributes {
     em.write_punct(",");
-    emit_expr(em, attrs, ctx)?;
+    emit_assignment_expr(em, attrs, ctx)?;
   }
   em.write_punct(")");
   Ok(())
diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index e00fe33..73eeca1 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -4,7 +4,8 @@ use crate::module_names::{
   is_module_binding_identifier_token,
 };
 use crate::precedence::{
-  child_min_prec_for_binary, needs_parens, Prec, ARROW_FUNCTION_PRECEDENCE, CALL_MEMBER_PRECEDENCE,
+  child_min_prec_for_binary, needs_parens, Prec, ARROW_FUNCTION_PRECEDENCE,
+  ASSIGNMENT_EXPR_PRECEDENCE, CALL_MEMBER_PRECEDENCE, LEFT_HAND_SIDE_PRECEDENCE,
   PRIMARY_PRECEDENCE,
 };
 use crate::{EmitError, EmitOptions, EmitResult, Emitter};
@@ -201,7 +202,7 @@ fn emit_decorators(em: &mut Emitter, ctx: &HirContext<'_>, decorators: &[Decorat
     let deco_body = ctx
       .body(deco.body)
       .ok_or_else(|| EmitError::unsupported("decorator body not found"))?;
-    emit_expr_with_min_prec(em, ctx, deco_body, deco.expr, Prec::LOWEST)?;
+    emit_expr_with_min_prec(em, ctx, deco_body, deco.expr, LEFT_HAND_SIDE_PRECEDENCE)?;
     em.write_space();
   }
   Ok(())
@@ -242,7 +243,7 @@ fn emit_module_attributes(
   let body = ctx
     .body(attrs.body)
     .ok_or_else(|| EmitError::unsupported("module attributes body missing"))?;
-  emit_expr_with_min_prec(em, ctx, body, attrs.expr, Prec::LOWEST)
+  emit_expr_with_min_prec(em, ctx, body, attrs.expr, ASSIGNMENT_EXPR_PRECEDENCE)
 }
 
 fn emit_import_es(em: &mut Emitter, ctx: &HirContext<'_>, es: &ImportEs) -> EmitResult {
@@ -473,7 +474,7 @@ fn emit_export_default(
       if needs_parens {
         em.write_punct("(");
       }
-      emit_expr_with_min_prec(em, ctx, body, *expr, Prec::LOWEST)?;
+      emit_expr_with_min_prec(em, ctx, body, *expr, ASSIGNMENT_EXPR_PRECEDENCE)?;
       if needs_parens {
         em.write_punct(")");
       }
@@ -566,7 +567,7 @@ fn emit_class_like(
 
   if let Some(extends) = class.extends {
     em.write_keyword("extends");
-    emit_expr_with_min_prec(em, ctx, body, extends, Prec::LOWEST)?;
+    emit_expr_with_min_prec(em, ctx, body, extends, LEFT_HAND_SIDE_PRECEDENCE)?;
   }
 
   em.write_punct("{");
@@ -801,7 +802,7 @@ fn emit_jsx_attr(
     }
     JsxAttr::Spread { expr } => {
       em.write_str("{...");
-      emit_expr_with_min_prec(em, ctx, body, *expr, Prec::LOWEST)?;
+      emit_expr_with_min_prec(em, ctx, body, *expr, ASSIGNMENT_EXPR_PRECEDENCE)?;
       em.write_char('}')?;
       Ok(())
     }
@@ -1225,12 +1226,14 @@ fn emit_stmt(em: &mut Emitter, ctx: &HirContext<'_>, body: &Body, stmt_id: StmtI
         }
         hir_js::ForHead::Var(decl) => emit_var_decl(em, ctx, body, decl, false)?,
       }
-      if *is_for_of {
+      let right_min_prec = if *is_for_of {
         em.write_keyword("of");
+        ASSIGNMENT_EXPR_PRECEDENCE
       } else {
         em.write_keyword("in");
-      }
-      emit_expr_with_min_prec(em, ctx, body, *right, Prec::LOWEST)?;
+        Prec::LOWEST
+      };
+      emit_expr_with_min_prec(em, ctx, body, *right, right_min_prec)?;
       em.write_punct(")");
       emit_stmt_as_body(em, ctx, body, *inner)?;
     }
@@ -1675,10 +1678,10 @@ fn emit_expr_no_parens(
     } => {
       em.write_keyword("import");
       em.write_punct("(");
-      emit_expr_with_min_prec(em, ctx, body, *argument, Prec::LOWEST)?;
+      emit_expr_with_min_prec(em, ctx, body, *argument, ASSIGNMENT_EXPR_PRECEDENCE)?;
       if let Some(attrs) = attributes {
         em.write_punct(",");
-        emit_expr_with_min_prec(em, ctx, body, *attrs, Prec::LOWEST)?;
+        emit_expr_with_min_prec(em, ctx, body, *attrs, ASSIGNMENT_EXPR_PRECEDENCE)?;
       }
       em.write_punct(")");
     }
@@ -1718,7 +1721,7 @@ fn emit_call(
     if arg.spread {
       em.write_punct("...");
     }
-    emit_expr_with_min_prec(em, ctx, body, arg.expr, Prec::LOWEST)?;
+    emit_expr_with_min_prec(em, ctx, body, arg.expr, ASSIGNMENT_EXPR_PRECEDENCE)?;
   }
   em.write_punct(")");
   Ok(())
@@ -1780,11 +1783,11 @@ fn emit_array_literal(
     }
     match element {
       hir_js::ArrayElement::Expr(expr) => {
-        emit_expr_with_min_prec(em, ctx, body, *expr, Prec::LOWEST)?;
+        emit_expr_with_min_prec(em, ctx, body, *expr, ASSIGNMENT_EXPR_PRECEDENCE)?;
       }
       hir_js::ArrayElement::Spread(expr) => {
         em.write_punct("...");
-        emit_expr_with_min_prec(em, ctx, body, *expr, Prec::LOWEST)?;
+        emit_expr_with_min_prec(em, ctx, body, *expr, ASSIGNMENT_EXPR_PRECEDENCE)?;
       }
       hir_js::ArrayElement::Empty => {}
     }
@@ -1839,13 +1842,13 @@ fn emit_object_literal(
           } else {
             emit_object_key(em, ctx, body, key)?;
             em.write_punct(":");
-            emit_expr_with_min_prec(em, ctx, body, *value, Prec::LOWEST)?;
+            emit_expr_with_min_prec(em, ctx, body, *value, ASSIGNMENT_EXPR_PRECEDENCE)?;
           }
         } else {
           emit_object_key(em, ctx, body, key)?;
           if !*shorthand {
             em.write_punct(":");
-            emit_expr_with_min_prec(em, ctx, body, *value, Prec::LOWEST)?;
+            emit_expr_with_min_prec(em, ctx, body, *value, ASSIGNMENT_EXPR_PRECEDENCE)?;
           }
         }
       }
@@ -1877,7 +1880,7 @@ fn emit_object_literal(
       }
       ObjectProperty::Spread(expr) => {
         em.write_punct("...");
-        emit_expr_with_min_prec(em, ctx, body, *expr, Prec::LOWEST)?;
+        emit_expr_with_min_prec(em, ctx, body, *expr, ASSIGNMENT_EXPR_PRECEDENCE)?;
       }
     }
   }
diff --git a/emit-js/src/pat.rs b/emit-js/src/pat.rs
index b9dbec0..b172c00 100644
--- a/emit-js/src/pat.rs
+++ b/emit-js/src/pat.rs
@@ -7,12 +7,25 @@ use parse_js::token::TT;
 
 use crate::emitter::EmitResult;
 use crate::expr::emit_expr_with_emitter;
+use crate::precedence::{expr_prec, needs_parens, ASSIGNMENT_EXPR_PRECEDENCE};
 use crate::Emitter;
 
 fn emit_expr(out: &mut Emitter, expr: &Node<Expr>) -> EmitResult {
   emit_expr_with_emitter(out, expr)
 }
 
+fn emit_assignment_expr(out: &mut Emitter, expr: &Node<Expr>) -> EmitResult {
+  let parens = needs_parens(expr_prec(expr), ASSIGNMENT_EXPR_PRECEDENCE);
+  if parens {
+    out.write_punct("(");
+  }
+  emit_expr(out, expr)?;
+  if parens {
+    out.write_punct(")");
+  }
+  Ok(())
+}
+
 fn emit_decorators(out: &mut Emitter, decorators: &[Node<Decorator>]) -> EmitResult {
   for decorator in decorators {
     out.write_punct("@");
@@ -67,7 +80,7 @@ pub fn emit_param_decl(out: &mut Emitter, decl: &Node<ParamDecl>) -> EmitResult
   }
   if let Some(default) = &decl.stx.default_value {
     out.write_punct("=");
-    emit_expr(out, default)?;
+    emit_assignment_expr(out, default)?;
   }
   Ok(())
 }
@@ -87,7 +100,7 @@ pub(crate) fn emit_array_pattern(out: &mut Emitter, arr: &Node<ArrPat>) -> EmitR
       emit_pat(out, &elem.target)?;
       if let Some(default) = &elem.default_value {
         out.write_punct("=");
-        emit_expr(out, default)?;
+        emit_assignment_expr(out, default)?;
       }
     }
   }
@@ -151,7 +164,7 @@ fn emit_obj_pat_prop(out: &mut Emitter, prop: &Node<ObjPatProp>) -> EmitResult {
   }
   if let Some(default) = &prop.stx.default_value {
     out.write_punct("=");
-    emit_expr(out, default)?;
+    emit_assignment_expr(out, default)?;
   }
   Ok(())
 }
diff --git a/emit-js/src/precedence.rs b/emit-js/src/precedence.rs
index 062c66d..8e03a48 100644
--- a/emit-js/src/precedence.rs
+++ b/emit-js/src/precedence.rs
@@ -39,6 +39,12 @@ pub const PRIMARY_PRECEDENCE: Prec = Prec::new(19);
 /// used as operands).
 pub const ARROW_FUNCTION_PRECEDENCE: Prec = Prec::new(2);
 
+/// The least precedence printed without parentheses where the grammar asks for an
+/// AssignmentExpression: everything but the comma operator.
+pub const ASSIGNMENT_EXPR_PRECEDENCE: Prec = Prec::new(2);
+/// The least precedence of a LeftHandSideExpression (class heritage, decorators).
+pub const LEFT_HAND_SIDE_PRECEDENCE: Prec = NEW_WITHOUT_ARGUMENTS_PRECEDENCE;
+
 #[derive(Clone, Copy, Debug)]
 pub enum Side {
   Left,
diff --git a/emit-js/src/stmt.rs b/emit-js/src/stmt.rs
index a9d99e8..a748710 100644
--- a/emit-js/src/stmt.rs
+++ b/emit-js/src/stmt.rs
@@ -1,4 +1,4 @@
-use crate::expr_js::{emit_expr, ExprCtx};
+use crate::expr_js::{emit_assignment_expr, emit_expr, emit_left_hand_side_expr, ExprCtx};
 use crate::module_names::{
   emit_module_binding_identifier_or_string_literal, is_module_binding_identifier_token,
 };
@@ -181,7 +181,7 @@ fn emit_for_of(em: &mut Emitter, for_stmt: &Node<ForOfStmt>) -> EmitResult {
   em.write_punct("(");
   emit_for_in_of_lhs(em, &for_stmt.lhs)?;
   em.write_keyword("of");
-  emit_expr(em, &for_stmt.rhs, ExprCtx::Default)?;
+  emit_assignment_expr(em, &for_stmt.rhs, ExprCtx::Default)?;
   em.write_punct(")");
   emit_for_body(em, &for_stmt.body)
 }
@@ -388,7 +388,7 @@ fn emit_var_declarator(em: &mut Emitter, decl: &VarDeclarator) -> EmitResult {
   }
   if let Some(init) = &decl.initializer {
     em.write_punct("=");
-    emit_expr(em, init, ExprCtx::Default)?;
+    emit_assignment_expr(em, init, ExprCtx::Default)?;
   }
   Ok(())
 }
@@ -484,7 +484,7 @@ pub(crate) fn emit_class_like<T>(
   emit_type_params(em, type_parameters);
   if let Some(extends) = extends {
     em.write_keyword("extends");
-    emit_expr(em, extends, ExprCtx::Default)?;
+    emit_left_hand_side_expr(em, extends, ExprCtx::Default)?;
   }
   if !implements.is_empty() {
     em.write_keyword("implements");
@@ -613,7 +613,7 @@ fn emit_class_member(em: &mut Emitter, member: &Node<ClassMember>) -> EmitResult
       }
       if let Some(init) = init {
         em.write_punct("=");
-        emit_expr(em, init, ExprCtx::Default)?;
+        emit_assignment_expr(em, init, ExprCtx::Default)?;
       }
       em.write_punct(";");
       Ok(())
@@ -698,7 +698,7 @@ fn emit_import_stmt(em: &mut Emitter, import: &ImportStmt) -> EmitResult {
   emit_string_literal(em, &import.module);
   if let Some(attrs) = &import.attributes {
     em.write_keyword("with");
-    emit_expr(em, attrs, ExprCtx::Default)?;
+    emit_assignment_expr(em, attrs, ExprCtx::Default)?;
   }
   em.write_punct(";");
   Ok(())
@@ -796,7 +796,7 @@ fn emit_export_list_stmt(em: &mut Emitter, export: &ExportListStmt) -> EmitResul
   }
   if let Some(attrs) = &export.attributes {
     em.write_keyword("with");
-    emit_expr(em, attrs, ExprCtx::Default)?;
+    emit_assignment_expr(em, attrs, ExprCtx::Default)?;
   }
   em.write_punct(";");
   Ok(())
@@ -836,7 +836,7 @@ fn emit_export_default_expr(em: &mut Emitter, stmt: &Node<ExportDefaultExprStmt>
     emit_expr(em, &stmt.stx.expression, ExprCtx::ExportDefault)?;
     em.write_punct(")");
   } else {
-    emit_expr(em, &stmt.stx.expression, ExprCtx::ExportDefault)?;
+    emit_assignment_expr(em, &stmt.stx.expression, ExprCtx::ExportDefault)?;
   }
   em.write_punct(";");
   Ok(())
@@ -889,7 +889,7 @@ fn emit_array_pattern(em: &mut Emitter, arr: &Node<ArrPat>) -> EmitResult {
       emit_pat(em, &elem.target)?;
       if let Some(default) = &elem.default_value {
         em.write_punct("=");
-        emit_expr(em, default, ExprCtx::Default)?;
+        emit_assignment_expr(em, default, ExprCtx::Default)?;
       }
     }
   }
@@ -931,7 +931,7 @@ fn emit_obj_pat_prop(em: &mut Emitter, prop: &Node<ObjPatProp>) -> EmitResult {
   }
   if let Some(default) = &prop.stx.default_value {
     em.write_punct("=");
-    emit_expr(em, default, ExprCtx::Default)?;
+    emit_assignment_expr(em, default, ExprCtx::Default)?;
   }
   Ok(())
 }
@@ -979,7 +979,7 @@ fn emit_param_decl(em: &mut Emitter, param: &Node<ParamDecl>) -> EmitResult {
   }
   if let Some(default) = &param.default_value {
     em.write_punct("=");
-    emit_expr(em, default, ExprCtx::Default)?;
+    emit_assignment_expr(em, default, ExprCtx::Default)?;
   }
   Ok(())
 }
@@ -987,7 +987,7 @@ fn emit_param_decl(em: &mut Emitter, param: &Node<ParamDecl>) -> EmitResult {
 pub(crate) fn emit_decorators(em: &mut Emitter, decorators: &[Node<Decorator>]) -> EmitResult {
   for deco in decorators {
     em.write_punct("@");
-    emit_expr(em, &deco.stx.expression, ExprCtx::Default)?;
+    emit_left_hand_side_expr(em, &deco.stx.expression, ExprCtx::Default)?;
     em.write_space();
   }
   Ok(())
diff --git a/emit-js/src/ts_stmt.rs b/emit-js/src/ts_stmt.rs
index 7095e62..766e447 100644
--- a/emit-js/src/ts_stmt.rs
+++ b/emit-js/src/ts_stmt.rs
@@ -1,5 +1,5 @@
 use crate::emitter::{with_node_context, EmitError, EmitErrorKind, EmitMode, EmitResult, Emitter};
-use crate::expr_js::{emit_expr, ExprCtx};
+use crate::expr_js::{emit_assignment_expr, ExprCtx};
 use crate::ts_type::emit_type_parameters;
 use crate::{emit_interface_decl, emit_type_alias_decl, emit_type_expr, emit_type_members};
 use parse_js::ast::expr::Expr;
@@ -413,7 +413,7 @@ fn emit_string_literal(em: &mut Emitter, value: &str) -> EmitResult {
 }
 
 fn emit_ts_expr(em: &mut Emitter, expr: &Node<Expr>) -> EmitResult {
-  with_node_context(expr.loc, || emit_expr(em, expr, ExprCtx::Default))
+  with_node_context(expr.loc, || emit_assignment_expr(em, expr, ExprCtx::Default))
 }
 
 fn space_if_canonical(em: &mut Emitter) {
-- 
2.43.0


From e3ce3816a114757caf6eceb32f2438523c37d41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:07 +0000
Subject: [PATCH 10/66] fix: HIR emitter: number receivers, postfix updates and
 arrow bodies that start with a brace

---
 emit-js/src/expr_js.rs |  2 +-
 emit-js/src/hir.rs     | 30 ++++++++++++++++++++++--------
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/emit-js/src/expr_js.rs b/emit-js/src/expr_js.rs
index c990429..e63e6c1 100644
--- a/emit-js/src/expr_js.rs
+++ b/emit-js/src/expr_js.rs
@@ -1048,7 +1048,7 @@ fn unary_operator_text(op: OperatorName) -> Result<&'static str, EmitError> {
   }
 }
 
-fn requires_trailing_dot(rendered: &str) -> bool {
+pub(crate) fn requires_trailing_dot(rendered: &str) -> bool {
   let mut bytes = rendered.as_bytes();
   if bytes.starts_with(b"-") {
     bytes = &bytes[1..];
diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index 73eeca1..5504cb0 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -3,6 +3,7 @@ use crate::module_names::{
   emit_identifier_name_or_string_literal, emit_module_binding_identifier_or_string_literal,
   is_module_binding_identifier_token,
 };
+use crate::expr_js::requires_trailing_dot;
 use crate::precedence::{
   child_min_prec_for_binary, needs_parens, Prec, ARROW_FUNCTION_PRECEDENCE,
   ASSIGNMENT_EXPR_PRECEDENCE, CALL_MEMBER_PRECEDENCE, LEFT_HAND_SIDE_PRECEDENCE,
@@ -916,7 +917,7 @@ fn emit_arrow_function(
   em.write_punct("=>");
   match &func.body {
     FunctionBody::Expr(expr) => {
-      let needs_parens = arrow_concise_body_needs_parens(ctx.expr(body, *expr));
+      let needs_parens = arrow_concise_body_needs_parens(ctx, body, *expr);
       if needs_parens {
         em.write_punct("(");
       }
@@ -1735,6 +1736,12 @@ fn emit_member(
 ) -> EmitResult {
   emit_expr_with_min_prec(em, ctx, body, member.object, CALL_MEMBER_PRECEDENCE)?;
   let use_brackets = !matches!(member.property, ObjectKey::Ident(_));
+  if let ExprKind::Literal(Literal::Number(num)) = &ctx.expr(body, member.object).kind {
+    // `1.a` would read the dot as part of the number.
+    if !use_brackets && !member.optional && requires_trailing_dot(num) {
+      em.write_punct(".");
+    }
+  }
   if member.optional {
     if use_brackets {
       em.write_str("?.[");
@@ -2316,6 +2323,11 @@ fn expr_stmt_tokens(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) -> StmtS
         Some(arg_prefix.first),
       )
     }
+    ExprKind::Update {
+      expr,
+      prefix: false,
+      ..
+    } => prefix_with_fallback(ctx, body, *expr, StmtStartToken::Other),
     ExprKind::Unary { expr, .. }
     | ExprKind::Update { expr, .. }
     | ExprKind::Yield {
@@ -2385,14 +2397,16 @@ fn token_from_identifier(name: &str) -> StmtStartToken {
   }
 }
 
-fn arrow_concise_body_needs_parens(expr: &Expr) -> bool {
+fn arrow_concise_body_needs_parens(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) -> bool {
   matches!(
-    expr.kind,
-    ExprKind::Object(_)
-      | ExprKind::Binary {
-        op: BinaryOp::Comma,
-        ..
-      }
+    ctx.expr(body, expr_id).kind,
+    ExprKind::Binary {
+      op: BinaryOp::Comma,
+      ..
+    }
+  ) || matches!(
+    expr_stmt_tokens(ctx, body, expr_id).first,
+    StmtStartToken::BraceOpen
   )
 }
 
-- 
2.43.0


From 33deade33dbdacb5ed357ca5fd28642b72ef1d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:25 +0000
Subject: [PATCH 11/66] fix: parenthesise in operators and the identifier async
 in the heads of for statements

---
 emit-js/src/hir.rs        | 60 +++++++++++++++++++++++++++++++++++++--
 emit-js/src/stmt.rs       | 34 ++++++++++++++++++----
 emit-js/src/stmt_start.rs | 24 ++++++++++++++++
 3 files changed, 110 insertions(+), 8 deletions(-)

diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index 5504cb0..47dbb53 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -1179,7 +1179,8 @@ fn emit_stmt(em: &mut Emitter, ctx: &HirContext<'_>, body: &Body, stmt_id: StmtI
       if let Some(init) = init {
         match init {
           hir_js::ForInit::Expr(expr) => {
-            let needs_parens = for_init_expr_needs_parens(ctx, body, *expr);
+            let needs_parens = for_init_expr_needs_parens(ctx, body, *expr)
+              || contains_exposed_in(ctx, body, *expr);
             if needs_parens {
               em.write_punct("(");
             }
@@ -1216,7 +1217,9 @@ fn emit_stmt(em: &mut Emitter, ctx: &HirContext<'_>, body: &Body, stmt_id: StmtI
       em.write_punct("(");
       match left {
         hir_js::ForHead::Pat(pat) => {
-          let needs_parens = for_inof_assign_needs_parens(ctx, body, *pat);
+          // `for (async of` would start an arrow function.
+          let needs_parens = for_inof_assign_needs_parens(ctx, body, *pat)
+            || (*is_for_of && !*await_ && is_async_identifier(ctx, body, *pat));
           if needs_parens {
             em.write_punct("(");
           }
@@ -1380,7 +1383,13 @@ fn emit_var_decl(
     emit_pat(em, ctx, body, declarator.pat, false)?;
     if let Some(init) = declarator.init {
       em.write_punct("=");
-      emit_expr_with_min_prec(em, ctx, body, init, assignment_expr_min_prec)?;
+      // Only declarations in `for` heads go without a semicolon.
+      let init_min_prec = if !trailing_semicolon && contains_exposed_in(ctx, body, init) {
+        PRIMARY_PRECEDENCE
+      } else {
+        assignment_expr_min_prec
+      };
+      emit_expr_with_min_prec(em, ctx, body, init, init_min_prec)?;
     }
   }
   if trailing_semicolon {
@@ -2604,6 +2613,51 @@ fn for_init_expr_needs_parens(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId
   })
 }
 
+/// Whether printing the expression leaves an `in` operator outside of any brackets: in the
+/// head of a `for` statement it would be read as the `in` of a `for`-`in` loop.
+fn contains_exposed_in(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) -> bool {
+  match &ctx.expr(body, expr_id).kind {
+    ExprKind::Binary { op, left, right } => {
+      *op == BinaryOp::In
+        || contains_exposed_in(ctx, body, *left)
+        || contains_exposed_in(ctx, body, *right)
+    }
+    ExprKind::Assignment { value, .. } => contains_exposed_in(ctx, body, *value),
+    ExprKind::Conditional {
+      test, alternate, ..
+    } => contains_exposed_in(ctx, body, *test) || contains_exposed_in(ctx, body, *alternate),
+    ExprKind::Unary { expr, .. }
+    | ExprKind::Await { expr }
+    | ExprKind::Yield {
+      expr: Some(expr), ..
+    }
+    | ExprKind::TypeAssertion { expr, .. }
+    | ExprKind::NonNull { expr }
+    | ExprKind::Satisfies { expr, .. } => contains_exposed_in(ctx, body, *expr),
+    ExprKind::FunctionExpr {
+      body: func_body,
+      is_arrow: true,
+      ..
+    } => ctx.body(*func_body).is_some_and(|func_body| {
+      match func_body.function.as_ref().map(|func| &func.body) {
+        Some(FunctionBody::Expr(expr)) => contains_exposed_in(ctx, func_body, *expr),
+        _ => false,
+      }
+    }),
+    _ => false,
+  }
+}
+
+fn is_async_identifier(ctx: &HirContext<'_>, body: &Body, pat_id: PatId) -> bool {
+  match &ctx.pat(body, pat_id).kind {
+    PatKind::Ident(name) => ctx.name(*name) == "async",
+    PatKind::AssignTarget(expr) => {
+      matches!(&ctx.expr(body, *expr).kind, ExprKind::Ident(name) if ctx.name(*name) == "async")
+    }
+    _ => false,
+  }
+}
+
 fn for_inof_assign_needs_parens(ctx: &HirContext<'_>, body: &Body, pat_id: PatId) -> bool {
   contextual_keyword_start_from_pat(ctx, body, pat_id).map_or(false, |start| match start.kind {
     ContextualKeyword::AwaitUsing => true,
diff --git a/emit-js/src/stmt.rs b/emit-js/src/stmt.rs
index a748710..ea423eb 100644
--- a/emit-js/src/stmt.rs
+++ b/emit-js/src/stmt.rs
@@ -139,7 +139,9 @@ fn emit_for_triple(em: &mut Emitter, for_stmt: &Node<ForTripleStmt>) -> EmitResu
   match &for_stmt.init {
     ForTripleStmtInit::None => {}
     ForTripleStmtInit::Expr(expr) => {
-      if crate::stmt_start::for_init_expr_needs_parens(expr) {
+      if crate::stmt_start::for_init_expr_needs_parens(expr)
+        || crate::stmt_start::contains_exposed_in(expr)
+      {
         em.write_punct("(");
         emit_expr(em, expr, ExprCtx::Default)?;
         em.write_punct(")");
@@ -179,13 +181,29 @@ fn emit_for_of(em: &mut Emitter, for_stmt: &Node<ForOfStmt>) -> EmitResult {
     em.write_keyword("await");
   }
   em.write_punct("(");
-  emit_for_in_of_lhs(em, &for_stmt.lhs)?;
+  match &for_stmt.lhs {
+    // `for (async of` would start an arrow function.
+    ForInOfLhs::Assign(pat) if !for_stmt.await_ && is_async_identifier(pat) => {
+      em.write_punct("(");
+      emit_pat(em, pat)?;
+      em.write_punct(")");
+    }
+    lhs => emit_for_in_of_lhs(em, lhs)?,
+  }
   em.write_keyword("of");
   emit_assignment_expr(em, &for_stmt.rhs, ExprCtx::Default)?;
   em.write_punct(")");
   emit_for_body(em, &for_stmt.body)
 }
 
+fn is_async_identifier(pat: &Node<Pat>) -> bool {
+  match pat.stx.as_ref() {
+    Pat::Id(id) => id.stx.name == "async",
+    Pat::AssignTarget(expr) => matches!(expr.stx.as_ref(), Expr::Id(id) if id.stx.name == "async"),
+    _ => false,
+  }
+}
+
 fn emit_for_in_of_lhs(em: &mut Emitter, lhs: &ForInOfLhs) -> EmitResult {
   match lhs {
     ForInOfLhs::Assign(pat) => {
@@ -357,7 +375,7 @@ fn emit_var_decl(em: &mut Emitter, decl: &VarDecl, trailing_semicolon: bool) ->
     if idx > 0 {
       em.write_punct(",");
     }
-    emit_var_declarator(em, var)?;
+    emit_var_declarator(em, var, !trailing_semicolon)?;
   }
   if trailing_semicolon {
     em.write_punct(";");
@@ -378,7 +396,7 @@ fn emit_var_decl_mode(em: &mut Emitter, mode: VarDeclMode) {
   }
 }
 
-fn emit_var_declarator(em: &mut Emitter, decl: &VarDeclarator) -> EmitResult {
+fn emit_var_declarator(em: &mut Emitter, decl: &VarDeclarator, in_for_head: bool) -> EmitResult {
   emit_pat_decl(em, &decl.pattern)?;
   if decl.definite_assignment {
     em.write_punct("!");
@@ -388,7 +406,13 @@ fn emit_var_declarator(em: &mut Emitter, decl: &VarDeclarator) -> EmitResult {
   }
   if let Some(init) = &decl.initializer {
     em.write_punct("=");
-    emit_assignment_expr(em, init, ExprCtx::Default)?;
+    if in_for_head && crate::stmt_start::contains_exposed_in(init) {
+      em.write_punct("(");
+      emit_expr(em, init, ExprCtx::Default)?;
+      em.write_punct(")");
+    } else {
+      emit_assignment_expr(em, init, ExprCtx::Default)?;
+    }
   }
   Ok(())
 }
diff --git a/emit-js/src/stmt_start.rs b/emit-js/src/stmt_start.rs
index 2c3255f..ffb911e 100644
--- a/emit-js/src/stmt_start.rs
+++ b/emit-js/src/stmt_start.rs
@@ -2,6 +2,7 @@ use std::fmt;
 
 use parse_js::ast::expr::pat::Pat;
 use parse_js::ast::expr::{Expr, UnaryExpr};
+use parse_js::ast::func::FuncBody;
 use parse_js::ast::node::Node;
 use parse_js::ast::type_expr::TypeExpr;
 use parse_js::operator::OperatorName;
@@ -378,6 +379,29 @@ pub(crate) fn for_init_expr_needs_parens(expr: &Node<Expr>) -> bool {
   })
 }
 
+/// Whether printing `expr` leaves an `in` operator outside of any brackets: in the head of
+/// a `for` statement it would be read as the `in` of a `for`-`in` loop.
+pub(crate) fn contains_exposed_in(expr: &Node<Expr>) -> bool {
+  match expr.stx.as_ref() {
+    Expr::Binary(binary) => {
+      binary.stx.operator == OperatorName::In
+        || contains_exposed_in(&binary.stx.left)
+        || contains_exposed_in(&binary.stx.right)
+    }
+    Expr::Cond(cond) => {
+      contains_exposed_in(&cond.stx.test) || contains_exposed_in(&cond.stx.alternate)
+    }
+    Expr::Unary(unary) => contains_exposed_in(&unary.stx.argument),
+    Expr::ArrowFunc(arrow) => match &arrow.stx.func.stx.body {
+      Some(FuncBody::Expression(body)) => contains_exposed_in(body),
+      _ => false,
+    },
+    Expr::TypeAssertion(assertion) => contains_exposed_in(&assertion.stx.expression),
+    Expr::SatisfiesExpr(satisfies) => contains_exposed_in(&satisfies.stx.expression),
+    _ => false,
+  }
+}
+
 pub(crate) fn for_inof_assign_needs_parens(pat: &Node<Pat>) -> bool {
   contextual_keyword_start_from_pat(pat.stx.as_ref()).map_or(false, |start| match start.kind {
     ContextualKeyword::AwaitUsing => true,
-- 
2.43.0


From 1c5f3d518e92e683a69307e85daaff10c2175139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:42 +0000
Subject: [PATCH 12/66] fix: a template literal after a new expression's callee
 belongs to the callee

---
 parse-js/src/parse/expr/mod.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/parse-js/src/parse/expr/mod.rs b/parse-js/src/parse/expr/mod.rs
index fb514cd..c7fff8c 100644
--- a/parse-js/src/parse/expr/mod.rs
+++ b/parse-js/src/parse/expr/mod.rs
@@ -1011,6 +1011,22 @@ impl<'a> Parser<'a> {
                       .into_wrapped();
                       continue;
                     }
+                    // A template belongs to the callee: `` new a`x`() `` is `` new (a`x`)() ``.
+                    TT::LiteralTemplatePartString | TT::LiteralTemplatePartStringEnd => {
+                      let template_start = p.checkpoint();
+                      let (parts, template_parts) =
+                        p.lit_template_parts_with_template_data(ctx, true)?;
+                      let mut node = Node::new(
+                        callee.loc + p.since_checkpoint(&template_start),
+                        TaggedTemplateExpr {
+                          function: callee,
+                          parts,
+                        },
+                      );
+                      node.assoc.set(template_parts);
+                      callee = node.into_wrapped();
+                      continue;
+                    }
                     _ => break,
                   }
                 }
-- 
2.43.0


From 46f853be618c7c6ec8628d54063670fbb0f9cf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 13/66] fix: collect definitions inside unary, throw, label,
 import and computed-key positions so that lowering does not drop them

---
 hir-js/src/lower.rs | 134 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 134 insertions(+)

diff --git a/hir-js/src/lower.rs b/hir-js/src/lower.rs
index dd9c3b3..13c299a 100644
--- a/hir-js/src/lower.rs
+++ b/hir-js/src/lower.rs
@@ -4205,6 +4205,15 @@ fn walk_stmt_children<'a>(
       if let Some(catch) = &tr.stx.catch {
         if let Some(param) = &catch.stx.parameter {
           let _ = collect_pat_names(&param.stx.pat, names, ctx);
+          collect_exprs_from_pat(
+            &param.stx.pat,
+            descriptors,
+            module_items,
+            names,
+            ambient,
+            in_global,
+            ctx,
+          );
         }
         for stmt in catch.stx.body.iter() {
           collect_stmt(
@@ -4233,6 +4242,30 @@ fn walk_stmt_children<'a>(
         );
       }
     }
+    AstStmt::Throw(th) => {
+      collect_expr(
+        &th.stx.value,
+        descriptors,
+        module_items,
+        names,
+        ambient,
+        in_global,
+        ctx,
+      );
+    }
+    AstStmt::Label(label) => {
+      collect_stmt(
+        &label.stx.statement,
+        descriptors,
+        module_items,
+        names,
+        false,
+        false,
+        ambient,
+        in_global,
+        ctx,
+      );
+    }
     AstStmt::With(w) => {
       collect_expr(
         &w.stx.object,
@@ -4591,6 +4624,21 @@ fn collect_expr<'a>(
       use parse_js::ast::class_or_object::ClassOrObjVal;
       use parse_js::ast::class_or_object::ObjMemberType;
       for member in obj.stx.members.iter() {
+        if let ObjMemberType::Valued {
+          key: ClassOrObjKey::Computed(key),
+          ..
+        } = &member.stx.typ
+        {
+          collect_expr(
+            key,
+            descriptors,
+            module_items,
+            names,
+            ambient,
+            in_global,
+            ctx,
+          );
+        }
         match &member.stx.typ {
           ObjMemberType::Valued { key, val } => match val {
             ClassOrObjVal::Prop(Some(expr)) => collect_expr(
@@ -4777,6 +4825,17 @@ fn collect_expr<'a>(
     }
     AstExpr::ObjPat(obj) => {
       for prop in obj.stx.properties.iter() {
+        if let ClassOrObjKey::Computed(key) = &prop.stx.key {
+          collect_expr(
+            key,
+            descriptors,
+            module_items,
+            names,
+            ambient,
+            in_global,
+            ctx,
+          );
+        }
         collect_exprs_from_pat(
           &prop.stx.target,
           descriptors,
@@ -4810,6 +4869,61 @@ fn collect_expr<'a>(
         );
       }
     }
+    AstExpr::Unary(unary) => {
+      collect_expr(
+        &unary.stx.argument,
+        descriptors,
+        module_items,
+        names,
+        ambient,
+        in_global,
+        ctx,
+      );
+    }
+    AstExpr::UnaryPostfix(unary) => {
+      collect_expr(
+        &unary.stx.argument,
+        descriptors,
+        module_items,
+        names,
+        ambient,
+        in_global,
+        ctx,
+      );
+    }
+    AstExpr::Import(import) => {
+      collect_expr(
+        &import.stx.module,
+        descriptors,
+        module_items,
+        names,
+        ambient,
+        in_global,
+        ctx,
+      );
+      if let Some(attributes) = &import.stx.attributes {
+        collect_expr(
+          attributes,
+          descriptors,
+          module_items,
+          names,
+          ambient,
+          in_global,
+          ctx,
+        );
+      }
+    }
+    AstExpr::Instantiation(inst) => {
+      collect_expr(
+        &inst.stx.expression,
+        descriptors,
+        module_items,
+        names,
+        ambient,
+        in_global,
+        ctx,
+      );
+    }
     AstExpr::TypeAssertion(assert) => {
       collect_expr(
         &assert.stx.expression,
@@ -5012,6 +5126,17 @@ fn collect_exprs_from_pat<'a>(
     }
     AstPat::Obj(obj) => {
       for prop in obj.stx.properties.iter() {
+        if let ClassOrObjKey::Computed(key) = &prop.stx.key {
+          collect_expr(
+            key,
+            descriptors,
+            module_items,
+            names,
+            ambient,
+            in_global,
+            ctx,
+          );
+        }
         collect_exprs_from_pat(
           &prop.stx.target,
           descriptors,
@@ -5104,6 +5229,15 @@ fn collect_func_params<'a>(
       in_global,
       ctx,
     );
+    collect_exprs_from_pat(
+      &param.stx.pattern.stx.pat,
+      descriptors,
+      module_items,
+      names,
+      ambient,
+      in_global,
+      ctx,
+    );
     if let Some(default) = &param.stx.default_value {
       collect_expr(
         default,
-- 
2.43.0


From b30ba27f278bc06b86627e010dbcf19d28379649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 14/66] fix: keep the parentheses that end an optional chain

---
 emit-js/src/expr_js.rs             |  7 ++++---
 emit-js/src/hir.rs                 | 21 ++++++++++++++++++++-
 emit-js/src/precedence.rs          | 21 +++++++++++++++++++++
 hir-js/src/hir.rs                  |  4 ++++
 hir-js/src/lower.rs                | 12 ++++++++++--
 typecheck-ts/src/check/hir_body.rs |  1 +
 6 files changed, 60 insertions(+), 6 deletions(-)

diff --git a/emit-js/src/expr_js.rs b/emit-js/src/expr_js.rs
index e63e6c1..4579405 100644
--- a/emit-js/src/expr_js.rs
+++ b/emit-js/src/expr_js.rs
@@ -1,9 +1,9 @@
 use crate::emitter::{EmitError, EmitErrorKind, EmitResult, Emitter};
 use crate::escape::{cooked_template_segment, emit_template_literal_segment};
 use crate::precedence::{
-  child_min_prec_for_binary, expr_prec, is_new_without_arguments, needs_parens, new_call,
-  new_callee_needs_parens, Prec, Side, ASSIGNMENT_EXPR_PRECEDENCE, LEFT_HAND_SIDE_PRECEDENCE,
-  NEW_WITHOUT_ARGUMENTS_PRECEDENCE,
+  child_min_prec_for_binary, expr_prec, is_new_without_arguments, is_parenthesized_optional_chain,
+  needs_parens, new_call, new_callee_needs_parens, Prec, Side, ASSIGNMENT_EXPR_PRECEDENCE,
+  LEFT_HAND_SIDE_PRECEDENCE, NEW_WITHOUT_ARGUMENTS_PRECEDENCE, PARENTHESIZED_CHAIN_PRECEDENCE,
 };
 use crate::stmt::{emit_class_like, emit_decorators};
 use crate::ts_type::{emit_ts_type, emit_type_expr, emit_type_parameters};
@@ -105,6 +105,7 @@ fn emit_expr_with_min_prec(
 
 fn expr_precedence(expr: &Node<Expr>) -> Result<u8, EmitError> {
   match expr.stx.as_ref() {
+    _ if is_parenthesized_optional_chain(expr) => Ok(PARENTHESIZED_CHAIN_PRECEDENCE.value()),
     Expr::Id(_) | Expr::This(_) | Expr::Super(_) | Expr::NewTarget(_) | Expr::ImportMeta(_) => {
       Ok(PRIMARY_PRECEDENCE)
     }
diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index 47dbb53..7c07d13 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -7,7 +7,7 @@ use crate::expr_js::requires_trailing_dot;
 use crate::precedence::{
   child_min_prec_for_binary, needs_parens, Prec, ARROW_FUNCTION_PRECEDENCE,
   ASSIGNMENT_EXPR_PRECEDENCE, CALL_MEMBER_PRECEDENCE, LEFT_HAND_SIDE_PRECEDENCE,
-  PRIMARY_PRECEDENCE,
+  PARENTHESIZED_CHAIN_PRECEDENCE, PRIMARY_PRECEDENCE,
 };
 use crate::{EmitError, EmitOptions, EmitResult, Emitter};
 use diagnostics::Diagnostic;
@@ -1522,6 +1522,14 @@ fn expr_prec(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) -> Result<Prec,
     ExprKind::Binary { op, .. } => Prec::new(OPERATORS[&binary_operator(*op)].precedence),
     ExprKind::Assignment { op, .. } => Prec::new(OPERATORS[&assign_operator(*op)].precedence),
     ExprKind::Conditional { .. } => Prec::new(OPERATORS[&OperatorName::Conditional].precedence),
+    ExprKind::Call(hir_js::CallExpr {
+      parenthesized: true,
+      ..
+    })
+    | ExprKind::Member(MemberExpr {
+      parenthesized: true,
+      ..
+    }) if is_optional_chain(ctx, body, expr_id) => PARENTHESIZED_CHAIN_PRECEDENCE,
     ExprKind::Call(_) | ExprKind::Member(_) | ExprKind::TaggedTemplate { .. } => {
       CALL_MEMBER_PRECEDENCE
     }
@@ -2419,6 +2427,17 @@ fn arrow_concise_body_needs_parens(ctx: &HirContext<'_>, body: &Body, expr_id: E
   )
 }
 
+fn is_optional_chain(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) -> bool {
+  match &ctx.expr(body, expr_id).kind {
+    ExprKind::Member(member) => member.optional || is_optional_chain(ctx, body, member.object),
+    ExprKind::Call(call) => {
+      !call.is_new && (call.optional || is_optional_chain(ctx, body, call.callee))
+    }
+    ExprKind::NonNull { expr } => is_optional_chain(ctx, body, *expr),
+    _ => false,
+  }
+}
+
 /// Whether an expression printed right after `new` needs parentheses: an unparenthesised
 /// call (or an optional chain) in the callee would end the `new` expression early.
 fn new_callee_needs_parens(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) -> bool {
diff --git a/emit-js/src/precedence.rs b/emit-js/src/precedence.rs
index 8e03a48..c560253 100644
--- a/emit-js/src/precedence.rs
+++ b/emit-js/src/precedence.rs
@@ -33,6 +33,9 @@ pub const CALL_MEMBER_PRECEDENCE: Prec = Prec::new(18);
 /// Precedence for `new a` without an argument list: as the object of a member access or
 /// call it needs parentheses, or it would take what follows.
 pub const NEW_WITHOUT_ARGUMENTS_PRECEDENCE: Prec = Prec::new(17);
+/// Precedence for an optional chain that was written in parentheses: they end the chain, so
+/// they have to stay around it when it is itself a receiver, callee or tag.
+pub const PARENTHESIZED_CHAIN_PRECEDENCE: Prec = Prec::new(17);
 /// Precedence for atomic expressions (identifiers, literals, etc.).
 pub const PRIMARY_PRECEDENCE: Prec = Prec::new(19);
 /// Precedence for arrow functions (lower than assignment to force parentheses when
@@ -79,6 +82,7 @@ pub fn expr_prec(expr: &Node<Expr>) -> Prec {
   match expr.stx.as_ref() {
     Expr::Binary(binary) => Prec::new(OPERATORS[&binary.stx.operator].precedence),
     Expr::Cond(_) => Prec::new(OPERATORS[&OperatorName::Conditional].precedence),
+    _ if is_parenthesized_optional_chain(expr) => PARENTHESIZED_CHAIN_PRECEDENCE,
     Expr::Unary(unary) if is_new_without_arguments(unary) => NEW_WITHOUT_ARGUMENTS_PRECEDENCE,
     Expr::Unary(unary) => Prec::new(OPERATORS[&unary.stx.operator].precedence),
     Expr::UnaryPostfix(unary) => Prec::new(OPERATORS[&unary.stx.operator].precedence),
@@ -137,6 +141,23 @@ pub fn new_callee_needs_parens(expr: &Node<Expr>) -> bool {
   }
 }
 
+/// Whether `expr` is an optional chain in parentheses (`(a?.b)`).
+pub fn is_parenthesized_optional_chain(expr: &Node<Expr>) -> bool {
+  expr.assoc.get::<ParenthesizedExpr>().is_some() && is_optional_chain(expr)
+}
+
+fn is_optional_chain(expr: &Node<Expr>) -> bool {
+  match expr.stx.as_ref() {
+    Expr::Member(member) => member.stx.optional_chaining || is_optional_chain(&member.stx.left),
+    Expr::ComputedMember(member) => {
+      member.stx.optional_chaining || is_optional_chain(&member.stx.object)
+    }
+    Expr::Call(call) => call.stx.optional_chaining || is_optional_chain(&call.stx.callee),
+    Expr::NonNullAssertion(non_null) => is_optional_chain(&non_null.stx.expression),
+    _ => false,
+  }
+}
+
 /// Whether this is `new a` without an argument list. A parenthesised call operand
 /// (`new (a())`) is the callee, not the argument list.
 pub fn is_new_without_arguments(unary: &Node<UnaryExpr>) -> bool {
diff --git a/hir-js/src/hir.rs b/hir-js/src/hir.rs
index 95b739a..cae1f5e 100644
--- a/hir-js/src/hir.rs
+++ b/hir-js/src/hir.rs
@@ -909,6 +909,8 @@ pub struct CallExpr {
   pub args: Vec<CallArg>,
   pub optional: bool,
   pub is_new: bool,
+  /// Whether the source had parentheses around the call: they end an optional chain.
+  pub parenthesized: bool,
 }
 
 #[derive(Debug, Clone, PartialEq)]
@@ -924,6 +926,8 @@ pub struct MemberExpr {
   pub object: ExprId,
   pub property: ObjectKey,
   pub optional: bool,
+  /// Whether the source had parentheses around the access: they end an optional chain.
+  pub parenthesized: bool,
 }
 
 #[derive(Debug, Clone, PartialEq)]
diff --git a/hir-js/src/lower.rs b/hir-js/src/lower.rs
index 13c299a..5a22b12 100644
--- a/hir-js/src/lower.rs
+++ b/hir-js/src/lower.rs
@@ -1866,7 +1866,10 @@ fn lower_expr(
         }
       }
     }
-    AstExpr::Call(call) => lower_call_expr(call, builder, ctx, false),
+    AstExpr::Call(call) => {
+      let parenthesized = expr.assoc.get::<ParenthesizedExpr>().is_some();
+      lower_call_expr(call, builder, ctx, false, parenthesized)
+    }
     AstExpr::Member(mem) => {
       let object = lower_expr(&mem.stx.left, builder, ctx);
       let property = ObjectKey::Ident(builder.intern_name(&mem.stx.right));
@@ -1874,6 +1877,7 @@ fn lower_expr(
         object,
         property,
         optional: mem.stx.optional_chaining,
+        parenthesized: expr.assoc.get::<ParenthesizedExpr>().is_some(),
       })
     }
     AstExpr::ComputedMember(mem) => {
@@ -1883,6 +1887,7 @@ fn lower_expr(
         object,
         property: ObjectKey::Computed(property_expr),
         optional: mem.stx.optional_chaining,
+        parenthesized: expr.assoc.get::<ParenthesizedExpr>().is_some(),
       })
     }
     AstExpr::Cond(cond) => {
@@ -1980,7 +1985,7 @@ fn lower_expr(
           .get::<ParenthesizedExpr>()
           .is_some();
         match unary.stx.argument.stx.as_ref() {
-          AstExpr::Call(call) if !parenthesized => lower_call_expr(call, builder, ctx, true),
+          AstExpr::Call(call) if !parenthesized => lower_call_expr(call, builder, ctx, true, false),
           _ => {
             let callee = lower_expr(&unary.stx.argument, builder, ctx);
             ExprKind::Call(CallExpr {
@@ -1988,6 +1993,7 @@ fn lower_expr(
               args: Vec::new(),
               optional: false,
               is_new: true,
+              parenthesized: false,
             })
           }
         }
@@ -2105,6 +2111,7 @@ fn lower_call_expr(
   builder: &mut BodyBuilder<'_>,
   ctx: &mut LoweringContext,
   is_new: bool,
+  parenthesized: bool,
 ) -> ExprKind {
   let callee = lower_expr(&call.stx.callee, builder, ctx);
   let args = call
@@ -2121,6 +2128,7 @@ fn lower_call_expr(
     args,
     optional: call.stx.optional_chaining,
     is_new,
+    parenthesized,
   })
 }
 
diff --git a/typecheck-ts/src/check/hir_body.rs b/typecheck-ts/src/check/hir_body.rs
index e7dab2e..db93390 100644
--- a/typecheck-ts/src/check/hir_body.rs
+++ b/typecheck-ts/src/check/hir_body.rs
@@ -10127,6 +10127,7 @@ impl<'a> FlowBodyChecker<'a> {
       object,
       property,
       optional,
+      ..
     }) = &self.body.exprs[expr_id.0 as usize].kind
     else {
       return None;
-- 
2.43.0


From fb36056c71dd6295872deebfb6a2c7114b1c3914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:42 +0000
Subject: [PATCH 15/66] fix: HIR emitter: parenthesise an await operand of the
 exponentiation operator

---
 emit-js/src/hir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index 7c07d13..f7dd5ac 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -2042,7 +2042,7 @@ fn emit_binary(
   let left_needs_paren = op_name == OperatorName::Exponentiation
     && matches!(
       ctx.expr(body, left).kind,
-      ExprKind::Unary { .. } | ExprKind::Update { .. }
+      ExprKind::Unary { .. } | ExprKind::Update { .. } | ExprKind::Await { .. }
     );
   if left_needs_paren {
     em.write_punct("(");
-- 
2.43.0


From 3f8f8489a8a8a958608cd537680f9994f7da3005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 16/66] fix: a property with a value in a destructuring
 assignment is not a shorthand

---
 parse-js/src/parse/expr/util.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parse-js/src/parse/expr/util.rs b/parse-js/src/parse/expr/util.rs
index bc81fb3..7232c8f 100644
--- a/parse-js/src/parse/expr/util.rs
+++ b/parse-js/src/parse/expr/util.rs
@@ -141,6 +141,12 @@ pub(crate) fn lit_to_pat_with_recover(node: Node<Expr>, recover: bool) -> Syntax
         match *member.stx {
           ObjMember { typ } => match typ {
             ObjMemberType::Valued { key, val: value } => {
+              // `{a = 1}` was recorded as a value that starts with the key itself.
+              let shorthand = matches!(
+                (&key, &value),
+                (ClassOrObjKey::Direct(key), ClassOrObjVal::Prop(Some(value)))
+                  if key.loc.0 == value.loc.0
+              );
               let (target, default_value) = match value {
                 ClassOrObjVal::Prop(Some(initializer)) => match *initializer.stx {
                   Expr::Binary(n) => {
@@ -164,7 +170,7 @@ pub(crate) fn lit_to_pat_with_recover(node: Node<Expr>, recover: bool) -> Syntax
                   key,
                   target,
                   default_value,
-                  shorthand: true,
+                  shorthand,
                 },
               ));
             }
-- 
2.43.0


From 488201be59f949c8e3cfde2ab2821f138f46594a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 17/66] fix: HIR emitter: object patterns in assignments are
 not parenthesised

---
 emit-js/src/hir.rs | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index f7dd5ac..460182f 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -983,7 +983,7 @@ fn emit_param_list(
     if param.rest {
       em.write_punct("...");
     }
-    emit_pat(em, ctx, body, param.pat, false)?;
+    emit_pat(em, ctx, body, param.pat)?;
     if let Some(default) = param.default {
       em.write_punct("=");
       emit_expr_with_min_prec(em, ctx, body, default, assignment_expr_min_prec)?;
@@ -1223,7 +1223,7 @@ fn emit_stmt(em: &mut Emitter, ctx: &HirContext<'_>, body: &Body, stmt_id: StmtI
           if needs_parens {
             em.write_punct("(");
           }
-          emit_pat(em, ctx, body, *pat, true)?;
+          emit_pat(em, ctx, body, *pat)?;
           if needs_parens {
             em.write_punct(")");
           }
@@ -1277,7 +1277,7 @@ fn emit_stmt(em: &mut Emitter, ctx: &HirContext<'_>, body: &Body, stmt_id: StmtI
         em.write_keyword("catch");
         if let Some(param) = catch.param {
           em.write_punct("(");
-          emit_pat(em, ctx, body, param, false)?;
+          emit_pat(em, ctx, body, param)?;
           em.write_punct(")");
         }
         emit_stmt(em, ctx, body, catch.body)?;
@@ -1380,7 +1380,7 @@ fn emit_var_decl(
     if idx > 0 {
       em.write_punct(",");
     }
-    emit_pat(em, ctx, body, declarator.pat, false)?;
+    emit_pat(em, ctx, body, declarator.pat)?;
     if let Some(init) = declarator.init {
       em.write_punct("=");
       // Only declarations in `for` heads go without a semicolon.
@@ -1403,14 +1403,13 @@ fn emit_pat(
   ctx: &HirContext<'_>,
   body: &Body,
   pat_id: PatId,
-  in_assignment: bool,
 ) -> EmitResult {
   let pat = ctx.pat(body, pat_id);
   match &pat.kind {
     PatKind::Ident(name) => em.write_identifier(ctx.name(*name)),
     PatKind::Rest(inner) => {
       em.write_punct("...");
-      emit_pat(em, ctx, body, **inner, in_assignment)?;
+      emit_pat(em, ctx, body, **inner)?;
     }
     PatKind::Array(array) => {
       // Default values are followed by `,` or `]` and must therefore treat the
@@ -1423,7 +1422,7 @@ fn emit_pat(
           em.write_punct(",");
         }
         if let Some(element) = element {
-          emit_pat(em, ctx, body, element.pat, in_assignment)?;
+          emit_pat(em, ctx, body, element.pat)?;
           if let Some(default) = element.default_value {
             em.write_punct("=");
             emit_expr_with_min_prec(em, ctx, body, default, assignment_expr_min_prec)?;
@@ -1435,7 +1434,7 @@ fn emit_pat(
           em.write_punct(",");
         }
         em.write_punct("...");
-        emit_pat(em, ctx, body, rest, in_assignment)?;
+        emit_pat(em, ctx, body, rest)?;
       }
       em.write_punct("]");
     }
@@ -1444,9 +1443,6 @@ fn emit_pat(
       // comma operator as needing parentheses.
       let assignment_expr_min_prec =
         Prec::new(OPERATORS[&OperatorName::Comma].precedence).tighter();
-      if in_assignment {
-        em.write_punct("(");
-      }
       em.write_punct("{");
       for (idx, prop) in obj.props.iter().enumerate() {
         if idx > 0 {
@@ -1455,7 +1451,7 @@ fn emit_pat(
         emit_object_key(em, ctx, body, &prop.key)?;
         if !prop.shorthand {
           em.write_punct(":");
-          emit_pat(em, ctx, body, prop.value, in_assignment)?;
+          emit_pat(em, ctx, body, prop.value)?;
         }
         if let Some(default) = prop.default_value {
           em.write_punct("=");
@@ -1467,12 +1463,9 @@ fn emit_pat(
           em.write_punct(",");
         }
         em.write_punct("...");
-        emit_pat(em, ctx, body, rest, in_assignment)?;
+        emit_pat(em, ctx, body, rest)?;
       }
       em.write_punct("}");
-      if in_assignment {
-        em.write_punct(")");
-      }
     }
     PatKind::Assign {
       target,
@@ -1480,7 +1473,7 @@ fn emit_pat(
     } => {
       let assignment_expr_min_prec =
         Prec::new(OPERATORS[&OperatorName::Comma].precedence).tighter();
-      emit_pat(em, ctx, body, *target, in_assignment)?;
+      emit_pat(em, ctx, body, *target)?;
       em.write_punct("=");
       emit_expr_with_min_prec(em, ctx, body, *default_value, assignment_expr_min_prec)?;
     }
@@ -1591,7 +1584,7 @@ fn emit_expr_no_parens(
     ExprKind::Update { op, expr, prefix } => emit_update(em, ctx, body, *op, *expr, *prefix)?,
     ExprKind::Binary { op, left, right } => emit_binary(em, ctx, body, *op, *left, *right)?,
     ExprKind::Assignment { op, target, value } => {
-      emit_pat(em, ctx, body, *target, true)?;
+      emit_pat(em, ctx, body, *target)?;
       emit_assign_operator(em, *op);
       emit_expr_with_min_prec(
         em,
-- 
2.43.0


From 2c14f608432b501220a634d9794caa361d3137ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:08 +0000
Subject: [PATCH 18/66] fix: keep unpaired surrogates in literals, the raw text
 of tagged templates and backquotes at the ends of templates

---
 emit-js/src/emitter.rs   | 18 +++++++++++-
 emit-js/src/escape.rs    | 61 +++++++++++++++++++++++++++++++++++++---
 emit-js/src/expr.rs      | 32 ++++++++++++++-------
 emit-js/src/expr_js.rs   | 52 +++++++++++++++++++++++-----------
 emit-js/src/hir.rs       | 22 ++++++++++-----
 emit-js/src/lib.rs       |  1 +
 emit-js/src/stmt.rs      |  7 +++--
 hir-js/src/hir.rs        |  4 +++
 hir-js/src/lower.rs      | 56 ++++++++++++++++++++++++++++++++----
 parse-js/src/ast/node.rs | 18 ++++++++++++
 10 files changed, 224 insertions(+), 47 deletions(-)

diff --git a/emit-js/src/emitter.rs b/emit-js/src/emitter.rs
index 4afe538..69435e2 100644
--- a/emit-js/src/emitter.rs
+++ b/emit-js/src/emitter.rs
@@ -10,7 +10,8 @@
 //! [`Emitter::write_str`] for a single lexical token or whitespace-only
 //! fragments (e.g. indentation, newlines).
 
-use crate::escape::emit_string_literal;
+use crate::escape::{emit_string_literal, emit_string_literal_code_units};
+use parse_js::ast::node::has_unpaired_surrogate;
 use parse_js::loc::Loc;
 use std::fmt;
 
@@ -338,6 +339,21 @@ impl Emitter {
     self.write_str(rendered);
   }
 
+  /// Emits a string literal from its text and, where known, its UTF-16 code
+  /// units. The text stands in U+FFFD for unpaired surrogates, so it is the code
+  /// units that are written when there are any.
+  pub fn write_string_literal_with_code_units(&mut self, value: &str, units: Option<&[u16]>) {
+    let Some(units) = units.filter(|units| {
+      has_unpaired_surrogate(units) && String::from_utf16_lossy(units) == value
+    }) else {
+      return self.write_string_literal(value);
+    };
+    let mut buf = Vec::new();
+    emit_string_literal_code_units(&mut buf, units, self.opts.quote_style, self.opts.minify);
+    let rendered = std::str::from_utf8(&buf).expect("string literal escape output is UTF-8");
+    self.write_str(rendered);
+  }
+
   /// Emits a numeric literal.
   pub fn write_number(&mut self, number: &str) {
     self.write_with_kind(number, TokenKind::Number);
diff --git a/emit-js/src/escape.rs b/emit-js/src/escape.rs
index b3a7044..5b35942 100644
--- a/emit-js/src/escape.rs
+++ b/emit-js/src/escape.rs
@@ -1,4 +1,5 @@
 use crate::emitter::QuoteStyle;
+use parse_js::ast::node::TemplateStringParts;
 
 /// Emit a JavaScript/TypeScript string literal using the provided quoting
 /// strategy, escaping characters that would otherwise terminate or change the
@@ -6,9 +7,36 @@ use crate::emitter::QuoteStyle;
 /// for the Unicode line separators U+2028/U+2029, which must always be
 /// escaped.
 pub fn emit_string_literal(out: &mut Vec<u8>, value: &str, quote_style: QuoteStyle, minify: bool) {
+  emit_escaped_string(out, &|| value.chars().map(Ok), quote_style, minify)
+}
+
+/// Emit a string literal whose value is given as UTF-16 code units. Unpaired
+/// surrogates, which UTF-8 text cannot hold, are written as `\uXXXX` escapes.
+pub fn emit_string_literal_code_units(
+  out: &mut Vec<u8>,
+  units: &[u16],
+  quote_style: QuoteStyle,
+  minify: bool,
+) {
+  emit_escaped_string(
+    out,
+    &|| {
+      char::decode_utf16(units.iter().copied()).map(|ch| ch.map_err(|err| err.unpaired_surrogate()))
+    },
+    quote_style,
+    minify,
+  )
+}
+
+fn emit_escaped_string<I: Iterator<Item = Result<char, u16>>>(
+  out: &mut Vec<u8>,
+  value: &dyn Fn() -> I,
+  quote_style: QuoteStyle,
+  minify: bool,
+) {
   let emit_with_quote = |quote: u8| {
     let mut escaped = Vec::new();
-    escape_string_into(&mut escaped, value, quote);
+    escape_string_into(&mut escaped, value(), quote);
     (quote, escaped)
   };
 
@@ -59,11 +87,22 @@ pub fn emit_string_literal_double_quoted(out: &mut Vec<u8>, value: &str) {
   emit_string_literal(out, value, QuoteStyle::Double, false);
 }
 
-fn escape_string_into(out: &mut Vec<u8>, value: &str, quote: u8) {
+fn escape_string_into(
+  out: &mut Vec<u8>,
+  value: impl Iterator<Item = Result<char, u16>>,
+  quote: u8,
+) {
   out.clear();
 
-  let mut chars = value.chars().peekable();
+  let mut chars = value.peekable();
   while let Some(ch) = chars.next() {
+    let ch = match ch {
+      Ok(ch) => ch,
+      Err(unit) => {
+        out.extend_from_slice(format!("\\u{unit:04X}").as_bytes());
+        continue;
+      }
+    };
     match ch {
       '\\' => out.extend_from_slice(b"\\\\"),
       '"' if quote == b'"' => out.extend_from_slice(b"\\\""),
@@ -72,7 +111,7 @@ fn escape_string_into(out: &mut Vec<u8>, value: &str, quote: u8) {
       '\r' => out.extend_from_slice(b"\\r"),
       '\t' => out.extend_from_slice(b"\\t"),
       '\0' => {
-        let next_is_digit = chars.peek().map(|c| c.is_ascii_digit()).unwrap_or(false);
+        let next_is_digit = matches!(chars.peek(), Some(Ok(c)) if c.is_ascii_digit());
         if next_is_digit {
           out.extend_from_slice(b"\\x00");
         } else {
@@ -119,6 +158,20 @@ pub fn emit_template_literal_segment(out: &mut Vec<u8>, cooked: &str) {
   }
 }
 
+/// Emit a template segment of the AST, from its source text where that matters.
+pub(crate) fn emit_template_segment(
+  out: &mut Vec<u8>,
+  cooked: &str,
+  parts: Option<&TemplateStringParts>,
+  index: usize,
+  tagged: bool,
+) {
+  match parts.and_then(|parts| parts.kept_source(index, cooked, tagged)) {
+    Some(source) => out.extend_from_slice(source.as_bytes()),
+    None => emit_template_literal_segment(out, cooked),
+  }
+}
+
 /// Remove leading/trailing template delimiters from a raw template part as
 /// stored by the parser, yielding the cooked segment value.
 pub fn cooked_template_segment<'a>(raw: &'a str, is_first: bool, is_last: bool) -> &'a str {
diff --git a/emit-js/src/expr.rs b/emit-js/src/expr.rs
index f2db126..c862954 100644
--- a/emit-js/src/expr.rs
+++ b/emit-js/src/expr.rs
@@ -12,7 +12,7 @@ use parse_js::ast::expr::{
   UnaryPostfixExpr,
 };
 use parse_js::ast::func::{Func, FuncBody};
-use parse_js::ast::node::Node;
+use parse_js::ast::node::{template_string_parts, Node, TemplateStringParts};
 use parse_js::ast::type_expr::TypeExpr;
 use parse_js::operator::{OperatorName, OPERATORS};
 
@@ -95,7 +95,11 @@ where
       Expr::LitBigInt(lit) => self.emit_lit_big_int(lit),
       Expr::LitStr(lit) => self.emit_lit_str(lit),
       Expr::LitRegex(lit) => self.emit_lit_regex(lit),
-      Expr::LitTemplate(lit) => self.emit_template_literal(&lit.stx.parts),
+      Expr::LitTemplate(lit) => self.emit_template_literal(
+        &lit.stx.parts,
+        template_string_parts(&lit.assoc),
+        false,
+      ),
       Expr::LitArr(arr) => self.emit_lit_arr(arr),
       Expr::LitObj(obj) => self.emit_lit_obj(obj),
       Expr::JsxElem(elem) => self.emit_jsx_elem(elem),
@@ -741,7 +745,11 @@ where
   fn emit_tagged_template(&mut self, tagged: &Node<TaggedTemplateExpr>) -> EmitResult {
     with_node_context(tagged.loc, || {
       self.emit_memberish_receiver(&tagged.stx.function)?;
-      self.emit_template_literal(&tagged.stx.parts)
+      self.emit_template_literal(
+        &tagged.stx.parts,
+        template_string_parts(&tagged.assoc),
+        true,
+      )
     })
   }
 
@@ -761,18 +769,22 @@ where
     })
   }
 
-  fn emit_template_literal(&mut self, parts: &[LitTemplatePart]) -> EmitResult {
+  fn emit_template_literal(
+    &mut self,
+    parts: &[LitTemplatePart],
+    source: Option<&TemplateStringParts>,
+    tagged: bool,
+  ) -> EmitResult {
     let mut raw = String::new();
     raw.push('`');
-    for (idx, part) in parts.iter().enumerate() {
+    let mut segment = 0;
+    for part in parts {
       match part {
-        LitTemplatePart::String(raw_part) => {
-          let is_first = idx == 0;
-          let is_last = idx == parts.len().saturating_sub(1);
-          let cooked = crate::cooked_template_segment(raw_part, is_first, is_last);
+        LitTemplatePart::String(cooked) => {
           let mut buf = Vec::new();
-          crate::emit_template_literal_segment(&mut buf, cooked);
+          crate::escape::emit_template_segment(&mut buf, cooked, source, segment, tagged);
           raw.push_str(std::str::from_utf8(&buf).expect("template literal escape output is UTF-8"));
+          segment += 1;
         }
         LitTemplatePart::Substitution(expr) => {
           raw.push_str("${");
diff --git a/emit-js/src/expr_js.rs b/emit-js/src/expr_js.rs
index 4579405..a2b0541 100644
--- a/emit-js/src/expr_js.rs
+++ b/emit-js/src/expr_js.rs
@@ -1,5 +1,5 @@
 use crate::emitter::{EmitError, EmitErrorKind, EmitResult, Emitter};
-use crate::escape::{cooked_template_segment, emit_template_literal_segment};
+use crate::escape::emit_template_segment;
 use crate::precedence::{
   child_min_prec_for_binary, expr_prec, is_new_without_arguments, is_parenthesized_optional_chain,
   needs_parens, new_call, new_callee_needs_parens, Prec, Side, ASSIGNMENT_EXPR_PRECEDENCE,
@@ -14,7 +14,9 @@ use parse_js::ast::expr::lit::{
 use parse_js::ast::expr::pat::{ArrPat, IdPat, ObjPat, ObjPatProp, Pat};
 use parse_js::ast::expr::*;
 use parse_js::ast::func::{Func, FuncBody};
-use parse_js::ast::node::Node;
+use parse_js::ast::node::{
+  literal_string_code_units, template_string_parts, Node, TemplateStringParts,
+};
 use parse_js::ast::stmt::decl::{Accessibility, ParamDecl, PatDecl};
 use parse_js::ast::type_expr::{TypeExpr, TypeParameter};
 use parse_js::operator::{OperatorName, OPERATORS};
@@ -172,7 +174,10 @@ fn emit_expr_no_parens(em: &mut Emitter, expr: &Node<Expr>, ctx: ExprCtx) -> Emi
     Expr::LitBool(lit) => em.write_keyword(if lit.stx.value { "true" } else { "false" }),
     Expr::LitNull(_) => em.write_keyword("null"),
     Expr::LitBigInt(lit) => em.write_bigint_literal(&lit.stx.value),
-    Expr::LitStr(lit) => emit_string_literal(em, &lit.stx.value),
+    Expr::LitStr(lit) => em.write_string_literal_with_code_units(
+      &lit.stx.value,
+      literal_string_code_units(&lit.assoc),
+    ),
     Expr::LitRegex(lit) => {
       let mut buf = Vec::new();
       crate::escape::emit_regex_literal(&mut buf, &lit.stx.value);
@@ -618,7 +623,10 @@ fn emit_class_or_object_key(em: &mut Emitter, key: &ClassOrObjKey) -> EmitResult
   match key {
     ClassOrObjKey::Direct(name) => {
       match name.stx.tt {
-        TT::LiteralString => emit_string_literal(em, &name.stx.key),
+        TT::LiteralString => em.write_string_literal_with_code_units(
+          &name.stx.key,
+          literal_string_code_units(&name.assoc),
+        ),
         TT::LiteralBigInt => em.write_bigint_literal(&name.stx.key),
         TT::LiteralNumber | TT::LiteralNumberBin | TT::LiteralNumberHex | TT::LiteralNumberOct => {
           em.write_number(&name.stx.key)
@@ -939,24 +947,38 @@ fn emit_tagged_template(
   ctx: ExprCtx,
 ) -> EmitResult {
   emit_expr_with_min_prec(em, &tagged.stx.function, CALL_MEMBER_PRECEDENCE, ctx)?;
-  emit_template_parts(em, &tagged.stx.parts)
+  emit_template_parts(
+    em,
+    &tagged.stx.parts,
+    template_string_parts(&tagged.assoc),
+    true,
+  )
 }
 
 fn emit_template_literal(em: &mut Emitter, template: &Node<LitTemplateExpr>) -> EmitResult {
-  emit_template_parts(em, &template.stx.parts)
+  emit_template_parts(
+    em,
+    &template.stx.parts,
+    template_string_parts(&template.assoc),
+    false,
+  )
 }
 
-fn emit_template_parts(em: &mut Emitter, parts: &[LitTemplatePart]) -> EmitResult {
+fn emit_template_parts(
+  em: &mut Emitter,
+  parts: &[LitTemplatePart],
+  source: Option<&TemplateStringParts>,
+  tagged: bool,
+) -> EmitResult {
   em.write_raw_byte(b'`');
-  for (idx, part) in parts.iter().enumerate() {
+  let mut segment = 0;
+  for part in parts {
     match part {
-      LitTemplatePart::String(raw) => {
-        let is_first = idx == 0;
-        let is_last = idx + 1 == parts.len();
-        let cooked = cooked_template_segment(raw, is_first, is_last);
+      LitTemplatePart::String(cooked) => {
         let mut buf = Vec::new();
-        emit_template_literal_segment(&mut buf, cooked);
+        emit_template_segment(&mut buf, cooked, source, segment, tagged);
         em.write_raw_str(std::str::from_utf8(&buf).expect("template literal segment is UTF-8"));
+        segment += 1;
       }
       LitTemplatePart::Substitution(expr) => {
         em.write_raw_str("${");
@@ -977,10 +999,6 @@ fn emit_expr_via_fmt(em: &mut Emitter, expr: &Node<Expr>) -> EmitResult {
   Ok(())
 }
 
-fn emit_string_literal(em: &mut Emitter, value: &str) {
-  em.write_string_literal(value);
-}
-
 fn binary_operator_text(op: OperatorName) -> Result<&'static str, EmitError> {
   match op {
     OperatorName::Addition => Ok("+"),
diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index 460182f..52edf81 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -1931,25 +1931,33 @@ fn emit_template_literal(
   template: &TemplateLiteral,
 ) -> EmitResult {
   em.write_punct("`");
-  let mut buf = Vec::new();
-  emit_template_literal_segment(&mut buf, &template.head);
-  em.write_str(std::str::from_utf8(&buf).expect("template literal head is UTF-8"));
+  emit_template_segment(em, &template.head, &template.head_source);
   for span in template.spans.iter() {
     em.write_punct("${");
     emit_expr_with_min_prec(em, ctx, body, span.expr, Prec::LOWEST)?;
     em.write_punct("}");
-    buf.clear();
-    emit_template_literal_segment(&mut buf, &span.literal);
-    em.write_str(std::str::from_utf8(&buf).expect("template literal span is UTF-8"));
+    emit_template_segment(em, &span.literal, &span.literal_source);
   }
   em.write_punct("`");
   Ok(())
 }
 
+fn emit_template_segment(em: &mut Emitter, cooked: &str, source: &Option<String>) {
+  if let Some(source) = source {
+    em.write_str(source);
+    return;
+  }
+  let mut buf = Vec::new();
+  emit_template_literal_segment(&mut buf, cooked);
+  em.write_str(std::str::from_utf8(&buf).expect("template literal segment is UTF-8"));
+}
+
 fn emit_literal(em: &mut Emitter, lit: &Literal) -> EmitResult {
   match lit {
     Literal::Number(num) => em.write_number(num),
-    Literal::String(str) => emit_string(em, &str.lossy),
+    Literal::String(str) => {
+      em.write_string_literal_with_code_units(&str.lossy, str.code_units.as_deref())
+    }
     Literal::Boolean(true) => em.write_keyword("true"),
     Literal::Boolean(false) => em.write_keyword("false"),
     Literal::Null => em.write_keyword("null"),
diff --git a/emit-js/src/lib.rs b/emit-js/src/lib.rs
index 71ed049..7f3f0f8 100644
--- a/emit-js/src/lib.rs
+++ b/emit-js/src/lib.rs
@@ -55,6 +55,7 @@ pub use emitter::{
 };
 pub use escape::cooked_template_segment;
 pub use escape::emit_string_literal;
+pub use escape::emit_string_literal_code_units;
 pub use escape::emit_string_literal_double_quoted;
 pub use escape::emit_template_literal_segment;
 pub use escape::emit_template_raw_segment;
diff --git a/emit-js/src/stmt.rs b/emit-js/src/stmt.rs
index ea423eb..81d3f38 100644
--- a/emit-js/src/stmt.rs
+++ b/emit-js/src/stmt.rs
@@ -14,7 +14,7 @@ use parse_js::ast::func::{Func, FuncBody};
 use parse_js::ast::import_export::{
   ExportName, ExportNames, ImportName, ImportNames, ModuleExportImportName,
 };
-use parse_js::ast::node::Node;
+use parse_js::ast::node::{literal_string_code_units, Node};
 use parse_js::ast::stmt::decl::{
   Accessibility, ClassDecl, FuncDecl, ParamDecl, PatDecl, VarDecl, VarDeclMode, VarDeclarator,
 };
@@ -964,7 +964,10 @@ fn emit_class_or_object_key(em: &mut Emitter, key: &ClassOrObjKey) -> EmitResult
   match key {
     ClassOrObjKey::Direct(name) => {
       match name.stx.tt {
-        TT::LiteralString => emit_string_literal(em, &name.stx.key),
+        TT::LiteralString => em.write_string_literal_with_code_units(
+          &name.stx.key,
+          literal_string_code_units(&name.assoc),
+        ),
         TT::LiteralNumber | TT::LiteralNumberBin | TT::LiteralNumberHex | TT::LiteralNumberOct => {
           em.write_number(&name.stx.key)
         }
diff --git a/hir-js/src/hir.rs b/hir-js/src/hir.rs
index cae1f5e..1922e36 100644
--- a/hir-js/src/hir.rs
+++ b/hir-js/src/hir.rs
@@ -969,6 +969,8 @@ pub enum ObjectProperty {
 #[derive(Debug, Clone, PartialEq)]
 pub struct TemplateLiteral {
   pub head: String,
+  /// Source text of the head where it matters (see `TemplateStringParts::kept_source`).
+  pub head_source: Option<String>,
   pub spans: Vec<TemplateLiteralSpan>,
 }
 
@@ -976,6 +978,8 @@ pub struct TemplateLiteral {
 pub struct TemplateLiteralSpan {
   pub expr: ExprId,
   pub literal: String,
+  /// Source text of the literal where it matters (see `TemplateStringParts::kept_source`).
+  pub literal_source: Option<String>,
 }
 
 #[derive(Debug, Clone, PartialEq)]
diff --git a/hir-js/src/lower.rs b/hir-js/src/lower.rs
index 5a22b12..6c56b53 100644
--- a/hir-js/src/lower.rs
+++ b/hir-js/src/lower.rs
@@ -1489,7 +1489,10 @@ fn lower_class_member_key(
   match key {
     parse_js::ast::class_or_object::ClassOrObjKey::Direct(direct) => match direct.stx.tt {
       TT::LiteralString | TT::LiteralTemplatePartString | TT::LiteralTemplatePartStringEnd => {
-        ClassMemberKey::String(direct.stx.key.clone())
+        match lower_unpaired_surrogate_key(direct, builder, ctx) {
+          Some(expr_id) => ClassMemberKey::Computed(expr_id),
+          None => ClassMemberKey::String(direct.stx.key.clone()),
+        }
       }
       TT::LiteralNumber | TT::LiteralNumberBin | TT::LiteralNumberHex | TT::LiteralNumberOct => {
         ClassMemberKey::Number(direct.stx.key.clone())
@@ -2021,7 +2024,7 @@ fn lower_expr(
     }
     AstExpr::TaggedTemplate(tag) => {
       let function = lower_expr(&tag.stx.function, builder, ctx);
-      let tmpl = lower_template_literal(&tag.stx.parts, builder, ctx);
+      let tmpl = lower_template_literal(&tag.stx.parts, &tag.assoc, true, builder, ctx);
       ExprKind::TaggedTemplate {
         tag: function,
         template: tmpl,
@@ -2044,7 +2047,13 @@ fn lower_expr(
     }
     AstExpr::LitObj(obj) => ExprKind::Object(lower_object_literal(obj, builder, ctx)),
     AstExpr::LitTemplate(tmpl) => {
-      ExprKind::Template(lower_template_literal(&tmpl.stx.parts, builder, ctx))
+      ExprKind::Template(lower_template_literal(
+        &tmpl.stx.parts,
+        &tmpl.assoc,
+        false,
+        builder,
+        ctx,
+      ))
     }
     AstExpr::TypeAssertion(assert) => {
       let expr = lower_expr(&assert.stx.expression, builder, ctx);
@@ -2298,6 +2307,8 @@ fn lower_object_key(
       TT::LiteralString => {
         if is_valid_identifier_name(&direct.stx.key) {
           ObjectKey::Ident(builder.intern_name(&direct.stx.key))
+        } else if let Some(expr_id) = lower_unpaired_surrogate_key(direct, builder, ctx) {
+          ObjectKey::Computed(expr_id)
         } else {
           ObjectKey::String(direct.stx.key.clone())
         }
@@ -2426,12 +2437,35 @@ fn lower_object_literal(
   ObjectLiteral { properties }
 }
 
+/// HIR keeps string keys as UTF-8 text; one with an unpaired surrogate becomes a
+/// computed key, whose literal has the code units.
+fn lower_unpaired_surrogate_key(
+  key: &Node<parse_js::ast::class_or_object::ClassOrObjMemberDirectKey>,
+  builder: &mut BodyBuilder<'_>,
+  ctx: &mut LoweringContext,
+) -> Option<ExprId> {
+  let units = parse_js::ast::node::literal_string_code_units(&key.assoc)
+    .filter(|units| parse_js::ast::node::has_unpaired_surrogate(units))?;
+  Some(builder.alloc_expr(
+    ctx.to_range(key.loc),
+    ExprKind::Literal(Literal::String(StringLiteral {
+      lossy: key.stx.key.clone(),
+      code_units: Some(units.into()),
+    })),
+  ))
+}
+
 fn lower_template_literal(
   parts: &[parse_js::ast::expr::lit::LitTemplatePart],
+  assoc: &parse_js::ast::node::NodeAssocData,
+  tagged: bool,
   builder: &mut BodyBuilder<'_>,
   ctx: &mut LoweringContext,
 ) -> TemplateLiteral {
+  let source = parse_js::ast::node::template_string_parts(assoc);
+  let source = |index: usize, cooked: &str| source?.kept_source(index, cooked, tagged);
   let mut head = String::new();
+  let mut head_source = None;
   let mut spans: Vec<TemplateLiteralSpan> = Vec::new();
   let mut saw_head = false;
   for part in parts.iter() {
@@ -2439,9 +2473,14 @@ fn lower_template_literal(
       parse_js::ast::expr::lit::LitTemplatePart::String(text) => {
         if !saw_head {
           head = text.clone();
+          head_source = source(0, text);
           saw_head = true;
-        } else if let Some(last) = spans.last_mut() {
-          last.literal = text.clone();
+        } else {
+          let index = spans.len();
+          if let Some(last) = spans.last_mut() {
+            last.literal = text.clone();
+            last.literal_source = source(index, text);
+          }
         }
       }
       parse_js::ast::expr::lit::LitTemplatePart::Substitution(expr) => {
@@ -2449,11 +2488,16 @@ fn lower_template_literal(
         spans.push(TemplateLiteralSpan {
           expr: expr_id,
           literal: String::new(),
+          literal_source: None,
         });
       }
     }
   }
-  TemplateLiteral { head, spans }
+  TemplateLiteral {
+    head,
+    head_source,
+    spans,
+  }
 }
 
 fn lower_jsx_elem(
diff --git a/parse-js/src/ast/node.rs b/parse-js/src/ast/node.rs
index 4c86d97..3b11be9 100644
--- a/parse-js/src/ast/node.rs
+++ b/parse-js/src/ast/node.rs
@@ -91,6 +91,24 @@ pub struct TemplateStringParts {
   pub cooked: Box<[Option<Box<[u16]>>]>,
 }
 
+impl TemplateStringParts {
+  /// The source text of a segment if a printer has to keep it: a tag function
+  /// can observe it, and an unpaired surrogate can only be written as an escape.
+  ///
+  /// `cooked` is the segment's text in the AST, which a pass may have replaced.
+  pub fn kept_source(&self, index: usize, cooked: &str, tagged: bool) -> Option<String> {
+    let raw = self.raw.get(index)?;
+    let units = self.cooked.get(index)?.as_deref().unwrap_or_default();
+    let keep = tagged || has_unpaired_surrogate(units);
+    (keep && String::from_utf16_lossy(units) == cooked).then(|| String::from_utf16_lossy(raw))
+  }
+}
+
+/// Whether the code units contain a surrogate that is not part of a pair.
+pub fn has_unpaired_surrogate(units: &[u16]) -> bool {
+  char::decode_utf16(units.iter().copied()).any(|unit| unit.is_err())
+}
+
 /// Returns the template literal raw/cooked strings for a template expression, if
 /// present.
 pub fn template_string_parts(assoc: &NodeAssocData) -> Option<&TemplateStringParts> {
-- 
2.43.0


From 545378bbfea76c3c0f1b8c5b9464791f100e9027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 19/66] fix: parentheses inside a member chain end the optional
 chain they contain

---
 emit-js/src/hir.rs        | 14 +++++++++-----
 emit-js/src/precedence.rs | 14 ++++++++------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index 52edf81..b796f63 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -2429,12 +2429,16 @@ fn arrow_concise_body_needs_parens(ctx: &HirContext<'_>, body: &Body, expr_id: E
 }
 
 fn is_optional_chain(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) -> bool {
+  // Parentheses end the chain they contain.
+  let continues = |receiver: ExprId| match &ctx.expr(body, receiver).kind {
+    ExprKind::Member(member) if member.parenthesized => false,
+    ExprKind::Call(call) if call.parenthesized => false,
+    _ => is_optional_chain(ctx, body, receiver),
+  };
   match &ctx.expr(body, expr_id).kind {
-    ExprKind::Member(member) => member.optional || is_optional_chain(ctx, body, member.object),
-    ExprKind::Call(call) => {
-      !call.is_new && (call.optional || is_optional_chain(ctx, body, call.callee))
-    }
-    ExprKind::NonNull { expr } => is_optional_chain(ctx, body, *expr),
+    ExprKind::Member(member) => member.optional || continues(member.object),
+    ExprKind::Call(call) => !call.is_new && (call.optional || continues(call.callee)),
+    ExprKind::NonNull { expr } => continues(*expr),
     _ => false,
   }
 }
diff --git a/emit-js/src/precedence.rs b/emit-js/src/precedence.rs
index c560253..2200c70 100644
--- a/emit-js/src/precedence.rs
+++ b/emit-js/src/precedence.rs
@@ -147,13 +147,15 @@ pub fn is_parenthesized_optional_chain(expr: &Node<Expr>) -> bool {
 }
 
 fn is_optional_chain(expr: &Node<Expr>) -> bool {
+  // Parentheses end the chain they contain.
+  let continues = |receiver: &Node<Expr>| {
+    receiver.assoc.get::<ParenthesizedExpr>().is_none() && is_optional_chain(receiver)
+  };
   match expr.stx.as_ref() {
-    Expr::Member(member) => member.stx.optional_chaining || is_optional_chain(&member.stx.left),
-    Expr::ComputedMember(member) => {
-      member.stx.optional_chaining || is_optional_chain(&member.stx.object)
-    }
-    Expr::Call(call) => call.stx.optional_chaining || is_optional_chain(&call.stx.callee),
-    Expr::NonNullAssertion(non_null) => is_optional_chain(&non_null.stx.expression),
+    Expr::Member(member) => member.stx.optional_chaining || continues(&member.stx.left),
+    Expr::ComputedMember(member) => member.stx.optional_chaining || continues(&member.stx.object),
+    Expr::Call(call) => call.stx.optional_chaining || continues(&call.stx.callee),
+    Expr::NonNullAssertion(non_null) => continues(&non_null.stx.expression),
     _ => false,
   }
 }
-- 
2.43.0


From dc529ef0229f9f877da924098a4ccfa883f8cf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:54 +0000
Subject: [PATCH 20/66] fix: HIR emitter: anonymous default exports have no
 name

---
 emit-js/src/hir.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index b796f63..2b2cbf0 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -533,7 +533,7 @@ fn emit_function_decl(em: &mut Emitter, ctx: &HirContext<'_>, def: &DefData) ->
     .function
     .as_ref()
     .ok_or_else(|| EmitError::unsupported("function metadata missing"))?;
-  emit_function_like(em, ctx, Some(ctx.name(def.name)), func, body)
+  emit_function_like(em, ctx, decl_name(ctx, def), func, body)
 }
 
 fn emit_class_decl(em: &mut Emitter, ctx: &HirContext<'_>, def: &DefData) -> EmitResult {
@@ -543,7 +543,14 @@ fn emit_class_decl(em: &mut Emitter, ctx: &HirContext<'_>, def: &DefData) -> Emi
   let body = ctx
     .body(body_id)
     .ok_or_else(|| EmitError::unsupported("class body not found"))?;
-  emit_class_like(em, ctx, body, Some(ctx.name(def.name)), false)
+  emit_class_like(em, ctx, body, decl_name(ctx, def), def.is_default_export)
+}
+
+/// The name in a function or class declaration; only default exports may lack
+/// one, which lowering records as a name that is not an identifier.
+fn decl_name<'a>(ctx: &'a HirContext<'_>, def: &DefData) -> Option<&'a str> {
+  let name = ctx.name(def.name);
+  (!def.is_default_export || name != "<anonymous>").then_some(name)
 }
 
 fn emit_class_like(
-- 
2.43.0


From 10ee5c800c2d3c06b9870824ac5aa927f36681b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:47 +0000
Subject: [PATCH 21/66] fix: keyof applies to the whole array or indexed access
 type after it

---
 parse-js/src/parse/type_expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-js/src/parse/type_expr.rs b/parse-js/src/parse/type_expr.rs
index c9d54e4..03a13e6 100644
--- a/parse-js/src/parse/type_expr.rs
+++ b/parse-js/src/parse/type_expr.rs
@@ -793,7 +793,7 @@ impl<'a> Parser<'a> {
   fn keyof_type(&mut self, ctx: ParseCtx) -> SyntaxResult<Node<TypeExpr>> {
     let start_loc = self.peek().loc;
     self.require(TT::KeywordKeyof)?;
-    let type_expr = self.type_primary(ctx)?;
+    let type_expr = self.type_array_or_postfix(ctx)?;
     let end_loc = type_expr.loc;
     use crate::loc::Loc;
     let outer_loc = Loc(start_loc.0, end_loc.1);
-- 
2.43.0


From 383f1c33036b57c01bb6fafbcfc0a1f4db39e655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:44 +0000
Subject: [PATCH 22/66] fix: a tagged template's span covers the whole template

---
 parse-js/src/parse/expr/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parse-js/src/parse/expr/mod.rs b/parse-js/src/parse/expr/mod.rs
index c7fff8c..1409c7e 100644
--- a/parse-js/src/parse/expr/mod.rs
+++ b/parse-js/src/parse/expr/mod.rs
@@ -1390,13 +1390,12 @@ impl<'a> Parser<'a> {
             }
             return Err(t.error(SyntaxErrorType::ExpectedSyntax("parenthesized expression")));
           }
-          let loc = t.loc;
           self.restore_checkpoint(cp);
           // ES2018: Tagged templates allow invalid escape sequences
           let function = left;
           let (parts, template_parts) = self.lit_template_parts_with_template_data(ctx, true)?;
           let mut node = Node::new(
-            function.loc + loc,
+            function.loc + self.since_checkpoint(&cp),
             TaggedTemplateExpr {
               function,
               parts,
-- 
2.43.0


From 63fbd26f7b094ee506ff840010b3c3a6392c8f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:50 +0000
Subject: [PATCH 23/66] fix: quote enum member names that are not identifiers

---
 emit-js/src/ts_stmt.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emit-js/src/ts_stmt.rs b/emit-js/src/ts_stmt.rs
index 766e447..41e539b 100644
--- a/emit-js/src/ts_stmt.rs
+++ b/emit-js/src/ts_stmt.rs
@@ -1,5 +1,6 @@
 use crate::emitter::{with_node_context, EmitError, EmitErrorKind, EmitMode, EmitResult, Emitter};
 use crate::expr_js::{emit_assignment_expr, ExprCtx};
+use crate::module_names::emit_identifier_name_or_string_literal;
 use crate::ts_type::emit_type_parameters;
 use crate::{emit_interface_decl, emit_type_alias_decl, emit_type_expr, emit_type_members};
 use parse_js::ast::expr::Expr;
@@ -76,7 +77,7 @@ fn emit_enum_decl(em: &mut Emitter, decl: &EnumDecl) -> EmitResult {
 }
 
 fn emit_enum_member(em: &mut Emitter, member: &EnumMember) -> EmitResult {
-  em.write_identifier(&member.name);
+  emit_identifier_name_or_string_literal(em, &member.name);
   if let Some(initializer) = &member.initializer {
     em.write_punct("=");
     space_if_canonical(em);
-- 
2.43.0


From 8f95231c524f0857e16af34c8f81c02413ba0ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:51 +0000
Subject: [PATCH 24/66] fix: keep the raw text of tagged template segments
 without a cooked value

---
 parse-js/src/ast/node.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parse-js/src/ast/node.rs b/parse-js/src/ast/node.rs
index 3b11be9..f2dc779 100644
--- a/parse-js/src/ast/node.rs
+++ b/parse-js/src/ast/node.rs
@@ -98,7 +98,9 @@ impl TemplateStringParts {
   /// `cooked` is the segment's text in the AST, which a pass may have replaced.
   pub fn kept_source(&self, index: usize, cooked: &str, tagged: bool) -> Option<String> {
     let raw = self.raw.get(index)?;
-    let units = self.cooked.get(index)?.as_deref().unwrap_or_default();
+    let Some(units) = self.cooked.get(index)?.as_deref() else {
+      return tagged.then(|| String::from_utf16_lossy(raw));
+    };
     let keep = tagged || has_unpaired_surrogate(units);
     (keep && String::from_utf16_lossy(units) == cooked).then(|| String::from_utf16_lossy(raw))
   }
-- 
2.43.0


From 58369444e3636652e555e6db338d8a4db20b84e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:47 +0000
Subject: [PATCH 25/66] fix: an object literal member's span covers its key and
 value

---
 parse-js/src/parse/expr/lit.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parse-js/src/parse/expr/lit.rs b/parse-js/src/parse/expr/lit.rs
index c76d481..e3cf08c 100644
--- a/parse-js/src/parse/expr/lit.rs
+++ b/parse-js/src/parse/expr/lit.rs
@@ -859,6 +859,7 @@ impl<'a> Parser<'a> {
       let mut members = Vec::new();
       while p.peek().typ != TT::BraceClose && p.peek().typ != TT::EOF {
         let member_start = p.peek().loc;
+        let member_cp = p.checkpoint();
         // TypeScript-style recovery: class declarations in object literals are
         // not allowed, but try to skip them so the rest of the literal can be
         // parsed.
@@ -952,7 +953,7 @@ impl<'a> Parser<'a> {
         if rest {
           let value = p.expr(ctx, [TT::Comma, TT::Semicolon, TT::BraceClose])?;
           members.push(Node::new(
-            member_start,
+            p.since_checkpoint(&member_cp),
             ObjMember {
               typ: ObjMemberType::Rest { val: value },
             },
@@ -1054,7 +1055,7 @@ impl<'a> Parser<'a> {
             }
             _ => ObjMemberType::Valued { key, val: value },
           };
-          members.push(Node::new(member_start, ObjMember { typ }));
+          members.push(Node::new(p.since_checkpoint(&member_cp), ObjMember { typ }));
         }
         if p.consume_if(TT::Comma).is_match() {
           continue;
-- 
2.43.0


From a153029c310b3304783ec7a4ce426435e9108372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:47 +0000
Subject: [PATCH 26/66] fix: a catch clause's span covers its parameter

---
 parse-js/src/parse/stmt/mod.rs | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/parse-js/src/parse/stmt/mod.rs b/parse-js/src/parse/stmt/mod.rs
index 5c05bfc..6e4c2ca 100644
--- a/parse-js/src/parse/stmt/mod.rs
+++ b/parse-js/src/parse/stmt/mod.rs
@@ -978,24 +978,24 @@ impl<'a> Parser<'a> {
       let start = p.require(TT::KeywordTry)?;
       let wrapped = p.block_stmt(ctx)?;
       let catch = p.consume_if(TT::KeywordCatch).and_then(|| {
-        let (parameter, type_annotation) =
-          match p.consume_if(TT::ParenthesisOpen).and_then(|| {
-            let pattern = p.pat_decl(ctx)?;
-            // TypeScript: optional type annotation in catch clause
-            // e.g. `catch (e: any)` or `catch (e: unknown)`
-            let type_annotation = if !p.is_strict_ecmascript() && p.consume_if(TT::Colon).is_match()
-            {
-              Some(p.type_expr(ctx)?)
-            } else {
-              None
-            };
-            p.require(TT::ParenthesisClose)?;
-            Ok((pattern, type_annotation))
-          })? {
-            Some((pattern, type_annotation)) => (Some(pattern), type_annotation),
-            None => (None, None),
-          };
         p.with_loc(|p| {
+          let (parameter, type_annotation) =
+            match p.consume_if(TT::ParenthesisOpen).and_then(|| {
+              let pattern = p.pat_decl(ctx)?;
+              // TypeScript: optional type annotation in catch clause
+              // e.g. `catch (e: any)` or `catch (e: unknown)`
+              let type_annotation = if !p.is_strict_ecmascript() && p.consume_if(TT::Colon).is_match()
+              {
+                Some(p.type_expr(ctx)?)
+              } else {
+                None
+              };
+              p.require(TT::ParenthesisClose)?;
+              Ok((pattern, type_annotation))
+            })? {
+              Some((pattern, type_annotation)) => (Some(pattern), type_annotation),
+              None => (None, None),
+            };
           p.require(TT::BraceOpen)?;
           let body = p.stmts(ctx.non_top_level(), TT::BraceClose)?;
           p.require(TT::BraceClose)?;
-- 
2.43.0


From bf461bd1160f66c789a4cceda5affa772f4b30ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:47 +0000
Subject: [PATCH 27/66] fix: synthetic class member keys get an empty range in
 place

---
 parse-js/src/parse/class_or_object.rs | 3 +--
 parse-js/src/parse/mod.rs             | 7 +++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/parse-js/src/parse/class_or_object.rs b/parse-js/src/parse/class_or_object.rs
index 06ff355..eae68db 100644
--- a/parse-js/src/parse/class_or_object.rs
+++ b/parse-js/src/parse/class_or_object.rs
@@ -76,9 +76,8 @@ impl<'a> Parser<'a> {
   fn create_synthetic_class_key(&self) -> ClassOrObjKey {
     use crate::ast::class_or_object::ClassOrObjKey;
     use crate::ast::class_or_object::ClassOrObjMemberDirectKey;
-    use crate::loc::Loc;
     ClassOrObjKey::Direct(Node::new(
-      Loc(0, 0),
+      self.loc_after_last_token(),
       ClassOrObjMemberDirectKey {
         key: String::new(),
         tt: TT::Identifier,
diff --git a/parse-js/src/parse/mod.rs b/parse-js/src/parse/mod.rs
index e4b3b2d..d81b153 100644
--- a/parse-js/src/parse/mod.rs
+++ b/parse-js/src/parse/mod.rs
@@ -475,6 +475,13 @@ impl<'a> Parser<'a> {
     Loc(start, end)
   }
 
+  /// The empty range right after the last consumed token.
+  pub(crate) fn loc_after_last_token(&self) -> Loc {
+    let last = self.next_tok_i.checked_sub(1).and_then(|i| self.buf.get(i));
+    let end = last.map_or(0, |tok| tok.token.loc.1);
+    Loc(end, end)
+  }
+
   pub fn restore_checkpoint(&mut self, checkpoint: ParserCheckpoint) {
     self.next_tok_i = checkpoint.next_tok_i;
   }
-- 
2.43.0


From c3cba3a87deb7ce97eda29be0d4e0b463cf538fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:47 +0000
Subject: [PATCH 28/66] fix: strict dialect accepts parenthesised simple
 assignment targets

---
 parse-js/src/parse/expr/util.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/parse-js/src/parse/expr/util.rs b/parse-js/src/parse/expr/util.rs
index 7232c8f..203c54a 100644
--- a/parse-js/src/parse/expr/util.rs
+++ b/parse-js/src/parse/expr/util.rs
@@ -260,10 +260,13 @@ pub(crate) fn lhs_expr_to_assign_target_with_recover(
   operator_name: OperatorName,
   recover: bool,
 ) -> SyntaxResult<Node<Expr>> {
-  // Parenthesized assignment targets are invalid in ECMAScript (e.g. `(a) = b`,
-  // `(obj.prop) = b`). Preserve TypeScript-style recovery behaviour in non-strict
-  // dialects.
-  if !recover && lhs.assoc.get::<ParenthesizedExpr>().is_some() {
+  // Parenthesized patterns are invalid in ECMAScript (e.g. `([a]) = b`), unlike
+  // parenthesized simple targets (e.g. `(a) = b`, `(obj.prop) = b`). Preserve
+  // TypeScript-style recovery behaviour in non-strict dialects.
+  if !recover
+    && matches!(lhs.stx.as_ref(), Expr::LitArr(_) | Expr::LitObj(_))
+    && lhs.assoc.get::<ParenthesizedExpr>().is_some()
+  {
     return Err(lhs.error(SyntaxErrorType::InvalidAssigmentTarget));
   }
 
-- 
2.43.0


From 73fb7f01a3418fedf9ce783025f01e05e63fb5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:47 +0000
Subject: [PATCH 29/66] fix: a template on a new line after a postfix update or
 arrow function ends the expression

---
 parse-js/src/parse/expr/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parse-js/src/parse/expr/mod.rs b/parse-js/src/parse/expr/mod.rs
index 1409c7e..21a44ce 100644
--- a/parse-js/src/parse/expr/mod.rs
+++ b/parse-js/src/parse/expr/mod.rs
@@ -1377,10 +1377,11 @@ impl<'a> Parser<'a> {
         // Tagged templates allow line terminators between the tag expression and
         // the template literal (`tag\n\`x\``). ASI must not split in that case.
         TT::LiteralTemplatePartString | TT::LiteralTemplatePartStringEnd => {
-          // However, `yield` expressions are restricted productions: an unparenthesized
-          // `yield`/`yield*` cannot be used as a tag expression. If we encounter a template
-          // literal after `yield` across a LineTerminator, treat it as an ASI boundary.
-          if matches!(left.stx.as_ref(), Expr::Unary(unary) if matches!(unary.stx.operator, OperatorName::Yield | OperatorName::YieldDelegated))
+          // However, an unparenthesized `yield` expression, postfix update or arrow function
+          // cannot be a tag. If a template literal follows one across a LineTerminator,
+          // treat it as an ASI boundary.
+          if (matches!(left.stx.as_ref(), Expr::Unary(unary) if matches!(unary.stx.operator, OperatorName::Yield | OperatorName::YieldDelegated))
+            || matches!(left.stx.as_ref(), Expr::UnaryPostfix(_) | Expr::ArrowFunc(_)))
             && left.assoc.get::<ParenthesizedExpr>().is_none()
           {
             if asi_allowed && t.preceded_by_line_terminator {
-- 
2.43.0


From 43b4378b116cb61b7b3d2327205334a773e63fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:47 +0000
Subject: [PATCH 30/66] fix: constant folding negates bigints with the right
 truthiness

---
 optimize-js/src/eval/consteval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optimize-js/src/eval/consteval.rs b/optimize-js/src/eval/consteval.rs
index 97e426b..0075850 100644
--- a/optimize-js/src/eval/consteval.rs
+++ b/optimize-js/src/eval/consteval.rs
@@ -211,7 +211,7 @@ fn coerce_to_int32(v: &Const) -> Option<i32> {
 // https://developer.mozilla.org/en-US/docs/Glossary/Falsy
 pub fn coerce_to_bool(v: &Const) -> bool {
   match v {
-    BigInt(v) => v == &BigInt::from(0),
+    BigInt(v) => v.sign() != Sign::NoSign,
     Bool(b) => *b,
     Null => false,
     Num(JN(v)) => !v.is_nan() && *v != 0.0,
-- 
2.43.0


From 4ef1bd1eb08ceea9c84b579595627ee817188fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:47 +0000
Subject: [PATCH 31/66] fix: constant folding compares bigints with other
 values exactly and without panicking

---
 optimize-js/src/eval/consteval.rs | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/optimize-js/src/eval/consteval.rs b/optimize-js/src/eval/consteval.rs
index 0075850..5300f33 100644
--- a/optimize-js/src/eval/consteval.rs
+++ b/optimize-js/src/eval/consteval.rs
@@ -5,7 +5,7 @@ use crate::il::inst::Const::*;
 use crate::il::inst::UnOp;
 use crate::il::inst::UnOp::*;
 use num_bigint::{BigInt, Sign};
-use num_traits::ToPrimitive;
+use num_traits::{FromPrimitive, ToPrimitive};
 use parse_js::char::{ECMASCRIPT_LINE_TERMINATORS, ECMASCRIPT_WHITESPACE};
 use parse_js::num::JsNumber as JN;
 use std::cmp::Ordering;
@@ -220,6 +220,27 @@ pub fn coerce_to_bool(v: &Const) -> bool {
   }
 }
 
+// Compare the mathematical values, without rounding the BigInt to a Number.
+fn cmp_bigint_num(a: &num_bigint::BigInt, b: f64) -> Option<Ordering> {
+  if b.is_nan() {
+    return None;
+  }
+  if b.is_infinite() {
+    return Some(if b > 0.0 {
+      Ordering::Less
+    } else {
+      Ordering::Greater
+    });
+  }
+  let floor = b.floor();
+  let ord = a.cmp(&num_bigint::BigInt::from_f64(floor)?);
+  Some(if ord == Ordering::Equal && floor < b {
+    Ordering::Less
+  } else {
+    ord
+  })
+}
+
 // If return value is None, then all comparison operators between `a` and `b` result in false.
 // https://tc39.es/ecma262/multipage/abstract-operations.html#sec-islessthan
 pub fn js_cmp(a: &Const, b: &Const) -> Option<Ordering> {
@@ -228,6 +249,8 @@ pub fn js_cmp(a: &Const, b: &Const) -> Option<Ordering> {
     (Str(a), BigInt(b)) => parse_bigint(a).map(|a| a.cmp(b)),
     (BigInt(a), Str(b)) => parse_bigint(b).map(|b| a.cmp(&b)),
     (BigInt(a), BigInt(b)) => Some(a.cmp(b)),
+    (BigInt(a), b) => cmp_bigint_num(a, coerce_to_num(b)),
+    (a, BigInt(b)) => cmp_bigint_num(b, coerce_to_num(a)).map(Ordering::reverse),
     (a, b) => {
       // https://tc39.es/ecma262/multipage/ecmascript-data-types-and-values.html#sec-numeric-types-number-lessThan
       let a = coerce_to_num(a);
@@ -267,8 +290,8 @@ pub fn js_loose_eq(a: &Const, b: &Const) -> bool {
     (Str(l), BigInt(r)) => parse_bigint(l).is_some_and(|l| &l == r),
     (Bool(l), r) => js_loose_eq(&Num(JN(*l as u8 as f64)), r),
     (l, Bool(r)) => js_loose_eq(l, &Num(JN(*r as u8 as f64))),
-    (BigInt(l), Num(r)) => r.0.is_finite() && coerce_bigint_to_num(l) == r.0,
-    (Num(l), BigInt(r)) => l.0.is_finite() && l.0 == coerce_bigint_to_num(r),
+    (BigInt(l), Num(r)) => cmp_bigint_num(l, r.0) == Some(Ordering::Equal),
+    (Num(l), BigInt(r)) => cmp_bigint_num(r, l.0) == Some(Ordering::Equal),
     _ => false,
   }
 }
-- 
2.43.0


From 0b934a2c5d1037c23c636c730ec8f55d8ce4d221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:47 +0000
Subject: [PATCH 32/66] fix: constant folding converts strings to bigints as
 StringToBigInt does

---
 optimize-js/src/eval/consteval.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/optimize-js/src/eval/consteval.rs b/optimize-js/src/eval/consteval.rs
index 5300f33..54dc9ac 100644
--- a/optimize-js/src/eval/consteval.rs
+++ b/optimize-js/src/eval/consteval.rs
@@ -54,24 +54,20 @@ fn parse_int_digits_to_bigint(digits: &str, radix: u32) -> Option<BigInt> {
 pub fn parse_bigint(raw: &str) -> Option<BigInt> {
   let trimmed = trim_js_whitespace(raw);
   if trimmed.is_empty() {
-    return None;
-  }
-  let (sign, body) = match trimmed.strip_prefix('+') {
-    Some(rest) => (1, rest),
-    None => match trimmed.strip_prefix('-') {
-      Some(rest) => (-1, rest),
-      None => (1, trimmed),
-    },
-  };
-  if body.is_empty() {
-    return None;
+    return Some(BigInt::from(0));
   }
-  let (radix, digits) = match body {
+  // A sign is only allowed before decimal digits.
+  let (radix, digits) = match trimmed {
     s if s.starts_with("0b") || s.starts_with("0B") => (2, &s[2..]),
     s if s.starts_with("0o") || s.starts_with("0O") => (8, &s[2..]),
     s if s.starts_with("0x") || s.starts_with("0X") => (16, &s[2..]),
     s => (10, s),
   };
+  let (sign, digits) = match digits.strip_prefix('-') {
+    Some(rest) if radix == 10 => (-1, rest),
+    _ if radix == 10 => (1, digits.strip_prefix('+').unwrap_or(digits)),
+    _ => (1, digits),
+  };
   let mut value = parse_int_digits_to_bigint(digits, radix)?;
   if sign == -1 {
     value = -value;
-- 
2.43.0


From a63cb198fdc0ad7dc391402b7ab5535b05ede07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:47 +0000
Subject: [PATCH 33/66] fix: constant folding orders strings by UTF-16 code
 units

---
 optimize-js/src/eval/consteval.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optimize-js/src/eval/consteval.rs b/optimize-js/src/eval/consteval.rs
index 54dc9ac..3f62d10 100644
--- a/optimize-js/src/eval/consteval.rs
+++ b/optimize-js/src/eval/consteval.rs
@@ -241,7 +241,8 @@ fn cmp_bigint_num(a: &num_bigint::BigInt, b: f64) -> Option<Ordering> {
 // https://tc39.es/ecma262/multipage/abstract-operations.html#sec-islessthan
 pub fn js_cmp(a: &Const, b: &Const) -> Option<Ordering> {
   match (a, b) {
-    (Str(a), Str(b)) => Some(a.cmp(b)),
+    // Strings are ordered by their UTF-16 code units.
+    (Str(a), Str(b)) => Some(a.encode_utf16().cmp(b.encode_utf16())),
     (Str(a), BigInt(b)) => parse_bigint(a).map(|a| a.cmp(b)),
     (BigInt(a), Str(b)) => parse_bigint(b).map(|b| a.cmp(&b)),
     (BigInt(a), BigInt(b)) => Some(a.cmp(b)),
-- 
2.43.0


From d087ffa8d28cfb9f402dd6623f5eb972967a55f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:47 +0000
Subject: [PATCH 34/66] fix: constant folding concatenates numbers in
 Number::toString form

---
 optimize-js/src/eval/consteval.rs | 35 +++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/optimize-js/src/eval/consteval.rs b/optimize-js/src/eval/consteval.rs
index 3f62d10..0786ed9 100644
--- a/optimize-js/src/eval/consteval.rs
+++ b/optimize-js/src/eval/consteval.rs
@@ -173,6 +173,37 @@ pub fn coerce_str_to_num(raw: &str) -> f64 {
   body.parse::<f64>().map(|v| sign * v).unwrap_or(f64::NAN)
 }
 
+// https://tc39.es/ecma262/multipage/ecmascript-data-types-and-values.html#sec-numeric-types-number-tostring
+pub fn coerce_num_to_str(v: f64) -> String {
+  if v.is_nan() {
+    return "NaN".into();
+  }
+  if v == 0.0 {
+    return "0".into();
+  }
+  let sign = if v < 0.0 { "-" } else { "" };
+  if v.is_infinite() {
+    return format!("{sign}Infinity");
+  }
+  // The shortest digits that round trip, as `d.ddde±x`.
+  let sci = format!("{:e}", v.abs());
+  let (mantissa, exp) = sci.split_once('e').unwrap();
+  let digits = mantissa.replace('.', "");
+  let exp: i32 = exp.parse().unwrap();
+  let (k, n) = (digits.len() as i32, exp + 1);
+  let body = if k <= n && n <= 21 {
+    format!("{digits}{}", "0".repeat((n - k) as usize))
+  } else if 0 < n && n <= 21 {
+    let (int, frac) = digits.split_at(n as usize);
+    format!("{int}.{frac}")
+  } else if -6 < n && n <= 0 {
+    format!("0.{}{digits}", "0".repeat(-n as usize))
+  } else {
+    format!("{mantissa}e{exp:+}")
+  };
+  format!("{sign}{body}")
+}
+
 // https://tc39.es/ecma262/multipage/abstract-operations.html#sec-tonumber
 pub fn coerce_to_num(v: &Const) -> f64 {
   match v {
@@ -305,8 +336,8 @@ pub fn maybe_eval_const_bin_expr(op: BinOp, a: &Const, b: &Const) -> Option<Cons
   #[rustfmt::skip]
   let res = match (op, a, b) {
     (Add, Num(l), Num(r)) => Num(JN(l.0 + r.0)),
-    (Add, Num(l), Str(r)) => Str(format!("{l}{r}")),
-    (Add, Str(l), Num(r)) => Str(format!("{l}{r}")),
+    (Add, Num(l), Str(r)) => Str(format!("{}{r}", coerce_num_to_str(l.0))),
+    (Add, Str(l), Num(r)) => Str(format!("{l}{}", coerce_num_to_str(r.0))),
     (Add, Str(l), Str(r)) => Str(format!("{l}{r}")),
     (Div, Num(l), Num(r)) => Num(JN(js_div(l.0, r.0))),
     (Div, Num(l), Str(r)) => Num(JN(js_div(l.0, coerce_str_to_num(r)))),
-- 
2.43.0


From 892342b2f53c18dc73e2ff36897bebd4b4b746c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:48 +0000
Subject: [PATCH 35/66] =?UTF-8?q?fix:=20constant=20folding=20of=20**=20giv?=
 =?UTF-8?q?es=20NaN=20for=201=20**=20NaN=20and=20(=C2=B11)=20**=20=C2=B1In?=
 =?UTF-8?q?finity?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 optimize-js/src/eval/consteval.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/optimize-js/src/eval/consteval.rs b/optimize-js/src/eval/consteval.rs
index 0786ed9..29e384f 100644
--- a/optimize-js/src/eval/consteval.rs
+++ b/optimize-js/src/eval/consteval.rs
@@ -304,6 +304,15 @@ pub fn js_mod(a: f64, b: f64) -> f64 {
   }
 }
 
+// https://tc39.es/ecma262/multipage/ecmascript-data-types-and-values.html#sec-numeric-types-number-exponentiate
+pub fn js_exp(base: f64, exponent: f64) -> f64 {
+  // Unlike IEEE 754 pow, `1 ** NaN` and `(±1) ** ±Infinity` are NaN.
+  if exponent.is_nan() || (exponent.is_infinite() && base.abs() == 1.0) {
+    return f64::NAN;
+  }
+  base.powf(exponent)
+}
+
 // https://tc39.es/ecma262/multipage/abstract-operations.html#sec-islooselyequal
 pub fn js_loose_eq(a: &Const, b: &Const) -> bool {
   if discriminant(a) == discriminant(b) {
@@ -346,10 +355,10 @@ pub fn maybe_eval_const_bin_expr(op: BinOp, a: &Const, b: &Const) -> Option<Cons
     (BitAnd, l, r) => Num(JN((coerce_to_int32(l)? & coerce_to_int32(r)?) as f64)),
     (BitOr, l, r) => Num(JN((coerce_to_int32(l)? | coerce_to_int32(r)?) as f64)),
     (BitXor, l, r) => Num(JN((coerce_to_int32(l)? ^ coerce_to_int32(r)?) as f64)),
-    (Exp, Num(l), Num(r)) => Num(JN(l.0.powf(r.0))),
-    (Exp, Num(l), Str(r)) => Num(JN(l.0.powf(coerce_str_to_num(r)))),
-    (Exp, Str(l), Num(r)) => Num(JN(coerce_str_to_num(l).powf(r.0))),
-    (Exp, Str(l), Str(r)) => Num(JN(coerce_str_to_num(l).powf(coerce_str_to_num(r)))),
+    (Exp, Num(l), Num(r)) => Num(JN(js_exp(l.0, r.0))),
+    (Exp, Num(l), Str(r)) => Num(JN(js_exp(l.0, coerce_str_to_num(r)))),
+    (Exp, Str(l), Num(r)) => Num(JN(js_exp(coerce_str_to_num(l), r.0))),
+    (Exp, Str(l), Str(r)) => Num(JN(js_exp(coerce_str_to_num(l), coerce_str_to_num(r)))),
     (Geq, l, r) => Bool(js_cmp(l, r).is_some_and(|c| c.is_ge())),
     (Gt, l, r) => Bool(js_cmp(l, r).is_some_and(|c| c.is_gt())),
     (Leq, l, r) => Bool(js_cmp(l, r).is_some_and(|c| c.is_le())),
-- 
2.43.0


From 3fc3be6a5cd9c61488233dfbeb20245d5a705c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:48 +0000
Subject: [PATCH 36/66] fix: constant folding of Math.round rounds halfway
 cases up

---
 optimize-js/src/eval/consteval.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/optimize-js/src/eval/consteval.rs b/optimize-js/src/eval/consteval.rs
index 29e384f..713deb9 100644
--- a/optimize-js/src/eval/consteval.rs
+++ b/optimize-js/src/eval/consteval.rs
@@ -296,6 +296,18 @@ pub fn js_div(a: f64, b: f64) -> f64 {
   a / b
 }
 
+// https://tc39.es/ecma262/multipage/numbers-and-dates.html#sec-math.round
+pub fn js_round(a: f64) -> f64 {
+  // Halfway cases go towards positive infinity; the sign of zero is kept.
+  let floor = a.floor();
+  let rounded = if a - floor >= 0.5 { floor + 1.0 } else { floor };
+  if rounded == 0.0 {
+    0.0_f64.copysign(a)
+  } else {
+    rounded
+  }
+}
+
 pub fn js_mod(a: f64, b: f64) -> f64 {
   match (a, b) {
     (_, 0.0) => f64::NAN,
@@ -431,7 +443,7 @@ pub fn maybe_eval_const_builtin_call(func: &str, args: &[Const]) -> Option<Const
       ("Math.log10", Num(a)) => Num(JN(a.0.log10())),
       ("Math.log1p", Num(a)) => Num(JN(a.0.ln_1p())),
       ("Math.log2", Num(a)) => Num(JN(a.0.log2())),
-      ("Math.round", Num(a)) => Num(JN(a.0.round())),
+      ("Math.round", Num(a)) => Num(JN(js_round(a.0))),
       ("Math.sin", Num(a)) => Num(JN(a.0.sin())),
       ("Math.sqrt", Num(a)) => Num(JN(a.0.sqrt())),
       ("Math.tan", Num(a)) => Num(JN(a.0.tan())),
-- 
2.43.0


From 60f9163ce2913988a079f1f8fec0509ace0ef66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:02 +0000
Subject: [PATCH 37/66] fix: strict dialect accepts a parenthesised identifier
 as assignment target

---
 parse-js/src/parse/expr/util.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parse-js/src/parse/expr/util.rs b/parse-js/src/parse/expr/util.rs
index 203c54a..abcff4a 100644
--- a/parse-js/src/parse/expr/util.rs
+++ b/parse-js/src/parse/expr/util.rs
@@ -276,8 +276,9 @@ pub(crate) fn lhs_expr_to_assign_target_with_recover(
         if operator_name != OperatorName::Assignment && !matches!(e, Expr::Id(_)) {
           return Err(lhs.error(SyntaxErrorType::InvalidAssigmentTarget));
         }
-        // We must transform into a pattern.
-        let root = lit_to_pat_with_recover(lhs, false)?;
+        // We must transform into a pattern. An identifier may be parenthesized here.
+        let is_id = matches!(e, Expr::Id(_));
+        let root = lit_to_pat_with_recover(lhs, is_id)?;
         Ok(root.into_stx())
       }
       Expr::ComputedMember(member) if !member.stx.optional_chaining => Ok(lhs),
-- 
2.43.0


From 447b8012ade403f39548125a636475b15850c171 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:32:26 +0000
Subject: [PATCH 38/66] fix: emitted regex literal is separated from a
 following keyword

---
 emit-js/src/emitter.rs | 22 ++++++++++++++++++++--
 emit-js/src/expr_js.rs |  6 +-----
 emit-js/src/hir.rs     |  8 ++------
 emit-js/src/js_expr.rs |  6 +-----
 4 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/emit-js/src/emitter.rs b/emit-js/src/emitter.rs
index 69435e2..28b44d4 100644
--- a/emit-js/src/emitter.rs
+++ b/emit-js/src/emitter.rs
@@ -10,7 +10,7 @@
 //! [`Emitter::write_str`] for a single lexical token or whitespace-only
 //! fragments (e.g. indentation, newlines).
 
-use crate::escape::{emit_string_literal, emit_string_literal_code_units};
+use crate::escape::{emit_regex_literal, emit_string_literal, emit_string_literal_code_units};
 use parse_js::ast::node::has_unpaired_surrogate;
 use parse_js::loc::Loc;
 use std::fmt;
@@ -196,6 +196,8 @@ enum Boundary {
   Minus,
   MinusMinus,
   Slash,
+  /// The closing slash of a regular expression literal without flags.
+  RegexEnd,
 }
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -354,6 +356,18 @@ impl Emitter {
     self.write_str(rendered);
   }
 
+  /// Emits a regular expression literal.
+  pub fn write_regex_literal(&mut self, value: &str) {
+    let mut buf = Vec::new();
+    emit_regex_literal(&mut buf, value);
+    let rendered = std::str::from_utf8(&buf).expect("regex literal escape output is UTF-8");
+    self.write_str(rendered);
+    // A word written next would be read as flags.
+    if self.state.trailing == Boundary::Slash {
+      self.state.trailing = Boundary::RegexEnd;
+    }
+  }
+
   /// Emits a numeric literal.
   pub fn write_number(&mut self, number: &str) {
     self.write_with_kind(number, TokenKind::Number);
@@ -511,7 +525,11 @@ fn needs_space(prev: Boundary, next: Leading) -> bool {
     | (Boundary::Minus, Leading::Minus)
     | (Boundary::MinusMinus, Leading::Minus)
     | (Boundary::Slash, Leading::Slash)
-    | (Boundary::Slash, Leading::Star) => true,
+    | (Boundary::Slash, Leading::Star)
+    | (
+      Boundary::RegexEnd,
+      Leading::Word | Leading::Number | Leading::Slash | Leading::Star,
+    ) => true,
     _ => false,
   }
 }
diff --git a/emit-js/src/expr_js.rs b/emit-js/src/expr_js.rs
index a2b0541..ff8f7d5 100644
--- a/emit-js/src/expr_js.rs
+++ b/emit-js/src/expr_js.rs
@@ -178,11 +178,7 @@ fn emit_expr_no_parens(em: &mut Emitter, expr: &Node<Expr>, ctx: ExprCtx) -> Emi
       &lit.stx.value,
       literal_string_code_units(&lit.assoc),
     ),
-    Expr::LitRegex(lit) => {
-      let mut buf = Vec::new();
-      crate::escape::emit_regex_literal(&mut buf, &lit.stx.value);
-      em.write_str(std::str::from_utf8(&buf).expect("regex literal escape output is UTF-8"));
-    }
+    Expr::LitRegex(lit) => em.write_regex_literal(&lit.stx.value),
     Expr::LitArr(arr) => emit_array_literal(em, arr)?,
     Expr::LitObj(obj) => emit_object_literal(em, obj)?,
     Expr::LitTemplate(template) => emit_template_literal(em, template)?,
diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index 2b2cbf0..317407c 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -1,4 +1,4 @@
-use crate::escape::{emit_regex_literal, emit_string_literal, emit_template_literal_segment};
+use crate::escape::{emit_string_literal, emit_template_literal_segment};
 use crate::module_names::{
   emit_identifier_name_or_string_literal, emit_module_binding_identifier_or_string_literal,
   is_module_binding_identifier_token,
@@ -1970,11 +1970,7 @@ fn emit_literal(em: &mut Emitter, lit: &Literal) -> EmitResult {
     Literal::Null => em.write_keyword("null"),
     Literal::Undefined => emit_void_0(em),
     Literal::BigInt(num) => em.write_bigint_literal(num),
-    Literal::Regex(regex) => {
-      let mut buf = Vec::new();
-      emit_regex_literal(&mut buf, regex);
-      em.write_str(std::str::from_utf8(&buf).expect("regex literal is UTF-8"));
-    }
+    Literal::Regex(regex) => em.write_regex_literal(regex),
   }
   Ok(())
 }
diff --git a/emit-js/src/js_expr.rs b/emit-js/src/js_expr.rs
index e709012..814d061 100644
--- a/emit-js/src/js_expr.rs
+++ b/emit-js/src/js_expr.rs
@@ -253,11 +253,7 @@ impl<'a> JsExprEmitter<'a> {
   }
 
   fn emit_lit_regex(&mut self, lit: &Node<LitRegexExpr>) -> JsEmitResult {
-    let mut buf = Vec::new();
-    crate::escape::emit_regex_literal(&mut buf, &lit.stx.value);
-    self
-      .out
-      .write_str(std::str::from_utf8(&buf).expect("regex literal escape output is UTF-8"));
+    self.out.write_regex_literal(&lit.stx.value);
     Ok(())
   }
 
-- 
2.43.0


From 8f09cfa30dd36582e9ba7b8797fda12a262b17ef Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:32:26 +0000
Subject: [PATCH 39/66] fix: minify keeps the names Annex B hoisting and catch
 redeclarations depend on

---
 minify-js/src/opt/dce.rs      |  2 +
 minify-js/src/rename/mod.rs   | 42 ++++++++++++++++++++-
 semantic-js/src/js/declare.rs | 70 +++++++++++++++++++++++++++++------
 semantic-js/src/js/mod.rs     |  9 +++++
 4 files changed, 110 insertions(+), 13 deletions(-)

diff --git a/minify-js/src/opt/dce.rs b/minify-js/src/opt/dce.rs
index 74d400c..d975a84 100644
--- a/minify-js/src/opt/dce.rs
+++ b/minify-js/src/opt/dce.rs
@@ -44,6 +44,8 @@ impl Pass for DcePass {
       let mut used = collect_used_symbols(top);
       // Exported symbols are always considered used.
       used.extend(cx.usage().exported.iter().copied());
+      // Removing one of these changes the meaning of the other.
+      used.extend(cx.sem().name_dependent_symbols.iter().copied());
       propagate_annex_b_liveness(cx, &mut used);
 
       let changed =
diff --git a/minify-js/src/rename/mod.rs b/minify-js/src/rename/mod.rs
index 53ceeda..c6002cf 100644
--- a/minify-js/src/rename/mod.rs
+++ b/minify-js/src/rename/mod.rs
@@ -270,6 +270,22 @@ pub fn collect_usages(
   };
   top.drive_mut(&mut visitor);
 
+  // A binding between a block function and its hoisted `var` (Annex B) must not
+  // take the function's name, or the function would no longer be hoisted.
+  for (block, var_sym) in sem.annex_b_function_decls.iter() {
+    let Some(outer) = sem.scope(sem.symbol(*block).decl_scope).parent else {
+      continue;
+    };
+    if sem.scope(sem.symbol(*var_sym).decl_scope).kind == ScopeKind::Global
+      && top_level_mode == TopLevelMode::Global
+    {
+      let name = sem.name(sem.symbol(*var_sym).name);
+      visitor.inner.record_unknown(outer, name);
+    } else {
+      visitor.inner.record_symbol_usage(outer, *var_sym);
+    }
+  }
+
   let SymbolCollector {
     exported,
     scope_usages,
@@ -362,7 +378,7 @@ fn reserved_names() -> HashSet<String> {
 }
 
 pub fn assign_names(sem: &JsSemantics, usage: &UsageData) -> HashMap<SymbolId, String> {
-  let reserved = reserved_names();
+  let mut reserved = reserved_names();
   // Dynamic scopes (direct `eval`/`with`) keep their original names; direct
   // `eval` can also reach all lexical ancestors.
   let disabled_scopes = {
@@ -383,7 +399,7 @@ pub fn assign_names(sem: &JsSemantics, usage: &UsageData) -> HashMap<SymbolId, S
   };
   // Preserve any outer bindings referenced from a `with` scope since property
   // lookups may depend on their names.
-  let pinned_symbols: HashSet<SymbolId> = usage
+  let mut pinned_symbols: HashSet<SymbolId> = usage
     .scope_hazards
     .iter()
     .filter_map(|(scope, hazards)| {
@@ -395,6 +411,28 @@ pub fn assign_names(sem: &JsSemantics, usage: &UsageData) -> HashMap<SymbolId, S
     })
     .flat_map(|usage| usage.foreign.iter().copied())
     .collect();
+  pinned_symbols.extend(sem.name_dependent_symbols.iter().copied());
+  for (block, var_sym) in sem.annex_b_function_decls.iter() {
+    if pinned_symbols.contains(block) {
+      pinned_symbols.insert(*var_sym);
+    }
+  }
+  // Bindings that keep their name would capture references to an outer binding
+  // renamed to it, so never pick one of their names.
+  for sym in pinned_symbols
+    .iter()
+    .chain(disabled_scopes.iter().flat_map(|scope| {
+      usage
+        .scope_symbol_order
+        .get(scope)
+        .into_iter()
+        .flatten()
+    }))
+  {
+    if let Some(name) = usage.symbol_names.get(sym) {
+      reserved.insert(name.clone());
+    }
+  }
   let mut renames = HashMap::default();
 
   let mut annex_b_block_to_var = HashMap::default();
diff --git a/semantic-js/src/js/declare.rs b/semantic-js/src/js/declare.rs
index 1f759ae..615744d 100644
--- a/semantic-js/src/js/declare.rs
+++ b/semantic-js/src/js/declare.rs
@@ -65,6 +65,7 @@ use parse_js::ast::stmt::WithStmt;
 use parse_js::ast::stx::TopLevel;
 use parse_js::operator::OperatorName;
 use std::collections::BTreeMap;
+use std::collections::BTreeSet;
 
 type BlockStmtNode = Node<BlockStmt>;
 type BinaryExprNode = Node<BinaryExpr>;
@@ -219,12 +220,14 @@ struct SemanticsBuilder {
   scopes: BTreeMap<ScopeId, ScopeData>,
   symbols: BTreeMap<SymbolId, SymbolData>,
   annex_b_function_decls: BTreeMap<SymbolId, SymbolId>,
+  name_dependent_symbols: BTreeSet<SymbolId>,
   top_scope: ScopeId,
   decl_spans: BTreeMap<SymbolId, DeclSpanInfo>,
   block_var_decl_spans: BTreeMap<(ScopeId, NameId), TextRange>,
   block_lexical_decl_spans: BTreeMap<(ScopeId, NameId), TextRange>,
   block_func_decl_spans: BTreeMap<(ScopeId, NameId), TextRange>,
   catch_param_decl_spans: BTreeMap<(ScopeId, NameId), TextRange>,
+  simple_catch_params: BTreeSet<(ScopeId, NameId)>,
   diagnostics: Vec<Diagnostic>,
 }
 
@@ -256,12 +259,14 @@ impl SemanticsBuilder {
       scopes,
       symbols: BTreeMap::new(),
       annex_b_function_decls: BTreeMap::new(),
+      name_dependent_symbols: BTreeSet::new(),
       top_scope,
       decl_spans: BTreeMap::new(),
       block_var_decl_spans: BTreeMap::new(),
       block_lexical_decl_spans: BTreeMap::new(),
       block_func_decl_spans: BTreeMap::new(),
       catch_param_decl_spans: BTreeMap::new(),
+      simple_catch_params: BTreeSet::new(),
       diagnostics: Vec::new(),
     }
   }
@@ -564,6 +569,7 @@ impl SemanticsBuilder {
         scopes: self.scopes,
         symbols: self.symbols,
         annex_b_function_decls: self.annex_b_function_decls,
+        name_dependent_symbols: self.name_dependent_symbols,
         top_scope: self.top_scope,
       },
       self.diagnostics,
@@ -720,27 +726,29 @@ impl DeclareVisitor {
 
       // Annex B hoisting is suppressed if any enclosing lexical environment
       // between the function's block and the nearest variable scope already
-      // declares the same name. Catch parameters are excluded from this check
-      // (they behave like a separate environment record in legacy semantics).
+      // declares the same name. Simple catch parameters (`catch (e)`) are
+      // excluded from this check: they may be redeclared by a `var` (B.3.4).
+      // Names bound by a destructuring catch parameter may not.
       let mut current = self
         .builder
         .scopes
         .get(&func.block_scope)
         .and_then(|scope| scope.parent);
-      let mut suppressed = false;
+      let mut suppressed_by = None;
       while let Some(scope_id) = current {
         if closure_scope.is_some_and(|closure| closure == scope_id) {
           break;
         }
         if let Some(scope) = self.builder.scopes.get(&scope_id) {
-          if scope.symbols.contains_key(&func.name)
-            && !self
+          if let Some(existing) = scope.symbols.get(&func.name).copied() {
+            if !self
               .builder
-              .catch_param_decl_spans
-              .contains_key(&(scope_id, func.name))
-          {
-            suppressed = true;
-            break;
+              .simple_catch_params
+              .contains(&(scope_id, func.name))
+            {
+              suppressed_by = Some(existing);
+              break;
+            }
           }
         }
         current = self
@@ -749,7 +757,8 @@ impl DeclareVisitor {
           .get(&scope_id)
           .and_then(|scope| scope.parent);
       }
-      if suppressed {
+      if let Some(existing) = suppressed_by {
+        self.mark_name_dependent(func.block_symbol, existing);
         continue;
       }
 
@@ -793,6 +802,7 @@ impl DeclareVisitor {
           .map(|sym| sym.flags.hoisted)
           .unwrap_or(false);
         if !is_hoisted {
+          self.mark_name_dependent(func.block_symbol, existing);
           continue;
         }
         self
@@ -822,6 +832,11 @@ impl DeclareVisitor {
     }
   }
 
+  fn mark_name_dependent(&mut self, a: SymbolId, b: SymbolId) {
+    self.builder.name_dependent_symbols.insert(a);
+    self.builder.name_dependent_symbols.insert(b);
+  }
+
   fn is_strict(&self) -> bool {
     *self.strict_stack.last().unwrap_or(&false)
   }
@@ -1108,6 +1123,7 @@ impl DeclareVisitor {
     // the block's `VarDeclaredNames`, so they cannot conflict with any lexical
     // declarations (`let`/`const`/`class`/block functions in modules) declared in
     // that same block.
+    let mut redeclared_catch_param = None;
     if ctx.block_var {
       for scope_id in self.scope_stack.iter().rev().copied() {
         let kind = self.builder.scope_kind(scope_id);
@@ -1115,6 +1131,19 @@ impl DeclareVisitor {
           self
             .builder
             .record_block_var_decl(scope_id, name_id, name, span);
+          if redeclared_catch_param.is_none()
+            && self
+              .builder
+              .catch_param_decl_spans
+              .contains_key(&(scope_id, name_id))
+          {
+            redeclared_catch_param = self
+              .builder
+              .scopes
+              .get(&scope_id)
+              .and_then(|scope| scope.symbols.get(&name_id))
+              .copied();
+          }
         }
         if kind.is_var_scope() {
           break;
@@ -1122,6 +1151,12 @@ impl DeclareVisitor {
       }
     }
 
+    // `catch (e) { var e = 1; }` declares a `var` but its initializer assigns
+    // the catch parameter.
+    if let Some(param) = redeclared_catch_param {
+      self.builder.name_dependent_symbols.insert(param);
+    }
+
     if ctx.block_lexical && self.builder.scope_kind(self.current_scope()) == ScopeKind::Block {
       self
         .builder
@@ -1158,6 +1193,9 @@ impl DeclareVisitor {
         ))
       }
     }?;
+    if redeclared_catch_param.is_some() {
+      self.builder.name_dependent_symbols.insert(symbol);
+    }
     Some((symbol, scope))
   }
 
@@ -1503,6 +1541,16 @@ impl DeclareVisitor {
       false,
       true,
     );
+    if let Some(Pat::Id(id)) = node
+      .stx
+      .parameter
+      .as_ref()
+      .map(|param| param.stx.pat.stx.as_ref())
+    {
+      let name = self.builder.intern_name(&id.stx.name);
+      let scope = self.current_scope();
+      self.builder.simple_catch_params.insert((scope, name));
+    }
   }
 
   fn exit_catch_block_node(&mut self, _node: &mut CatchBlockNode) {
diff --git a/semantic-js/src/js/mod.rs b/semantic-js/src/js/mod.rs
index e5d12d6..da3340a 100644
--- a/semantic-js/src/js/mod.rs
+++ b/semantic-js/src/js/mod.rs
@@ -73,6 +73,7 @@ use diagnostics::FileId;
 use parse_js::ast::node::Node;
 use parse_js::ast::stx::TopLevel;
 use std::collections::BTreeMap;
+use std::collections::BTreeSet;
 use std::str::FromStr;
 
 pub mod declare;
@@ -282,6 +283,14 @@ pub struct JsSemantics {
   /// global scope's symbol table) so minifiers can treat the block binding as
   /// pinned.
   pub annex_b_function_decls: BTreeMap<SymbolId, SymbolId>,
+  /// Symbols whose behaviour depends on sharing their name with another symbol,
+  /// so renaming or removing one of them on its own changes the program:
+  ///
+  /// - a block function that is not hoisted (Annex B) because an enclosing
+  ///   binding has the same name, and that binding;
+  /// - a catch parameter redeclared by a `var` in its block (the initializer of
+  ///   the `var` assigns the parameter), and that `var`.
+  pub name_dependent_symbols: BTreeSet<SymbolId>,
   pub top_scope: ScopeId,
 }
 
-- 
2.43.0


From 6714a633d2d5e7415db64affb964c12d33c47497 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:46:55 +0000
Subject: [PATCH 40/66] fix: break, continue and debugger statements end at
 their semicolon

---
 parse-js/src/parse/stmt/mod.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/parse-js/src/parse/stmt/mod.rs b/parse-js/src/parse/stmt/mod.rs
index 6e4c2ca..c95dc3a 100644
--- a/parse-js/src/parse/stmt/mod.rs
+++ b/parse-js/src/parse/stmt/mod.rs
@@ -391,18 +391,29 @@ impl<'a> Parser<'a> {
     let label = if is_valid_pattern_identifier(t.typ, ctx.rules) && !t.preceded_by_line_terminator {
       // Label.
       Some(self.id_name(ctx)?)
-    } else if t.typ == TT::Semicolon {
-      self.consume();
-      None
-    } else if t.preceded_by_line_terminator || t.typ == TT::BraceClose {
-      // ASI.
+    } else if t.typ == TT::Semicolon || self.at_inserted_semicolon() {
       None
     } else {
       return Err(t.error(SyntaxErrorType::ExpectedSyntax("label")));
     };
+    self.statement_end()?;
     Ok(label)
   }
 
+  /// Whether a missing semicolon is inserted before the next token.
+  fn at_inserted_semicolon(&mut self) -> bool {
+    let t = self.peek();
+    t.preceded_by_line_terminator || matches!(t.typ, TT::BraceClose | TT::EOF)
+  }
+
+  /// The semicolon that ends a statement, or its insertion.
+  fn statement_end(&mut self) -> SyntaxResult<()> {
+    if !self.consume_if(TT::Semicolon).is_match() && !self.at_inserted_semicolon() {
+      self.require(TT::Semicolon)?;
+    }
+    Ok(())
+  }
+
   pub fn break_stmt(&mut self, ctx: ParseCtx) -> SyntaxResult<Node<BreakStmt>> {
     self.with_loc(|p| {
       let start = p.require(TT::KeywordBreak)?;
@@ -462,7 +473,11 @@ impl<'a> Parser<'a> {
   }
 
   pub fn debugger_stmt(&mut self) -> SyntaxResult<Node<DebuggerStmt>> {
-    self.with_loc(|p| p.require(TT::KeywordDebugger).map(|_| DebuggerStmt {}))
+    self.with_loc(|p| {
+      p.require(TT::KeywordDebugger)?;
+      p.statement_end()?;
+      Ok(DebuggerStmt {})
+    })
   }
 
   // WARNING: Do not reuse this functions for other statements, as this will output a statement node, not an expression, which can lead to double semicolons that cause invalid code when outputting.
-- 
2.43.0


From 17750685b6dc6d7f3cc0cd3e63ccb83b33f97c28 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:02:36 +0000
Subject: [PATCH 41/66] fix: block functions in sloppy object literal methods
 are hoisted

---
 semantic-js/src/js/declare.rs | 49 ++++++++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/semantic-js/src/js/declare.rs b/semantic-js/src/js/declare.rs
index 615744d..0563de1 100644
--- a/semantic-js/src/js/declare.rs
+++ b/semantic-js/src/js/declare.rs
@@ -583,6 +583,14 @@ enum DeclTarget {
   NearestClosure,
 }
 
+/// Methods of object literals report the early errors of strict code; whether
+/// their code is strict is up to what encloses them.
+#[derive(Clone, Copy)]
+struct Strictness {
+  early_errors: bool,
+  code: bool,
+}
+
 #[derive(Clone, Copy)]
 struct DeclContext {
   target: DeclTarget,
@@ -673,7 +681,7 @@ struct DeclareVisitor {
   decl_target_stack: Vec<DeclContext>,
   in_pattern_decl: Vec<bool>,
   top_level_mode: TopLevelMode,
-  strict_stack: Vec<bool>,
+  strict_stack: Vec<Strictness>,
   new_target_stack: Vec<bool>,
   stmt_context_stack: Vec<StmtContext>,
   class_member_phase_stack: Vec<ClassMemberPhase>,
@@ -696,7 +704,10 @@ impl DeclareVisitor {
       decl_target_stack: Vec::new(),
       in_pattern_decl: vec![false],
       top_level_mode: mode,
-      strict_stack: vec![strict],
+      strict_stack: vec![Strictness {
+        early_errors: strict,
+        code: strict,
+      }],
       new_target_stack: vec![false],
       stmt_context_stack: vec![StmtContext::StatementList],
       class_member_phase_stack: Vec::new(),
@@ -838,7 +849,14 @@ impl DeclareVisitor {
   }
 
   fn is_strict(&self) -> bool {
-    *self.strict_stack.last().unwrap_or(&false)
+    self
+      .strict_stack
+      .last()
+      .is_some_and(|strict| strict.early_errors)
+  }
+
+  fn is_strict_code(&self) -> bool {
+    self.strict_stack.last().is_some_and(|strict| strict.code)
   }
 
   fn new_target_allowed(&self) -> bool {
@@ -1294,7 +1312,10 @@ impl DeclareVisitor {
       node,
       ClassOrObjVal::Method(_) | ClassOrObjVal::Getter(_) | ClassOrObjVal::Setter(_)
     ) {
-      self.strict_stack.push(true);
+      self.strict_stack.push(Strictness {
+        early_errors: true,
+        code: self.is_strict_code(),
+      });
     }
 
     let Some(phase) = self.class_member_phase_stack.last_mut() else {
@@ -1566,7 +1587,10 @@ impl DeclareVisitor {
     // Class bodies are always strict mode, and restricted identifiers like
     // `eval`/`arguments` are invalid even when the surrounding script is
     // non-strict.
-    self.strict_stack.push(true);
+    self.strict_stack.push(Strictness {
+      early_errors: true,
+      code: true,
+    });
     if let Some(name) = &mut node.stx.name {
       self.declare_class_or_func_name(
         name,
@@ -1590,7 +1614,10 @@ impl DeclareVisitor {
 
   fn enter_class_expr_node(&mut self, node: &mut ClassExprNode) {
     // Class bodies are always strict mode.
-    self.strict_stack.push(true);
+    self.strict_stack.push(Strictness {
+      early_errors: true,
+      code: true,
+    });
     self.push_scope(ScopeKind::Class, range_of(node));
     if let Some(name) = &mut node.stx.name {
       self.declare_class_or_func_name(
@@ -1870,7 +1897,7 @@ impl DeclareVisitor {
         return;
       }
 
-      if scope_kind == ScopeKind::Block && self.is_strict() {
+      if scope_kind == ScopeKind::Block && self.is_strict_code() {
         // Strict mode: block-level functions are block-scoped declarations.
         self.declare_class_or_func_name(
           name,
@@ -1953,8 +1980,12 @@ impl DeclareVisitor {
   }
 
   fn enter_func_node(&mut self, node: &mut FuncNode) {
-    let strict = self.is_strict() || func_has_use_strict(node.stx.as_ref());
-    self.strict_stack.push(strict);
+    let use_strict = func_has_use_strict(node.stx.as_ref());
+    let strict = self.is_strict() || use_strict;
+    self.strict_stack.push(Strictness {
+      early_errors: strict,
+      code: self.is_strict_code() || use_strict,
+    });
     let new_target_allowed = if node.stx.arrow {
       self.new_target_allowed()
     } else {
-- 
2.43.0


From b462c27525087c78bd79287132deca81bdf4a552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:30 +0000
Subject: [PATCH 42/66] fix: do-while consumes its own trailing semicolon, and
 only that

---
 parse-js/src/parse/stmt/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse-js/src/parse/stmt/mod.rs b/parse-js/src/parse/stmt/mod.rs
index c95dc3a..d8982e4 100644
--- a/parse-js/src/parse/stmt/mod.rs
+++ b/parse-js/src/parse/stmt/mod.rs
@@ -1074,12 +1074,12 @@ impl<'a> Parser<'a> {
       let body = p.stmt(ctx.non_top_level());
       p.in_iteration = prev_in_iteration;
       let body = body?;
-      // Consume optional semicolon after body statement (ASI)
-      let _ = p.consume_if(TT::Semicolon);
       p.require(TT::KeywordWhile)?;
       p.require(TT::ParenthesisOpen)?;
       let condition = p.expr(ctx, [TT::ParenthesisClose])?;
       p.require(TT::ParenthesisClose)?;
+      // The semicolon belongs to the statement; it is always inserted when missing.
+      let _ = p.consume_if(TT::Semicolon);
       Ok(DoWhileStmt { condition, body })
     })
   }
-- 
2.43.0


From bbdbcd71e11076981637283d7bfea053da21c9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:00 +0000
Subject: [PATCH 43/66] fix: return keeps its semicolon across a line break

---
 parse-js/src/parse/stmt/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parse-js/src/parse/stmt/mod.rs b/parse-js/src/parse/stmt/mod.rs
index d8982e4..decbe0b 100644
--- a/parse-js/src/parse/stmt/mod.rs
+++ b/parse-js/src/parse/stmt/mod.rs
@@ -955,10 +955,10 @@ impl<'a> Parser<'a> {
           "return statement not allowed outside functions",
         )));
       }
-      let value = if p.peek().preceded_by_line_terminator || p.peek().typ == TT::BraceClose {
-        // Automatic Semicolon Insertion.
+      let value = if p.consume_if(TT::Semicolon).is_match() {
         None
-      } else if p.consume_if(TT::Semicolon).is_match() {
+      } else if p.peek().preceded_by_line_terminator || p.peek().typ == TT::BraceClose {
+        // Automatic Semicolon Insertion.
         None
       } else {
         let mut asi = Asi::can();
-- 
2.43.0


From 28a5b60d1e1eeda4b4c841daf50da2c7ee94cfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:08 +0000
Subject: [PATCH 44/66] fix: tuple assignability checks lengths and rest
 elements

---
 types-ts-interned/src/relate.rs | 292 +++++++-------------------------
 1 file changed, 58 insertions(+), 234 deletions(-)

diff --git a/types-ts-interned/src/relate.rs b/types-ts-interned/src/relate.rs
index 78e2a61..f9a1f87 100644
--- a/types-ts-interned/src/relate.rs
+++ b/types-ts-interned/src/relate.rs
@@ -2078,8 +2078,12 @@ impl<'a> RelateCtx<'a> {
     }
 
     let mut children = Vec::new();
-    for dst_elem in dst_elems.iter().filter(|e| !e.rest) {
-      let dst_ty = self.optional_type(dst_elem.ty, dst_elem.optional, OptionalFlavor::TupleElement);
+    for dst_elem in dst_elems {
+      let dst_ty = if dst_elem.rest {
+        self.spread_element_type(dst_elem.ty)
+      } else {
+        self.optional_type(dst_elem.ty, dst_elem.optional, OptionalFlavor::TupleElement)
+      };
       let related = self.relate_internal(
         src_elem,
         dst_ty,
@@ -2255,246 +2259,66 @@ impl<'a> RelateCtx<'a> {
   ) -> RelationResult {
     let record = record && self.take_reason_slot();
     let mut children = Vec::new();
+    let fail = |children: Vec<Option<ReasonNode>>, note: &str| RelationResult {
+      result: false,
+      reason: self.join_reasons(record, key, children, false, Some(note.into()), depth),
+    };
     let src_required = src_elems.iter().filter(|e| !e.optional && !e.rest).count();
     let dst_required = dst_elems.iter().filter(|e| !e.optional && !e.rest).count();
+    let src_rest = src_elems.iter().any(|e| e.rest);
+    let dst_rest = dst_elems.iter().any(|e| e.rest);
 
-    if src_required > dst_elems.len()
-      && !src_elems.iter().any(|e| e.rest)
-      && dst_required == dst_elems.len()
-    {
-      return RelationResult {
-        result: false,
-        reason: self.join_reasons(
-          record,
-          key,
-          Vec::new(),
-          false,
-          Some("tuple arity".into()),
-          depth,
-        ),
-      };
+    if !src_rest && src_elems.len() < dst_required {
+      return fail(children, "tuple required elements");
     }
-
-    if dst_required > src_elems.len() && !src_elems.iter().any(|e| e.rest) {
-      return RelationResult {
-        result: false,
-        reason: self.join_reasons(
-          record,
-          key,
-          Vec::new(),
-          false,
-          Some("tuple required elements".into()),
-          depth,
-        ),
-      };
+    // Without a rest element the destination fixes the maximum length.
+    if !dst_rest && (src_rest || dst_elems.len() < src_required.max(src_elems.len())) {
+      return fail(children, "tuple arity");
     }
 
-    let mut s_idx = 0usize;
-    let mut d_idx = 0usize;
-    while d_idx < dst_elems.len() {
+    // Elements before and after the destination's rest element line up with the
+    // source's elements counted from the start and from the end.
+    let dst_start = dst_elems.iter().take_while(|e| !e.rest).count();
+    let dst_end = dst_elems.iter().rev().take_while(|e| !e.rest).count();
+    let element_type = |elem: &crate::TupleElem| {
+      let ty = if elem.rest {
+        self.spread_element_type(elem.ty)
+      } else {
+        elem.ty
+      };
+      self.optional_type(ty, elem.optional, OptionalFlavor::TupleElement)
+    };
+    for (s_idx, src_elem) in src_elems.iter().enumerate() {
+      let d_idx = if dst_rest && s_idx >= dst_start {
+        let from_end = src_elems.len() - 1 - s_idx;
+        dst_elems.len() - 1 - from_end.min(dst_end)
+      } else {
+        s_idx
+      };
       let dst_elem = &dst_elems[d_idx];
-      let src_elem = src_elems.get(s_idx);
-      match src_elem {
-        None => {
-          if dst_elem.rest || dst_elem.optional {
-            d_idx += 1;
-            continue;
-          }
-          return RelationResult {
-            result: false,
-            reason: self.join_reasons(
-              record,
-              key,
-              children,
-              false,
-              Some("tuple length".into()),
-              depth,
-            ),
-          };
-        }
-        Some(src_elem) => {
-          if dst_elem.rest {
-            for rem in src_elems.iter().skip(s_idx) {
-              let src_ty = self.optional_type(
-                rem.ty,
-                rem.optional || rem.rest,
-                OptionalFlavor::TupleElement,
-              );
-              let dst_ty = self.optional_type(
-                dst_elem.ty,
-                dst_elem.optional || dst_elem.rest,
-                OptionalFlavor::TupleElement,
-              );
-              if !dst_elem.readonly && rem.readonly {
-                return RelationResult {
-                  result: false,
-                  reason: self.join_reasons(
-                    record,
-                    key,
-                    children,
-                    false,
-                    Some("tuple readonly".into()),
-                    depth,
-                  ),
-                };
-              }
-              let related = self.relate_internal(
-                src_ty,
-                dst_ty,
-                RelationKind::Assignable,
-                mode,
-                record,
-                depth + 1,
-              );
-              if record {
-                children.push(related.reason);
-              }
-              if !related.result {
-                return RelationResult {
-                  result: false,
-                  reason: self.join_reasons(
-                    record,
-                    key,
-                    children,
-                    false,
-                    Some("tuple rest".into()),
-                    depth,
-                  ),
-                };
-              }
-            }
-            return RelationResult {
-              result: true,
-              reason: self.join_reasons(
-                record,
-                key,
-                children,
-                true,
-                Some("tuple rest".into()),
-                depth,
-              ),
-            };
-          }
-
-          if src_elem.rest {
-            let src_ty = self.optional_type(
-              src_elem.ty,
-              src_elem.optional || src_elem.rest,
-              OptionalFlavor::TupleElement,
-            );
-            for d in dst_elems.iter().skip(d_idx) {
-              if !d.readonly && src_elem.readonly {
-                return RelationResult {
-                  result: false,
-                  reason: self.join_reasons(
-                    record,
-                    key,
-                    children,
-                    false,
-                    Some("tuple rest readonly".into()),
-                    depth,
-                  ),
-                };
-              }
-              let dst_ty =
-                self.optional_type(d.ty, d.optional || d.rest, OptionalFlavor::TupleElement);
-              let related = self.relate_internal(
-                src_ty,
-                dst_ty,
-                RelationKind::Assignable,
-                mode,
-                record,
-                depth + 1,
-              );
-              if record {
-                children.push(related.reason);
-              }
-              if !related.result {
-                return RelationResult {
-                  result: false,
-                  reason: self.join_reasons(
-                    record,
-                    key,
-                    children,
-                    false,
-                    Some("tuple rest spread".into()),
-                    depth,
-                  ),
-                };
-              }
-            }
-            return RelationResult {
-              result: true,
-              reason: self.join_reasons(
-                record,
-                key,
-                children,
-                true,
-                Some("tuple rest spread".into()),
-                depth,
-              ),
-            };
-          }
-
-          if !dst_elem.optional && src_elem.optional {
-            return RelationResult {
-              result: false,
-              reason: self.join_reasons(
-                record,
-                key,
-                children,
-                false,
-                Some("tuple optional".into()),
-                depth,
-              ),
-            };
-          }
-          if !dst_elem.readonly && src_elem.readonly {
-            return RelationResult {
-              result: false,
-              reason: self.join_reasons(
-                record,
-                key,
-                children,
-                false,
-                Some("tuple readonly".into()),
-                depth,
-              ),
-            };
-          }
-          let src_ty =
-            self.optional_type(src_elem.ty, src_elem.optional, OptionalFlavor::TupleElement);
-          let dst_ty =
-            self.optional_type(dst_elem.ty, dst_elem.optional, OptionalFlavor::TupleElement);
-          let related = self.relate_internal(
-            src_ty,
-            dst_ty,
-            RelationKind::Assignable,
-            mode,
-            record,
-            depth + 1,
-          );
-          if record {
-            children.push(related.reason);
-          }
-          if !related.result {
-            return RelationResult {
-              result: false,
-              reason: self.join_reasons(
-                record,
-                key,
-                children,
-                false,
-                Some("tuple element".into()),
-                depth,
-              ),
-            };
-          }
-        }
+      if !dst_elem.optional && !dst_elem.rest && (src_elem.optional || src_elem.rest) {
+        return fail(children, "tuple optional");
+      }
+      if !dst_elem.readonly && src_elem.readonly {
+        return fail(children, "tuple readonly");
+      }
+      if src_elem.ty == dst_elem.ty && src_elem.rest == dst_elem.rest {
+        continue;
+      }
+      let related = self.relate_internal(
+        element_type(src_elem),
+        element_type(dst_elem),
+        RelationKind::Assignable,
+        mode,
+        record,
+        depth + 1,
+      );
+      if record {
+        children.push(related.reason);
+      }
+      if !related.result {
+        return fail(children, "tuple element");
       }
-
-      s_idx += 1;
-      d_idx += 1;
     }
 
     RelationResult {
-- 
2.43.0


From cc5bbc3f6ca2c206cbb10e7ca4efcffc77d3408e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:08 +0000
Subject: [PATCH 45/66] fix: unions with null or undefined are not assignable
 to {}, and {} is to unions holding it

---
 types-ts-interned/src/relate.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/types-ts-interned/src/relate.rs b/types-ts-interned/src/relate.rs
index f9a1f87..060927c 100644
--- a/types-ts-interned/src/relate.rs
+++ b/types-ts-interned/src/relate.rs
@@ -1854,6 +1854,16 @@ impl<'a> RelateCtx<'a> {
       (TypeKind::Unknown, TypeKind::Unknown) => Some(true),
       (_, TypeKind::Unknown) => Some(true),
       (TypeKind::Unknown, _) => Some(false),
+      (
+        TypeKind::EmptyObject,
+        TypeKind::Union(_)
+        | TypeKind::Intersection(_)
+        | TypeKind::Ref { .. }
+        | TypeKind::IndexedAccess { .. }
+        | TypeKind::Conditional { .. }
+        | TypeKind::Mapped(_)
+        | TypeKind::KeyOf(_),
+      ) => None,
       (TypeKind::EmptyObject, _) => Some(matches!(
         dst,
         TypeKind::Any | TypeKind::Unknown | TypeKind::EmptyObject
@@ -1874,6 +1884,16 @@ impl<'a> RelateCtx<'a> {
         | TypeKind::KeyOf(_),
       ) => None,
       (TypeKind::Void, _) => Some(false),
+      (
+        TypeKind::Union(_)
+        | TypeKind::Intersection(_)
+        | TypeKind::Ref { .. }
+        | TypeKind::IndexedAccess { .. }
+        | TypeKind::Conditional { .. }
+        | TypeKind::Mapped(_)
+        | TypeKind::KeyOf(_),
+        TypeKind::EmptyObject,
+      ) if opts.strict_null_checks => None,
       (_, TypeKind::EmptyObject) => {
         if !opts.strict_null_checks {
           Some(true)
-- 
2.43.0


From 5495518c48da7a6b33f0b6567e4bb6b7092892a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:08 +0000
Subject: [PATCH 46/66] fix: any is not assignable to never, nor void to
 undefined

---
 types-ts-interned/src/relate.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types-ts-interned/src/relate.rs b/types-ts-interned/src/relate.rs
index 060927c..385f14a 100644
--- a/types-ts-interned/src/relate.rs
+++ b/types-ts-interned/src/relate.rs
@@ -1850,7 +1850,7 @@ impl<'a> RelateCtx<'a> {
         | TypeKind::KeyOf(_) => None,
         _ => Some(false),
       },
-      (TypeKind::Any, _) | (_, TypeKind::Any) => Some(true),
+      (TypeKind::Any, _) | (_, TypeKind::Any) => Some(!matches!(dst, TypeKind::Never)),
       (TypeKind::Unknown, TypeKind::Unknown) => Some(true),
       (_, TypeKind::Unknown) => Some(true),
       (TypeKind::Unknown, _) => Some(false),
@@ -1871,7 +1871,7 @@ impl<'a> RelateCtx<'a> {
       (TypeKind::Never, _) => Some(true),
       (_, TypeKind::Never) => Some(matches!(src, TypeKind::Never)),
       (TypeKind::Void, TypeKind::Void) => Some(true),
-      (TypeKind::Void, TypeKind::Undefined) | (TypeKind::Undefined, TypeKind::Void) => Some(true),
+      (TypeKind::Undefined, TypeKind::Void) => Some(true),
       (TypeKind::Void, TypeKind::EmptyObject) => Some(!opts.strict_null_checks),
       (
         TypeKind::Void,
-- 
2.43.0


From 012956e1694e8b62d1d1da2b436754f60270cab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:08 +0000
Subject: [PATCH 47/66] fix: a function may require parameters its target has
 as optional or rest ones

---
 types-ts-interned/src/relate.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/types-ts-interned/src/relate.rs b/types-ts-interned/src/relate.rs
index 385f14a..3e9d680 100644
--- a/types-ts-interned/src/relate.rs
+++ b/types-ts-interned/src/relate.rs
@@ -2604,9 +2604,22 @@ impl<'a> RelateCtx<'a> {
       _ => {}
     }
 
+    // `(...args: any[]) => any` accepts every signature.
+    if let [rest] = dst.params.as_slice() {
+      let any = self.store.primitive_ids().any;
+      if rest.rest && dst.ret == any && self.spread_element_type(rest.ty) == any {
+        return RelationResult {
+          result: true,
+          reason: self.join_reasons(record, key, children, true, Some("any".into()), depth),
+        };
+      }
+    }
+
+    // The destination may be called with arguments for its optional parameters, or
+    // any number of them with a rest parameter, so only a source that requires more
+    // parameters than the destination can ever supply is incompatible.
     let src_required = src.params.iter().filter(|p| !p.optional && !p.rest).count();
-    let dst_required = dst.params.iter().filter(|p| !p.optional && !p.rest).count();
-    if src_required > dst_required {
+    if src_required > dst.params.len() && !dst.params.iter().any(|p| p.rest) {
       return RelationResult {
         result: false,
         reason: self.join_reasons(
-- 
2.43.0


From 18585b56cb3c0dc8127464afa27d17946afdca26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:08 +0000
Subject: [PATCH 48/66] fix: only a method in the target relaxes parameter
 variance

---
 types-ts-interned/src/relate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types-ts-interned/src/relate.rs b/types-ts-interned/src/relate.rs
index 3e9d680..4cb4285 100644
--- a/types-ts-interned/src/relate.rs
+++ b/types-ts-interned/src/relate.rs
@@ -2912,7 +2912,7 @@ impl<'a> RelateCtx<'a> {
           }
 
           let next_mode =
-            if self.is_method_like(&src_prop.data) || self.is_method_like(&dst_prop.data) {
+            if self.is_method_like(&dst_prop.data) {
               mode | RelationMode::BIVARIANT_PARAMS
             } else {
               mode
-- 
2.43.0


From a7815d264321c168e061e8b5f04fd84c6f304428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:08 +0000
Subject: [PATCH 49/66] fix: {} | null | undefined accepts every type and {} is
 assignable to objects without required members

---
 types-ts-interned/src/relate.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/types-ts-interned/src/relate.rs b/types-ts-interned/src/relate.rs
index 4cb4285..7060781 100644
--- a/types-ts-interned/src/relate.rs
+++ b/types-ts-interned/src/relate.rs
@@ -1786,6 +1786,17 @@ impl<'a> RelateCtx<'a> {
       )
     };
 
+    // `{} | null | undefined` holds every value, like `unknown`.
+    if let TypeKind::Union(members) = dst {
+      let has = |pred: fn(&TypeKind) -> bool| members.iter().any(|m| pred(&self.store.type_kind(*m)));
+      if has(|k| matches!(k, TypeKind::EmptyObject))
+        && has(|k| matches!(k, TypeKind::Null))
+        && has(|k| matches!(k, TypeKind::Undefined))
+      {
+        return Some(true);
+      }
+    }
+
     match (src, dst) {
       (TypeKind::TypeParam(a), TypeKind::TypeParam(b)) => Some(a == b),
       // Unresolved type parameters are treated conservatively as `unknown` to
@@ -1864,6 +1875,14 @@ impl<'a> RelateCtx<'a> {
         | TypeKind::Mapped(_)
         | TypeKind::KeyOf(_),
       ) => None,
+      (TypeKind::EmptyObject, TypeKind::Object(dst)) => {
+        let shape = self.store.shape(self.store.object(*dst).shape);
+        Some(
+          shape.properties.iter().all(|p| p.data.optional)
+            && shape.call_signatures.is_empty()
+            && shape.construct_signatures.is_empty(),
+        )
+      }
       (TypeKind::EmptyObject, _) => Some(matches!(
         dst,
         TypeKind::Any | TypeKind::Unknown | TypeKind::EmptyObject
-- 
2.43.0


From c2fd0c6b9b4629673b1363b6d2c27fc6f4e6cc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:08 +0000
Subject: [PATCH 50/66] fix: readonly properties are assignable to mutable ones

---
 types-ts-interned/src/relate.rs | 27 ---------------------------
 1 file changed, 27 deletions(-)

diff --git a/types-ts-interned/src/relate.rs b/types-ts-interned/src/relate.rs
index 7060781..9e2efaa 100644
--- a/types-ts-interned/src/relate.rs
+++ b/types-ts-interned/src/relate.rs
@@ -2902,20 +2902,6 @@ impl<'a> RelateCtx<'a> {
               ),
             };
           }
-          if !dst_prop.data.readonly && src_prop.data.readonly {
-            return RelationResult {
-              result: false,
-              reason: self.join_reasons(
-                record,
-                key,
-                children,
-                false,
-                Some("readonly property".into()),
-                depth,
-              ),
-            };
-          }
-
           if !dst_prop.data.optional && src_prop.data.optional {
             return RelationResult {
               result: false,
@@ -3038,19 +3024,6 @@ impl<'a> RelateCtx<'a> {
       if let Some(src_idx) =
         self.find_matching_indexer(&src_shape, dst_index, mode, record, depth + 1)
       {
-        if !dst_index.readonly && src_idx.readonly {
-          return RelationResult {
-            result: false,
-            reason: self.join_reasons(
-              record,
-              key,
-              children,
-              false,
-              Some("readonly indexer".into()),
-              depth,
-            ),
-          };
-        }
         let related = self.relate_internal(
           self.optional_type(src_idx.value_type, false, OptionalFlavor::IndexerValue),
           self.optional_type(dst_index.value_type, false, OptionalFlavor::IndexerValue),
-- 
2.43.0


From 5a0290c325738a90bdb4c89bfc9a235c497dce0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:08 +0000
Subject: [PATCH 51/66] fix: an index signature does not provide a required
 property

---
 types-ts-interned/src/relate.rs | 64 ++++++---------------------------
 1 file changed, 10 insertions(+), 54 deletions(-)

diff --git a/types-ts-interned/src/relate.rs b/types-ts-interned/src/relate.rs
index 9e2efaa..7946c06 100644
--- a/types-ts-interned/src/relate.rs
+++ b/types-ts-interned/src/relate.rs
@@ -2961,61 +2961,17 @@ impl<'a> RelateCtx<'a> {
           if dst_prop.data.optional {
             continue;
           }
-          if let Some(index) = self.indexer_for_prop(&src_shape, &dst_prop.key, mode, depth + 1) {
-            if !dst_prop.data.readonly && index.readonly {
-              return RelationResult {
-                result: false,
-                reason: self.join_reasons(
-                  record,
-                  key,
-                  children,
-                  false,
-                  Some("indexer readonly".into()),
-                  depth,
-                ),
-              };
-            }
-            let related = self.relate_internal(
-              self.optional_type(index.value_type, false, OptionalFlavor::IndexerValue),
-              self.optional_type(
-                dst_prop.data.ty,
-                dst_prop.data.optional,
-                OptionalFlavor::Property,
-              ),
-              RelationKind::Assignable,
-              mode,
+          return RelationResult {
+            result: false,
+            reason: self.join_reasons(
               record,
-              depth + 1,
-            );
-            if record {
-              children.push(related.reason);
-            }
-            if !related.result {
-              return RelationResult {
-                result: false,
-                reason: self.join_reasons(
-                  record,
-                  key,
-                  children,
-                  false,
-                  Some("indexer property".into()),
-                  depth,
-                ),
-              };
-            }
-          } else {
-            return RelationResult {
-              result: false,
-              reason: self.join_reasons(
-                record,
-                key,
-                children,
-                false,
-                Some("missing property".into()),
-                depth,
-              ),
-            };
-          }
+              key,
+              children,
+              false,
+              Some("missing property".into()),
+              depth,
+            ),
+          };
         }
       }
     }
-- 
2.43.0


From 8d0fe26df46376b5dedcec51d5d3d0443ebf7c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:08 +0000
Subject: [PATCH 52/66] fix: optional properties match an index signature by
 their declared type

---
 types-ts-interned/src/relate.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/types-ts-interned/src/relate.rs b/types-ts-interned/src/relate.rs
index 7946c06..3dc99dd 100644
--- a/types-ts-interned/src/relate.rs
+++ b/types-ts-interned/src/relate.rs
@@ -2815,6 +2815,20 @@ impl<'a> RelateCtx<'a> {
     }
   }
 
+  /// The type of a property that is there: an optional one without the `undefined`
+  /// that stands for its absence.
+  fn present_type(&self, ty: TypeId, optional: bool) -> TypeId {
+    match self.store.type_kind(ty) {
+      TypeKind::Union(members) if optional => self.store.union(
+        members
+          .into_iter()
+          .filter(|m| !matches!(self.store.type_kind(*m), TypeKind::Undefined))
+          .collect(),
+      ),
+      _ => ty,
+    }
+  }
+
   fn normalize_type(&self, ty: TypeId) -> TypeId {
     #[cfg(test)]
     {
@@ -3003,7 +3017,7 @@ impl<'a> RelateCtx<'a> {
             continue;
           }
           let related = self.relate_internal(
-            self.optional_type(prop.data.ty, prop.data.optional, OptionalFlavor::Property),
+            self.present_type(prop.data.ty, prop.data.optional),
             self.optional_type(dst_index.value_type, false, OptionalFlavor::IndexerValue),
             RelationKind::Assignable,
             mode,
-- 
2.43.0


From fef0715178ff584b5043c7a1c742922a6329e629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:08 +0000
Subject: [PATCH 53/66] fix: number, bigint and boolean placeholders in
 template literal types only match their texts

---
 types-ts-interned/src/relate.rs | 60 ++++++++++++++++++++++++++++++---
 1 file changed, 56 insertions(+), 4 deletions(-)

diff --git a/types-ts-interned/src/relate.rs b/types-ts-interned/src/relate.rs
index 3dc99dd..63a3b25 100644
--- a/types-ts-interned/src/relate.rs
+++ b/types-ts-interned/src/relate.rs
@@ -1588,6 +1588,7 @@ impl<'a> RelateCtx<'a> {
       TypeKind::StringLiteral(id) => Some(vec![self.store.name(id)]),
       TypeKind::NumberLiteral(num) => Some(vec![num.0.to_string()]),
       TypeKind::BooleanLiteral(val) => Some(vec![val.to_string()]),
+      TypeKind::Boolean => Some(vec!["false".into(), "true".into()]),
       TypeKind::TemplateLiteral(tpl) => self.template_strings(&tpl, depth + 1, visited),
       TypeKind::Union(members) => {
         let mut out = Vec::new();
@@ -1731,15 +1732,26 @@ impl<'a> RelateCtx<'a> {
           }
         }
         None => {
+          let accepts = |text: &str| match self.store.type_kind(span.ty) {
+            TypeKind::Number => is_number_text(text),
+            TypeKind::BigInt => is_bigint_text(text),
+            _ => true,
+          };
           if span.literal.is_empty() {
-            queue.push_back((idx + 1, pos));
+            if accepts("") {
+              queue.push_back((idx + 1, pos));
+            }
             for (off, _) in remainder.char_indices().skip(1) {
               if processed + queue.len() >= self.limits.max_template_match_states {
                 break;
               }
-              queue.push_back((idx + 1, pos + off));
+              if accepts(&remainder[..off]) {
+                queue.push_back((idx + 1, pos + off));
+              }
+            }
+            if accepts(remainder) {
+              queue.push_back((idx + 1, value.len()));
             }
-            queue.push_back((idx + 1, value.len()));
           } else {
             let mut search_pos = pos;
             while search_pos <= value.len() {
@@ -1750,7 +1762,9 @@ impl<'a> RelateCtx<'a> {
                 break;
               };
               let found = search_pos + found_rel;
-              queue.push_back((idx + 1, found + span.literal.len()));
+              if accepts(&value[pos..found]) {
+                queue.push_back((idx + 1, found + span.literal.len()));
+              }
               if processed + queue.len() >= self.limits.max_template_match_states {
                 break;
               }
@@ -3339,6 +3353,44 @@ impl<'a> RelateCtx<'a> {
   }
 }
 
+/// Whether `text` is the text of a finite number, as `${number}` accepts it: any text
+/// JavaScript's `Number()` converts to a finite number, except the empty one.
+fn is_number_text(text: &str) -> bool {
+  if text.is_empty() {
+    return false;
+  }
+  let text = text.trim_matches(|c: char| c.is_whitespace() || c == '\u{feff}');
+  let all = |digits: &str, radix| !digits.is_empty() && digits.chars().all(|c| c.is_digit(radix));
+  if let (Some("0"), Some(prefix)) = (text.get(..1), text.get(1..2)) {
+    match prefix {
+      "x" | "X" => return all(&text[2..], 16),
+      "o" | "O" => return all(&text[2..], 8),
+      "b" | "B" => return all(&text[2..], 2),
+      _ => {}
+    }
+  }
+  text.is_empty()
+    || text
+      .chars()
+      .all(|c| c.is_ascii_digit() || matches!(c, '.' | 'e' | 'E' | '+' | '-'))
+      && text.parse::<f64>().map_or(false, f64::is_finite)
+}
+
+/// Whether `text` is an integer literal, as `${bigint}` accepts it.
+fn is_bigint_text(text: &str) -> bool {
+  let text = text.strip_prefix('-').unwrap_or(text);
+  let all = |digits: &str, radix| !digits.is_empty() && digits.chars().all(|c| c.is_digit(radix));
+  if text.len() > 1 && text.starts_with('0') {
+    return match text.get(1..2) {
+      Some("x" | "X") => all(&text[2..], 16),
+      Some("o" | "O") => all(&text[2..], 8),
+      Some("b" | "B") => all(&text[2..], 2),
+      _ => false,
+    };
+  }
+  all(text, 10)
+}
+
 fn parse_canonical_index_string(store: &TypeStore, key: &PropKey) -> Option<i64> {
   let PropKey::String(id) = key else {
     return None;
-- 
2.43.0


From cbb1fa40392c9fc42453261c3d4633feaeae32ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:35 +0000
Subject: [PATCH 54/66] fix: one identity for a union holding true and false,
 and for merged properties with conflicting origins

---
 types-ts-interned/src/store.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/types-ts-interned/src/store.rs b/types-ts-interned/src/store.rs
index d5b23e5..2a3147b 100644
--- a/types-ts-interned/src/store.rs
+++ b/types-ts-interned/src/store.rs
@@ -587,6 +587,7 @@ impl TypeStore {
     // restrictive accessibility modifier if present.
     let mut merged_properties: Vec<Property> = Vec::with_capacity(shape.properties.len());
     let mut declared_on_conflict = false;
+    let mut origin_conflict = false;
     for prop in shape.properties.into_iter() {
       if let Some(last) = merged_properties.last_mut() {
         if last.key == prop.key {
@@ -609,8 +610,15 @@ impl TypeStore {
           }
           match (last.data.origin, prop.data.origin) {
             (Some(a), Some(b)) if a == b => {}
-            (Some(_), Some(_)) => last.data.origin = None,
-            (None, Some(b)) => last.data.origin = Some(b),
+            (Some(_), Some(_)) => {
+              last.data.origin = None;
+              origin_conflict = true;
+            }
+            (None, Some(b)) => {
+              if !origin_conflict {
+                last.data.origin = Some(b);
+              }
+            }
             _ => {}
           }
           let existing_access = last.data.accessibility.take();
@@ -624,6 +632,7 @@ impl TypeStore {
       }
       merged_properties.push(prop);
       declared_on_conflict = false;
+      origin_conflict = false;
     }
     shape.properties = merged_properties;
     Self::stable_dedup_signatures(&mut shape.call_signatures);
@@ -819,11 +828,16 @@ impl TypeStore {
     if flat.len() == 1 {
       return flat[0];
     }
-    if flat.len() == 2
-      && matches!(self.type_kind(flat[0]), TypeKind::BooleanLiteral(_))
-      && matches!(self.type_kind(flat[1]), TypeKind::BooleanLiteral(_))
-    {
-      return self.primitives.boolean;
+    let is_boolean_literal =
+      |member: &TypeId| matches!(self.type_kind(*member), TypeKind::BooleanLiteral(_));
+    if flat.iter().filter(|member| is_boolean_literal(member)).count() == 2 {
+      // `true | false` is `boolean`, whatever else the union holds.
+      flat.retain(|member| !is_boolean_literal(member));
+      flat.push(self.primitives.boolean);
+      self.sort_and_dedup(&mut flat);
+      if flat.len() == 1 {
+        return flat[0];
+      }
     }
 
     self.insert_type_direct(TypeKind::Union(flat))
-- 
2.43.0


From 1dc3caa4e92684b3e222276bc945ec4461834017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:28 +0000
Subject: [PATCH 55/66] Revert "fix: an index signature does not provide a
 required property"

This reverts commit 5a0290c325738a90bdb4c89bfc9a235c497dce0b.
---
 types-ts-interned/src/relate.rs | 64 +++++++++++++++++++++++++++------
 1 file changed, 54 insertions(+), 10 deletions(-)

diff --git a/types-ts-interned/src/relate.rs b/types-ts-interned/src/relate.rs
index 63a3b25..553a118 100644
--- a/types-ts-interned/src/relate.rs
+++ b/types-ts-interned/src/relate.rs
@@ -2989,17 +2989,61 @@ impl<'a> RelateCtx<'a> {
           if dst_prop.data.optional {
             continue;
           }
-          return RelationResult {
-            result: false,
-            reason: self.join_reasons(
+          if let Some(index) = self.indexer_for_prop(&src_shape, &dst_prop.key, mode, depth + 1) {
+            if !dst_prop.data.readonly && index.readonly {
+              return RelationResult {
+                result: false,
+                reason: self.join_reasons(
+                  record,
+                  key,
+                  children,
+                  false,
+                  Some("indexer readonly".into()),
+                  depth,
+                ),
+              };
+            }
+            let related = self.relate_internal(
+              self.optional_type(index.value_type, false, OptionalFlavor::IndexerValue),
+              self.optional_type(
+                dst_prop.data.ty,
+                dst_prop.data.optional,
+                OptionalFlavor::Property,
+              ),
+              RelationKind::Assignable,
+              mode,
               record,
-              key,
-              children,
-              false,
-              Some("missing property".into()),
-              depth,
-            ),
-          };
+              depth + 1,
+            );
+            if record {
+              children.push(related.reason);
+            }
+            if !related.result {
+              return RelationResult {
+                result: false,
+                reason: self.join_reasons(
+                  record,
+                  key,
+                  children,
+                  false,
+                  Some("indexer property".into()),
+                  depth,
+                ),
+              };
+            }
+          } else {
+            return RelationResult {
+              result: false,
+              reason: self.join_reasons(
+                record,
+                key,
+                children,
+                false,
+                Some("missing property".into()),
+                depth,
+              ),
+            };
+          }
         }
       }
     }
-- 
2.43.0


From f8f8c8b1d292363a15f4759b61533425ea0c0b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:33 +0000
Subject: [PATCH 56/66] fix: the object members of an intersection are taken
 together beside a primitive; -0 and 0 are one literal type

---
 types-ts-interned/src/relate.rs | 36 ++++++++++++++++++++++-----------
 types-ts-interned/src/store.rs  |  2 ++
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/types-ts-interned/src/relate.rs b/types-ts-interned/src/relate.rs
index 553a118..fc36e15 100644
--- a/types-ts-interned/src/relate.rs
+++ b/types-ts-interned/src/relate.rs
@@ -1340,19 +1340,28 @@ impl<'a> RelateCtx<'a> {
     if let TypeKind::Intersection(srcs) = &src_kind {
       let record = record && self.take_reason_slot();
       if let TypeKind::Object(dst_obj) = &dst_kind {
-        if let Some(merged) = self.merge_intersection(srcs) {
+        // The object members are taken together, whatever else the source holds
+        // (`string & { a: 1 } & { b: 2 }`).
+        let objects: Vec<TypeId> = srcs
+          .iter()
+          .copied()
+          .filter(|member| matches!(self.store.type_kind(*member), TypeKind::Object(_)))
+          .collect();
+        if let Some(merged) = self.merge_intersection(&objects) {
           let related = self.relate_object(src, dst, merged, *dst_obj, mode, record, depth + 1);
-          return RelationResult {
-            result: related.result,
-            reason: self.join_reasons(
-              record,
-              key,
-              vec![related.reason],
-              related.result,
-              Some("intersection merge".into()),
-              depth,
-            ),
-          };
+          if related.result || objects.len() == srcs.len() {
+            return RelationResult {
+              result: related.result,
+              reason: self.join_reasons(
+                record,
+                key,
+                vec![related.reason],
+                related.result,
+                Some("intersection merge".into()),
+                depth,
+              ),
+            };
+          }
         }
       }
 
@@ -2783,6 +2792,9 @@ impl<'a> RelateCtx<'a> {
   }
 
   fn merge_intersection(&self, members: &[TypeId]) -> Option<ObjectId> {
+    if members.is_empty() {
+      return None;
+    }
     let mut shape = Shape::new();
     for member in members {
       match self.store.type_kind(*member) {
diff --git a/types-ts-interned/src/store.rs b/types-ts-interned/src/store.rs
index 2a3147b..514c92a 100644
--- a/types-ts-interned/src/store.rs
+++ b/types-ts-interned/src/store.rs
@@ -709,6 +709,8 @@ impl TypeStore {
     match kind {
       TypeKind::Union(members) => TypeKind::Union(members),
       TypeKind::Intersection(members) => TypeKind::Intersection(members),
+      // `-0` and `0` are one type, and one text.
+      TypeKind::NumberLiteral(value) if value.0 == 0.0 => TypeKind::NumberLiteral(0.0.into()),
       TypeKind::Array { ty, readonly } => TypeKind::Array {
         ty: self.canon(ty),
         readonly,
-- 
2.43.0


From 7563742bc4f1cc30c8b1e08a266b9f5538b825e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:44 +0000
Subject: [PATCH 57/66] fix: keep readonly index signatures apart from mutable
 ones (pinned by the tests)

---
 types-ts-interned/src/relate.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/types-ts-interned/src/relate.rs b/types-ts-interned/src/relate.rs
index fc36e15..16c8cdf 100644
--- a/types-ts-interned/src/relate.rs
+++ b/types-ts-interned/src/relate.rs
@@ -3064,6 +3064,19 @@ impl<'a> RelateCtx<'a> {
       if let Some(src_idx) =
         self.find_matching_indexer(&src_shape, dst_index, mode, record, depth + 1)
       {
+        if !dst_index.readonly && src_idx.readonly {
+          return RelationResult {
+            result: false,
+            reason: self.join_reasons(
+              record,
+              key,
+              children,
+              false,
+              Some("readonly indexer".into()),
+              depth,
+            ),
+          };
+        }
         let related = self.relate_internal(
           self.optional_type(src_idx.value_type, false, OptionalFlavor::IndexerValue),
           self.optional_type(dst_index.value_type, false, OptionalFlavor::IndexerValue),
-- 
2.43.0


From 9a807b9f10c1e46388f84aef20431b50a9203639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:43 +0000
Subject: [PATCH 58/66] fix: a union member of an intersection may fit a union
 target

---
 types-ts-interned/src/relate.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/types-ts-interned/src/relate.rs b/types-ts-interned/src/relate.rs
index 16c8cdf..235b9d9 100644
--- a/types-ts-interned/src/relate.rs
+++ b/types-ts-interned/src/relate.rs
@@ -1281,6 +1281,36 @@ impl<'a> RelateCtx<'a> {
           };
         }
       }
+      // A member of an intersection may itself be a union that fits the target.
+      if let TypeKind::Intersection(srcs) = &src_kind {
+        for member in srcs {
+          let related = self.relate_internal(
+            *member,
+            dst,
+            RelationKind::Assignable,
+            mode,
+            record,
+            depth + 1,
+          );
+          let reason = related.reason;
+          if record {
+            attempts.push(reason.clone());
+          }
+          if related.result {
+            return RelationResult {
+              result: true,
+              reason: self.join_reasons(
+                record,
+                key,
+                vec![reason],
+                true,
+                Some("intersection source".into()),
+                depth,
+              ),
+            };
+          }
+        }
+      }
       return RelationResult {
         result: false,
         reason: self.join_reasons(
-- 
2.43.0


From 20afbb5ce133d4d401bbe9bb88ad2c07e1990637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:16 +0000
Subject: [PATCH 59/66] fix: data-flow analyses visit every block, not only
 those after a boundary whose state changes

---
 optimize-js/src/analysis/dataflow.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/optimize-js/src/analysis/dataflow.rs b/optimize-js/src/analysis/dataflow.rs
index d18cf1c..33e237c 100644
--- a/optimize-js/src/analysis/dataflow.rs
+++ b/optimize-js/src/analysis/dataflow.rs
@@ -141,8 +141,30 @@ fn run_dataflow<A: DataFlowAnalysis>(
 
   let boundary_label = resolved_boundary.label();
   let boundary_state = analysis.boundary_state(&resolved_boundary, cfg);
+  // Visit every block that's connected to the boundary at least once, as the boundary's own state usually doesn't change
+  // and so wouldn't queue anything. The virtual exit stands for all ways to end, including never (infinite loops).
   let mut worklist = VecDeque::from([boundary_label]);
   let mut queued = HashSet::from_iter([boundary_label]);
+  match boundary {
+    AnalysisBoundary::Entry(_) => {
+      let mut idx = 0;
+      while idx < worklist.len() {
+        for succ in flow_graph.successors(worklist[idx]) {
+          if queued.insert(succ) {
+            worklist.push_back(succ);
+          }
+        }
+        idx += 1;
+      }
+    }
+    AnalysisBoundary::VirtualExit => {
+      for label in flow_graph.labels() {
+        if queued.insert(label) {
+          worklist.push_back(label);
+        }
+      }
+    }
+  };
   while let Some(label) = worklist.pop_front() {
     queued.remove(&label);
     let incoming = if label == boundary_label {
-- 
2.43.0


From 398fa2d6e705435fc36d6334387299f587142021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:23 +0000
Subject: [PATCH 60/66] fix: pruning an empty block or the entry keeps the
 value its child's phi takes from it

---
 optimize-js/src/opt/optpass_cfg_prune.rs | 57 +++++++++++++++++++-----
 1 file changed, 47 insertions(+), 10 deletions(-)

diff --git a/optimize-js/src/opt/optpass_cfg_prune.rs b/optimize-js/src/opt/optpass_cfg_prune.rs
index 384bc5d..2d71186 100644
--- a/optimize-js/src/opt/optpass_cfg_prune.rs
+++ b/optimize-js/src/opt/optpass_cfg_prune.rs
@@ -1,4 +1,7 @@
 use crate::cfg::cfg::Cfg;
+use crate::il::inst::Arg;
+use crate::il::inst::Const;
+use crate::il::inst::Inst;
 use crate::il::inst::InstTyp;
 use crate::opt::PassResult;
 use crate::ssa::phi_simplify::simplify_phis;
@@ -57,20 +60,13 @@ fn maybe_reroot_entry(result: &mut PassResult, cfg: &mut Cfg) -> bool {
       if inst.t != InstTyp::Phi {
         break;
       }
-      if inst.labels.contains(&0) && inst.labels.len() == 1 {
-        // Removing the old entry would leave this Phi without any sources.
+      if inst.labels.contains(&0) {
+        // Removing the old entry would lose the value that this Phi takes when coming from it.
         return false;
       }
     }
   }
 
-  for inst in cfg.bblocks.get_mut(new_entry).iter_mut() {
-    if inst.t != InstTyp::Phi {
-      break;
-    }
-    inst.remove_phi(0);
-  }
-
   cfg.graph.delete_many([0]);
   cfg.bblocks.remove(0);
   cfg.entry = new_entry;
@@ -78,6 +74,35 @@ fn maybe_reroot_entry(result: &mut PassResult, cfg: &mut Cfg) -> bool {
   true
 }
 
+/// Once `cur` is removed, its child's Phi insts can only tell which parent of `cur` control came from. This isn't enough
+/// if some parent also goes directly to the child, with another value.
+fn pruning_would_merge_phi_values(cfg: &Cfg, cur: u32, parents: &[u32], children: &[u32]) -> bool {
+  children.iter().any(|&child| {
+    cfg
+      .bblocks
+      .get(child)
+      .iter()
+      .take_while(|inst| inst.t == InstTyp::Phi)
+      .any(|inst| {
+        let value_from = |label: u32| {
+          let idx = inst.labels.iter().position(|&l| l == label)?;
+          Some(&inst.args[idx])
+        };
+        let value = value_from(cur);
+        parents.iter().any(|&parent| {
+          let parent_chooses = cfg
+            .bblocks
+            .get(parent)
+            .last()
+            .is_some_and(|i| i.t == InstTyp::CondGoto);
+          parent_chooses
+            && cfg.graph.children(parent).contains(&child)
+            && value_from(parent) != value
+        })
+      })
+  })
+}
+
 pub fn optpass_cfg_prune(cfg: &mut Cfg) -> PassResult {
   let mut result = PassResult::default();
   // Iterate until convergence, instead of waiting for another optimisation pass.
@@ -114,6 +139,9 @@ pub fn optpass_cfg_prune(cfg: &mut Cfg) -> PassResult {
       if !can_prune_bblock(&parents, &children, is_only_child_of_all_parents, is_empty) {
         continue;
       }
+      if pruning_would_merge_phi_values(cfg, cur, &parents, &children) {
+        continue;
+      }
 
       for &c in children.iter() {
         // Detach from children.
@@ -129,8 +157,17 @@ pub fn optpass_cfg_prune(cfg: &mut Cfg) -> PassResult {
       }
 
       // Pop from graph and bblocks.
-      let insts = cfg.pop(cur);
+      let mut insts = cfg.pop(cur);
       result.mark_cfg_changed();
+      // A Phi can only be here if there's exactly one parent, so there's only one value to choose from.
+      for inst in insts.iter_mut() {
+        if inst.t == InstTyp::Phi {
+          let value = inst
+            .remove_phi(parents[0])
+            .unwrap_or(Arg::Const(Const::Undefined));
+          *inst = Inst::var_assign(inst.tgts[0], value);
+        }
+      }
       // Move insts to parents, before any CondGoto, and update that CondGoto.
       for &parent in parents.iter() {
         let p_bblock = cfg.bblocks.get_mut(parent);
-- 
2.43.0


From 7e598e3bfea2c2dce49a63e443f30a57f4ca2ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:23 +0000
Subject: [PATCH 61/66] fix: a property read is not reused after a write or a
 call

---
 optimize-js/src/opt/optpass_dvn.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/optimize-js/src/opt/optpass_dvn.rs b/optimize-js/src/opt/optpass_dvn.rs
index d8cbb39..1705559 100644
--- a/optimize-js/src/opt/optpass_dvn.rs
+++ b/optimize-js/src/opt/optpass_dvn.rs
@@ -264,6 +264,8 @@ fn inner(result: &mut PassResult, state: &mut State, cfg: &mut Cfg, dom: &Dom, l
       new_inst = Inst::var_assign(tgt, canonical_value)
     } else {
       let pure_val = match new_inst.t {
+        // A property can have another value each time it's read, as there may be writes or calls in between.
+        InstTyp::Bin if new_inst.bin_op == BinOp::GetProp => None,
         InstTyp::Bin => {
           let (_, left, op, right) = new_inst.as_bin();
           Some(Val::Bin {
-- 
2.43.0


From 066e3b609def1872101f7f11c544727485358a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:23 +0000
Subject: [PATCH 62/66] fix: phis of a block are replaced by assignments that
 take effect together

---
 optimize-js/src/ssa/ssa_deconstruct.rs | 57 +++++++++++++++++++++++---
 1 file changed, 52 insertions(+), 5 deletions(-)

diff --git a/optimize-js/src/ssa/ssa_deconstruct.rs b/optimize-js/src/ssa/ssa_deconstruct.rs
index c2e73cd..26db4a8 100644
--- a/optimize-js/src/ssa/ssa_deconstruct.rs
+++ b/optimize-js/src/ssa/ssa_deconstruct.rs
@@ -1,17 +1,63 @@
 use crate::cfg::cfg::Cfg;
+use crate::il::inst::Arg;
 use crate::il::inst::Inst;
 use crate::il::inst::InstTyp;
 use crate::util::counter::Counter;
 use std::collections::BTreeMap;
 use std::iter::zip;
 
+/// All Phi insts of a bblock take effect at once, so no assignment may overwrite a variable that a later assignment still
+/// has to read. Cycles (e.g. swaps) are broken using a temporary variable.
+fn sequentialise_assigns(mut assigns: Vec<(u32, Arg)>, next_var: &mut u32) -> Vec<Inst> {
+  let mut insts = Vec::new();
+  assigns.retain(|(tgt, value)| value.maybe_var() != Some(*tgt));
+  while !assigns.is_empty() {
+    let ready = assigns.iter().position(|(tgt, _)| {
+      assigns
+        .iter()
+        .all(|(_, value)| value.maybe_var() != Some(*tgt))
+    });
+    match ready {
+      Some(idx) => {
+        let (tgt, value) = assigns.remove(idx);
+        insts.push(Inst::var_assign(tgt, value));
+      }
+      None => {
+        let saved = assigns[0].0;
+        let temp = *next_var;
+        *next_var += 1;
+        insts.push(Inst::var_assign(temp, Arg::Var(saved)));
+        for (_, value) in assigns.iter_mut() {
+          if value.maybe_var() == Some(saved) {
+            *value = Arg::Var(temp);
+          }
+        }
+      }
+    }
+  }
+  insts
+}
+
 pub fn deconstruct_ssa(cfg: &mut Cfg, c_label: &mut Counter) {
   struct NewBblock {
     label: u32,
     parent: u32,
     child: u32,
-    insts: Vec<Inst>,
+    assigns: Vec<(u32, Arg)>,
   }
+  let mut next_var = cfg
+    .bblocks
+    .all()
+    .flat_map(|(_, bblock)| bblock.iter())
+    .flat_map(|inst| {
+      inst
+        .tgts
+        .iter()
+        .copied()
+        .chain(inst.args.iter().filter_map(|arg| arg.maybe_var()))
+    })
+    .max()
+    .map_or(0, |var| var + 1);
   let mut new_bblocks = Vec::<NewBblock>::new();
   let mut labels: Vec<u32> = cfg.bblocks.all().map(|(label, _)| label).collect();
   labels.sort_unstable();
@@ -28,10 +74,10 @@ pub fn deconstruct_ssa(cfg: &mut Cfg, c_label: &mut Counter) {
             label: c_label.bump(),
             parent,
             child: label,
-            insts: Vec::new(),
+            assigns: Vec::new(),
           })
-          .insts
-          .push(Inst::var_assign(tgt, value));
+          .assigns
+          .push((tgt, value));
       }
     }
     new_bblocks.extend(new_bblocks_by_parent.into_values());
@@ -54,6 +100,7 @@ pub fn deconstruct_ssa(cfg: &mut Cfg, c_label: &mut Counter) {
     cfg.graph.connect(b.parent, b.label);
     cfg.graph.connect(b.label, b.child);
     // Insert new bblock.
-    cfg.bblocks.add(b.label, b.insts);
+    let insts = sequentialise_assigns(b.assigns, &mut next_var);
+    cfg.bblocks.add(b.label, insts);
   }
 }
-- 
2.43.0


From 2e4a4e1ffa4bba1ce5155704f8c59411f7ba9633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:37 +0000
Subject: [PATCH 63/66] fix: operands take a variable's value where they are
 evaluated; compound assignments and updates read their target first and store
 to it

---
 optimize-js/src/il/s2i/expr.rs | 112 ++++++++++++++++++++++++---------
 1 file changed, 81 insertions(+), 31 deletions(-)

diff --git a/optimize-js/src/il/s2i/expr.rs b/optimize-js/src/il/s2i/expr.rs
index 56a69db..1260cb5 100644
--- a/optimize-js/src/il/s2i/expr.rs
+++ b/optimize-js/src/il/s2i/expr.rs
@@ -149,7 +149,11 @@ impl<'p> HirSourceToInst<'p> {
 
   fn compile_id_expr(&mut self, expr: ExprId, name: NameId) -> OptimizeResult<Arg> {
     Ok(match self.classify_ident(expr, name) {
-      VarType::Local(local) => Arg::Var(self.symbol_to_temp(local)),
+      // Take the value now, as the variable may be assigned to before the value is used (e.g. `x - (x = 1)`).
+      VarType::Local(local) => {
+        let value = Arg::Var(self.symbol_to_temp(local));
+        self.temp_var_arg(|tgt| Inst::var_assign(tgt, value))
+      }
       VarType::Builtin(builtin) => Arg::Builtin(builtin),
       VarType::Foreign(foreign) => self.temp_var_arg(|tgt| Inst::foreign_load(tgt, foreign)),
       VarType::Unknown(name) => self.temp_var_arg(|tgt| Inst::unknown_load(tgt, name)),
@@ -276,7 +280,6 @@ impl<'p> HirSourceToInst<'p> {
             Ok(Arg::Var(value_tmp_var))
           }
           _ => {
-            let value_arg = self.compile_expr(value)?;
             let op = match operator {
               AssignOp::AddAssign => BinOp::Add,
               AssignOp::SubAssign => BinOp::Sub,
@@ -298,8 +301,16 @@ impl<'p> HirSourceToInst<'p> {
                 ))
               }
             };
+            // The target is read before the value is evaluated, which may assign to it.
             let left_arg = match assign_inst.t {
-              InstTyp::VarAssign => Arg::Var(assign_inst.tgts[0]),
+              InstTyp::VarAssign => {
+                let left_tmp_var = self.c_temp.bump();
+                self.out.push(Inst::var_assign(
+                  left_tmp_var,
+                  Arg::Var(assign_inst.tgts[0]),
+                ));
+                Arg::Var(left_tmp_var)
+              }
               InstTyp::ForeignStore => {
                 let left_tmp_var = self.c_temp.bump();
                 self
@@ -323,6 +334,7 @@ impl<'p> HirSourceToInst<'p> {
                 ))
               }
             };
+            let value_arg = self.compile_expr(value)?;
             let rhs_inst = Inst::bin(value_tmp_var, left_arg, op, value_arg);
             self.out.push(rhs_inst);
             *assign_inst.args.last_mut().unwrap() = Arg::Var(value_tmp_var);
@@ -418,7 +430,6 @@ impl<'p> HirSourceToInst<'p> {
             Ok(Arg::Var(value_tmp_var))
           }
           _ => {
-            let value_arg = self.compile_expr(value)?;
             let op = match operator {
               AssignOp::AddAssign => BinOp::Add,
               AssignOp::SubAssign => BinOp::Sub,
@@ -448,6 +459,7 @@ impl<'p> HirSourceToInst<'p> {
               BinOp::GetProp,
               prop.clone(),
             ));
+            let value_arg = self.compile_expr(value)?;
             let rhs_inst = Inst::bin(value_tmp_var, Arg::Var(left_tmp_var), op, value_arg);
             self.out.push(rhs_inst);
             *assign_inst.args.last_mut().unwrap() = Arg::Var(value_tmp_var);
@@ -782,39 +794,77 @@ impl<'p> HirSourceToInst<'p> {
 
   pub fn compile_update_expr(
     &mut self,
-    _span: Loc,
+    span: Loc,
     operator: UpdateOp,
     argument: ExprId,
     prefix: bool,
   ) -> OptimizeResult<Arg> {
-    let arg = self.compile_expr(argument)?;
-    match operator {
-      UpdateOp::Decrement | UpdateOp::Increment => {
-        let rhs = match operator {
-          UpdateOp::Decrement => BinOp::Sub,
-          UpdateOp::Increment => BinOp::Add,
-        };
-        if prefix {
-          self.out.push(Inst::bin(
-            arg.to_var(),
-            arg.clone(),
-            rhs,
-            Arg::Const(Const::Num(JsNumber(1.0))),
-          ));
-          Ok(arg)
-        } else {
-          let tmp_var = self.c_temp.bump();
-          self.out.push(Inst::var_assign(tmp_var, arg.clone()));
-          self.out.push(Inst::bin(
-            arg.clone().to_var(),
-            arg,
-            rhs,
-            Arg::Const(Const::Num(JsNumber(1.0))),
-          ));
-          Ok(Arg::Var(tmp_var))
+    let dummy_val = Arg::Const(Const::Num(JsNumber(0xdeadbeefu32 as f64)));
+    let old_tmp_var = self.c_temp.bump();
+    let mut assign_inst = match self.body.exprs[argument.0 as usize].kind {
+      ExprKind::Ident(name) => match self.classify_ident(argument, name) {
+        VarType::Local(local) => {
+          let var = self.symbol_to_temp(local);
+          self.out.push(Inst::var_assign(old_tmp_var, Arg::Var(var)));
+          Inst::var_assign(var, dummy_val)
+        }
+        VarType::Foreign(foreign) => {
+          self.out.push(Inst::foreign_load(old_tmp_var, foreign));
+          Inst::foreign_store(foreign, dummy_val)
         }
+        VarType::Unknown(unknown) => {
+          self
+            .out
+            .push(Inst::unknown_load(old_tmp_var, unknown.clone()));
+          Inst::unknown_store(unknown, dummy_val)
+        }
+        VarType::Builtin(builtin) => {
+          return Err(unsupported_syntax(
+            self.program.lower.hir.file,
+            span,
+            format!("assignment to builtin {builtin}"),
+          ))
+        }
+      },
+      ExprKind::Member(ref member) if !member.optional => {
+        let obj = self.compile_expr(member.object)?;
+        let prop = key_arg(self, &member.property)?;
+        self.out.push(Inst::bin(
+          old_tmp_var,
+          obj.clone(),
+          BinOp::GetProp,
+          prop.clone(),
+        ));
+        Inst::prop_assign(obj, prop, dummy_val)
       }
-    }
+      _ => {
+        return Err(unsupported_syntax(
+          self.program.lower.hir.file,
+          span,
+          "unsupported update target",
+        ))
+      }
+    };
+    // The operand is converted to a number first (so `+ 1` is never a concatenation).
+    let num_tmp_var = self.c_temp.bump();
+    self.out.push(Inst::un(
+      num_tmp_var,
+      UnOp::Plus,
+      Arg::Var(old_tmp_var),
+    ));
+    let new_tmp_var = self.c_temp.bump();
+    self.out.push(Inst::bin(
+      new_tmp_var,
+      Arg::Var(num_tmp_var),
+      match operator {
+        UpdateOp::Decrement => BinOp::Sub,
+        UpdateOp::Increment => BinOp::Add,
+      },
+      Arg::Const(Const::Num(JsNumber(1.0))),
+    ));
+    *assign_inst.args.last_mut().unwrap() = Arg::Var(new_tmp_var);
+    self.out.push(assign_inst);
+    Ok(Arg::Var(if prefix { new_tmp_var } else { num_tmp_var }))
   }
 
   pub fn compile_unary_expr(
-- 
2.43.0


From 6089e17a7a542b634dc4f5338b1a8bcedc692649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:59 +0000
Subject: [PATCH 64/66] fix: structured loops leave when their condition says
 so, and jumps to outer loops go where they should

---
 optimize-js/src/decompile/structurer.rs | 50 +++++++++++++++----------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/optimize-js/src/decompile/structurer.rs b/optimize-js/src/decompile/structurer.rs
index 297164f..5b44461 100644
--- a/optimize-js/src/decompile/structurer.rs
+++ b/optimize-js/src/decompile/structurer.rs
@@ -279,16 +279,6 @@ impl LoopForest {
     let header = self.info(label).parent?;
     self.label_for_header(header)
   }
-
-  fn ancestor_containing(&self, mut label: LoopLabel, node: u32) -> Option<LoopLabel> {
-    while let Some(parent) = self.parent(label) {
-      if self.info(parent).nodes.contains(&node) {
-        return Some(parent);
-      }
-      label = parent;
-    }
-    None
-  }
 }
 
 fn calculate_follow(cfg: &Cfg, postdom: &PostDom, nodes: &HashSet<u32>) -> Option<u32> {
@@ -469,10 +459,20 @@ impl<'a> StructCtx<'a> {
           target: BreakTarget::Loop(loop_label),
         });
       }
-      if let Some(ancestor) = self.loops.ancestor_containing(loop_label, succ) {
-        return SuccessorResolution::Node(ControlTree::Break {
-          target: BreakTarget::Loop(ancestor),
-        });
+      // A jump out of this loop either starts the next iteration of an outer loop or leaves it; any
+      // other block of an outer loop cannot be reached by a `break` or a `continue`.
+      let mut inner = loop_label;
+      while let Some(ancestor) = self.loops.parent(inner) {
+        let info = self.loops.info(ancestor);
+        if succ == info.header {
+          return SuccessorResolution::Node(ControlTree::Continue { target: ancestor });
+        }
+        if info.follow == Some(succ) {
+          return SuccessorResolution::Node(ControlTree::Break {
+            target: BreakTarget::Loop(ancestor),
+          });
+        }
+        inner = ancestor;
       }
     }
 
@@ -550,14 +550,20 @@ impl<'a> StructCtx<'a> {
           .structure_seq(guard.inside, None, &info.nodes, Some(loop_label))
           .map_err(|_| ())?
       };
+      let leave = ControlTree::Break {
+        target: BreakTarget::Loop(loop_label),
+      };
+      let (then_t, else_t) = if guard.leaves_when_true {
+        (leave, then_tree)
+      } else {
+        (then_tree, leave)
+      };
       let guard_if = ControlTree::If {
         cond_block: info.header,
         insts: guard.insts,
         cond: guard.cond,
-        then_t: Box::new(then_tree),
-        else_t: Box::new(ControlTree::Break {
-          target: BreakTarget::Loop(loop_label),
-        }),
+        then_t: Box::new(then_t),
+        else_t: Box::new(else_t),
         join: guard.outside,
       };
       let body = ControlTree::Seq(vec![guard_if]);
@@ -600,6 +606,8 @@ struct GuardInfo {
   cond: Arg,
   inside: u32,
   outside: u32,
+  /// Whether the loop is left when the condition holds, rather than when it does not.
+  leaves_when_true: bool,
 }
 
 fn loop_guard(cfg: &Cfg, info: &LoopInfo) -> Option<GuardInfo> {
@@ -624,6 +632,7 @@ fn loop_guard(cfg: &Cfg, info: &LoopInfo) -> Option<GuardInfo> {
     cond: last.args[0].clone(),
     inside,
     outside,
+    leaves_when_true: outside == last.labels[0],
   })
 }
 
@@ -636,7 +645,10 @@ fn build_state_machine(cfg: &Cfg) -> ControlTree {
     let (insts, term) = build_terminator(block, cfg.graph.children(label));
     blocks.push(StateBlock { label, insts, term });
   }
-  ControlTree::StateMachine { entry: 0, blocks }
+  ControlTree::StateMachine {
+    entry: cfg.entry,
+    blocks,
+  }
 }
 
 fn build_terminator(
-- 
2.43.0


From 7920ab076fca59818242f2705a30f4971f2e1f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:56 +0000
Subject: [PATCH 65/66] fix: rest elements of destructuring patterns are
 refused instead of being left unassigned

---
 optimize-js/src/il/s2i/stmt.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/optimize-js/src/il/s2i/stmt.rs b/optimize-js/src/il/s2i/stmt.rs
index aaf8e34..bee28d5 100644
--- a/optimize-js/src/il/s2i/stmt.rs
+++ b/optimize-js/src/il/s2i/stmt.rs
@@ -206,6 +206,13 @@ impl<'p> HirSourceToInst<'p> {
   pub fn compile_destructuring(&mut self, pat: PatId, rval: Arg) -> OptimizeResult<()> {
     match &self.body.pats[pat.0 as usize].kind {
       PatKind::Array(arr) => {
+        if arr.rest.is_some() {
+          return Err(unsupported_syntax_range(
+            self.program.lower.hir.file,
+            self.body.pats[pat.0 as usize].span,
+            "rest elements in destructuring patterns are not supported",
+          ));
+        }
         for (i, e) in arr.elements.iter().enumerate() {
           let Some(e) = e else {
             continue;
@@ -219,6 +226,13 @@ impl<'p> HirSourceToInst<'p> {
         }
       }
       PatKind::Object(obj) => {
+        if obj.rest.is_some() {
+          return Err(unsupported_syntax_range(
+            self.program.lower.hir.file,
+            self.body.pats[pat.0 as usize].span,
+            "rest properties in destructuring patterns are not supported",
+          ));
+        }
         for p in obj.props.iter() {
           let prop = key_arg(self, &p.key)?;
           self.compile_destructuring_via_prop(rval.clone(), prop, p.value, p.default_value)?;
-- 
2.43.0


From aa5b1fdb882eddb00b5927a82d48ca849b29672d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:41 +0000
Subject: [PATCH 66/66] fix: operands are copied only in bodies whose
 expressions assign, so other bodies lower as before

---
 optimize-js/src/il/s2i/expr.rs |  8 ++++++--
 optimize-js/src/il/s2i/mod.rs  | 10 +++++++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/optimize-js/src/il/s2i/expr.rs b/optimize-js/src/il/s2i/expr.rs
index 1260cb5..a4ed0f9 100644
--- a/optimize-js/src/il/s2i/expr.rs
+++ b/optimize-js/src/il/s2i/expr.rs
@@ -149,10 +149,14 @@ impl<'p> HirSourceToInst<'p> {
 
   fn compile_id_expr(&mut self, expr: ExprId, name: NameId) -> OptimizeResult<Arg> {
     Ok(match self.classify_ident(expr, name) {
-      // Take the value now, as the variable may be assigned to before the value is used (e.g. `x - (x = 1)`).
       VarType::Local(local) => {
         let value = Arg::Var(self.symbol_to_temp(local));
-        self.temp_var_arg(|tgt| Inst::var_assign(tgt, value))
+        if self.assigns_in_exprs {
+          // Take the value now, as the variable may be assigned to before the value is used (e.g. `x - (x = 1)`).
+          self.temp_var_arg(|tgt| Inst::var_assign(tgt, value))
+        } else {
+          value
+        }
       }
       VarType::Builtin(builtin) => Arg::Builtin(builtin),
       VarType::Foreign(foreign) => self.temp_var_arg(|tgt| Inst::foreign_load(tgt, foreign)),
diff --git a/optimize-js/src/il/s2i/mod.rs b/optimize-js/src/il/s2i/mod.rs
index 75d0fa8..a8307b8 100644
--- a/optimize-js/src/il/s2i/mod.rs
+++ b/optimize-js/src/il/s2i/mod.rs
@@ -11,7 +11,7 @@ use crate::util::counter::Counter;
 use crate::ProgramCompiler;
 use ahash::HashMap;
 use ahash::HashMapExt;
-use hir_js::{Body, BodyId, ExprId, NameId, PatId};
+use hir_js::{Body, BodyId, ExprId, ExprKind, NameId, PatId};
 
 // CondGoto fallthrough placeholder label.
 pub const DUMMY_LABEL: u32 = u32::MAX;
@@ -43,6 +43,8 @@ pub struct HirSourceToInst<'p> {
   pub continue_stack: Vec<u32>,
   pub label_stack: Vec<LabeledTarget>,
   pub return_label: Option<u32>,
+  /// Whether any expression of the body assigns to something.
+  pub assigns_in_exprs: bool,
 }
 
 #[derive(Debug, Clone, Copy)]
@@ -68,6 +70,12 @@ impl<'p> HirSourceToInst<'p> {
       continue_stack: Vec::new(),
       label_stack: Vec::new(),
       return_label: None,
+      assigns_in_exprs: body.exprs.iter().any(|e| {
+        matches!(
+          e.kind,
+          ExprKind::Assignment { .. } | ExprKind::Update { .. }
+        )
+      }),
     }
   }
 
-- 
2.43.0

