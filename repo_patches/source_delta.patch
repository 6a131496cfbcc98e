From 29489459ed77cf5ad030b2ecc62e32442907f372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:47 +0000
Subject: [PATCH 01/45] fix: accept digit separators in signed hex floats and
 NaN payloads

---
 crates/parser/src/parser/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parser/src/parser/token.rs b/crates/parser/src/parser/token.rs
index c972ad0..246afff 100644
--- a/crates/parser/src/parser/token.rs
+++ b/crates/parser/src/parser/token.rs
@@ -266,7 +266,7 @@ fn float_impl<'s>(input: &mut Input<'s>) -> PResult<&'s str, SyntaxError> {
     )
         .take()
         .verify(|text: &str| {
-            let is_hex = text.starts_with("0x");
+            let is_hex = text.contains("0x");
             let mut chars = text.chars();
             while let Some(c) = chars.next() {
                 if c == '_'
-- 
2.43.0


From 77c0bb8a56f8cc27f58242e96018a92210479a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:50 +0000
Subject: [PATCH 02/45] fix: don't panic on unterminated nested block comments

A nested block comment that isn't terminated made the inner parser
succeed without consuming anything, which winnow reports as an
unrecoverable error, so the whole parse panicked.
---
 crates/parser/src/parser/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parser/src/parser/token.rs b/crates/parser/src/parser/token.rs
index 246afff..b475b25 100644
--- a/crates/parser/src/parser/token.rs
+++ b/crates/parser/src/parser/token.rs
@@ -115,7 +115,7 @@ fn block_comment_impl<'s>(input: &mut Input<'s>) -> PResult<&'s str, SyntaxError
             (
                 take_until(0.., ("(;", ";)")),
                 dispatch! {peek(opt("(;"));
-                    Some(..) => opt(block_comment_impl).void(),
+                    Some(..) => block_comment_impl.void(),
                     None => empty,
                 },
             ),
-- 
2.43.0


From fe0d3eba37267eefade1112ef72ba464ba219dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:50 +0000
Subject: [PATCH 03/45] fix: don't drop source text after form feeds or
 malformed strings

Neither of them was accepted as whitespace or as an error token, so the
parser stopped there and the rest of the document was missing in the tree.
---
 crates/parser/src/parser/token.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/parser/src/parser/token.rs b/crates/parser/src/parser/token.rs
index b475b25..69454f7 100644
--- a/crates/parser/src/parser/token.rs
+++ b/crates/parser/src/parser/token.rs
@@ -293,13 +293,18 @@ pub(super) fn error_token<'s>(
         '$' => ('$', take_while(0.., is_id_char)).take(),
         '(' | ')' if allow_parens => alt(("(", ")")),
         '(' | ')' => fail,
-        '"' => string_impl,
+        '"' => alt((string_impl, take_till(1.., is_error_token_boundary))),
         c if is_id_char(c) => take_while(1.., is_id_char),
-        _ => take_till(1.., |c: char| c == '(' || c == ')' || c.is_ascii_whitespace()),
+        _ => take_till(1.., is_error_token_boundary),
     }
     .map(|text| tok(ERROR, text))
 }
 
+fn is_error_token_boundary(c: char) -> bool {
+    // whitespaces here must be those that `ws` accepts
+    matches!(c, '(' | ')' | ' ' | '\t' | '\r' | '\n')
+}
+
 pub(super) fn error_term<'s, const N: usize>(
     allowed_names: [&'static str; N],
 ) -> impl Parser<Input<'s>, Vec<GreenElement>, SyntaxError> {
-- 
2.43.0


From c8b20e1514ef716ed3e388b67c0535a603643e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:10 +0000
Subject: [PATCH 04/45] fix: never report syntax errors that end before they
 start

---
 crates/parser/src/error.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/parser/src/error.rs b/crates/parser/src/error.rs
index 646c727..91f360b 100644
--- a/crates/parser/src/error.rs
+++ b/crates/parser/src/error.rs
@@ -29,7 +29,8 @@ impl FromRecoverableError<Input<'_>, SyntaxError> for SyntaxError {
         input: &Input,
         mut e: SyntaxError,
     ) -> Self {
-        e.end = input.location();
+        // input may have been rewound before the place where the error happened
+        e.end = input.location().max(e.start);
         e
     }
 }
-- 
2.43.0


From 692ea2a84e3d6ed697fa5398d4bdf0727a763bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:25 +0000
Subject: [PATCH 05/45] fix: report unexpected tokens after the last module

---
 crates/parser/src/parser/mod.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/crates/parser/src/parser/mod.rs b/crates/parser/src/parser/mod.rs
index 4d42126..f8a9c49 100644
--- a/crates/parser/src/parser/mod.rs
+++ b/crates/parser/src/parser/mod.rs
@@ -43,7 +43,25 @@ impl<'s> Parser<'s> {
     pub fn parse_to_green(&mut self) -> GreenNode {
         let (_, tree, errors) = root.recoverable_parse(*self.input);
         self.errors = errors;
-        tree.expect("parser should always succeed even if there are syntax errors")
+        let tree = tree.expect("parser should always succeed even if there are syntax errors");
+        if self.errors.is_empty() {
+            // tokens following the last module aren't reported when parsing,
+            // since they're often caused by syntax errors which are already reported
+            let mut start = 0;
+            for child in tree.children() {
+                let end = start + usize::from(child.text_len());
+                if child.kind() == SyntaxKind::ERROR.into() {
+                    self.errors.push(SyntaxError {
+                        start,
+                        end,
+                        message: StrContext::Label("unexpected token"),
+                    });
+                    break;
+                }
+                start = end;
+            }
+        }
+        tree
     }
 
     /// Retrieve syntax errors.
-- 
2.43.0


From b0f6d7a61a9ae72fa35f9612fcdcc48910f7d525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:16 +0000
Subject: [PATCH 06/45] fix: avoid exponential parsing time on unclosed blocks

At the end of input, an unclosed unfolded block failed as a whole and then
its body was parsed once more for each level of nesting.
---
 crates/parser/src/parser/instr.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/crates/parser/src/parser/instr.rs b/crates/parser/src/parser/instr.rs
index 306794d..163cfd6 100644
--- a/crates/parser/src/parser/instr.rs
+++ b/crates/parser/src/parser/instr.rs
@@ -11,7 +11,7 @@ use super::{
 use crate::error::SyntaxError;
 use wat_syntax::SyntaxKind::*;
 use winnow::{
-    combinator::{alt, dispatch, fail, opt, peek, preceded, repeat, repeat_till},
+    combinator::{alt, dispatch, eof, fail, opt, peek, preceded, repeat, repeat_till},
     error::{StrContext, StrContextValue},
     token::any,
     Parser,
@@ -48,7 +48,10 @@ fn block_block(input: &mut Input) -> GreenResult {
             repeat_till::<_, _, Vec<_>, _, _, _, _>(
                 0..,
                 retry_once(instr, []),
-                peek((trivias, alt((word.verify(|word: &str| word == "end"), ")")))),
+                peek((
+                    trivias,
+                    alt((word.verify(|word: &str| word == "end"), ")", eof)),
+                )),
             ),
             must(trivias_prefixed(keyword("end"))),
             opt(trivias_prefixed(ident)),
@@ -118,7 +121,10 @@ fn block_loop(input: &mut Input) -> GreenResult {
             repeat_till::<_, _, Vec<_>, _, _, _, _>(
                 0..,
                 retry_once(instr, []),
-                peek((trivias, alt((word.verify(|word: &str| word == "end"), ")")))),
+                peek((
+                    trivias,
+                    alt((word.verify(|word: &str| word == "end"), ")", eof)),
+                )),
             ),
             must(trivias_prefixed(keyword("end"))),
             opt(trivias_prefixed(ident)),
@@ -190,7 +196,7 @@ fn block_if(input: &mut Input) -> GreenResult {
                 retry_once(instr, []),
                 peek((
                     trivias,
-                    alt((word.verify(|word| matches!(word, "end" | "else")), ")")),
+                    alt((word.verify(|word| matches!(word, "end" | "else")), ")", eof)),
                 )),
             ),
             opt((
@@ -200,7 +206,10 @@ fn block_if(input: &mut Input) -> GreenResult {
                 repeat_till::<_, _, Vec<_>, _, _, _, _>(
                     0..,
                     retry_once(instr, []),
-                    peek((trivias, alt((word.verify(|word: &str| word == "end"), ")")))),
+                    peek((
+                        trivias,
+                        alt((word.verify(|word: &str| word == "end"), ")", eof)),
+                    )),
                 ),
             )),
             must(trivias_prefixed(keyword("end"))),
-- 
2.43.0


From ea02781b182ac58283db3fd0ed726be554a2a249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:17 +0000
Subject: [PATCH 07/45] fix: keep `shared` and `unshared` of memory limits when
 formatting

---
 crates/formatter/src/printer/ty.rs | 9 +++++++++
 crates/syntax/src/ast/ty.rs        | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/crates/formatter/src/printer/ty.rs b/crates/formatter/src/printer/ty.rs
index 688adc5..33e02da 100644
--- a/crates/formatter/src/printer/ty.rs
+++ b/crates/formatter/src/printer/ty.rs
@@ -85,6 +85,15 @@ impl DocGen for Limits {
                 docs.append(&mut trivias);
             }
             docs.push(Doc::text(max.to_string()));
+            trivias = format_trivias_after_token(max, ctx);
+        }
+        if let Some(share) = self.share() {
+            if trivias.is_empty() {
+                docs.push(Doc::space());
+            } else {
+                docs.append(&mut trivias);
+            }
+            docs.push(Doc::text(share.to_string()));
         }
         Doc::list(docs)
     }
diff --git a/crates/syntax/src/ast/ty.rs b/crates/syntax/src/ast/ty.rs
index e05474a..e411e27 100644
--- a/crates/syntax/src/ast/ty.rs
+++ b/crates/syntax/src/ast/ty.rs
@@ -128,6 +128,10 @@ impl Limits {
             })
             .nth(1)
     }
+    #[inline]
+    pub fn share(&self) -> Option<SyntaxToken> {
+        token(&self.syntax, SyntaxKind::SHARE)
+    }
 }
 impl AstNode for Limits {
     type Language = WatLanguage;
-- 
2.43.0


From 290a86477b85cb6105891db68c9b89e9a5295646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:01 +0000
Subject: [PATCH 08/45] fix: keep comments before results and in unfolded `if`
 when formatting

Comments between params and results of a type use without index, and those
before the first instruction of an unfolded `if`, were discarded.
---
 crates/formatter/src/printer/instr.rs  |  3 ++-
 crates/formatter/src/printer/mod.rs    | 10 +++++++---
 crates/formatter/src/printer/module.rs |  4 ++--
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/formatter/src/printer/instr.rs b/crates/formatter/src/printer/instr.rs
index 82fb6a7..6e8217f 100644
--- a/crates/formatter/src/printer/instr.rs
+++ b/crates/formatter/src/printer/instr.rs
@@ -207,7 +207,8 @@ impl DocGen for BlockIfElse {
 impl DocGen for BlockIfThen {
     fn doc(&self, ctx: &Ctx) -> Doc<'static> {
         let mut docs = Vec::with_capacity(2);
-        let mut trivias = vec![];
+        // there're no parens or keyword in unfolded form, so trivias may come first
+        let mut trivias = format_leading_trivias(self.syntax(), ctx);
         if let Some(l_paren) = self.l_paren_token() {
             docs.push(Doc::text("("));
             trivias = format_trivias_after_token(l_paren, ctx);
diff --git a/crates/formatter/src/printer/mod.rs b/crates/formatter/src/printer/mod.rs
index 2a918a8..f097114 100644
--- a/crates/formatter/src/printer/mod.rs
+++ b/crates/formatter/src/printer/mod.rs
@@ -201,9 +201,13 @@ where
     docs
 }
 fn format_trivias_after_token(token: SyntaxToken, ctx: &Ctx) -> Vec<Doc<'static>> {
-    let trivias = token
-        .siblings_with_tokens(Direction::Next)
-        .skip(1)
+    format_trivias(token.siblings_with_tokens(Direction::Next).skip(1), ctx)
+}
+fn format_leading_trivias(node: &SyntaxNode, ctx: &Ctx) -> Vec<Doc<'static>> {
+    format_trivias(node.children_with_tokens(), ctx)
+}
+fn format_trivias(elements: impl Iterator<Item = SyntaxElement>, ctx: &Ctx) -> Vec<Doc<'static>> {
+    let trivias = elements
         .map_while(|element| match element {
             SyntaxElement::Token(token)
                 if matches!(
diff --git a/crates/formatter/src/printer/module.rs b/crates/formatter/src/printer/module.rs
index d211a12..946692b 100644
--- a/crates/formatter/src/printer/module.rs
+++ b/crates/formatter/src/printer/module.rs
@@ -1220,7 +1220,7 @@ impl DocGen for TypeUse {
         if let Some(param) = params.next() {
             if trivias.is_empty() && !docs.is_empty() {
                 docs.push(Doc::soft_line().nest(ctx.indent_width));
-            } else if self.l_paren_token().is_some() {
+            } else {
                 docs.append(&mut trivias);
             }
             docs.push(param.doc(ctx));
@@ -1239,7 +1239,7 @@ impl DocGen for TypeUse {
         if let Some(result) = results.next() {
             if trivias.is_empty() && !docs.is_empty() {
                 docs.push(Doc::space());
-            } else if self.l_paren_token().is_some() {
+            } else {
                 docs.append(&mut trivias);
             }
             docs.push(result.doc(ctx));
-- 
2.43.0


From 396cafd8edd9d8468ade9cedbb610a003e9e74f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:52 +0000
Subject: [PATCH 09/45] fix: format abbreviated offsets and element expressions
 stably after comments

---
 crates/formatter/src/printer/module.rs | 44 ++++++++++----------------
 1 file changed, 16 insertions(+), 28 deletions(-)

diff --git a/crates/formatter/src/printer/module.rs b/crates/formatter/src/printer/module.rs
index 946692b..027daa0 100644
--- a/crates/formatter/src/printer/module.rs
+++ b/crates/formatter/src/printer/module.rs
@@ -53,17 +53,12 @@ impl DocGen for Elem {
             trivias = format_trivias_after_node(index, ctx);
         });
         self.elem_exprs().for_each(|elem_expr| {
-            let has_keyword = elem_expr.keyword().is_some();
-            if trivias.is_empty() && has_keyword {
+            if trivias.is_empty() {
                 docs.push(Doc::hard_line().nest(ctx.indent_width));
             } else {
                 docs.append(&mut trivias);
             }
-            if has_keyword {
-                docs.push(elem_expr.doc(ctx).nest(ctx.indent_width));
-            } else {
-                docs.push(elem_expr.doc(ctx));
-            }
+            docs.push(elem_expr.doc(ctx).nest(ctx.indent_width));
             trivias = format_trivias_after_node(elem_expr, ctx);
         });
         docs.append(&mut trivias);
@@ -74,6 +69,10 @@ impl DocGen for Elem {
 
 impl DocGen for ElemExpr {
     fn doc(&self, ctx: &Ctx) -> Doc<'static> {
+        if self.l_paren_token().is_none() {
+            // abbreviated form: there's only one instruction
+            return Doc::list(self.instrs().map(|instr| instr.doc(ctx)).collect());
+        }
         let mut docs = Vec::with_capacity(2);
         let mut trivias = vec![];
         if let Some(l_paren) = self.l_paren_token() {
@@ -130,17 +129,12 @@ impl DocGen for ElemList {
             trivias = format_trivias_after_token(ref_type, ctx);
         }
         self.elem_exprs().for_each(|elem_expr| {
-            let has_keyword = elem_expr.keyword().is_some();
-            if trivias.is_empty() && has_keyword {
+            if trivias.is_empty() {
                 docs.push(Doc::hard_line().nest(ctx.indent_width));
             } else {
                 docs.append(&mut trivias);
             }
-            if has_keyword {
-                docs.push(elem_expr.doc(ctx).nest(ctx.indent_width));
-            } else {
-                docs.push(elem_expr.doc(ctx));
-            }
+            docs.push(elem_expr.doc(ctx).nest(ctx.indent_width));
             trivias = format_trivias_after_node(elem_expr, ctx);
         });
         docs.append(&mut trivias);
@@ -573,17 +567,12 @@ impl DocGen for ModuleFieldData {
             trivias = format_trivias_after_node(mem_use, ctx);
         }
         if let Some(offset) = self.offset() {
-            let has_keyword = offset.keyword().is_some();
-            if trivias.is_empty() && has_keyword {
+            if trivias.is_empty() {
                 docs.push(Doc::hard_line().nest(ctx.indent_width));
             } else {
                 docs.append(&mut trivias);
             }
-            if has_keyword {
-                docs.push(offset.doc(ctx).nest(ctx.indent_width));
-            } else {
-                docs.push(offset.doc(ctx));
-            }
+            docs.push(offset.doc(ctx).nest(ctx.indent_width));
             trivias = format_trivias_after_node(offset, ctx);
         }
         self.string_tokens().for_each(|string| {
@@ -642,17 +631,12 @@ impl DocGen for ModuleFieldElem {
             trivias = format_trivias_after_node(table_use, ctx);
         }
         if let Some(offset) = self.offset() {
-            let has_keyword = offset.keyword().is_some();
-            if trivias.is_empty() && has_keyword {
+            if trivias.is_empty() {
                 docs.push(Doc::hard_line().nest(ctx.indent_width));
             } else {
                 docs.append(&mut trivias);
             }
-            if has_keyword {
-                docs.push(offset.doc(ctx).nest(ctx.indent_width));
-            } else {
-                docs.push(offset.doc(ctx));
-            }
+            docs.push(offset.doc(ctx).nest(ctx.indent_width));
             trivias = format_trivias_after_node(offset, ctx);
         }
         if let Some(elem_list) = self.elem_list() {
@@ -1128,6 +1112,10 @@ impl DocGen for Name {
 
 impl DocGen for Offset {
     fn doc(&self, ctx: &Ctx) -> Doc<'static> {
+        if self.l_paren_token().is_none() {
+            // abbreviated form: there's only one instruction
+            return Doc::list(self.instrs().map(|instr| instr.doc(ctx)).collect());
+        }
         let mut docs = Vec::with_capacity(2);
         let mut trivias = vec![];
         if let Some(l_paren) = self.l_paren_token() {
-- 
2.43.0


From b7294665e8b2944161465f2565419a1bec15fd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:14 +0000
Subject: [PATCH 10/45] fix: don't take label after `end` as label of the block

---
 crates/syntax/src/ast/instr.rs | 56 ++++++++++++++++------------------
 1 file changed, 26 insertions(+), 30 deletions(-)

diff --git a/crates/syntax/src/ast/instr.rs b/crates/syntax/src/ast/instr.rs
index 51d62d0..c7d092e 100644
--- a/crates/syntax/src/ast/instr.rs
+++ b/crates/syntax/src/ast/instr.rs
@@ -1,10 +1,7 @@
 use super::{module::TypeUse, ty::Result, SyntaxKind, SyntaxNode, SyntaxToken, WatLanguage};
-use rowan::{
-    ast::{
-        support::{child, children, token},
-        AstChildren, AstNode,
-    },
-    NodeOrToken,
+use rowan::ast::{
+    support::{child, children, token},
+    AstChildren, AstNode,
 };
 
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
@@ -22,7 +19,7 @@ impl BlockBlock {
     }
     #[inline]
     pub fn ident_token(&self) -> Option<SyntaxToken> {
-        token(&self.syntax, SyntaxKind::IDENT)
+        start_label(&self.syntax)
     }
     #[inline]
     pub fn block_type(&self) -> Option<BlockType> {
@@ -45,13 +42,7 @@ impl BlockBlock {
     }
     #[inline]
     pub fn end_ident_token(&self) -> Option<SyntaxToken> {
-        self.syntax
-            .children_with_tokens()
-            .filter_map(|it| match it {
-                NodeOrToken::Token(token) if token.kind() == SyntaxKind::IDENT => Some(token),
-                _ => None,
-            })
-            .nth(1)
+        end_label(&self.syntax)
     }
 }
 impl AstNode for BlockBlock {
@@ -95,7 +86,7 @@ impl BlockIf {
     }
     #[inline]
     pub fn ident_token(&self) -> Option<SyntaxToken> {
-        token(&self.syntax, SyntaxKind::IDENT)
+        start_label(&self.syntax)
     }
     #[inline]
     pub fn block_type(&self) -> Option<BlockType> {
@@ -126,13 +117,7 @@ impl BlockIf {
     }
     #[inline]
     pub fn end_ident_token(&self) -> Option<SyntaxToken> {
-        self.syntax
-            .children_with_tokens()
-            .filter_map(|it| match it {
-                NodeOrToken::Token(token) if token.kind() == SyntaxKind::IDENT => Some(token),
-                _ => None,
-            })
-            .nth(1)
+        end_label(&self.syntax)
     }
 }
 impl AstNode for BlockIf {
@@ -320,7 +305,7 @@ impl BlockLoop {
     }
     #[inline]
     pub fn ident_token(&self) -> Option<SyntaxToken> {
-        token(&self.syntax, SyntaxKind::IDENT)
+        start_label(&self.syntax)
     }
     #[inline]
     pub fn block_type(&self) -> Option<BlockType> {
@@ -343,13 +328,7 @@ impl BlockLoop {
     }
     #[inline]
     pub fn end_ident_token(&self) -> Option<SyntaxToken> {
-        self.syntax
-            .children_with_tokens()
-            .filter_map(|it| match it {
-                NodeOrToken::Token(token) if token.kind() == SyntaxKind::IDENT => Some(token),
-                _ => None,
-            })
-            .nth(1)
+        end_label(&self.syntax)
     }
 }
 impl AstNode for BlockLoop {
@@ -571,3 +550,20 @@ impl AstNode for PlainInstr {
         &self.syntax
     }
 }
+
+fn is_block_end(token: &SyntaxToken) -> bool {
+    token.kind() == SyntaxKind::R_PAREN
+        || token.kind() == SyntaxKind::KEYWORD && token.text() == "end"
+}
+fn start_label(node: &SyntaxNode) -> Option<SyntaxToken> {
+    node.children_with_tokens()
+        .filter_map(|it| it.into_token())
+        .take_while(|token| !is_block_end(token))
+        .find(|token| token.kind() == SyntaxKind::IDENT)
+}
+fn end_label(node: &SyntaxNode) -> Option<SyntaxToken> {
+    node.children_with_tokens()
+        .filter_map(|it| it.into_token())
+        .skip_while(|token| !is_block_end(token))
+        .find(|token| token.kind() == SyntaxKind::IDENT)
+}
-- 
2.43.0


From 07cac81fe6557b518b96783a475018f48581311e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:26 +0000
Subject: [PATCH 11/45] fix: don't discard unexpected tokens and comments of
 incomplete nodes when formatting

---
 crates/formatter/src/printer/instr.rs  | 13 +++++++++----
 crates/formatter/src/printer/module.rs | 27 +++++++++++++++-----------
 crates/formatter/src/printer/ty.rs     |  2 ++
 3 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/crates/formatter/src/printer/instr.rs b/crates/formatter/src/printer/instr.rs
index 6e8217f..a8aa97a 100644
--- a/crates/formatter/src/printer/instr.rs
+++ b/crates/formatter/src/printer/instr.rs
@@ -67,7 +67,9 @@ impl DocGen for BlockBlock {
                 docs.append(&mut trivias);
             }
             docs.push(Doc::text(ident.to_string()));
+            trivias = format_trivias_after_token(ident, ctx);
         }
+        docs.append(&mut trivias);
         Doc::list(docs)
     }
 }
@@ -159,8 +161,9 @@ impl DocGen for BlockIf {
                 docs.append(&mut trivias);
             }
             docs.push(Doc::text(ident.to_string()));
+            trivias = format_trivias_after_token(ident, ctx);
         }
-
+        docs.append(&mut trivias);
         Doc::list(docs)
     }
 }
@@ -196,8 +199,8 @@ impl DocGen for BlockIfElse {
             docs.push(instr.doc(ctx));
             trivias = format_trivias_after_node(instr, ctx);
         });
+        docs.append(&mut trivias);
         if self.r_paren_token().is_some() {
-            docs.append(&mut trivias);
             docs.push(Doc::text(")"));
         }
         Doc::list(docs).nest(ctx.indent_width)
@@ -236,8 +239,8 @@ impl DocGen for BlockIfThen {
             docs.push(instr.doc(ctx));
             trivias = format_trivias_after_node(instr, ctx);
         });
+        docs.append(&mut trivias);
         if self.r_paren_token().is_some() {
-            docs.append(&mut trivias);
             docs.push(Doc::text(")"));
         }
         Doc::list(docs).nest(ctx.indent_width)
@@ -319,7 +322,9 @@ impl DocGen for BlockLoop {
                 docs.append(&mut trivias);
             }
             docs.push(Doc::text(ident.to_string()));
+            trivias = format_trivias_after_token(ident, ctx);
         }
+        docs.append(&mut trivias);
         Doc::list(docs)
     }
 }
@@ -385,8 +390,8 @@ impl DocGen for PlainInstr {
             docs.push(operand.doc(ctx));
             trivias = format_trivias_after_node(operand, ctx);
         });
+        docs.append(&mut trivias);
         if self.r_paren_token().is_some() {
-            docs.append(&mut trivias);
             docs.push(Doc::text(")"));
         }
         Doc::list(docs).nest(ctx.indent_width)
diff --git a/crates/formatter/src/printer/module.rs b/crates/formatter/src/printer/module.rs
index 027daa0..0bce031 100644
--- a/crates/formatter/src/printer/module.rs
+++ b/crates/formatter/src/printer/module.rs
@@ -97,8 +97,8 @@ impl DocGen for ElemExpr {
             }))
             .nest(ctx.indent_width),
         );
+        docs.append(&mut trivias);
         if self.r_paren_token().is_some() {
-            docs.append(&mut trivias);
             docs.push(Doc::text(")"));
         }
         Doc::list(docs)
@@ -713,15 +713,19 @@ impl DocGen for ModuleFieldFunc {
             docs.push(Doc::text(ident.to_string()));
             trivias = format_trivias_after_token(ident, ctx);
         }
-        if let Some(import) = self.import() {
-            if trivias.is_empty() {
-                docs.push(Doc::space());
-            } else {
-                docs.append(&mut trivias);
-            }
-            docs.push(import.doc(ctx));
-            trivias = format_trivias_after_node(import, ctx);
-        }
+        // more than one import is invalid, but don't discard them
+        self.syntax()
+            .children()
+            .filter_map(Import::cast)
+            .for_each(|import| {
+                if trivias.is_empty() {
+                    docs.push(Doc::space());
+                } else {
+                    docs.append(&mut trivias);
+                }
+                docs.push(import.doc(ctx));
+                trivias = format_trivias_after_node(import, ctx);
+            });
         self.exports().for_each(|export| {
             if trivias.is_empty() {
                 docs.push(Doc::space());
@@ -1140,8 +1144,8 @@ impl DocGen for Offset {
             }))
             .nest(ctx.indent_width),
         );
+        docs.append(&mut trivias);
         if self.r_paren_token().is_some() {
-            docs.append(&mut trivias);
             docs.push(Doc::text(")"));
         }
         Doc::list(docs)
@@ -1242,6 +1246,7 @@ impl DocGen for TypeUse {
             docs.push(result.doc(ctx));
             trivias = format_trivias_after_node(result, ctx);
         });
+        docs.append(&mut trivias);
 
         Doc::list(docs)
     }
diff --git a/crates/formatter/src/printer/ty.rs b/crates/formatter/src/printer/ty.rs
index 33e02da..7f5c1e7 100644
--- a/crates/formatter/src/printer/ty.rs
+++ b/crates/formatter/src/printer/ty.rs
@@ -189,7 +189,9 @@ impl DocGen for TableType {
                 docs.append(&mut trivias);
             }
             docs.push(Doc::text(ref_type.to_string()));
+            trivias = format_trivias_after_token(ref_type, ctx);
         }
+        docs.append(&mut trivias);
         Doc::list(docs)
     }
 }
-- 
2.43.0


From e31a00e3cfdbd38cec54c1d4a6fb7ce494b8776b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:43 +0000
Subject: [PATCH 12/45] fix: report unterminated strings and block comments

---
 crates/parser/src/parser/mod.rs   | 38 ++++++++++++++++++++++++++++++-
 crates/parser/src/parser/token.rs |  7 ++++++
 2 files changed, 44 insertions(+), 1 deletion(-)

diff --git a/crates/parser/src/parser/mod.rs b/crates/parser/src/parser/mod.rs
index f8a9c49..55eed89 100644
--- a/crates/parser/src/parser/mod.rs
+++ b/crates/parser/src/parser/mod.rs
@@ -4,7 +4,7 @@ use self::{
     token::{block_comment, error_term, error_token, line_comment, trivias, ws},
 };
 use crate::error::SyntaxError;
-use rowan::{GreenNode, GreenToken, NodeOrToken};
+use rowan::{GreenNode, GreenNodeData, GreenToken, NodeOrToken};
 use wat_syntax::{SyntaxKind, SyntaxNode};
 use winnow::{
     combinator::{alt, repeat},
@@ -61,6 +61,7 @@ impl<'s> Parser<'s> {
                 start = end;
             }
         }
+        report_unterminated(&tree, &mut 0, &mut false, &mut self.errors);
         tree
     }
 
@@ -70,6 +71,41 @@ impl<'s> Parser<'s> {
     }
 }
 
+/// String literals that aren't closed until the end of line, and block comments that are never
+/// closed but start like a parenthesis with a line comment, are tolerated when parsing.
+fn report_unterminated(
+    node: &GreenNodeData,
+    offset: &mut usize,
+    after_paren: &mut bool,
+    errors: &mut Vec<SyntaxError>,
+) {
+    for child in node.children() {
+        let token = match child {
+            NodeOrToken::Node(node) => {
+                report_unterminated(node, offset, after_paren, errors);
+                continue;
+            }
+            NodeOrToken::Token(token) => token,
+        };
+        let start = *offset;
+        *offset += token.text().len();
+        if token.kind() == SyntaxKind::STRING.into() && !token::is_string_closed(token.text()) {
+            errors.push(SyntaxError {
+                start,
+                end: *offset,
+                message: StrContext::Label("unterminated string literal"),
+            });
+        } else if token.kind() == SyntaxKind::LINE_COMMENT.into() && *after_paren {
+            errors.push(SyntaxError {
+                start: start - 1,
+                end: *offset,
+                message: StrContext::Label("unterminated block comment"),
+            });
+        }
+        *after_paren = token.kind() == SyntaxKind::L_PAREN.into();
+    }
+}
+
 type GreenElement = NodeOrToken<GreenNode, GreenToken>;
 type GreenResult = PResult<GreenElement, SyntaxError>;
 pub(crate) type Input<'s> = Recoverable<Located<&'s str>, SyntaxError>;
diff --git a/crates/parser/src/parser/token.rs b/crates/parser/src/parser/token.rs
index 69454f7..c2f4b54 100644
--- a/crates/parser/src/parser/token.rs
+++ b/crates/parser/src/parser/token.rs
@@ -197,6 +197,13 @@ fn string_impl<'s>(input: &mut Input<'s>) -> PResult<&'s str, SyntaxError> {
         .parse_next(input)
 }
 
+pub(super) fn is_string_closed(text: &str) -> bool {
+    text.len() > 1
+        && text
+            .strip_suffix('"')
+            .is_some_and(|text| (text.len() - text.trim_end_matches('\\').len()) % 2 == 0)
+}
+
 pub(super) fn int(input: &mut Input) -> GreenResult {
     int_impl.parse_next(input).map(|text| tok(INT, text))
 }
-- 
2.43.0


From 9a69ffe6f19a3f324073181806c9114cfdd22ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:36 +0000
Subject: [PATCH 13/45] fix: find labels across then, else and operands

---
 crates/service/src/binder.rs | 37 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/crates/service/src/binder.rs b/crates/service/src/binder.rs
index 79a2b49..7c64b50 100644
--- a/crates/service/src/binder.rs
+++ b/crates/service/src/binder.rs
@@ -267,9 +267,11 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                         }));
                     }
                     Some("br" | "br_if" | "br_table") => {
-                        let Some(region) = node
+                        // enclosing blocks, from the inside out; there may be other nodes
+                        // between them, such as `then`, `else` or operands
+                        let enclosing = node
                             .ancestors()
-                            .find(|node| {
+                            .filter(|node| {
                                 matches!(
                                     node.kind(),
                                     SyntaxKind::BLOCK_BLOCK
@@ -277,7 +279,8 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                                         | SyntaxKind::BLOCK_IF
                                 )
                             })
-                            .map(SymbolItemKey::from)
+                            .collect::<Vec<_>>();
+                        let Some(region) = enclosing.first().cloned().map(SymbolItemKey::from)
                         else {
                             continue;
                         };
@@ -291,25 +294,15 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                                 )
                             })
                             .for_each(|symbol| {
-                                symbols.push(symbol.clone());
-                                let mut current = &symbol;
-                                let mut levels = 0;
-                                while let Some(
-                                    parent @ SymbolItem {
-                                        key,
-                                        kind: SymbolItemKind::BlockDef,
-                                        ..
-                                    },
-                                ) = symbols.iter().find(|sym| {
-                                    sym.kind == SymbolItemKind::BlockDef
-                                        && sym.key == current.region
-                                }) {
-                                    let mut idx = parent.idx.clone();
-                                    idx.num = Some(levels);
-                                    blocks.push((symbol.key.clone(), key.clone(), idx));
-                                    current = parent;
-                                    levels += 1;
-                                }
+                                blocks.extend(enclosing.iter().zip(0..).map(|(block, levels)| {
+                                    let idx = Idx {
+                                        num: Some(levels),
+                                        name: token(block, SyntaxKind::IDENT)
+                                            .map(|token| db.ident(token.text().to_string())),
+                                    };
+                                    (symbol.key.clone(), block.clone().into(), idx)
+                                }));
+                                symbols.push(symbol);
                             });
                     }
                     Some(
-- 
2.43.0


From 5965349cd8daece12f586931cf900344ebcb35d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:53 +0000
Subject: [PATCH 14/45] fix: rename only what has the old name and labels of
 the same block

---
 crates/service/src/features/rename.rs | 33 ++++++++++++++-------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/crates/service/src/features/rename.rs b/crates/service/src/features/rename.rs
index b978d7f..001a81d 100644
--- a/crates/service/src/features/rename.rs
+++ b/crates/service/src/features/rename.rs
@@ -71,6 +71,13 @@ impl LanguageService {
             .symbols
             .iter()
             .find(|symbol| symbol.key == symbol_key)?;
+        let block_def_key = match &symbol.kind {
+            SymbolItemKind::BlockDef => Some(&symbol.key),
+            SymbolItemKind::BlockRef => symbol_table
+                .find_block_def(&symbol_key)
+                .map(|symbol| &symbol.key),
+            _ => None,
+        };
         let text_edits = symbol_table
             .symbols
             .iter()
@@ -89,26 +96,20 @@ impl LanguageService {
                 | SymbolItemKind::TableDef
                 | SymbolItemKind::TableRef => {
                     symbol.region == sym.region
-                        && symbol.idx.name.is_some_and(|name| name == old_name)
-                }
-                SymbolItemKind::BlockDef => {
-                    symbol == *sym
-                        || symbol_table.blocks.iter().any(|(ref_key, def_key, _)| {
-                            &symbol_key == ref_key && def_key == &sym.key
-                        })
+                        && sym.idx.name.is_some_and(|name| name == old_name)
+                        && !matches!(
+                            symbol.kind,
+                            SymbolItemKind::BlockDef | SymbolItemKind::BlockRef
+                        )
                 }
+                SymbolItemKind::BlockDef => block_def_key.is_some_and(|key| key == &sym.key),
                 SymbolItemKind::BlockRef => {
                     symbol == *sym
-                        || symbol_table.blocks.iter().any(|(ref_key, def_key, _)| {
-                            &sym.key == ref_key && def_key == &symbol.key
+                        || block_def_key.is_some_and(|key| {
+                            symbol_table
+                                .find_block_def(&sym.key)
+                                .is_some_and(|def| key == &def.key)
                         })
-                        || symbol_table
-                            .find_block_def(&symbol_key)
-                            .is_some_and(|def_symbol| {
-                                symbol_table.blocks.iter().any(|(ref_key, def_key, _)| {
-                                    &sym.key == ref_key && def_key == &def_symbol.key
-                                })
-                            })
                 }
                 SymbolItemKind::Module => false,
             })
-- 
2.43.0


From f4319c8d574378011471d51ac6a2a3b6a5b2600c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:58 +0000
Subject: [PATCH 15/45] fix: find references only of labels that refer to the
 block

---
 crates/service/src/features/references.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/service/src/features/references.rs b/crates/service/src/features/references.rs
index 06d1dfb..95d22b7 100644
--- a/crates/service/src/features/references.rs
+++ b/crates/service/src/features/references.rs
@@ -373,11 +373,11 @@ fn get_block_refs(
             .blocks
             .iter()
             .filter(|(_, def_key, _)| def_key == &def_symbol.key)
-            .filter_map(|(ref_key, _, _)| {
+            .filter_map(|(ref_key, def_key, _)| {
                 symbol_table
-                    .symbols
-                    .iter()
-                    .find(|symbol| &symbol.key == ref_key)
+                    .find_block_def(ref_key)
+                    .filter(|def| &def.key == def_key)?;
+                symbol_table.find_block_ref(ref_key)
             })
             .map(|symbol| create_location_by_symbol(params, line_index, symbol, root)),
     );
-- 
2.43.0


From 5a98159794d47ef8cd85836db6442d43364ed377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:27 +0000
Subject: [PATCH 16/45] fix: resolve names in global exports, table uses,
 element segments and call_indirect

---
 crates/service/src/binder.rs | 47 +++++++++++++++++++++++++++++++++---
 1 file changed, 44 insertions(+), 3 deletions(-)

diff --git a/crates/service/src/binder.rs b/crates/service/src/binder.rs
index 7c64b50..e6f3678 100644
--- a/crates/service/src/binder.rs
+++ b/crates/service/src/binder.rs
@@ -306,8 +306,14 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                             });
                     }
                     Some(
-                        "table.get" | "table.set" | "table.size" | "table.grow" | "table.fill"
-                        | "table.copy",
+                        "table.get"
+                        | "table.set"
+                        | "table.size"
+                        | "table.grow"
+                        | "table.fill"
+                        | "table.copy"
+                        | "call_indirect"
+                        | "return_call_indirect",
                     ) => {
                         let Some(region) = node
                             .ancestors()
@@ -418,7 +424,7 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                     symbols.push(symbol);
                 }
             }
-            SyntaxKind::EXPORT_DESC_TABLE => {
+            SyntaxKind::EXPORT_DESC_TABLE | SyntaxKind::TABLE_USE => {
                 if let Some(symbol) = node
                     .ancestors()
                     .find(|node| node.kind() == SyntaxKind::MODULE)
@@ -434,6 +440,41 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                     symbols.push(symbol);
                 }
             }
+            SyntaxKind::EXPORT_DESC_GLOBAL => {
+                if let Some(symbol) = node
+                    .ancestors()
+                    .find(|node| node.kind() == SyntaxKind::MODULE)
+                    .map(SymbolItemKey::from)
+                    .zip(
+                        node.children()
+                            .find(|child| child.kind() == SyntaxKind::INDEX),
+                    )
+                    .and_then(|(region, index)| {
+                        create_ref_symbol(db, index, region, SymbolItemKind::GlobalRef)
+                    })
+                {
+                    symbols.push(symbol);
+                }
+            }
+            SyntaxKind::ELEM | SyntaxKind::ELEM_LIST => {
+                let Some(region) = node
+                    .ancestors()
+                    .find(|node| node.kind() == SyntaxKind::MODULE)
+                    .map(SymbolItemKey::from)
+                else {
+                    continue;
+                };
+                symbols.extend(
+                    node.children()
+                        .filter(|child| {
+                            child.kind() == SyntaxKind::INDEX
+                                && token(child, SyntaxKind::IDENT).is_some()
+                        })
+                        .filter_map(|index| {
+                            create_ref_symbol(db, index, region.clone(), SymbolItemKind::Call)
+                        }),
+                );
+            }
             SyntaxKind::IMPORT_DESC_TYPE_USE => {
                 if let Some(symbol) =
                     create_import_desc_symbol(db, &node, module_field_id, SymbolItemKind::Func)
-- 
2.43.0


From d80db013265a3f328723fcbcddcac00bd3d51290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:43 +0000
Subject: [PATCH 17/45] fix: count columns in UTF-16 code units and clamp
 positions to the line

---
 crates/service/src/files.rs   | 19 ++++++------
 crates/service/src/helpers.rs | 55 +++++++++++++++++++++++++----------
 2 files changed, 48 insertions(+), 26 deletions(-)

diff --git a/crates/service/src/files.rs b/crates/service/src/files.rs
index aa0c0d9..9075f2a 100644
--- a/crates/service/src/files.rs
+++ b/crates/service/src/files.rs
@@ -1,7 +1,7 @@
-use crate::InternUri;
-use line_index::{LineIndex, TextSize};
-use lsp_types::{Diagnostic, DiagnosticSeverity, Position, Range, Uri};
-use rowan::GreenNode;
+use crate::{helpers, InternUri};
+use line_index::LineIndex;
+use lsp_types::{Diagnostic, DiagnosticSeverity, Uri};
+use rowan::{GreenNode, TextRange, TextSize};
 use std::rc::Rc;
 use wat_parser::Parser;
 
@@ -38,13 +38,12 @@ fn parse(db: &dyn FilesCtx, uri: InternUri) -> (GreenNode, Vec<Diagnostic>) {
         .errors()
         .iter()
         .map(|error| {
-            let start = line_index.line_col(TextSize::new(error.start as u32));
-            let end = line_index.line_col(TextSize::new(error.end as u32));
+            let range = TextRange::new(
+                TextSize::new(error.start as u32),
+                TextSize::new(error.end as u32),
+            );
             Diagnostic {
-                range: Range::new(
-                    Position::new(start.line, start.col),
-                    Position::new(end.line, end.col),
-                ),
+                range: helpers::rowan_range_to_lsp_range(&line_index, range),
                 severity: Some(DiagnosticSeverity::ERROR),
                 source: Some("wat".into()),
                 message: format!("syntax error: {}", error.message),
diff --git a/crates/service/src/helpers.rs b/crates/service/src/helpers.rs
index 6dd22dc..5d077b2 100644
--- a/crates/service/src/helpers.rs
+++ b/crates/service/src/helpers.rs
@@ -1,10 +1,14 @@
-use line_index::{LineCol, LineIndex};
+use line_index::{LineCol, LineIndex, WideEncoding, WideLineCol};
 use lsp_types::{Position, Range};
 use rowan::{TextRange, TextSize};
 
+/// Columns in LSP are counted in UTF-16 code units.
 pub fn rowan_pos_to_lsp_pos(line_index: &LineIndex, pos: TextSize) -> Position {
     let line_col = line_index.line_col(pos);
-    Position::new(line_col.line, line_col.col)
+    let col = line_index
+        .to_wide(WideEncoding::Utf16, line_col)
+        .map_or(line_col.col, |line_col| line_col.col);
+    Position::new(line_col.line, col)
 }
 
 pub fn rowan_range_to_lsp_range(line_index: &LineIndex, range: TextRange) -> Range {
@@ -14,24 +18,43 @@ pub fn rowan_range_to_lsp_range(line_index: &LineIndex, range: TextRange) -> Ran
     )
 }
 
+/// Columns beyond the end of the line refer to the end of the line.
 pub fn lsp_pos_to_rowan_pos(line_index: &LineIndex, pos: Position) -> Option<TextSize> {
-    line_index.offset(LineCol {
-        line: pos.line,
-        col: pos.character,
-    })
+    let line = pos.line;
+    let start = line_index.offset(LineCol { line, col: 0 })?;
+    let end = line
+        .checked_add(1)
+        .and_then(|line| line_index.offset(LineCol { line, col: 0 }))
+        .map_or_else(|| line_index.len(), |next| next - TextSize::of('\n'));
+    let max_col = u32::from(end - start);
+    let mut col = line_index
+        .to_utf8(
+            WideEncoding::Utf16,
+            WideLineCol {
+                line,
+                col: pos.character,
+            },
+        )
+        .map_or(max_col, |line_col| line_col.col.min(max_col));
+    // the position may be between two surrogates
+    while col > 0
+        && line_index
+            .try_line_col(start + TextSize::new(col))
+            .is_none()
+    {
+        col -= 1;
+    }
+    Some(start + TextSize::new(col))
 }
 
 pub fn lsp_range_to_rowan_range(line_index: &LineIndex, range: Range) -> Option<TextRange> {
-    line_index
-        .offset(LineCol {
-            line: range.start.line,
-            col: range.start.character,
-        })
-        .zip(line_index.offset(LineCol {
-            line: range.end.line,
-            col: range.end.character,
-        }))
-        .map(|(start, end)| TextRange::new(TextSize::new(start.into()), TextSize::new(end.into())))
+    let start = lsp_pos_to_rowan_pos(line_index, range.start)?;
+    let end = lsp_pos_to_rowan_pos(line_index, range.end)?;
+    if start <= end {
+        Some(TextRange::new(start, end))
+    } else {
+        None
+    }
 }
 
 pub(crate) mod ast {
-- 
2.43.0


From 05dc7ee0a7a9b239dcd1639f0c00e136f4596bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:36 +0000
Subject: [PATCH 18/45] fix: report duplicated tables, and no duplicates
 between labels and locals

---
 crates/service/src/checker/dup_names.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/service/src/checker/dup_names.rs b/crates/service/src/checker/dup_names.rs
index ceca7a3..6c9f519 100644
--- a/crates/service/src/checker/dup_names.rs
+++ b/crates/service/src/checker/dup_names.rs
@@ -32,12 +32,15 @@ pub fn check(
                         | SymbolItemKind::Type
                         | SymbolItemKind::GlobalDef
                         | SymbolItemKind::MemoryDef
+                        | SymbolItemKind::TableDef
                         | SymbolItemKind::BlockDef
                 )
             })
             .fold(FxHashMap::default(), |mut map, symbol| {
                 if let Some(name) = symbol.idx.name {
-                    map.entry((name, &symbol.region))
+                    // labels don't share the scope with params and locals
+                    let is_label = symbol.kind == SymbolItemKind::BlockDef;
+                    map.entry((name, is_label, &symbol.region))
                         .or_insert_with(|| Vec::with_capacity(1))
                         .push(symbol);
                 }
@@ -45,7 +48,7 @@ pub fn check(
             })
             .iter()
             .filter(|(_, symbols)| symbols.len() > 1)
-            .flat_map(|((name, _), symbols)| {
+            .flat_map(|((name, ..), symbols)| {
                 let name = service.lookup_ident(*name);
                 symbols.iter().map(move |symbol| Diagnostic {
                     range: helpers::rowan_range_to_lsp_range(
-- 
2.43.0


From db79d12c69be929a99a8f0be3403f8734d3a83d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:42 +0000
Subject: [PATCH 19/45] fix: don't panic when formatting with an indent of zero
 columns

---
 crates/formatter/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/formatter/src/lib.rs b/crates/formatter/src/lib.rs
index ff9fd3f..3faa1b2 100644
--- a/crates/formatter/src/lib.rs
+++ b/crates/formatter/src/lib.rs
@@ -49,6 +49,6 @@ fn build_options(options: &FormatOptions) -> PrintOptions {
         },
         line_break: options.layout.line_break.clone().into(),
         width: options.layout.print_width,
-        tab_size: options.layout.indent_width,
+        tab_size: options.layout.indent_width.max(1),
     }
 }
-- 
2.43.0


From 4d14763a2901437734301dc1dc569862c2ed46c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:48 +0000
Subject: [PATCH 20/45] fix: don't take select for the form with types

---
 crates/service/src/data_set/instr_meta.rs | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/crates/service/src/data_set/instr_meta.rs b/crates/service/src/data_set/instr_meta.rs
index 5af71df..a363682 100644
--- a/crates/service/src/data_set/instr_meta.rs
+++ b/crates/service/src/data_set/instr_meta.rs
@@ -37,19 +37,6 @@ pub(crate) static INSTR_METAS: LazyLock<FxHashMap<&'static str, InstrMeta>> = La
             results: vec![OperandType::Generic],
         },
     );
-    map.insert(
-        "select",
-        InstrMeta {
-            bin_op: "0x1C",
-            operands_count: 1,
-            params: vec![
-                OperandType::Generic,
-                OperandType::Generic,
-                OperandType::Val(ValType::I32),
-            ],
-            results: vec![OperandType::Generic],
-        },
-    );
     map.insert(
         "local.get",
         InstrMeta {
-- 
2.43.0


From fb90f9b1f05c2d09147a85a7d4fb63841351dd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:53 +0000
Subject: [PATCH 21/45] fix: check calls of functions whose parameters aren't
 declared in place

---
 crates/service/src/checker/typeck.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/service/src/checker/typeck.rs b/crates/service/src/checker/typeck.rs
index 616fcdb..f16ae8f 100644
--- a/crates/service/src/checker/typeck.rs
+++ b/crates/service/src/checker/typeck.rs
@@ -15,6 +15,7 @@ use rowan::{
     },
     TextRange,
 };
+use std::iter;
 use wat_syntax::{
     ast::{Instr, PlainInstr},
     SyntaxKind, SyntaxNode,
@@ -300,6 +301,8 @@ fn resolve_expected_types(
                     "parameter originally defined here".into(),
                 ))
             });
+        // parameters from imports or type definitions aren't declared in function
+        let related = related.chain(iter::repeat(None));
         service.get_func_sig(uri, func.clone().into()).map(|sig| {
             sig.params
                 .iter()
-- 
2.43.0


From 29d10b46fae8affedef5a318a9c71da4103e873e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:51 +0000
Subject: [PATCH 22/45] fix: don't report operands after branches, and know the
 types of blocks

---
 crates/service/src/checker/typeck.rs | 233 ++++++++++++++++++---------
 1 file changed, 160 insertions(+), 73 deletions(-)

diff --git a/crates/service/src/checker/typeck.rs b/crates/service/src/checker/typeck.rs
index f16ae8f..3168d9f 100644
--- a/crates/service/src/checker/typeck.rs
+++ b/crates/service/src/checker/typeck.rs
@@ -3,7 +3,7 @@ use crate::{
     data_set::{self, OperandType},
     files::FilesCtx,
     helpers,
-    types_analyzer::TypesAnalyzerCtx,
+    types_analyzer::{FuncSig, TypesAnalyzerCtx, ValType},
     InternUri, LanguageService,
 };
 use line_index::LineIndex;
@@ -17,7 +17,7 @@ use rowan::{
 };
 use std::iter;
 use wat_syntax::{
-    ast::{Instr, PlainInstr},
+    ast::{BlockInstr, Instr, PlainInstr},
     SyntaxKind, SyntaxNode,
 };
 
@@ -46,6 +46,7 @@ pub fn check_folded(
     } else {
         meta.map(|meta| meta.operands_count).unwrap_or_default()
     };
+    let mut has_unknown = false;
     let received_types =
         instr
             .operands()
@@ -54,6 +55,8 @@ pub fn check_folded(
                 if let Some(instr) = operand.instr() {
                     if let Some(types) = resolve_type(service, uri, symbol_table, &instr) {
                         received.extend(types.into_iter().map(|ty| (ty, operand.clone())));
+                    } else {
+                        has_unknown = true;
                     }
                 } else if meta.is_some() {
                     diags.push(Diagnostic {
@@ -73,13 +76,23 @@ pub fn check_folded(
         return;
     };
 
+    // operands may be of any types and number after an instruction like `br`
+    if has_unknown {
+        return;
+    }
+
     let expected_count = params.len() + skipped_count;
     let received_count = received_types.len()
         + instr
             .operands()
             .filter(|operand| operand.instr().is_none())
             .count();
-    if expected_count != received_count {
+    if expected_count != received_count
+        && instr
+            .operands()
+            .filter_map(|operand| operand.instr())
+            .all(|instr| is_known(service, uri, symbol_table, &instr))
+    {
         diags.push(Diagnostic {
             range: helpers::rowan_range_to_lsp_range(line_index, instr.syntax().text_range()),
             severity: Some(DiagnosticSeverity::ERROR),
@@ -147,82 +160,155 @@ pub fn check_stacked(
     }
 
     let mut types_stack = Vec::<(_, Instr)>::with_capacity(2);
+    let mut has_unknown = false;
     children::<Instr>(node).for_each(|instr| {
-        if let Instr::Plain(plain_instr) = &instr {
-            let Some(instr_name) = plain_instr.instr_name() else {
-                return;
-            };
-            let meta = data_set::INSTR_METAS.get(instr_name.text());
-            let Some(params) =
+        let params = match &instr {
+            Instr::Plain(plain_instr) if plain_instr.l_paren_token().is_some() => {
+                is_known(service, uri, symbol_table, &instr).then(Vec::new)
+            }
+            Instr::Plain(plain_instr) => plain_instr.instr_name().and_then(|instr_name| {
+                let meta = data_set::INSTR_METAS.get(instr_name.text());
                 resolve_expected_types(service, uri, symbol_table, plain_instr, meta)
-            else {
-                return;
-            };
-            let expected_count = if plain_instr.l_paren_token().is_some() {
-                0
-            } else {
-                params.len()
-            };
-            let pop_count = if let Some(count) = types_stack.len().checked_sub(expected_count) {
-                count
-            } else {
-                diags.push(Diagnostic {
-                    range: helpers::rowan_range_to_lsp_range(
-                        line_index,
-                        instr.syntax().text_range(),
-                    ),
-                    severity: Some(DiagnosticSeverity::ERROR),
-                    source: Some("wat".into()),
-                    message: build_incorrect_operands_count_msg(expected_count, types_stack.len()),
-                    ..Default::default()
-                });
-                0
-            };
-            let type_mismatches = params
-                .iter()
-                .zip(types_stack.drain(pop_count..))
-                .filter_map(|pair| {
-                    if let (
-                        (OperandType::Val(expected), related),
-                        (OperandType::Val(received), related_instr),
-                    ) = pair
-                    {
-                        if expected == &received {
-                            None
-                        } else {
-                            Some(Diagnostic {
-                                range: helpers::rowan_range_to_lsp_range(
-                                    line_index,
-                                    related_instr.syntax().text_range(),
-                                ),
-                                severity: Some(DiagnosticSeverity::ERROR),
-                                source: Some("wat".into()),
-                                message: format!("expected type `{expected}`, found `{received}`"),
-                                related_information: related.as_ref().map(|(range, message)| {
-                                    vec![DiagnosticRelatedInformation {
-                                        location: Location {
-                                            uri: service.lookup_uri(uri),
-                                            range: helpers::rowan_range_to_lsp_range(
-                                                line_index, *range,
-                                            ),
-                                        },
-                                        message: message.clone(),
-                                    }]
-                                }),
-                                ..Default::default()
-                            })
-                        }
-                    } else {
+            }),
+            Instr::Block(block) => resolve_block_sig(service, uri, symbol_table, block)
+                .filter(|_| is_known(service, uri, symbol_table, &instr))
+                .map(|sig| {
+                    let mut params = sig
+                        .params
+                        .into_iter()
+                        .map(|(ty, _)| (OperandType::Val(ty), None))
+                        .collect::<Vec<_>>();
+                    if matches!(block, BlockInstr::If(block) if block.l_paren_token().is_none()) {
+                        params.push((OperandType::Val(ValType::I32), None));
+                    }
+                    params
+                }),
+        };
+        let types = resolve_type(service, uri, symbol_table, &instr);
+        let Some((params, types)) = params.zip(types) else {
+            // anything can be on the stack after an instruction like `br`
+            types_stack.clear();
+            has_unknown = true;
+            return;
+        };
+        let expected_count = params.len();
+        let pop_count = if let Some(count) = types_stack.len().checked_sub(expected_count) {
+            count
+        } else if has_unknown {
+            0
+        } else {
+            diags.push(Diagnostic {
+                range: helpers::rowan_range_to_lsp_range(line_index, instr.syntax().text_range()),
+                severity: Some(DiagnosticSeverity::ERROR),
+                source: Some("wat".into()),
+                message: build_incorrect_operands_count_msg(expected_count, types_stack.len()),
+                ..Default::default()
+            });
+            0
+        };
+        let missing_count = if has_unknown {
+            expected_count.saturating_sub(types_stack.len())
+        } else {
+            0
+        };
+        let type_mismatches = params
+            .iter()
+            .skip(missing_count)
+            .zip(types_stack.drain(pop_count..))
+            .filter_map(|pair| {
+                if let (
+                    (OperandType::Val(expected), related),
+                    (OperandType::Val(received), related_instr),
+                ) = pair
+                {
+                    if expected == &received {
                         None
+                    } else {
+                        Some(Diagnostic {
+                            range: helpers::rowan_range_to_lsp_range(
+                                line_index,
+                                related_instr.syntax().text_range(),
+                            ),
+                            severity: Some(DiagnosticSeverity::ERROR),
+                            source: Some("wat".into()),
+                            message: format!("expected type `{expected}`, found `{received}`"),
+                            related_information: related.as_ref().map(|(range, message)| {
+                                vec![DiagnosticRelatedInformation {
+                                    location: Location {
+                                        uri: service.lookup_uri(uri),
+                                        range: helpers::rowan_range_to_lsp_range(
+                                            line_index, *range,
+                                        ),
+                                    },
+                                    message: message.clone(),
+                                }]
+                            }),
+                            ..Default::default()
+                        })
                     }
-                });
-            diags.extend(type_mismatches);
+                } else {
+                    None
+                }
+            });
+        diags.extend(type_mismatches);
+
+        types_stack.extend(types.into_iter().map(|ty| (ty, instr.clone())));
+    });
+}
 
-            if let Some(types) = resolve_type(service, uri, symbol_table, &instr) {
-                types_stack.extend(types.into_iter().map(|ty| (ty, instr.clone())));
+/// Types of operands are unknown if an instruction among them isn't supported
+/// or makes the code after it unreachable.
+fn is_known(
+    service: &LanguageService,
+    uri: InternUri,
+    symbol_table: &SymbolTable,
+    instr: &Instr,
+) -> bool {
+    resolve_type(service, uri, symbol_table, instr).is_some()
+        && match instr {
+            Instr::Plain(plain_instr) => plain_instr
+                .operands()
+                .filter_map(|operand| operand.instr())
+                .all(|instr| is_known(service, uri, symbol_table, &instr)),
+            Instr::Block(BlockInstr::If(block_if)) if block_if.l_paren_token().is_some() => {
+                block_if
+                    .instrs()
+                    .all(|instr| is_known(service, uri, symbol_table, &instr))
             }
+            Instr::Block(..) => true,
         }
-    });
+}
+
+fn resolve_block_sig(
+    service: &LanguageService,
+    uri: InternUri,
+    symbol_table: &SymbolTable,
+    block: &BlockInstr,
+) -> Option<FuncSig> {
+    let block_type = match block {
+        BlockInstr::Block(block) => block.block_type(),
+        BlockInstr::Loop(block) => block.block_type(),
+        BlockInstr::If(block) => block.block_type(),
+    };
+    let Some(block_type) = block_type else {
+        return Some(FuncSig {
+            params: vec![],
+            results: vec![],
+        });
+    };
+    let Some(type_use) = block_type.type_use() else {
+        return Some(service.extract_sig(block_type.syntax().green().into()));
+    };
+    match type_use.index() {
+        Some(index) if type_use.params().count() + type_use.results().count() == 0 => symbol_table
+            .find_defs(&index.syntax().clone().into())
+            .into_iter()
+            .flatten()
+            .next()
+            .and_then(|symbol| helpers::ast::find_func_type_of_type_def(&symbol.green))
+            .map(|func_type| service.extract_sig(func_type)),
+        _ => Some(service.extract_sig(type_use.syntax().green().into())),
+    }
 }
 
 fn resolve_type(
@@ -232,7 +318,8 @@ fn resolve_type(
     instr: &Instr,
 ) -> Option<Vec<OperandType>> {
     match instr {
-        Instr::Block(..) => None,
+        Instr::Block(block) => resolve_block_sig(service, uri, symbol_table, block)
+            .map(|sig| sig.results.into_iter().map(OperandType::Val).collect()),
         Instr::Plain(plain_instr) => {
             let instr_name = plain_instr.instr_name()?;
             match instr_name.text() {
-- 
2.43.0


From 226ddb883437828fcf9b98a32da871f373aedad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:18 +0000
Subject: [PATCH 23/45] fix: memory arguments and tables of instructions can be
 omitted

---
 .../service/src/checker/literal_operands.rs   | 48 ++++++++++++++++---
 crates/service/src/checker/typeck.rs          | 33 +++++++++++--
 2 files changed, 70 insertions(+), 11 deletions(-)

diff --git a/crates/service/src/checker/literal_operands.rs b/crates/service/src/checker/literal_operands.rs
index 77c7a88..ce73ad2 100644
--- a/crates/service/src/checker/literal_operands.rs
+++ b/crates/service/src/checker/literal_operands.rs
@@ -11,7 +11,7 @@ pub fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, node: &SyntaxN
     let Some(instr_name) = token(node, SyntaxKind::INSTR_NAME) else {
         return;
     };
-    let mut operands = children::<Operand>(node);
+    let mut operands = children::<Operand>(node).peekable();
 
     macro_rules! check_operand {
         ($kind:pat, $msg:literal) => {
@@ -32,15 +32,32 @@ pub fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, node: &SyntaxN
         };
     }
 
+    // literal operands that can be omitted are followed by other literals or instructions
+    macro_rules! check_optional_operand {
+        ($kind:pat, $msg:literal) => {
+            if operands
+                .peek()
+                .is_some_and(|operand| operand.instr().is_none())
+            {
+                check_operand!($kind, $msg);
+            }
+        };
+    }
+
     match instr_name.text() {
         "call" | "local.get" | "local.set" | "local.tee" | "global.get" | "global.set"
-        | "table.get" | "table.set" | "ref.func" | "memory.init" | "data.drop" | "elem.drop"
-        | "table.grow" | "table.size" | "table.fill" | "br" | "br_if" => {
+        | "ref.func" | "memory.init" | "data.drop" | "elem.drop" | "br" | "br_if" => {
             check_operand!(
                 SyntaxKind::IDENT | SyntaxKind::INT,
                 "expected identifier or unsigned integer"
             );
         }
+        "table.get" | "table.set" | "table.grow" | "table.size" | "table.fill" => {
+            check_optional_operand!(
+                SyntaxKind::IDENT | SyntaxKind::INT,
+                "expected identifier or unsigned integer"
+            );
+        }
         "i32.const" | "i64.const" | "v128.const" => {
             check_operand!(SyntaxKind::INT, "expected integer");
         }
@@ -50,12 +67,22 @@ pub fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, node: &SyntaxN
                 "expected floating-point number"
             );
         }
-        "table.init" | "table.copy" => {
+        "table.init" => {
             check_operand!(
                 SyntaxKind::IDENT | SyntaxKind::INT,
                 "expected identifier or unsigned integer"
             );
-            check_operand!(
+            check_optional_operand!(
+                SyntaxKind::IDENT | SyntaxKind::INT,
+                "expected identifier or unsigned integer"
+            );
+        }
+        "table.copy" => {
+            check_optional_operand!(
+                SyntaxKind::IDENT | SyntaxKind::INT,
+                "expected identifier or unsigned integer"
+            );
+            check_optional_operand!(
                 SyntaxKind::IDENT | SyntaxKind::INT,
                 "expected identifier or unsigned integer"
             );
@@ -68,7 +95,7 @@ pub fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, node: &SyntaxN
         | "v128.load16x4_s" | "v128.load16x4_u" | "v128.load32x2_s" | "v128.load32x2_u"
         | "v128.load8_splat" | "v128.load16_splat" | "v128.load32_splat" | "v128.load64_splat"
         | "v128.store" => {
-            check_operand!(SyntaxKind::MEM_ARG, "expected memory argument");
+            check_optional_operand!(SyntaxKind::MEM_ARG, "expected memory argument");
         }
         "i8x16.shuffle"
         | "i8x16.extract_lane_s"
@@ -92,7 +119,14 @@ pub fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, node: &SyntaxN
         }
         "v128.load8_lane" | "v128.load16_lane" | "v128.load32_lane" | "v128.load64_lane"
         | "v128.store8_lane" | "v128.store16_lane" | "v128.store32_lane" | "v128.store64_lane" => {
-            check_operand!(SyntaxKind::MEM_ARG, "expected memory argument");
+            // there's no memory argument if lane index is the only literal
+            let literals_count = children::<Operand>(node)
+                .take_while(|operand| operand.instr().is_none())
+                .count();
+            if literals_count > 1 {
+                check_operand!(SyntaxKind::MEM_ARG, "expected memory argument");
+                operands.next_if(|operand| literals_count > 2 && operand.mem_arg().is_some());
+            }
             check_operand!(
                 SyntaxKind::IDENT | SyntaxKind::INT,
                 "expected identifier or unsigned integer"
diff --git a/crates/service/src/checker/typeck.rs b/crates/service/src/checker/typeck.rs
index 3168d9f..7eef219 100644
--- a/crates/service/src/checker/typeck.rs
+++ b/crates/service/src/checker/typeck.rs
@@ -44,7 +44,8 @@ pub fn check_folded(
     let skipped_count = if is_call {
         1
     } else {
-        meta.map(|meta| meta.operands_count).unwrap_or_default()
+        meta.map(|meta| count_immediates(&instr, instr_name.text(), meta.operands_count))
+            .unwrap_or_default()
     };
     let mut has_unknown = false;
     let received_types =
@@ -170,7 +171,7 @@ pub fn check_stacked(
                 let meta = data_set::INSTR_METAS.get(instr_name.text());
                 resolve_expected_types(service, uri, symbol_table, plain_instr, meta)
             }),
-            Instr::Block(block) => resolve_block_sig(service, uri, symbol_table, block)
+            Instr::Block(block) => resolve_block_sig(service, symbol_table, block)
                 .filter(|_| is_known(service, uri, symbol_table, &instr))
                 .map(|sig| {
                     let mut params = sig
@@ -256,6 +257,31 @@ pub fn check_stacked(
     });
 }
 
+/// Memory arguments and tables can be omitted, and there can be two memory arguments.
+fn count_immediates(instr: &PlainInstr, instr_name: &str, max: usize) -> usize {
+    let immediates = instr
+        .operands()
+        .take_while(|operand| operand.instr().is_none());
+    match instr_name {
+        "table.get" | "table.set" | "table.size" | "table.grow" | "table.fill" | "table.copy" => {
+            immediates.count().min(max)
+        }
+        "table.init" => immediates.count().clamp(1, max),
+        _ if instr_name.contains(".load") || instr_name.contains(".store") => {
+            let mem_args = immediates
+                .clone()
+                .take_while(|operand| operand.mem_arg().is_some())
+                .count();
+            if mem_args > 0 {
+                mem_args.min(2) + max - 1
+            } else {
+                immediates.count().clamp(max - 1, max)
+            }
+        }
+        _ => max,
+    }
+}
+
 /// Types of operands are unknown if an instruction among them isn't supported
 /// or makes the code after it unreachable.
 fn is_known(
@@ -281,7 +307,6 @@ fn is_known(
 
 fn resolve_block_sig(
     service: &LanguageService,
-    uri: InternUri,
     symbol_table: &SymbolTable,
     block: &BlockInstr,
 ) -> Option<FuncSig> {
@@ -318,7 +343,7 @@ fn resolve_type(
     instr: &Instr,
 ) -> Option<Vec<OperandType>> {
     match instr {
-        Instr::Block(block) => resolve_block_sig(service, uri, symbol_table, block)
+        Instr::Block(block) => resolve_block_sig(service, symbol_table, block)
             .map(|sig| sig.results.into_iter().map(OperandType::Val).collect()),
         Instr::Plain(plain_instr) => {
             let instr_name = plain_instr.instr_name()?;
-- 
2.43.0


From 8ab065406aba96bdd79656311419a0b6f0f73815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:43 +0000
Subject: [PATCH 24/45] fix: expect sixteen lane indices of i8x16.shuffle

---
 crates/service/src/data_set/instr_meta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/service/src/data_set/instr_meta.rs b/crates/service/src/data_set/instr_meta.rs
index a363682..7a4f4f8 100644
--- a/crates/service/src/data_set/instr_meta.rs
+++ b/crates/service/src/data_set/instr_meta.rs
@@ -2105,7 +2105,7 @@ pub(crate) static INSTR_METAS: LazyLock<FxHashMap<&'static str, InstrMeta>> = La
         "i8x16.shuffle",
         InstrMeta {
             bin_op: "0xFD 0x0D",
-            operands_count: 1,
+            operands_count: 16,
             params: vec![
                 OperandType::Val(ValType::V128),
                 OperandType::Val(ValType::V128),
-- 
2.43.0


From b7b3875d149bcad43bff7080af2fe357f1239da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:46 +0000
Subject: [PATCH 25/45] fix: know the type of nop

---
 crates/service/src/data_set/instr_meta.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/service/src/data_set/instr_meta.rs b/crates/service/src/data_set/instr_meta.rs
index 7a4f4f8..0ad584c 100644
--- a/crates/service/src/data_set/instr_meta.rs
+++ b/crates/service/src/data_set/instr_meta.rs
@@ -37,6 +37,15 @@ pub(crate) static INSTR_METAS: LazyLock<FxHashMap<&'static str, InstrMeta>> = La
             results: vec![OperandType::Generic],
         },
     );
+    map.insert(
+        "nop",
+        InstrMeta {
+            bin_op: "0x01",
+            operands_count: 0,
+            params: vec![],
+            results: vec![],
+        },
+    );
     map.insert(
         "local.get",
         InstrMeta {
-- 
2.43.0


From 6b74fb2c15ff4cb51955768ea8902d40f3d7d5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:00 +0000
Subject: [PATCH 26/45] fix: functions without type use take and return nothing

---
 crates/service/src/types_analyzer.rs | 48 ++++++++++++++--------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/crates/service/src/types_analyzer.rs b/crates/service/src/types_analyzer.rs
index 3e12a08..1928d51 100644
--- a/crates/service/src/types_analyzer.rs
+++ b/crates/service/src/types_analyzer.rs
@@ -83,30 +83,30 @@ fn get_func_sig(
     symbol: SymbolItemWithGreenEq,
 ) -> Option<FuncSig> {
     debug_assert!(matches!(symbol.kind, SymbolItemKind::Func));
-    symbol
-        .green
-        .children()
-        .find_map(|child| match child {
-            NodeOrToken::Node(node) if node.kind() == SyntaxKind::TYPE_USE.into() => Some(node),
-            _ => None,
-        })
-        .and_then(|type_use| {
-            if type_use.children().any(|child| {
-                let kind = child.kind();
-                kind == SyntaxKind::PARAM.into() || kind == SyntaxKind::RESULT.into()
-            }) {
-                Some(db.extract_sig(type_use.to_owned()))
-            } else {
-                let node = symbol.key.ptr.to_node(&SyntaxNode::new_root(db.root(uri)));
-                let symbol_table = db.symbol_table(uri);
-                child::<TypeUse>(&node)
-                    .and_then(|type_use| type_use.index())
-                    .and_then(|idx| symbol_table.find_defs(&idx.syntax().clone().into()))
-                    .and_then(|mut symbols| symbols.next())
-                    .and_then(|symbol| helpers::ast::find_func_type_of_type_def(&symbol.green))
-                    .map(|func_type| db.extract_sig(func_type))
-            }
-        })
+    let Some(type_use) = symbol.green.children().find_map(|child| match child {
+        NodeOrToken::Node(node) if node.kind() == SyntaxKind::TYPE_USE.into() => Some(node),
+        _ => None,
+    }) else {
+        return Some(FuncSig {
+            params: vec![],
+            results: vec![],
+        });
+    };
+    if type_use.children().any(|child| {
+        let kind = child.kind();
+        kind == SyntaxKind::PARAM.into() || kind == SyntaxKind::RESULT.into()
+    }) {
+        Some(db.extract_sig(type_use.to_owned()))
+    } else {
+        let node = symbol.key.ptr.to_node(&SyntaxNode::new_root(db.root(uri)));
+        let symbol_table = db.symbol_table(uri);
+        child::<TypeUse>(&node)
+            .and_then(|type_use| type_use.index())
+            .and_then(|idx| symbol_table.find_defs(&idx.syntax().clone().into()))
+            .and_then(|mut symbols| symbols.next())
+            .and_then(|symbol| helpers::ast::find_func_type_of_type_def(&symbol.green))
+            .map(|func_type| db.extract_sig(func_type))
+    }
 }
 
 fn render_func_header(
-- 
2.43.0


From 1c0b46779afc1f47159ed3fc9a101fe88134987a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:22 +0000
Subject: [PATCH 27/45] fix: table of table.init can be omitted

---
 crates/service/src/binder.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/crates/service/src/binder.rs b/crates/service/src/binder.rs
index e6f3678..6cc0438 100644
--- a/crates/service/src/binder.rs
+++ b/crates/service/src/binder.rs
@@ -9,7 +9,7 @@ use rowan::{
 };
 use std::{hash::Hash, rc::Rc};
 use wat_syntax::{
-    ast::{ModuleFieldFunc, PlainInstr},
+    ast::{Instr, ModuleFieldFunc, PlainInstr},
     SyntaxKind, SyntaxNode, WatLanguage,
 };
 
@@ -334,11 +334,17 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                         else {
                             continue;
                         };
-                        let mut children = node.children();
-                        if let Some(symbol) = children.next().and_then(|node| {
-                            create_ref_symbol(db, node, region.clone(), SymbolItemKind::TableRef)
-                        }) {
-                            symbols.push(symbol);
+                        // table can be omitted, then there's only the element segment
+                        let mut children = node.children().filter(|node| {
+                            !node.children().any(|child| Instr::can_cast(child.kind()))
+                        });
+                        if let Some((table, _)) = children.next().zip(children.next()) {
+                            symbols.extend(create_ref_symbol(
+                                db,
+                                table,
+                                region.clone(),
+                                SymbolItemKind::TableRef,
+                            ));
                         }
                     }
                     _ => {}
-- 
2.43.0


From 73072297c2ceb098190dd583bebd7f91e616ae75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:22 +0000
Subject: [PATCH 28/45] fix: don't compare types of operands whose number is
 unknown

---
 crates/service/src/checker/typeck.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/service/src/checker/typeck.rs b/crates/service/src/checker/typeck.rs
index 7eef219..b4e494d 100644
--- a/crates/service/src/checker/typeck.rs
+++ b/crates/service/src/checker/typeck.rs
@@ -88,12 +88,14 @@ pub fn check_folded(
             .operands()
             .filter(|operand| operand.instr().is_none())
             .count();
-    if expected_count != received_count
-        && instr
+    if expected_count != received_count {
+        if !instr
             .operands()
             .filter_map(|operand| operand.instr())
             .all(|instr| is_known(service, uri, symbol_table, &instr))
-    {
+        {
+            return;
+        }
         diags.push(Diagnostic {
             range: helpers::rowan_range_to_lsp_range(line_index, instr.syntax().text_range()),
             severity: Some(DiagnosticSeverity::ERROR),
-- 
2.43.0


From 735c3a56607acc75c384a1379756be133d4414f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:53 +0000
Subject: [PATCH 29/45] fix: return a selection range for each position

---
 .../service/src/features/selection_range.rs   | 39 ++++++++++++-------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/crates/service/src/features/selection_range.rs b/crates/service/src/features/selection_range.rs
index bef3700..d99eaf3 100644
--- a/crates/service/src/features/selection_range.rs
+++ b/crates/service/src/features/selection_range.rs
@@ -1,7 +1,7 @@
 use super::{find_meaningful_token, FilesCtx};
 use crate::{helpers, LanguageService};
 use line_index::LineIndex;
-use lsp_types::{SelectionRange, SelectionRangeParams};
+use lsp_types::{Range, SelectionRange, SelectionRangeParams};
 use wat_syntax::SyntaxNode;
 
 impl LanguageService {
@@ -13,19 +13,30 @@ impl LanguageService {
             params
                 .positions
                 .into_iter()
-                .filter_map(|position| {
-                    find_meaningful_token(self, uri, &root, position).map(|token| SelectionRange {
-                        range: helpers::rowan_range_to_lsp_range(&line_index, token.text_range()),
-                        parent: token.parent().map(|parent| {
-                            Box::new(SelectionRange {
-                                range: helpers::rowan_range_to_lsp_range(
-                                    &line_index,
-                                    parent.text_range(),
-                                ),
-                                parent: get_parent_range(parent, &line_index),
-                            })
-                        }),
-                    })
+                .map(|position| {
+                    if let Some(token) = find_meaningful_token(self, uri, &root, position) {
+                        SelectionRange {
+                            range: helpers::rowan_range_to_lsp_range(
+                                &line_index,
+                                token.text_range(),
+                            ),
+                            parent: token.parent().map(|parent| {
+                                Box::new(SelectionRange {
+                                    range: helpers::rowan_range_to_lsp_range(
+                                        &line_index,
+                                        parent.text_range(),
+                                    ),
+                                    parent: get_parent_range(parent, &line_index),
+                                })
+                            }),
+                        }
+                    } else {
+                        // there must be a result for each position, in the same order
+                        SelectionRange {
+                            range: Range::new(position, position),
+                            parent: None,
+                        }
+                    }
                 })
                 .collect(),
         )
-- 
2.43.0


From c916f22f42f88e3d485facb22e1f50935fb5e871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:16 +0000
Subject: [PATCH 30/45] fix: list modules in the order of the document

---
 crates/service/src/features/document_symbol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/service/src/features/document_symbol.rs b/crates/service/src/features/document_symbol.rs
index bade8e2..b38e4a9 100644
--- a/crates/service/src/features/document_symbol.rs
+++ b/crates/service/src/features/document_symbol.rs
@@ -171,7 +171,7 @@ impl LanguageService {
                 }
             })
             .collect::<Vec<_>>();
-        lsp_symbols.reverse();
+        lsp_symbols.sort_unstable_by_key(|symbol| symbol.range.start);
         Some(DocumentSymbolResponse::Nested(lsp_symbols))
     }
 }
-- 
2.43.0


From 1333c904204d35cb69c9cf3812c15c2ca0e169e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:16 +0000
Subject: [PATCH 31/45] fix: count columns of semantic tokens in UTF-16

---
 crates/service/src/features/semantic_tokens.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/crates/service/src/features/semantic_tokens.rs b/crates/service/src/features/semantic_tokens.rs
index 8519e5b..f7e07c4 100644
--- a/crates/service/src/features/semantic_tokens.rs
+++ b/crates/service/src/features/semantic_tokens.rs
@@ -1,7 +1,6 @@
 use crate::{binder::SymbolTablesCtx, files::FilesCtx, helpers, InternUri, LanguageService};
-use line_index::LineCol;
 use lsp_types::{
-    SemanticToken, SemanticTokens, SemanticTokensParams, SemanticTokensRangeParams,
+    Position, SemanticToken, SemanticTokens, SemanticTokensParams, SemanticTokensRangeParams,
     SemanticTokensRangeResult, SemanticTokensResult,
 };
 use rowan::ast::support;
@@ -50,10 +49,10 @@ impl LanguageService {
             .take_while(|token| token.text_range().start() < end)
             .peekable();
         if let Some(token) = tokens.peek() {
-            LineCol {
+            Position {
                 line: delta_line,
-                col: prev_start,
-            } = line_index.line_col(token.text_range().start());
+                character: prev_start,
+            } = helpers::rowan_pos_to_lsp_pos(&line_index, token.text_range().start());
         }
         let tokens = self.build_tokens(uri, tokens, &mut delta_line, &mut prev_start);
         Some(SemanticTokensRangeResult::Tokens(SemanticTokens {
@@ -87,7 +86,7 @@ impl LanguageService {
                     None
                 };
                 let range = token.text_range();
-                let col = line_index.line_col(range.start()).col;
+                let col = helpers::rowan_pos_to_lsp_pos(&line_index, range.start()).character;
                 Some(SemanticToken {
                     delta_line: mem::replace(delta_line, block_comment_lines.unwrap_or_default()),
                     delta_start: col
@@ -99,7 +98,7 @@ impl LanguageService {
                                 col
                             },
                         ),
-                    length: range.len().into(),
+                    length: token.text().chars().map(|c| c.len_utf16() as u32).sum(),
                     token_type,
                     token_modifiers_bitset: 0,
                 })
-- 
2.43.0


From 5166d2374cc4d5076b4dd0eb8e801d1655620b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:30 +0000
Subject: [PATCH 32/45] fix: count lines of tokens that aren't in the legend

---
 .../service/src/features/semantic_tokens.rs   | 22 ++++---------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/crates/service/src/features/semantic_tokens.rs b/crates/service/src/features/semantic_tokens.rs
index f7e07c4..66cf4f6 100644
--- a/crates/service/src/features/semantic_tokens.rs
+++ b/crates/service/src/features/semantic_tokens.rs
@@ -71,33 +71,19 @@ impl LanguageService {
         let line_index = self.line_index(uri);
         tokens
             .filter_map(|token| {
-                if token.kind() == SyntaxKind::WHITESPACE {
-                    let lines = token.text().chars().filter(|c| *c == '\n').count() as u32;
+                let lines = token.text().chars().filter(|c| *c == '\n').count() as u32;
+                let Some(token_type) = self.token_type(uri, &token) else {
                     if lines > 0 {
                         *delta_line += lines;
                         *prev_start = 0;
                     }
                     return None;
-                }
-                let token_type = self.token_type(uri, &token)?;
-                let block_comment_lines = if token.kind() == SyntaxKind::BLOCK_COMMENT {
-                    Some(token.text().chars().filter(|c| *c == '\n').count() as u32)
-                } else {
-                    None
                 };
                 let range = token.text_range();
                 let col = helpers::rowan_pos_to_lsp_pos(&line_index, range.start()).character;
                 Some(SemanticToken {
-                    delta_line: mem::replace(delta_line, block_comment_lines.unwrap_or_default()),
-                    delta_start: col
-                        - mem::replace(
-                            prev_start,
-                            if block_comment_lines.is_some_and(|lines| lines > 0) {
-                                0
-                            } else {
-                                col
-                            },
-                        ),
+                    delta_line: mem::replace(delta_line, lines),
+                    delta_start: col - mem::replace(prev_start, if lines > 0 { 0 } else { col }),
                     length: token.text().chars().map(|c| c.len_utf16() as u32).sum(),
                     token_type,
                     token_modifiers_bitset: 0,
-- 
2.43.0


From 9613401ee85061ba56d3b537d677c5fd69ffee13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:41 +0000
Subject: [PATCH 33/45] fix: functions without type use take and return nothing
 (as an early return)

---
 crates/service/src/types_analyzer.rs | 48 +++++++++++++++++-----------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/crates/service/src/types_analyzer.rs b/crates/service/src/types_analyzer.rs
index 1928d51..b8f635f 100644
--- a/crates/service/src/types_analyzer.rs
+++ b/crates/service/src/types_analyzer.rs
@@ -83,30 +83,40 @@ fn get_func_sig(
     symbol: SymbolItemWithGreenEq,
 ) -> Option<FuncSig> {
     debug_assert!(matches!(symbol.kind, SymbolItemKind::Func));
-    let Some(type_use) = symbol.green.children().find_map(|child| match child {
-        NodeOrToken::Node(node) if node.kind() == SyntaxKind::TYPE_USE.into() => Some(node),
-        _ => None,
-    }) else {
+    if symbol
+        .green
+        .children()
+        .all(|child| child.kind() != SyntaxKind::TYPE_USE.into())
+    {
         return Some(FuncSig {
             params: vec![],
             results: vec![],
         });
-    };
-    if type_use.children().any(|child| {
-        let kind = child.kind();
-        kind == SyntaxKind::PARAM.into() || kind == SyntaxKind::RESULT.into()
-    }) {
-        Some(db.extract_sig(type_use.to_owned()))
-    } else {
-        let node = symbol.key.ptr.to_node(&SyntaxNode::new_root(db.root(uri)));
-        let symbol_table = db.symbol_table(uri);
-        child::<TypeUse>(&node)
-            .and_then(|type_use| type_use.index())
-            .and_then(|idx| symbol_table.find_defs(&idx.syntax().clone().into()))
-            .and_then(|mut symbols| symbols.next())
-            .and_then(|symbol| helpers::ast::find_func_type_of_type_def(&symbol.green))
-            .map(|func_type| db.extract_sig(func_type))
     }
+    symbol
+        .green
+        .children()
+        .find_map(|child| match child {
+            NodeOrToken::Node(node) if node.kind() == SyntaxKind::TYPE_USE.into() => Some(node),
+            _ => None,
+        })
+        .and_then(|type_use| {
+            if type_use.children().any(|child| {
+                let kind = child.kind();
+                kind == SyntaxKind::PARAM.into() || kind == SyntaxKind::RESULT.into()
+            }) {
+                Some(db.extract_sig(type_use.to_owned()))
+            } else {
+                let node = symbol.key.ptr.to_node(&SyntaxNode::new_root(db.root(uri)));
+                let symbol_table = db.symbol_table(uri);
+                child::<TypeUse>(&node)
+                    .and_then(|type_use| type_use.index())
+                    .and_then(|idx| symbol_table.find_defs(&idx.syntax().clone().into()))
+                    .and_then(|mut symbols| symbols.next())
+                    .and_then(|symbol| helpers::ast::find_func_type_of_type_def(&symbol.green))
+                    .map(|func_type| db.extract_sig(func_type))
+            }
+        })
 }
 
 fn render_func_header(
-- 
2.43.0


From 62b6327786d243095c88b52392f5d6d9b23881cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:52 +0000
Subject: [PATCH 34/45] fix: keep selection ranges of positions outside the
 text inside the document

---
 crates/service/src/features/selection_range.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/service/src/features/selection_range.rs b/crates/service/src/features/selection_range.rs
index d99eaf3..7b449fa 100644
--- a/crates/service/src/features/selection_range.rs
+++ b/crates/service/src/features/selection_range.rs
@@ -32,6 +32,11 @@ impl LanguageService {
                         }
                     } else {
                         // there must be a result for each position, in the same order
+                        let position = helpers::rowan_pos_to_lsp_pos(
+                            &line_index,
+                            helpers::lsp_pos_to_rowan_pos(&line_index, position)
+                                .unwrap_or_else(|| line_index.len()),
+                        );
                         SelectionRange {
                             range: Range::new(position, position),
                             parent: None,
-- 
2.43.0


From e5ea2db0c9b558949938411636c8aaa1e0349275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:42 +0000
Subject: [PATCH 35/45] fix: respond with errors to unknown methods and invalid
 parameters

---
 crates/server/src/server.rs | 133 +++++++++++++++++++++++++++++-------
 1 file changed, 110 insertions(+), 23 deletions(-)

diff --git a/crates/server/src/server.rs b/crates/server/src/server.rs
index 0965923..02d077f 100644
--- a/crates/server/src/server.rs
+++ b/crates/server/src/server.rs
@@ -1,5 +1,6 @@
 use lsp_server::{
-    Connection, ExtractError, Message, Notification, Request, RequestId, Response, ResponseError,
+    Connection, ErrorCode, ExtractError, Message, Notification, Request, RequestId, Response,
+    ResponseError,
 };
 use lsp_types::{
     notification::{
@@ -48,6 +49,7 @@ impl Server {
                     if conn.handle_shutdown(&req)? {
                         return Ok(());
                     }
+                    let id = req.id.clone();
                     match cast_req::<CallHierarchyPrepare>(req) {
                         Ok((id, params)) => {
                             conn.sender.send(Message::Response(Response {
@@ -60,7 +62,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            respond_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<CallHierarchyIncomingCalls>(req) {
                         Ok((id, params)) => {
@@ -74,7 +79,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            respond_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<CallHierarchyOutgoingCalls>(req) {
                         Ok((id, params)) => {
@@ -88,7 +96,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            respond_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<CodeActionRequest>(req) {
                         Ok((id, params)) => {
@@ -102,7 +113,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            respond_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<Completion>(req) {
                         Ok((id, params)) => {
@@ -116,7 +130,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            respond_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<DocumentDiagnosticRequest>(req) {
                         Ok((id, params)) => {
@@ -130,7 +147,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            respond_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<FoldingRangeRequest>(req) {
                         Ok((id, params)) => {
@@ -144,7 +164,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            respond_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<Formatting>(req) {
                         Ok((id, params)) => {
@@ -158,7 +181,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            respond_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<RangeFormatting>(req) {
                         Ok((id, params)) => {
@@ -172,7 +198,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            respond_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<GotoDefinition>(req) {
                         Ok((id, params)) => {
@@ -186,7 +215,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            respond_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<GotoTypeDefinition>(req) {
                         Ok((id, params)) => {
@@ -200,7 +232,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            respond_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<GotoDeclaration>(req) {
                         Ok((id, params)) => {
@@ -214,7 +249,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            respond_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<HoverRequest>(req) {
                         Ok((id, params)) => {
@@ -226,7 +264,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            respond_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<InlayHintRequest>(req) {
                         Ok((id, params)) => {
@@ -240,7 +281,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            respond_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<References>(req) {
                         Ok((id, params)) => {
@@ -254,7 +298,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            respond_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<PrepareRenameRequest>(req) {
                         Ok((id, params)) => {
@@ -268,7 +315,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            respond_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<Rename>(req) {
                         Ok((id, params)) => {
@@ -291,7 +341,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            respond_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<SelectionRangeRequest>(req) {
                         Ok((id, params)) => {
@@ -305,7 +358,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            respond_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<SemanticTokensFullRequest>(req) {
                         Ok((id, params)) => {
@@ -319,7 +375,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            respond_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<SemanticTokensRangeRequest>(req) {
                         Ok((id, params)) => {
@@ -333,7 +392,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            respond_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<DocumentSymbolRequest>(req) {
                         Ok((id, params)) => {
@@ -346,8 +408,19 @@ impl Server {
                             }))?;
                             continue;
                         }
-                        Err(ExtractError::MethodMismatch(..)) => continue,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::MethodMismatch(req)) => {
+                            respond_error(
+                                &conn,
+                                id,
+                                ErrorCode::MethodNotFound,
+                                format!("unknown method `{}`", req.method),
+                            )?;
+                            continue;
+                        }
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            respond_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                 }
                 Message::Notification(mut notification) => {
@@ -435,6 +508,20 @@ impl Server {
     }
 }
 
+fn respond_error(
+    conn: &Connection,
+    id: RequestId,
+    code: ErrorCode,
+    message: String,
+) -> anyhow::Result<()> {
+    conn.sender.send(Message::Response(Response::new_err(
+        id,
+        code as i32,
+        message,
+    )))?;
+    Ok(())
+}
+
 fn cast_req<R>(req: Request) -> Result<(RequestId, R::Params), ExtractError<Request>>
 where
     R: lsp_types::request::Request,
-- 
2.43.0


From 46136f19f1bd8d88f94ae68fa7d921cc4572a032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:42 +0000
Subject: [PATCH 36/45] fix: the last of several changes is the current text

---
 crates/server/src/server.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/server/src/server.rs b/crates/server/src/server.rs
index 02d077f..98b5d2e 100644
--- a/crates/server/src/server.rs
+++ b/crates/server/src/server.rs
@@ -473,7 +473,7 @@ impl Server {
         params: DidChangeTextDocumentParams,
         conn: &Connection,
     ) -> anyhow::Result<()> {
-        if let Some(change) = params.content_changes.first() {
+        if let Some(change) = params.content_changes.last() {
             self.service
                 .commit(params.text_document.uri.clone(), change.text.clone());
             if !self.support_pull_diagnostics {
-- 
2.43.0


From 8a4bd7efd1983016514f1a59d383cc11f3fa1ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:11 +0000
Subject: [PATCH 37/45] fix: don't crash on requests for documents that were
 never opened

---
 crates/server/src/server.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/crates/server/src/server.rs b/crates/server/src/server.rs
index 98b5d2e..5d99ca4 100644
--- a/crates/server/src/server.rs
+++ b/crates/server/src/server.rs
@@ -17,11 +17,13 @@ use lsp_types::{
     DidChangeTextDocumentParams, DidCloseTextDocumentParams, DidOpenTextDocumentParams,
     InitializeParams, PublishDiagnosticsParams, Uri,
 };
+use std::collections::HashSet;
 use wat_service::LanguageService;
 
 #[derive(Default)]
 pub struct Server {
     service: LanguageService,
+    known_documents: HashSet<String>,
     support_pull_diagnostics: bool,
 }
 
@@ -50,6 +52,14 @@ impl Server {
                         return Ok(());
                     }
                     let id = req.id.clone();
+                    // the service can't tell anything about documents that were never opened
+                    if let Some(uri) = document_uri(&req) {
+                        if !self.known_documents.contains(uri) {
+                            let message = format!("document `{uri}` isn't opened");
+                            respond_error(&conn, id, ErrorCode::InvalidParams, message)?;
+                            continue;
+                        }
+                    }
                     match cast_req::<CallHierarchyPrepare>(req) {
                         Ok((id, params)) => {
                             conn.sender.send(Message::Response(Response {
@@ -460,6 +470,8 @@ impl Server {
         params: DidOpenTextDocumentParams,
         conn: &Connection,
     ) -> anyhow::Result<()> {
+        self.known_documents
+            .insert(params.text_document.uri.to_string());
         self.service
             .commit(params.text_document.uri.clone(), params.text_document.text);
         if !self.support_pull_diagnostics {
@@ -474,6 +486,8 @@ impl Server {
         conn: &Connection,
     ) -> anyhow::Result<()> {
         if let Some(change) = params.content_changes.last() {
+            self.known_documents
+                .insert(params.text_document.uri.to_string());
             self.service
                 .commit(params.text_document.uri.clone(), change.text.clone());
             if !self.support_pull_diagnostics {
@@ -508,6 +522,15 @@ impl Server {
     }
 }
 
+/// The document a request is about.
+fn document_uri(req: &Request) -> Option<&str> {
+    req.params
+        .get("textDocument")
+        .or_else(|| req.params.get("item"))
+        .and_then(|document| document.get("uri"))
+        .and_then(|uri| uri.as_str())
+}
+
 fn respond_error(
     conn: &Connection,
     id: RequestId,
-- 
2.43.0


From 711b249a4cf66d2b46fe15e3037b0904be0e409c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:40 +0000
Subject: [PATCH 38/45] fix: don't drop comments when splitting or joining
 parameters

---
 .../src/refactorings/func_header_split.rs      |  2 +-
 crates/service/src/refactorings/mod.rs         | 12 ++++++++++++
 crates/service/src/refactorings/params_join.rs | 18 +++++++++++-------
 3 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/crates/service/src/refactorings/func_header_split.rs b/crates/service/src/refactorings/func_header_split.rs
index ed7a23a..10e1079 100644
--- a/crates/service/src/refactorings/func_header_split.rs
+++ b/crates/service/src/refactorings/func_header_split.rs
@@ -18,7 +18,7 @@ pub fn act(
     let [first, rest @ ..] = &types[..] else {
         return None;
     };
-    if rest.is_empty() {
+    if rest.is_empty() || super::has_comment_or_error(node.descendants_with_tokens()) {
         return None;
     }
 
diff --git a/crates/service/src/refactorings/mod.rs b/crates/service/src/refactorings/mod.rs
index 7de13dc..5f28b26 100644
--- a/crates/service/src/refactorings/mod.rs
+++ b/crates/service/src/refactorings/mod.rs
@@ -1,3 +1,15 @@
 pub mod fix_invalid_mem_arg;
 pub mod func_header_split;
 pub mod params_join;
+
+use wat_syntax::{SyntaxElement, SyntaxKind};
+
+/// Comments and unexpected tokens would be lost when the code is written anew.
+fn has_comment_or_error(mut elements: impl Iterator<Item = SyntaxElement>) -> bool {
+    elements.any(|element| {
+        matches!(
+            element.kind(),
+            SyntaxKind::LINE_COMMENT | SyntaxKind::BLOCK_COMMENT | SyntaxKind::ERROR
+        )
+    })
+}
diff --git a/crates/service/src/refactorings/params_join.rs b/crates/service/src/refactorings/params_join.rs
index bfd66af..0894f36 100644
--- a/crates/service/src/refactorings/params_join.rs
+++ b/crates/service/src/refactorings/params_join.rs
@@ -34,6 +34,16 @@ pub fn act(
     if rest.is_empty() {
         return None;
     }
+    let params_range = TextRange::new(
+        first_node.text_range().start(),
+        params.last().unwrap_or(first_node).text_range().end(),
+    );
+    if super::has_comment_or_error(
+        node.descendants_with_tokens()
+            .filter(|element| params_range.contains_range(element.text_range())),
+    ) {
+        return None;
+    }
 
     let mut new_text = rest
         .iter()
@@ -49,13 +59,7 @@ pub fn act(
     changes.insert(
         service.lookup_uri(uri),
         vec![TextEdit {
-            range: helpers::rowan_range_to_lsp_range(
-                line_index,
-                TextRange::new(
-                    first_node.text_range().start(),
-                    params.last().unwrap_or(first_node).text_range().end(),
-                ),
-            ),
+            range: helpers::rowan_range_to_lsp_range(line_index, params_range),
             new_text,
         }],
     );
-- 
2.43.0


From bd56d07c3249a8f592a1b927a895f945c80a549c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:11 +0000
Subject: [PATCH 39/45] fix: don't join memory arguments with the operand after
 them

---
 crates/service/src/refactorings/fix_invalid_mem_arg.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/service/src/refactorings/fix_invalid_mem_arg.rs b/crates/service/src/refactorings/fix_invalid_mem_arg.rs
index 17f7600..f7f9f0b 100644
--- a/crates/service/src/refactorings/fix_invalid_mem_arg.rs
+++ b/crates/service/src/refactorings/fix_invalid_mem_arg.rs
@@ -31,12 +31,14 @@ pub fn act(
                         }
                         _ => None,
                     });
+                    let mut has_value = false;
                     if let Some(range) = children
                         .next()
                         .filter(|element| {
                             if let SyntaxElement::Token(token) = element {
                                 token.kind() == SyntaxKind::ERROR
                                     && token.text().strip_prefix('=').is_some_and(|rest| {
+                                        has_value = !rest.is_empty();
                                         rest.chars().all(|c| c.is_ascii_digit())
                                     })
                             } else {
@@ -49,7 +51,13 @@ pub fn act(
                             range: helpers::rowan_range_to_lsp_range(line_index, range),
                             new_text: String::new(),
                         });
-                        if let Some(range) = check_after_eq(&mut children) {
+                        // what follows `=4` is another operand
+                        let range = if has_value {
+                            None
+                        } else {
+                            check_after_eq(&mut children)
+                        };
+                        if let Some(range) = range {
                             text_edits.push(TextEdit {
                                 range: helpers::rowan_range_to_lsp_range(line_index, range),
                                 new_text: String::new(),
-- 
2.43.0


From aebd8adf4f4e08156f9598e716ebcbcdb1900acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:06 +0000
Subject: [PATCH 40/45] fix: check literal operands of return_call and of the
 loads that zero lanes

---
 crates/service/src/checker/literal_operands.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/service/src/checker/literal_operands.rs b/crates/service/src/checker/literal_operands.rs
index ce73ad2..4304578 100644
--- a/crates/service/src/checker/literal_operands.rs
+++ b/crates/service/src/checker/literal_operands.rs
@@ -46,7 +46,8 @@ pub fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, node: &SyntaxN
 
     match instr_name.text() {
         "call" | "local.get" | "local.set" | "local.tee" | "global.get" | "global.set"
-        | "ref.func" | "memory.init" | "data.drop" | "elem.drop" | "br" | "br_if" => {
+        | "ref.func" | "memory.init" | "data.drop" | "elem.drop" | "br" | "br_if"
+        | "return_call" => {
             check_operand!(
                 SyntaxKind::IDENT | SyntaxKind::INT,
                 "expected identifier or unsigned integer"
@@ -94,7 +95,7 @@ pub fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, node: &SyntaxN
         | "i64.store16" | "i64.store32" | "v128.load" | "v128.load8x8_s" | "v128.load8x8_u"
         | "v128.load16x4_s" | "v128.load16x4_u" | "v128.load32x2_s" | "v128.load32x2_u"
         | "v128.load8_splat" | "v128.load16_splat" | "v128.load32_splat" | "v128.load64_splat"
-        | "v128.store" => {
+        | "v128.load32_zero" | "v128.load64_zero" | "v128.store" => {
             check_optional_operand!(SyntaxKind::MEM_ARG, "expected memory argument");
         }
         "i8x16.shuffle"
-- 
2.43.0


From c73ab832b7aae1329f202ade3bb09c3962cb3ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:14 +0000
Subject: [PATCH 41/45] fix: parse several results in block types

---
 crates/parser/src/parser/instr.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/parser/src/parser/instr.rs b/crates/parser/src/parser/instr.rs
index 163cfd6..2fee6af 100644
--- a/crates/parser/src/parser/instr.rs
+++ b/crates/parser/src/parser/instr.rs
@@ -33,7 +33,19 @@ fn block_instr(input: &mut Input) -> GreenResult {
 
 fn block_type(input: &mut Input) -> GreenResult {
     alt((
-        result.map(|child| node(BLOCK_TYPE, [child])),
+        (
+            result,
+            repeat::<_, _, Vec<_>, _, _>(0.., trivias_prefixed(result)),
+        )
+            .map(|(first, rest)| {
+                if rest.is_empty() {
+                    return node(BLOCK_TYPE, [first]);
+                }
+                let mut children = vec![first];
+                rest.into_iter()
+                    .for_each(|mut result| children.append(&mut result));
+                node(BLOCK_TYPE, [node(TYPE_USE, children)])
+            }),
         type_use.map(|child| node(BLOCK_TYPE, [child])),
     ))
     .parse_next(input)
-- 
2.43.0


From 268f401d8c2a273fb3e6cdbe7842bb4344d3ddd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:27 +0000
Subject: [PATCH 42/45] fix: allow apostrophes in identifiers

---
 crates/parser/src/parser/token.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/crates/parser/src/parser/token.rs b/crates/parser/src/parser/token.rs
index c2f4b54..753ec0c 100644
--- a/crates/parser/src/parser/token.rs
+++ b/crates/parser/src/parser/token.rs
@@ -166,10 +166,7 @@ fn ident_impl<'s>(input: &mut Input<'s>) -> PResult<&'s str, SyntaxError> {
 pub fn is_id_char(c: char) -> bool {
     c.is_ascii_alphanumeric()
         || c.is_ascii_punctuation()
-            && !matches!(
-                c,
-                '\'' | '"' | ',' | ';' | '(' | ')' | '[' | ']' | '{' | '}'
-            )
+            && !matches!(c, '"' | ',' | ';' | '(' | ')' | '[' | ']' | '{' | '}')
 }
 
 pub(super) fn string(input: &mut Input) -> GreenResult {
-- 
2.43.0


From c9903019f7680a7b0cdba70e131af2f1b8d0b287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:08 +0000
Subject: [PATCH 43/45] fix: keep folded if without then branch as block

It was parsed again as a plain instruction once the then branch turned out to be
missing, which wasn't reported, and took exponential time if such blocks were
nested.
---
 crates/parser/src/parser/instr.rs | 48 ++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/crates/parser/src/parser/instr.rs b/crates/parser/src/parser/instr.rs
index 2fee6af..ea51aff 100644
--- a/crates/parser/src/parser/instr.rs
+++ b/crates/parser/src/parser/instr.rs
@@ -272,11 +272,23 @@ fn block_if(input: &mut Input) -> GreenResult {
             opt(trivias_prefixed(block_type)),
             repeat_till::<_, _, Vec<_>, _, _, _, _>(
                 0..,
-                retry(instr, []),
-                (trivias, l_paren, trivias_prefixed(keyword("then"))),
+                retry_once(instr, []),
+                peek((
+                    trivias,
+                    alt((
+                        (l_paren, trivias_prefixed(keyword("then"))).void(),
+                        ")".void(),
+                        eof.void(),
+                    )),
+                )),
             ),
-            repeat::<_, _, Vec<_>, _, _>(0.., retry(instr, [])),
-            r_paren,
+            must((
+                trivias,
+                l_paren,
+                trivias_prefixed(keyword("then")),
+                repeat::<_, _, Vec<_>, _, _>(0.., retry(instr, [])),
+                r_paren,
+            )),
             opt((
                 trivias,
                 l_paren,
@@ -292,9 +304,8 @@ fn block_if(input: &mut Input) -> GreenResult {
                     mut if_keyword,
                     id,
                     block_type,
-                    (cond_instrs, (mut trivias_before_then, then_l_paren, mut then_keyword)),
-                    then_instrs,
-                    then_r_paren,
+                    (cond_instrs, _),
+                    then_branch,
                     else_branch,
                     r_paren,
                 )| {
@@ -310,18 +321,21 @@ fn block_if(input: &mut Input) -> GreenResult {
                     cond_instrs
                         .into_iter()
                         .for_each(|mut instr| children.append(&mut instr));
-                    children.append(&mut trivias_before_then);
 
-                    let mut then_children = Vec::with_capacity(4);
-                    then_children.push(then_l_paren);
-                    then_children.append(&mut then_keyword);
-                    then_instrs
-                        .into_iter()
-                        .for_each(|mut instr| then_children.append(&mut instr));
-                    if let Some(mut r_paren) = then_r_paren {
-                        then_children.append(&mut r_paren);
+                    if let Some((mut trivias, l_paren, mut keyword, instrs, r_paren)) = then_branch
+                    {
+                        children.append(&mut trivias);
+                        let mut then_children = Vec::with_capacity(4);
+                        then_children.push(l_paren);
+                        then_children.append(&mut keyword);
+                        instrs
+                            .into_iter()
+                            .for_each(|mut instr| then_children.append(&mut instr));
+                        if let Some(mut r_paren) = r_paren {
+                            then_children.append(&mut r_paren);
+                        }
+                        children.push(node(BLOCK_IF_THEN, then_children));
                     }
-                    children.push(node(BLOCK_IF_THEN, then_children));
 
                     if let Some((mut trivias, l_paren, mut keyword, instrs, r_paren)) = else_branch
                     {
-- 
2.43.0


From 8487a689f0b710a639268b822719b49591c5190e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:37 +0000
Subject: [PATCH 44/45] fix: don't take end, else and then for instructions

Stray ones were accepted without any error.
---
 crates/parser/src/parser/instr.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/parser/src/parser/instr.rs b/crates/parser/src/parser/instr.rs
index ea51aff..3835634 100644
--- a/crates/parser/src/parser/instr.rs
+++ b/crates/parser/src/parser/instr.rs
@@ -400,7 +400,9 @@ fn plain_instr(input: &mut Input) -> GreenResult {
 }
 
 fn instr_name(input: &mut Input) -> GreenResult {
-    word.context(StrContext::Label("instruction name"))
+    // parts of blocks aren't instructions
+    word.verify(|word: &str| !matches!(word, "end" | "else" | "then"))
+        .context(StrContext::Label("instruction name"))
         .parse_next(input)
         .map(|text| tok(INSTR_NAME, text))
 }
-- 
2.43.0


From 47b2b3544ef1341232434a05a178dde2d53226c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:29 +0000
Subject: [PATCH 45/45] fix: resolve indexes written in hexadecimal or with
 separators

They weren't seen as references, so going to definition, finding references, hovering
and so on did nothing, and indexes that don't exist weren't reported.
---
 crates/service/src/binder.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/service/src/binder.rs b/crates/service/src/binder.rs
index 6cc0438..51a7459 100644
--- a/crates/service/src/binder.rs
+++ b/crates/service/src/binder.rs
@@ -65,7 +65,7 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                 node.children_with_tokens()
                     .filter_map(|it| it.into_token())
                     .find(|it| matches!(it.kind(), SyntaxKind::UNSIGNED_INT | SyntaxKind::INT))
-                    .and_then(|token| token.text().parse().ok())
+                    .and_then(|token| parse_index(token.text()))
                     .map(|num| SymbolItem {
                         green: node.green().into(),
                         key: node.into(),
@@ -78,6 +78,13 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                     })
             })
     }
+    fn parse_index(text: &str) -> Option<u32> {
+        let text = text.replace('_', "");
+        match text.strip_prefix("0x") {
+            Some(hex) => u32::from_str_radix(hex, 16).ok(),
+            None => text.parse().ok(),
+        }
+    }
     fn create_import_desc_symbol(
         db: &dyn SymbolTablesCtx,
         node: &SyntaxNode,
-- 
2.43.0

