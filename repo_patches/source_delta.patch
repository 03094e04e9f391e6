From 21087e0b37867a5d05b6a2d22d47d9ab72ddba16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 01/68] fix: keep a line terminator that precedes a comment

next_item overwrote has_line_term on every comment it skipped, so
`a\n/*c*/b` was rejected: only the text after the last comment counted.
---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 803564b..736fb32 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4159,8 +4159,11 @@ where
     /// and return the last token
     fn next_item(&mut self) -> Res<Item> {
         let mut look_ahead_span = self.look_ahead.span;
+        let mut has_line_term = false;
         loop {
-            self.context.has_line_term = self.scanner.pending_new_line;
+            // a new line before a comment still counts, comments are skipped
+            has_line_term = has_line_term || self.scanner.pending_new_line;
+            self.context.has_line_term = has_line_term;
             if let Some(look_ahead) = self.scanner.next() {
                 if cfg!(feature = "debug_look_ahead") {
                     self._look_ahead = format!("{:?}: {:?}", look_ahead.token, self.scanner.string_for(&look_ahead.span));
-- 
2.43.0


From af73ad7c57c8e4117e937428b297e3cbb177d791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 02/68] fix: restore the whole scanner state after looking past
 let and import

set_state leaves eof and pending_new_line at their lookahead values, so
`let ++\nx` lost its postfix operator and a final `let` was an error.
---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 736fb32..b26bebf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4271,6 +4271,7 @@ where
         debug!("at_import_call");
         if self.at_keyword(Keyword::Import) {
             let state = self.scanner.get_state();
+            let (eof, new_line) = (self.scanner.eof, self.scanner.pending_new_line);
             self.scanner.skip_comments();
             let ret = if let Some(next) = self.scanner.next() {
                 next.token.matches_punct(&Punct::OpenParen)
@@ -4278,6 +4279,8 @@ where
                 false
             };
             self.scanner.set_state(state);
+            self.scanner.eof = eof;
+            self.scanner.pending_new_line = new_line;
             ret
         } else {
             false
@@ -4303,6 +4306,7 @@ where
     /// `{`, or `[`
     fn at_lexical_decl(&mut self) -> bool {
         let state = self.scanner.get_state();
+        let (eof, new_line) = (self.scanner.eof, self.scanner.pending_new_line);
         self.scanner.skip_comments();
         let ret = if let Some(next) = self.scanner.next() {
             next.token.is_ident()
@@ -4314,6 +4318,8 @@ where
             false
         };
         self.scanner.set_state(state);
+        self.scanner.eof = eof;
+        self.scanner.pending_new_line = new_line;
         ret
     }
     /// Test for if the next token is a specific punct
-- 
2.43.0


From 6c795dde7389d4ca55e81ed277cd847fe7c22fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 03/68] fix: leave the scanner untouched when checking for an
 async function

Scanner::look_ahead pops the open brace stack when it sees `}`, so a
template literal holding `{async}` could not be tokenized any more.
---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index b26bebf..92a9aff 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4366,7 +4366,11 @@ where
     fn at_async_function(&mut self) -> bool {
         debug!("at_async_function");
         if self.at_contextual_keyword("async") {
-            if let Some(peek) = self.scanner.look_ahead() {
+            // look_ahead still updates the scanner's stack of open braces
+            let state = self.scanner.get_state();
+            let peek = self.scanner.look_ahead();
+            self.scanner.set_state(state);
+            if let Some(peek) = peek {
                 debug!("peeking ahead {:?}", peek);
                 let pos = self.look_ahead_position;
                 let next_pos = self.get_item_position(&peek);
-- 
2.43.0


From 603932204224aecc81e695993ccb71d92adf060b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:00 +0000
Subject: [PATCH 04/68] fix: do not turn a defaulted arrow parameter into one
 named yield

---
 src/lib.rs | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 92a9aff..83cf49a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3239,28 +3239,14 @@ where
                     match &p {
                         FunctionArg::Pat(ref p) => match p {
                             Pat::Assignment(ref a) => match &*a.right {
-                                Expr::Yield(ref y) => {
-                                    if y.argument.is_some() {
-                                        invalid_param = true;
-                                    } else {
-                                        return FunctionArg::Pat(Pat::Identifier(
-                                            "yield".to_owned(),
-                                        ));
-                                    }
-                                }
+                                Expr::Yield(_) => invalid_param = true,
                                 _ => (),
                             },
                             _ => (),
                         },
                         FunctionArg::Expr(ref e) => match e {
                             Expr::Assignment(ref a) => match &*a.right {
-                                Expr::Yield(ref y) => {
-                                    if y.argument.is_some() {
-                                        invalid_param = true;
-                                    } else {
-                                        return FunctionArg::Expr(Expr::Ident("yield".to_owned()));
-                                    }
-                                }
+                                Expr::Yield(_) => invalid_param = true,
                                 _ => (),
                             },
                             _ => (),
-- 
2.43.0


From ee83b163828099cb2f7a759eb61231947d0cfc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:31 +0000
Subject: [PATCH 05/68] fix: keep the superclass of an anonymous class

---
 src/lib.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 83cf49a..1cd5237 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1782,21 +1782,17 @@ where
         let prev_strict = self.context.strict;
         self.context.strict = true;
         self.expect_keyword(Keyword::Class)?;
-        let mut super_class = if self.at_contextual_keyword("extends") {
-            let _ = self.next_item()?;
-            let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
-            let super_class = self.parse_left_hand_side_expr()?;
-            self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
-            Some(Box::new(super_class))
-        } else {
+        let id = if self.at_contextual_keyword("extends") {
+            if !opt_ident {
+                return self.expected_token_error(&self.look_ahead, &["class name"]);
+            }
             None
-        };
-        let id = if opt_ident && !self.look_ahead.token.is_ident() {
+        } else if opt_ident && !self.look_ahead.token.is_ident() {
             None
         } else {
             Some(self.parse_var_ident(false)?)
         };
-        super_class = if super_class.is_none() && self.at_contextual_keyword("extends") {
+        let super_class = if self.at_contextual_keyword("extends") {
             let _ = self.next_item()?;
             let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
             let super_class = self.parse_left_hand_side_expr()?;
-- 
2.43.0


From 8dea1b9ffd9140ee5746a2cac8c9719b4a4f86ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:34 +0000
Subject: [PATCH 06/68] fix: keep async and static of class elements apart from
 their names

---
 src/lib.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1cd5237..47608cf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1839,10 +1839,20 @@ where
         let mut is_static = false;
         let mut is_async = false;
         if self.at_contextual_keyword("async") {
-            let _async = self.next_item()?;
-            is_async = true;
+            let async_item = self.next_item()?;
+            if self.at_punct(Punct::OpenParen) {
+                key = Some(PropertyKey::Expr(Expr::Ident(
+                    self.get_string(&async_item.span)?,
+                )));
+            } else if self.context.has_line_term || self.at_punct(Punct::Asterisk) {
+                return self.expected_token_error(&self.look_ahead, &["("]);
+            } else {
+                is_async = true;
+            }
         }
-        if self.at_punct(Punct::Asterisk) {
+        if key.is_some() {
+            debug!("found method named async");
+        } else if self.at_punct(Punct::Asterisk) {
             debug!("found leading asterisk");
             let _ = self.next_item()?;
         } else {
@@ -1850,7 +1860,9 @@ where
 
             let new_key = self.parse_object_property_key()?;
 
-            if Self::is_static(&new_key)
+            if !is_async
+                && !computed
+                && Self::is_static(&new_key)
                 && (Self::qualified_prop_name(&self.look_ahead.token)
                     || self.at_punct(Punct::Asterisk))
             {
@@ -1882,7 +1894,7 @@ where
         let mut method = false;
 
         let look_ahead_prop_key = Self::qualified_prop_name(&self.look_ahead.token);
-        if token.is_ident() {
+        if token.is_ident() && !is_async {
             let (at_get, at_set) = if let Some(ref k) = key {
                 (
                     Self::is_key(&k, "get") && look_ahead_prop_key,
-- 
2.43.0


From 0925e300a15985c4fd870ec1e095d747d42f961d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:38 +0000
Subject: [PATCH 07/68] fix: do not drop async from an object member that is
 not a method

---
 src/lib.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 47608cf..98cfe09 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2542,11 +2542,12 @@ where
             let id = self.scanner.string_for(&start.span).unwrap_or(String::new());
             let _ = self.next_item()?;
             let computed = self.at_punct(Punct::OpenBracket);
-            let is_async = /*self.context.has_line_term
-                && */id == "async"/*
+            let is_async = id == "async"
                 && !self.at_punct(Punct::Colon)
-                && !self.at_punct(Punct::Asterisk)
-                && !self.at_punct(Punct::Comma)*/;
+                && !self.at_punct(Punct::OpenParen)
+                && !self.at_punct(Punct::Comma)
+                && !self.at_punct(Punct::CloseBrace)
+                && !self.at_punct(Punct::Assign);
             let key = if is_async {
                 self.parse_object_property_key()?
             } else {
@@ -2561,6 +2562,9 @@ where
             let key = self.parse_object_property_key()?;
             (Some(key), false, computed)
         };
+        if is_async && !self.at_punct(Punct::OpenParen) {
+            return self.expected_token_error(&self.look_ahead, &["("]);
+        }
         let at_qualified = self.at_qualified_prop_key();
         let prop = if &self.scanner.stream[start.span.start..start.span.end] == "get"
             && at_qualified
-- 
2.43.0


From 5e719b9180dcaba3da5783fcc03adf978494ed3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:57 +0000
Subject: [PATCH 08/68] fix: start an async arrow only at a lone async
 identifier

---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 98cfe09..9e4f091 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3080,6 +3080,7 @@ where
             let curr_line = self.look_ahead_position.line;
             let start_line = start_pos.line;
             if &self.scanner.stream[start..end] == "async"
+                && Self::is_ident(&current)
                 && curr_line == start_line
                 && (self.look_ahead.token.is_ident() || self.at_keyword(Keyword::Yield))
             {
@@ -3872,7 +3873,9 @@ where
                 debug!(target: "look_ahead", "1 {:?}", expr);
             } else if self.at_punct(Punct::OpenParen) {
                 let current_pos = self.look_ahead_position;
-                let async_arrow = is_async && start_pos.line == current_pos.line;
+                let async_arrow = is_async
+                    && Self::is_ident(&expr)
+                    && start_pos.line == current_pos.line;
                 self.context.is_binding_element = false;
                 self.context.is_assignment_target = false;
                 let args = if async_arrow {
-- 
2.43.0


From 8f05c797a5a7edde8128ee8928b8e2e82ca4e3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 09/68] fix: require => after parenthesised arrow parameters

---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 9e4f091..c2c20f7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2421,6 +2421,7 @@ where
                 let mut ex = self.parse_assignment_expr()?;
                 self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
                 if self.at_punct(Punct::Comma) {
+                    self.context.is_assignment_target = false;
                     let mut exprs = vec![ex];
                     while !self.look_ahead.token.is_eof() {
                         if !self.at_punct(Punct::Comma) {
@@ -2429,6 +2430,9 @@ where
                         let _ = self.next_item()?;
                         if self.at_punct(Punct::CloseParen) {
                             let _ = self.next_item()?;
+                            if !self.at_punct(Punct::FatArrow) {
+                                self.expect_punct(Punct::FatArrow)?;
+                            }
                             return Ok(Expr::ArrowParamPlaceHolder(
                                 exprs.into_iter().map(|e| FunctionArg::Expr(e)).collect(),
                                 false,
@@ -2442,6 +2446,9 @@ where
                                 exprs.into_iter().map(|e| FunctionArg::Expr(e)).collect();
                             args.push(FunctionArg::Pat(rest));
                             self.expect_punct(Punct::CloseParen)?;
+                            if !self.at_punct(Punct::FatArrow) {
+                                self.expect_punct(Punct::FatArrow)?;
+                            }
                             return Ok(Expr::ArrowParamPlaceHolder(args, false));
                         } else {
                             let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
-- 
2.43.0


From a81ef2524180a4fb3669efa04b8f6d237f85b17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:32 +0000
Subject: [PATCH 10/68] fix: report => after an expression that is no parameter
 list

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index c2c20f7..5709c81 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3132,6 +3132,8 @@ where
                             body: ArrowFunctionBody::Expr(Box::new(a)),
                         });
                     };
+                } else {
+                    return self.unexpected_token_error(&self.look_ahead, "not arrow parameters");
                 }
             } else {
                 if self.at_assign() {
-- 
2.43.0


From 5ce827efa5b1e913a37810863d60f4b59e5fc798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:05 +0000
Subject: [PATCH 11/68] fix: check and terminate export declarations like other
 statements

---
 src/lib.rs | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5709c81..8233265 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -750,28 +750,19 @@ where
                     DefaultExportDecl::Decl(decl)
                 } else {
                     let expr = self.parse_assignment_expr()?;
+                    self.consume_semicolon()?;
                     DefaultExportDecl::Expr(expr)
                 }
             } else {
-                if self.at_contextual_keyword("from") {
-                    //error
-                }
-                if self.at_punct(Punct::OpenBrace) {
-                    let expr = self.parse_obj_init()?;
-                    DefaultExportDecl::Expr(expr)
-                } else if self.at_punct(Punct::OpenBracket) {
-                    let expr = self.parse_array_init()?;
-                    DefaultExportDecl::Expr(expr)
-                } else {
-                    let expr = self.parse_assignment_expr()?;
-                    DefaultExportDecl::Expr(expr)
-                }
+                let expr = self.parse_assignment_expr()?;
+                self.consume_semicolon()?;
+                DefaultExportDecl::Expr(expr)
             };
             Ok(ModExport::Default(decl))
         } else if self.at_punct(Punct::Asterisk) {
             let _ = self.next_item()?;
             if !self.at_contextual_keyword("from") {
-                //error
+                return self.expected_token_error(&self.look_ahead, &["from"]);
             }
             let _ = self.next_item()?;
             let source = self.parse_module_specifier()?;
@@ -783,7 +774,6 @@ where
             {
                 let lex = self.parse_lexical_decl(false)?;
                 let decl = NamedExportDecl::Decl(lex);
-                self.consume_semicolon()?;
                 Ok(ModExport::Named(decl))
             } else if self.look_ahead.token.matches_keyword(&Keyword::Var) {
                 let _ = self.next_item()?;
-- 
2.43.0


From f64cb39445936f5a2b9a92d455fff5189ee59156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:08 +0000
Subject: [PATCH 12/68] fix: accept only names where a name is required

---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8233265..d426533 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -696,7 +696,7 @@ where
         let (imported, local) = if self.look_ahead.token.is_ident() {
             let imported = self.parse_var_ident(false)?;
             let local = if self.at_contextual_keyword("as") {
-                let _ = self.next_item();
+                let _ = self.next_item()?;
                 Some(self.parse_var_ident(false)?)
             } else {
                 None
@@ -2800,6 +2800,9 @@ where
 
     fn parse_ident_name(&mut self) -> Res<Identifier> {
         debug!("parse_ident_name");
+        if !self.at_possible_ident() {
+            return self.expected_token_error(&self.look_ahead, &["identifier name"]);
+        }
         let lh = self.get_string(&self.look_ahead.span);
         debug!("lh: {:?}", lh);
         let ident = self.next_item()?; 
-- 
2.43.0


From 00804a2aac5099b5f960d597f702954252c23d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:37 +0000
Subject: [PATCH 13/68] fix: reject a new line after throw and a try with no
 handler

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d426533..5e8e6e7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1015,7 +1015,7 @@ where
             None
         };
         if handler.is_none() && finalizer.is_none() {
-            //error: one or the other must be declared
+            return self.expected_token_error(&self.look_ahead, &["catch", "finally"]);
         }
         Ok(TryStmt {
             block,
@@ -1053,7 +1053,7 @@ where
         debug!("parse_throw_stmt");
         self.expect_keyword(Keyword::Throw)?;
         if self.context.has_line_term {
-            //error: no new line allowed after throw
+            return self.unexpected_token_error(&self.look_ahead, "new line after throw");
         }
         let arg = self.parse_expression()?;
         self.consume_semicolon()?;
-- 
2.43.0


From 93bb877ebacb3e013176e77a2184971da9183c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:48 +0000
Subject: [PATCH 14/68] fix: reject break and continue without a target

---
 src/lib.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5e8e6e7..7947380 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -953,6 +953,7 @@ where
         } else {
             self.expect_punct(Punct::CloseParen)?;
             let prev_iter = self.context.in_iteration;
+            self.context.in_iteration = true;
             let body = self.parse_statement()?;
             self.context.in_iteration = prev_iter;
             body
@@ -1443,19 +1444,22 @@ where
 
     fn parse_optionally_labeled_statement(&mut self, k: Keyword) -> Res<Option<Identifier>> {
         debug!("parse_optionally_labeled_statement");
+        let start = self.look_ahead.clone();
         self.expect_keyword(k)?;
         let ret = if self.look_ahead.token.is_ident() && !self.context.has_line_term {
             let id = self.parse_var_ident(false)?;
-            if !self.context.label_set.contains(&id) {
-                //error: unknown label
+            if !self.context.label_set.contains(&format!("${}", &id)) {
+                return self.unexpected_token_error(&start, "undefined label");
             }
             Some(id)
         } else {
             None
         };
         self.consume_semicolon()?;
-        if ret.is_some() && !self.context.in_iteration && !self.context.in_switch {
-            //error: invalid break
+        let at_target =
+            self.context.in_iteration || (self.context.in_switch && k == Keyword::Break);
+        if ret.is_none() && !at_target {
+            return self.unexpected_token_error(&start, "no enclosing statement to leave");
         }
         Ok(ret)
     }
-- 
2.43.0


From c5ba6f09caf8c345746c8c06cdb0471853ce60a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:30 +0000
Subject: [PATCH 15/68] fix: check the target of a for-in or for-of loop

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 7947380..ca3a0f2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1298,9 +1298,17 @@ where
             let prev_in = self.context.allow_in;
             self.context.allow_in = false;
             let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
+            let start = self.look_ahead.clone();
             let init = self.parse_assignment_expr()?;
+            let is_target = self.context.is_assignment_target;
             self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
             self.context.allow_in = prev_in;
+            if !is_target
+                && !self.config.tolerant
+                && (self.at_keyword(Keyword::In) || self.at_contextual_keyword("of"))
+            {
+                return self.unexpected_token_error(&start, "not a loop target");
+            }
             if self.at_keyword(Keyword::In) {
                 let _ = self.next_item()?;
                 let left = LoopLeft::Expr(init);
-- 
2.43.0


From 2347698742d97a8dc6111ee0fe168deec3bc78fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:33 +0000
Subject: [PATCH 16/68] fix: do not drop await from a loop that is not for-of

---
 src/lib.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index ca3a0f2..ed0fddc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1196,6 +1196,19 @@ where
         } else {
             false
         };
+        let start = self.look_ahead.clone();
+        let stmt = self.parse_for_stmt_rest(is_await)?;
+        if is_await {
+            if let Stmt::ForOf(_) = stmt {
+                debug!("for await of");
+            } else {
+                return self.unexpected_token_error(&start, "for await without of");
+            }
+        }
+        Ok(stmt)
+    }
+
+    fn parse_for_stmt_rest(&mut self, is_await: bool) -> Res<Stmt> {
         self.expect_punct(Punct::OpenParen)?;
         if self.at_punct(Punct::SemiColon) {
             // any semi-colon would mean standard C style for loop
-- 
2.43.0


From 405053331ae69b58ff4976c1eb5b6b8e2a96cb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:02 +0000
Subject: [PATCH 17/68] fix: end a return statement at a new line before a
 string

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index ed0fddc..0228d2e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4288,7 +4288,7 @@ where
 
     fn at_return_arg(&self) -> bool {
         if self.context.has_line_term {
-            return self.look_ahead.is_string() || self.look_ahead.is_template();
+            return false;
         }
         !self.at_punct(Punct::SemiColon)
             && !self.at_punct(Punct::CloseBrace)
-- 
2.43.0


From 00e3a1ed8a04bb7957f867f7453ad470a05ed8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:05 +0000
Subject: [PATCH 18/68] fix: end a new expression inside a template at the end
 of its part

---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0228d2e..f8c4197 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3839,7 +3839,9 @@ where
                     computed: false,
                 };
                 expr = Expr::Member(member);
-            } else if self.look_ahead.is_template() {
+            } else if self.look_ahead.token.is_template_head() {
+                self.context.is_assignment_target = false;
+                self.context.is_binding_element = false;
                 let quasi = self.parse_template_literal()?;
                 expr = Expr::TaggedTemplate(TaggedTemplateExpr {
                     tag: Box::new(expr),
@@ -3937,6 +3939,8 @@ where
                 debug!(target: "look_ahead", "{:?}", member);
                 expr = Expr::Member(member);
             } else if self.look_ahead.token.is_template_head() {
+                self.context.is_assignment_target = false;
+                self.context.is_binding_element = false;
                 let quasi = self.parse_template_literal()?;
                 let temp = TaggedTemplateExpr {
                     tag: Box::new(expr),
-- 
2.43.0


From af338667e2883d89d1fdb5970852f9cd2794f238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:09 +0000
Subject: [PATCH 19/68] fix: no longer take templates, await, yield and
 new.target for targets

---
 src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index f8c4197..46b1068 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2295,6 +2295,8 @@ where
                 }
             }
             if self.at_async_function() {
+                self.context.is_assignment_target = false;
+                self.context.is_binding_element = false;
                 self.parse_function_expr()
             } else {
                 let ident = self.next_item()?;
@@ -2327,6 +2329,8 @@ where
             };
             Ok(Expr::Literal(lit))
         } else if self.look_ahead.is_template() {
+            self.context.is_assignment_target = false;
+            self.context.is_binding_element = false;
             let lit = self.parse_template_literal()?;
             Ok(Expr::Literal(Literal::Template(lit)))
         } else if self.look_ahead.token.is_punct() {
@@ -3434,6 +3438,8 @@ where
             argument: arg,
             delegate,
         };
+        self.context.is_assignment_target = false;
+        self.context.is_binding_element = false;
         Ok(Expr::Yield(y))
     }
 
@@ -3699,6 +3705,8 @@ where
         debug!("parse_await_expr");
         let _await = self.next_item()?;
         let arg = self.parse_unary_expression()?;
+        self.context.is_assignment_target = false;
+        self.context.is_binding_element = false;
         Ok(Expr::Await(Box::new(arg)))
     }
 
@@ -4057,6 +4065,8 @@ where
         if self.at_punct(Punct::Period) {
             let _ = self.next_item()?;
             if self.at_contextual_keyword("target") && self.context.in_function_body {
+                self.context.is_assignment_target = false;
+                self.context.is_binding_element = false;
                 let property = self.parse_ident_name()?;
                 Ok(Expr::MetaProperty(MetaProperty {
                     meta: String::from("new"),
-- 
2.43.0


From 34112a6fa881d0a93af935c5e387b1370f99febf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:31 +0000
Subject: [PATCH 20/68] fix: a parenthesised assignment is no target

---
 src/lib.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 46b1068..e1a5379 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1313,7 +1313,8 @@ where
             let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
             let start = self.look_ahead.clone();
             let init = self.parse_assignment_expr()?;
-            let is_target = self.context.is_assignment_target;
+            let is_target =
+                self.context.is_assignment_target && !Self::is_assignment_expr(&init);
             self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
             self.context.allow_in = prev_in;
             if !is_target
@@ -2481,6 +2482,9 @@ where
                     }
                     ex = Expr::Sequence(exprs);
                 }
+                if Self::is_assignment_expr(&ex) {
+                    self.context.is_assignment_target = false;
+                }
                 self.expect_punct(Punct::CloseParen)?;
                 if self.at_punct(Punct::FatArrow) {
                     if Self::is_ident(&ex) {
@@ -3239,6 +3243,13 @@ where
         }
     }
 
+    fn is_assignment_expr(expr: &Expr) -> bool {
+        match expr {
+            Expr::Assignment(_) => true,
+            _ => false,
+        }
+    }
+
     fn assignment_operator(p: &Punct) -> Option<AssignmentOperator> {
         match p {
             ress::Punct::Assign => Some(AssignmentOperator::Equal),
-- 
2.43.0


From 66e8011a93a8b1c2ff035fecba68160465f2e0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:34 +0000
Subject: [PATCH 21/68] fix: give methods and defaults the yield and await of
 their own function

---
 src/lib.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e1a5379..202e357 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1923,7 +1923,6 @@ where
             if at_get {
                 kind = Some(PropertyKind::Get);
                 computed = self.at_punct(Punct::OpenBracket);
-                self.context.allow_yield = false;
                 key = Some(self.parse_object_property_key()?);
                 value = Some(self.parse_getter_method()?);
             } else if at_set {
@@ -2059,7 +2058,7 @@ where
         debug!("parse_property_method_async_fn");
         let prev_yield = self.context.allow_yield;
         let prev_await = self.context.r#await;
-        self.context.allow_yield = false;
+        self.context.allow_yield = true;
         self.context.r#await = true;
         let params = self.parse_formal_params()?;
         let body = self.parse_property_method_body(params.simple, params.found_restricted)?;
@@ -2078,10 +2077,13 @@ where
     fn parse_property_method(&mut self) -> Res<PropertyValue> {
         debug!("parse_property_method");
         let prev_yield = self.context.allow_yield;
-        self.context.allow_yield = false;
+        let prev_await = self.context.r#await;
+        self.context.allow_yield = true;
+        self.context.r#await = false;
         let params = self.parse_formal_params()?;
         let body = self.parse_property_method_body(params.simple, params.found_restricted)?;
         self.context.allow_yield = prev_yield;
+        self.context.r#await = prev_await;
         let func = Function {
             id: None,
             params: params.params,
@@ -2095,11 +2097,14 @@ where
     fn parse_generator_method(&mut self) -> Res<PropertyValue> {
         debug!("pares_generator_method");
         let prev_yield = self.context.allow_yield;
+        let prev_await = self.context.r#await;
         self.context.allow_yield = true;
+        self.context.r#await = false;
         let params = self.parse_formal_params()?;
         self.context.allow_yield = false;
         let body = self.parse_method_body(params.simple, params.found_restricted)?;
         self.context.allow_yield = prev_yield;
+        self.context.r#await = prev_await;
         let func = Function {
             id: None,
             params: params.params,
@@ -2114,6 +2119,9 @@ where
         debug!("parse_getter_method");
         let is_gen = false;
         let prev_yield = self.context.allow_yield;
+        let prev_await = self.context.r#await;
+        self.context.allow_yield = true;
+        self.context.r#await = false;
         let start_position = self.look_ahead_position;
         let formal_params = self.parse_formal_params()?;
         if formal_params.params.len() > 0 {
@@ -2121,6 +2129,7 @@ where
         }
         let body = self.parse_method_body(formal_params.simple, formal_params.found_restricted)?;
         self.context.allow_yield = prev_yield;
+        self.context.r#await = prev_await;
         Ok(PropertyValue::Expr(Expr::Function(Function {
             id: None,
             params: formal_params.params,
@@ -2152,10 +2161,11 @@ where
     fn parse_setter_method(&mut self) -> Res<PropertyValue> {
         debug!("parse_setter_method");
         let prev_allow = self.context.allow_yield;
+        let prev_await = self.context.r#await;
         self.context.allow_yield = true;
+        self.context.r#await = false;
         let start_position = self.look_ahead_position;
         let params = self.parse_formal_params()?;
-        self.context.allow_yield = prev_allow;
         if params.params.len() != 1 {
             self.tolerate_error(Error::InvalidSetterParams(start_position))?;
         } else if let Some(ref param) = params.params.get(0) {
@@ -2164,6 +2174,8 @@ where
             }
         }
         let body = self.parse_property_method_body(params.simple, params.found_restricted)?;
+        self.context.allow_yield = prev_allow;
+        self.context.r#await = prev_await;
         let func = Function {
             id: None,
             params: params.params,
@@ -2950,12 +2962,9 @@ where
         let (is_restricted, ret) = self.parse_pattern(None, params)?;
         if self.at_punct(Punct::Assign) {
             let _assign = self.next_item()?;
-            let prev_yield = self.context.allow_yield;
-            self.context.allow_yield = true;
             let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
             let right = self.parse_assignment_expr()?;
             self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
-            self.context.allow_yield = prev_yield;
             return Ok((
                 is_restricted,
                 Pat::Assignment(AssignmentPat {
-- 
2.43.0


From b425d0137d342d29487ee8cf00166b59cacb11c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:37 +0000
Subject: [PATCH 22/68] fix: give arrow bodies their own yield and await

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 202e357..923272a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3141,6 +3141,10 @@ where
                 let is_async = Self::is_async(&current);
                 if let Some(params) = self.reinterpret_as_cover_formals_list(current.clone())? {
                     self.expect_punct(Punct::FatArrow)?;
+                    let prev_yield = self.context.allow_yield;
+                    let prev_await = self.context.r#await;
+                    self.context.allow_yield = true;
+                    self.context.r#await = is_async;
                     if self.at_punct(Punct::OpenBrace) {
                         let prev_in = self.context.allow_in;
                         self.context.allow_in = true;
@@ -3167,6 +3171,8 @@ where
                             body: ArrowFunctionBody::Expr(Box::new(a)),
                         });
                     };
+                    self.context.allow_yield = prev_yield;
+                    self.context.r#await = prev_await;
                 } else {
                     return self.unexpected_token_error(&self.look_ahead, "not arrow parameters");
                 }
-- 
2.43.0


From 9fe334533b6c9a3f7dd26199bbccb75584b5a00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:27 +0000
Subject: [PATCH 23/68] fix: end a function's directives at its first statement
 and keep their text

---
 src/lib.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 923272a..b6d7efd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -516,7 +516,15 @@ where
             if !self.look_ahead.token.is_string() {
                 break;
             }
-            ret.push(self.parse_directive()?);
+            let part = self.parse_directive()?;
+            let past_prolog = match &part {
+                ProgramPart::Dir(_) => false,
+                _ => true,
+            };
+            ret.push(part);
+            if past_prolog {
+                break;
+            }
         }
         Ok(ret)
     }
@@ -532,7 +540,7 @@ where
                 }
                 self.consume_semicolon()?;
                 return Ok(ProgramPart::Dir(Dir {
-                    dir: s.trim_matches(|c| c == '\'' || c == '"').to_string(),
+                    dir: s[1..s.len() - 1].to_string(),
                     expr: Literal::String(s),
                 }));
             } else {
-- 
2.43.0


From 05bc3226f6401edc891b24b38b00b39807894079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:21 +0000
Subject: [PATCH 24/68] fix: let a use strict directive turn on strict mode

---
 src/lib.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b6d7efd..db564c0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -535,8 +535,12 @@ where
         let expr = self.parse_expression()?;
         if let Expr::Literal(lit) = expr {
             if let Literal::String(s) = lit {
-                if !self.context.allow_strict_directive && s == "use strict" {
-                    return self.unexpected_token_error(&orig, "use strict in an invalid location");
+                if &s[1..s.len() - 1] == "use strict" {
+                    if !self.context.allow_strict_directive {
+                        return self
+                            .unexpected_token_error(&orig, "use strict in an invalid location");
+                    }
+                    self.context.strict = true;
                 }
                 self.consume_semicolon()?;
                 return Ok(ProgramPart::Dir(Dir {
@@ -2819,7 +2823,8 @@ where
         let formal_params = self.parse_formal_params()?;
         found_restricted = found_restricted || formal_params.found_restricted;
         let prev_strict = self.context.strict;
-        let prev_strict_dir = formal_params.simple;
+        let prev_strict_dir = self.context.allow_strict_directive;
+        self.context.allow_strict_directive = formal_params.simple;
         let start = self.look_ahead.clone();
         let body = self.parse_function_source_el()?;
         if self.context.strict && found_restricted {
@@ -3156,7 +3161,12 @@ where
                     if self.at_punct(Punct::OpenBrace) {
                         let prev_in = self.context.allow_in;
                         self.context.allow_in = true;
+                        let prev_strict = self.context.strict;
+                        let prev_allow_strict = self.context.allow_strict_directive;
+                        self.context.allow_strict_directive = params.iter().all(Self::is_simple);
                         let body = self.parse_function_source_el()?;
+                        self.context.strict = prev_strict;
+                        self.context.allow_strict_directive = prev_allow_strict;
                         self.context.allow_in = prev_in;
                         current = Expr::ArrowFunction(ArrowFunctionExpr {
                             id: None,
-- 
2.43.0


From 0acf686a0efede763b1c43c7aa329be50ed5525d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:25 +0000
Subject: [PATCH 25/68] fix: parse modules as strict code

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index db564c0..3b5cc5c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -429,6 +429,7 @@ where
         };
         let context = Context {
             is_module,
+            strict: is_module,
             ..Default::default()
         };
         Self::_new(scanner, lines, config, context, comment_handler)
-- 
2.43.0


From 1f86290a8948d42d2d2b433faf61b5fb88fb1f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:44 +0000
Subject: [PATCH 26/68] fix: check the names of strict functions and of their
 parameters

---
 src/lib.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3b5cc5c..c601dde 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1729,11 +1729,12 @@ where
         let (id, first_restricted) = if !opt_ident || !self.at_punct(Punct::OpenParen) {
             let start = self.look_ahead.clone();
             let id = self.parse_var_ident(false)?;
-            if self.context.strict && start.token.is_restricted() {
+            let restricted = start.token.is_restricted() || Self::is_restricted_word(&id);
+            if self.context.strict && restricted {
                 return self.expected_token_error(&start, &[]);
             }
             let first_restricted = if !self.context.strict {
-                if start.token.is_restricted() {
+                if restricted {
                     Some(start)
                 } else if start.token.is_strict_reserved() {
                     Some(start)
@@ -1753,7 +1754,7 @@ where
         self.context.allow_yield = !is_gen;
 
         let formal_params = self.parse_formal_params()?;
-        let strict = formal_params.strict;
+        let strict = formal_params.strict || formal_params.found_restricted;
         let params = formal_params.params;
         let prev_strict = self.context.strict;
         let prev_allow_strict = self.context.allow_strict_directive;
@@ -2804,7 +2805,7 @@ where
         let id = if !self.at_punct(Punct::OpenParen) {
             let item = self.look_ahead.clone();
             let id = self.parse_fn_name(is_gen)?;
-            if item.token.is_restricted() {
+            if item.token.is_restricted() || Self::is_restricted_word(&id) {
                 if self.context.strict {
                     if !self.config.tolerant {
                         return self
-- 
2.43.0


From e3f6601ee933a23083a72bd53cabd8421183c697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 27/68] fix: a const outside a for-in or for-of head needs a
 value

---
 src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c601dde..3d474e9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1271,7 +1271,10 @@ where
                 },
                 _ => return self.expected_token_error(&kind, &["const", "let"]),
             };
-            if !self.context.strict && self.look_ahead.token.matches_keyword(&Keyword::In) {
+            if !self.context.strict
+                && kind == VariableKind::Let
+                && self.look_ahead.token.matches_keyword(&Keyword::In)
+            {
                 let _in = self.next_item()?;
                 //const or let becomes an ident
                 let k = match kind {
@@ -1676,7 +1679,7 @@ where
             }
         }
         let init = if kind == VariableKind::Const {
-            if !self.at_keyword(Keyword::In) && !self.at_contextual_keyword("of") {
+            if !in_for || !self.at_keyword(Keyword::In) && !self.at_contextual_keyword("of") {
                 if self.at_punct(Punct::Assign) {
                     let _ = self.next_item()?;
                     let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
-- 
2.43.0


From 46dcfe4e40417b173286e881f3dc61c7bd14ed7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:26 +0000
Subject: [PATCH 28/68] fix: allow no new line before => or after the async of
 a method

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 3d474e9..79e16a1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2602,6 +2602,7 @@ where
             let _ = self.next_item()?;
             let computed = self.at_punct(Punct::OpenBracket);
             let is_async = id == "async"
+                && !self.context.has_line_term
                 && !self.at_punct(Punct::Colon)
                 && !self.at_punct(Punct::OpenParen)
                 && !self.at_punct(Punct::Comma)
@@ -3158,6 +3159,9 @@ where
                 self.context.is_binding_element = false;
                 let is_async = Self::is_async(&current);
                 if let Some(params) = self.reinterpret_as_cover_formals_list(current.clone())? {
+                    if self.context.has_line_term {
+                        return self.unexpected_token_error(&self.look_ahead, "new line before =>");
+                    }
                     self.expect_punct(Punct::FatArrow)?;
                     let prev_yield = self.context.allow_yield;
                     let prev_await = self.context.r#await;
-- 
2.43.0


From b2feac3ce7cc29c59ebab0ec2002aaef9486824f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:29 +0000
Subject: [PATCH 29/68] fix: take an object literal as the operand of yield

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 79e16a1..1813310 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4526,7 +4526,7 @@ where
         let mut ret = true;
         let token = &self.look_ahead.token;
         if token.is_punct() {
-            ret = token.matches_punct(&Punct::OpenBracket)
+            ret = token.matches_punct(&Punct::OpenBrace)
                 || token.matches_punct(&Punct::OpenParen)
                 || token.matches_punct(&Punct::OpenBracket)
                 || token.matches_punct(&Punct::Plus)
-- 
2.43.0


From da31fcc76249944d185fe8c11c85cb4068b96b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:32 +0000
Subject: [PATCH 30/68] fix: recognise a second __proto__ in an object literal

---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1813310..b6fde67 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2736,7 +2736,11 @@ where
     fn is_proto_(key: &PropertyKey) -> bool {
         match key {
             PropertyKey::Literal(ref l) => match l {
-                Literal::String(ref s) => s == "_proto_",
+                Literal::String(ref s) => s == "'__proto__'" || s == "\"__proto__\"",
+                _ => false,
+            },
+            PropertyKey::Expr(ref e) => match e {
+                Expr::Ident(ref s) => s == "__proto__",
                 _ => false,
             },
             _ => false,
-- 
2.43.0


From bab52b4c363027a3b8e7060c002071386ce45c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:00 +0000
Subject: [PATCH 31/68] fix: count a carriage return at the end or before a
 wide character as a line end

---
 src/lib.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b6fde67..be2fa43 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -344,19 +344,15 @@ fn get_lines(text: &str) -> Vec<Line> {
                     // look ahead 1 char to see if it is a newline pair
                     // if so, don't include it, it will get included in the next
                     // iteration
-                    if let Some(next) = text.get(byte_position..byte_position + 2) {
-                        if next == "\r\n" {
-                            None
-                        } else {
-                            let ret = Line {
-                                start: line_start,
-                                end: byte_position,
-                            };
-                            line_start = byte_position + 1;
-                            Some(ret)
-                        }
-                    } else {
+                    if text[byte_position + 1..].starts_with('\n') {
                         None
+                    } else {
+                        let ret = Line {
+                            start: line_start,
+                            end: byte_position,
+                        };
+                        line_start = byte_position + 1;
+                        Some(ret)
                     }
                 }
                 '\n' => {
-- 
2.43.0


From f91a651f20795d601219b985f74397877b05fae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:20 +0000
Subject: [PATCH 32/68] fix: take token positions from the line table

---
 src/lib.rs | 39 +++++----------------------------------
 1 file changed, 5 insertions(+), 34 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index be2fa43..31453d5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4253,7 +4253,6 @@ where
     /// swap the last look ahead with this new token
     /// and return the last token
     fn next_item(&mut self) -> Res<Item> {
-        let mut look_ahead_span = self.look_ahead.span;
         let mut has_line_term = false;
         loop {
             // a new line before a comment still counts, comments are skipped
@@ -4264,7 +4263,7 @@ where
                     self._look_ahead = format!("{:?}: {:?}", look_ahead.token, self.scanner.string_for(&look_ahead.span));
                     debug!("look_ahead: {:?}", self._look_ahead);
                 }
-                self.update_positions(look_ahead_span, look_ahead.span.start)?;
+                self.update_positions(&look_ahead);
                 if let Token::Comment(ref kind) = &look_ahead.token {
                     let c = self.get_string(&look_ahead.span)?;
                     let kind = match kind {
@@ -4277,7 +4276,6 @@ where
                         span: look_ahead.span,
                         token: ress::tokens::Token::Comment(comment),
                     });
-                    look_ahead_span = look_ahead.span;
                     continue;
                 }
                 let ret = replace(&mut self.look_ahead, look_ahead);
@@ -4301,36 +4299,9 @@ where
         }
     }
 
-    fn update_positions(&mut self, look_ahead_span: Span, next_look_ahead_start: usize) -> Res<()> {
-        let prev_text = &self.scanner.stream[look_ahead_span.start..next_look_ahead_start];
-        let whitespace = &self.scanner.stream[look_ahead_span.end..next_look_ahead_start];
-        
-        let old_look_ahead_pos = self.look_ahead_position;
-        self.current_position = old_look_ahead_pos;
-        let line_counts = prev_text.chars().filter(|c| c == &'\n' || c == &'\r' || c == &'\u{2028}' || c == &'\u{2029}').count() - whitespace.matches("\r\n").count();
-        if line_counts == 0 {
-            self.look_ahead_position.column += prev_text.len();
-            return Ok(())
-        }
-        let last_line_len = if let Some(last_line) = prev_text.lines().last() {
-            // Lines doesn't include a final empty line if the string ends with a new line
-            // we need to make sure we reset the column to 0 if the string ends with a new line
-            if let Some(ref c) = prev_text.chars().last() {
-                if c == &'\n' || c == &'\r' || c == &'\u{2028}' || c == &'\u{2029}' {
-                    0
-                } else {
-                    last_line.len()
-                }
-
-            } else {
-                0
-            }
-        } else {
-            0
-        };
-        self.look_ahead_position.line += line_counts;
-        self.look_ahead_position.column = last_line_len;
-        Ok(())
+    fn update_positions(&mut self, next: &Item) {
+        self.current_position = self.look_ahead_position;
+        self.look_ahead_position = self.get_item_position(next);
     }
     /// Get the next token and validate that it matches
     /// the punct provided, discarding the result
@@ -4572,7 +4543,7 @@ where
                 (index, lines[0])
             } else {
                 let half = current_len >> 1;
-                if lines[half - 1].end > item.span.start {
+                if lines[half - 1].end >= item.span.start {
                     search(&lines[..half], item, index)
                 } else {
                     search(&lines[half..], item, index + half)
-- 
2.43.0


From 2a06a0ff738b953941987cdec7335b0bdf3553c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:07 +0000
Subject: [PATCH 33/68] fix: keep the ... of a rest element in an array pattern

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 31453d5..42796b7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2973,7 +2973,8 @@ where
     fn parse_binding_rest_el(&mut self, params: &mut Vec<Item>) -> Res<(bool, Pat)> {
         debug!("parse_binding_rest_el");
         self.expect_punct(Punct::Spread)?;
-        self.parse_pattern(None, params)
+        let (restricted, arg) = self.parse_pattern(None, params)?;
+        Ok((restricted, Pat::RestElement(Box::new(arg))))
     }
 
     fn parse_pattern_with_default(&mut self, params: &mut Vec<Item>) -> Res<(bool, Pat)> {
-- 
2.43.0


From afcebb07a4da27bd5f0c0049b72790a79b728023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:01 +0000
Subject: [PATCH 34/68] fix: a pattern is no target of an update, of a compound
 assignment or in parentheses

---
 src/lib.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 42796b7..ed9c6aa 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2507,7 +2507,7 @@ where
                     }
                     ex = Expr::Sequence(exprs);
                 }
-                if Self::is_assignment_expr(&ex) {
+                if Self::is_assignment_expr(&ex) || Self::is_pattern_expr(&ex) {
                     self.context.is_assignment_target = false;
                 }
                 self.expect_punct(Punct::CloseParen)?;
@@ -3206,7 +3206,9 @@ where
                 }
             } else {
                 if self.at_assign() {
-                    if !self.context.is_assignment_target {
+                    if !self.context.is_assignment_target
+                        || Self::is_pattern_expr(&current) && !self.at_punct(Punct::Assign)
+                    {
                         if !self.config.tolerant {
                             return self.unexpected_token_error(
                                 &self.look_ahead,
@@ -3286,6 +3288,13 @@ where
         }
     }
 
+    fn is_pattern_expr(expr: &Expr) -> bool {
+        match expr {
+            Expr::Array(_) | Expr::Object(_) => true,
+            _ => false,
+        }
+    }
+
     fn is_assignment_expr(expr: &Expr) -> bool {
         match expr {
             Expr::Assignment(_) => true,
@@ -3794,7 +3803,9 @@ where
                     _ => (),
                 }
             }
-            if !self.context.is_assignment_target && !self.config.tolerant {
+            if (!self.context.is_assignment_target || Self::is_pattern_expr(&ex))
+                && !self.config.tolerant
+            {
                 return self
                     .unexpected_token_error(&op, "Cannot increment when not at assignment target");
             }
@@ -3824,7 +3835,9 @@ where
                         }
                     }
                     let op = self.next_item()?;
-                    if !self.context.is_assignment_target && !self.config.tolerant {
+                    if (!self.context.is_assignment_target || Self::is_pattern_expr(&expr))
+                        && !self.config.tolerant
+                    {
                         return self.unexpected_token_error(
                             &op,
                             "Cannot increment when not at assignment target",
-- 
2.43.0


From 0057790d91649a370bf2659b665618f382c1e7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:04 +0000
Subject: [PATCH 35/68] fix: a parenthesised expression is no arrow parameter

---
 src/lib.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ed9c6aa..c4d3045 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2512,13 +2512,6 @@ where
                 }
                 self.expect_punct(Punct::CloseParen)?;
                 if self.at_punct(Punct::FatArrow) {
-                    if Self::is_ident(&ex) {
-                        self.context.is_binding_element = false;
-                        return Ok(Expr::ArrowParamPlaceHolder(
-                            vec![FunctionArg::Expr(ex)],
-                            false,
-                        ));
-                    }
                     if !self.context.is_binding_element {
                         return self.expected_token_error(&self.look_ahead, &["binding element"]);
                     }
@@ -2532,6 +2525,7 @@ where
                         ));
                     }
                 }
+                self.context.is_binding_element = false;
                 Ok(ex)
             }
         }
-- 
2.43.0


From 5e5461b01feb9a391279800e91bedc1e3ea9ff68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:07 +0000
Subject: [PATCH 36/68] fix: allow no in operator in the whole init of a for
 loop

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index c4d3045..6af42bd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1358,12 +1358,14 @@ where
             } else {
                 let init = if self.at_punct(Punct::Comma) {
                     let mut seq = vec![init];
+                    self.context.allow_in = false;
                     while self.at_punct(Punct::Comma) {
                         let _comma = self.next_item()?;
                         let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
                         seq.push(self.parse_assignment_expr()?);
                         self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
                     }
+                    self.context.allow_in = prev_in;
                     LoopInit::Expr(Expr::Sequence(seq))
                 } else {
                     LoopInit::Expr(init)
-- 
2.43.0


From 3f0ee820030f4ea0a28cc0f9035cbd84910c1130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:10 +0000
Subject: [PATCH 37/68] fix: take nothing after the rest of an object pattern

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6af42bd..262e29e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3060,7 +3060,8 @@ where
         let mut body = vec![];
         while !self.at_punct(Punct::CloseBrace) {
             let el = if self.at_punct(Punct::Spread) {
-                self.parse_rest_prop()?
+                body.push(self.parse_rest_prop()?);
+                break;
             } else {
                 self.parse_property_pattern()?
             };
-- 
2.43.0


From 4674e94894f3c9065caccd520b4b2af2d1841b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:13 +0000
Subject: [PATCH 38/68] fix: recognise a quoted constructor or prototype

---
 src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 262e29e..d172a68 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1980,10 +1980,10 @@ where
             return self.expected_token_error(&self.look_ahead, &[]);
         };
         if !computed {
-            if is_static && Self::is_key(&key, "prototype") {
+            if is_static && Self::is_prop_name(&key, "prototype") {
                 return self.expected_token_error(&self.look_ahead, &[]);
             }
-            if !is_static && Self::is_key(&key, "constructor") {
+            if !is_static && Self::is_prop_name(&key, "constructor") {
                 if kind != PropertyKind::Method || !method {
                     return self
                         .expected_token_error(&self.look_ahead, &["[constructor declaration]"]);
@@ -2024,6 +2024,13 @@ where
         ))
     }
 
+    /// the name of a property may also be written in quotes
+    fn is_prop_name(key: &PropertyKey, other: &str) -> bool {
+        match key {
+            PropertyKey::Literal(Literal::String(ref s)) => &s[1..s.len() - 1] == other,
+            _ => Self::is_key(key, other),
+        }
+    }
     fn is_key(key: &PropertyKey, other: &str) -> bool {
         match key {
             PropertyKey::Literal(ref l) => match l {
-- 
2.43.0


From 416a52eb5affbdb9c994cc7225aab6ee9d6ee7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:35 +0000
Subject: [PATCH 39/68] fix: check the parameters of async arrows

---
 src/lib.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d172a68..bfc0ef2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3986,13 +3986,22 @@ where
                     && start_pos.line == current_pos.line;
                 self.context.is_binding_element = false;
                 self.context.is_assignment_target = false;
+                let mut are_params = false;
                 let args = if async_arrow {
-                    self.parse_async_args()?
+                    self.context.is_binding_element = true;
+                    let args = self.parse_async_args()?;
+                    are_params = self.context.is_binding_element;
+                    self.context.is_binding_element = false;
+                    self.context.is_assignment_target = false;
+                    args
                 } else {
                     self.parse_args()?
                 };
                 //TODO: check for bad import call
                 if async_arrow && self.at_punct(Punct::FatArrow) {
+                    if !are_params {
+                        return self.expected_token_error(&self.look_ahead, &["binding element"]);
+                    }
                     let args = args.into_iter().map(|a| FunctionArg::Expr(a)).collect();
                     expr = Expr::ArrowParamPlaceHolder(args, true);
                 } else {
@@ -4043,9 +4052,9 @@ where
                 let arg = if self.at_punct(Punct::Spread) {
                     self.parse_spread_element()?
                 } else {
-                    let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
+                    let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
                     let arg = self.parse_async_arg()?;
-                    self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
+                    self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
                     arg
                 };
                 ret.push(arg);
-- 
2.43.0


From 67260b179db815a6b7524768253200c071dac47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:39 +0000
Subject: [PATCH 40/68] fix: reject a unary expression as the base of **

---
 src/lib.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bfc0ef2..bf54197 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3647,9 +3647,13 @@ where
     fn parse_exponentiation_expression(&mut self) -> Res<Expr> {
         debug!("parse_exponentiation_expression");
         let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
+        let starts_with_op = self.at_unary_operator();
         let expr = self.parse_unary_expression()?;
         self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
         if self.at_punct(Punct::Exponent) {
+            if starts_with_op {
+                return self.unexpected_token_error(&self.look_ahead, "unary operand of **");
+            }
             let _stars = self.next_item()?;
             self.context.is_assignment_target = false;
             self.context.is_binding_element = false;
@@ -3667,16 +3671,19 @@ where
         Ok(expr)
     }
 
-    fn parse_unary_expression(&mut self) -> Res<Expr> {
-        debug!("parse_unary_expression");
-        if self.at_punct(Punct::Plus)
+    fn at_unary_operator(&self) -> bool {
+        self.at_punct(Punct::Plus)
             || self.at_punct(Punct::Minus)
             || self.at_punct(Punct::BitwiseNot)
             || self.at_punct(Punct::Not)
             || self.at_keyword(Keyword::Delete)
             || self.at_keyword(Keyword::Void)
             || self.at_keyword(Keyword::TypeOf)
-        {
+            || (self.context.r#await && self.at_keyword(Keyword::Await))
+    }
+    fn parse_unary_expression(&mut self) -> Res<Expr> {
+        debug!("parse_unary_expression");
+        if self.at_unary_operator() && !self.at_keyword(Keyword::Await) {
             let op = self.next_item()?;
             let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
             let arg = self.parse_unary_expression()?;
-- 
2.43.0


From 7cb8c437a5150e86d05610febe42c3a6104c376d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:15 +0000
Subject: [PATCH 41/68] fix: bind no eval or arguments in strict code

---
 src/lib.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index bf54197..225ab1c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3024,8 +3024,12 @@ where
             } else {
                 true
             };
+            let start = self.look_ahead.clone();
             let ident = self.parse_var_ident(is_var)?;
             let restricted = &ident == "eval" || &ident == "arguments";
+            if restricted && self.context.strict && !self.config.tolerant {
+                return self.unexpected_token_error(&start, "restricted word");
+            }
             params.push(self.look_ahead.clone());
             Ok((restricted, Pat::Identifier(ident)))
         }
@@ -3102,7 +3106,16 @@ where
         let mut short_hand = false;
         let method = false;
         let (key, value) = if self.look_ahead.token.is_ident() {
-            let key = PropertyKey::Expr(Expr::Ident(self.parse_var_ident(false)?));
+            let start = self.look_ahead.clone();
+            let ident = self.parse_var_ident(false)?;
+            if Self::is_restricted_word(&ident)
+                && self.context.strict
+                && !self.config.tolerant
+                && !self.at_punct(Punct::Colon)
+            {
+                return self.unexpected_token_error(&start, "restricted word");
+            }
+            let key = PropertyKey::Expr(Expr::Ident(ident));
             let value = if self.at_punct(Punct::Assign) {
                 self.expect_punct(Punct::Assign)?;
                 short_hand = true;
-- 
2.43.0


From 8874ffaf416c05f6c5e97ccb1b295534b28b64c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:18 +0000
Subject: [PATCH 42/68] fix: reject an async constructor

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 225ab1c..6b638e8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1989,7 +1989,7 @@ where
                         .expected_token_error(&self.look_ahead, &["[constructor declaration]"]);
                 }
                 if let Some(ref v) = value {
-                    if Self::is_generator(&v) {
+                    if is_async || Self::is_generator(&v) {
                         return self.expected_token_error(
                             &self.look_ahead,
                             &["[non-generator function declaration]"],
-- 
2.43.0


From 3d74627090c71d5abfafa1bce6e2a32ce8f6d265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:50 +0000
Subject: [PATCH 43/68] fix: check the targets inside property values and
 defaults on their own

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6b638e8..b6c8d91 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2672,7 +2672,7 @@ where
                         has_proto = true;
                     }
                     let _ = self.next_item()?;
-                    let (prev_bind, prev_assign, prev_first) = self.get_cover_grammar_state();
+                    let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
                     let value = self.parse_assignment_expr()?;
                     self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
                     ObjectProperty::Property(Property {
@@ -3119,7 +3119,9 @@ where
             let value = if self.at_punct(Punct::Assign) {
                 self.expect_punct(Punct::Assign)?;
                 short_hand = true;
+                let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
                 let e = self.parse_assignment_expr()?;
+                self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
                 PropertyValue::Expr(e)
             } else if !self.at_punct(Punct::Colon) {
                 short_hand = true;
-- 
2.43.0


From 7ff85a11e7c99c8f4def69fefa6f96e6c4fa1c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:40 +0000
Subject: [PATCH 44/68] fix: look past comments for the function of an async
 function

---
 src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b6c8d91..1efd9f7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4481,10 +4481,13 @@ where
     fn at_async_function(&mut self) -> bool {
         debug!("at_async_function");
         if self.at_contextual_keyword("async") {
-            // look_ahead still updates the scanner's stack of open braces
             let state = self.scanner.get_state();
-            let peek = self.scanner.look_ahead();
+            let (eof, new_line) = (self.scanner.eof, self.scanner.pending_new_line);
+            self.scanner.skip_comments();
+            let peek = self.scanner.next();
             self.scanner.set_state(state);
+            self.scanner.eof = eof;
+            self.scanner.pending_new_line = new_line;
             if let Some(peek) = peek {
                 debug!("peeking ahead {:?}", peek);
                 let pos = self.look_ahead_position;
-- 
2.43.0


From 9b113d3e000be2de4b7dffd9f738a21bf1c04720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:34 +0000
Subject: [PATCH 45/68] fix: take no error position from a comment

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1efd9f7..0886e59 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4312,7 +4312,6 @@ where
                     self._look_ahead = format!("{:?}: {:?}", look_ahead.token, self.scanner.string_for(&look_ahead.span));
                     debug!("look_ahead: {:?}", self._look_ahead);
                 }
-                self.update_positions(&look_ahead);
                 if let Token::Comment(ref kind) = &look_ahead.token {
                     let c = self.get_string(&look_ahead.span)?;
                     let kind = match kind {
@@ -4327,6 +4326,7 @@ where
                     });
                     continue;
                 }
+                self.update_positions(&look_ahead);
                 let ret = replace(&mut self.look_ahead, look_ahead);
                 return Ok(ret);
             } else {
-- 
2.43.0


From 02e7fb6858e3724c06f862044b51e4b043991693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:32 +0000
Subject: [PATCH 46/68] fix: read a function's leading string statement as part
 of its body

The directive prologue of a function was parsed before the context of the
function was entered, so an expression statement starting with a string was
read with the context of the enclosing code: `function f(){ 'a' + new.target }`
was rejected.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0886e59..e37ce30 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1785,7 +1785,6 @@ where
     fn parse_function_source_el(&mut self) -> Res<FunctionBody> {
         debug!("parse_function_source_el");
         self.expect_punct(Punct::OpenBrace)?;
-        let mut body = self.parse_directive_prologues()?;
         let prev_label = self.context.label_set.clone();
         let prev_iter = self.context.in_iteration;
         let prev_switch = self.context.in_switch;
@@ -1794,6 +1793,7 @@ where
         self.context.in_iteration = false;
         self.context.in_switch = false;
         self.context.in_function_body = true;
+        let mut body = self.parse_directive_prologues()?;
         while !self.look_ahead.token.is_eof() {
             if self.at_punct(Punct::CloseBrace) {
                 break;
-- 
2.43.0


From 7aefc648d719905eabc23232fe2f0824a267dccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:46 +0000
Subject: [PATCH 47/68] fix: require an initialiser for a pattern in a plain
 for loop

A destructuring declaration without an initialiser was accepted in the head of
a for loop that is neither for-in nor for-of, `for (let [a]; ;) ;`.
---
 src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e37ce30..c47d82e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1651,7 +1651,9 @@ where
             let init = self.parse_assignment_expr()?;
             self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
             Some(init)
-        } else if !Self::is_pat_ident(&id) && !in_for {
+        } else if !Self::is_pat_ident(&id)
+            && (!in_for || !self.at_keyword(Keyword::In) && !self.at_contextual_keyword("of"))
+        {
             self.expect_punct(Punct::Assign)?;
             None
         } else {
@@ -1690,7 +1692,10 @@ where
             } else {
                 None
             }
-        } else if !in_for && !Self::is_pat_ident(&id) || self.at_punct(Punct::Assign) {
+        } else if self.at_punct(Punct::Assign)
+            || !Self::is_pat_ident(&id)
+                && (!in_for || !self.at_keyword(Keyword::In) && !self.at_contextual_keyword("of"))
+        {
             self.expect_punct(Punct::Assign)?;
             let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
             let init = self.parse_assignment_expr()?;
-- 
2.43.0


From 95e55c89656f3d0f58b08c37dab6ec4b46cbf2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:23 +0000
Subject: [PATCH 48/68] fix: accept the in operator inside a pattern in the
 head of a for loop

Brackets and braces lift the restriction on `in` there, as they do in array and
object literals: `for (let {[b in c]: a} of d) ;` was rejected.
---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index c47d82e..85e4e81 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3047,6 +3047,8 @@ where
     ) -> Res<(bool, Pat)> {
         debug!("parse_array_pattern");
         self.expect_punct(Punct::OpenBracket)?;
+        let prev_in = self.context.allow_in;
+        self.context.allow_in = true;
         let mut elements = vec![];
         while !self.at_punct(Punct::CloseBracket) {
             if self.at_punct(Punct::Comma) {
@@ -3067,12 +3069,15 @@ where
             }
         }
         self.expect_punct(Punct::CloseBracket)?;
+        self.context.allow_in = prev_in;
         Ok((false, Pat::Array(elements)))
     }
 
     fn parse_object_pattern(&mut self) -> Res<(bool, Pat)> {
         debug!("parse_object_pattern");
         self.expect_punct(Punct::OpenBrace)?;
+        let prev_in = self.context.allow_in;
+        self.context.allow_in = true;
         let mut body = vec![];
         while !self.at_punct(Punct::CloseBrace) {
             let el = if self.at_punct(Punct::Spread) {
@@ -3087,6 +3092,7 @@ where
             }
         }
         self.expect_punct(Punct::CloseBrace)?;
+        self.context.allow_in = prev_in;
         Ok((false, Pat::Object(body)))
     }
 
-- 
2.43.0


From 47aa9442f6697c38a43040421be93bde559cd900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:15 +0000
Subject: [PATCH 49/68] fix: point at the with statement that strict code does
 not allow

The error took the position of the token before it, and 1:0 when there is none,
although the statement may be further down.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 85e4e81..d5f862c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -925,7 +925,7 @@ where
         debug!("parse_with_stmt");
         if self.context.strict {
             self.tolerate_error(Error::NonStrictFeatureInStrictContext(
-                self.current_position,
+                self.look_ahead_position,
                 "with statements".to_string(),
             ))?;
         }
-- 
2.43.0


From af4aae5e80560d7b333f3a10f7d63740b9f3113a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 50/68] fix: do not read yield as a name inside a generator

---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index d5f862c..efb26e0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2410,7 +2410,10 @@ where
             {
                 let ident = self.parse_ident_name()?;
                 Ok(Expr::Ident(ident))
-            } else if !self.context.strict && self.look_ahead.token.is_strict_reserved() {
+            } else if !self.context.strict
+                && self.look_ahead.token.is_strict_reserved()
+                && !self.at_keyword(Keyword::Yield)
+            {
                 let ident = self.parse_ident_name()?;
                 Ok(Expr::Ident(ident))
             } else {
-- 
2.43.0


From cf99adc1290a86bda6cc1dc809e6e83db05b789c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 51/68] fix: read the right side of for of whatever came before
 the loop

The flag left by an earlier statement made 'for (a of b = c)' fail when the
loop was the body of an else or a label.
---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index efb26e0..f80705e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1347,7 +1347,9 @@ where
             } else if self.at_contextual_keyword("of") {
                 let _ = self.next_item()?;
                 let left = LoopLeft::Expr(init);
+                let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
                 let right = self.parse_assignment_expr()?;
+                self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
                 let body = self.parse_loop_body()?;
                 return Ok(Stmt::ForOf(ForOfStmt {
                     left,
@@ -1426,7 +1428,9 @@ where
     fn parse_for_of_loop(&mut self, left: LoopLeft, is_await: bool) -> Res<ForOfStmt> {
         debug!("parse_for_of_loop");
         let _ = self.next_item()?;
+        let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
         let right = self.parse_assignment_expr()?;
+        self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
         let body = self.parse_loop_body()?;
         Ok(ForOfStmt {
             left,
-- 
2.43.0


From 86cf5033331f8ce8be43c8b2a31f09143f7351b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 52/68] fix: accept only identifiers and the words sloppy code
 leaves free as binding names

The test was inverted: a var, a parameter or a catch could be named if or
class, while let and the words only strict code reserves were refused.
---
 src/lib.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f80705e..bb0c38a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2907,10 +2907,14 @@ where
                 return self.expected_token_error(&ident, &["variable identifier"]);
             }
         } else if !ident.token.is_ident() {
-            if self.context.strict && ident.token.is_strict_reserved() {
-                return self.expected_token_error(&ident, &["variable identifier"]);
-            }
-            if self.context.strict || ident.token.matches_keyword(&Keyword::Let) || !is_var {
+            let is_name = if ident.token.matches_keyword(&Keyword::Await) {
+                !self.context.is_module && !self.context.r#await
+            } else if ident.token.matches_keyword(&Keyword::Let) {
+                !self.context.strict && is_var
+            } else {
+                !self.context.strict && ident.token.is_strict_reserved()
+            };
+            if !is_name {
                 return self.expected_token_error(&ident, &["variable identifier"]);
             }
         } else if (self.context.is_module || self.context.r#await)
-- 
2.43.0


From 44ca112d3d57a2c8611feb386f8c8c0f9c304955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:53 +0000
Subject: [PATCH 53/68] fix: for await loops stand only inside async functions

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index bb0c38a..2f491ac 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1196,7 +1196,7 @@ where
         debug!("parse_for_stmt");
 
         self.expect_keyword(Keyword::For)?;
-        let is_await = if self.at_keyword(Keyword::Await) {
+        let is_await = if self.context.r#await && self.at_keyword(Keyword::Await) {
             let _ = self.next_item()?;
             true
         // for await ([lookahead ≠ let] LeftHandSideExpression [?Yield, ?Await] of AssignmentExpression [+In, ?Yield, ?Await]) Statement [?Yield, ?Await, ?Return]
-- 
2.43.0


From 233c8fe5e2953d0f34ed5c347e56a54561dd9b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:47 +0000
Subject: [PATCH 54/68] fix: what a function body holds does not make the
 function a target

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 2f491ac..2c026b8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1794,6 +1794,7 @@ where
     fn parse_function_source_el(&mut self) -> Res<FunctionBody> {
         debug!("parse_function_source_el");
         self.expect_punct(Punct::OpenBrace)?;
+        let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
         let prev_label = self.context.label_set.clone();
         let prev_iter = self.context.in_iteration;
         let prev_switch = self.context.in_switch;
@@ -1810,6 +1811,7 @@ where
             body.push(self.parse_statement_list_item()?)
         }
         self.expect_punct(Punct::CloseBrace)?;
+        self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
         self.context.label_set = prev_label;
         self.context.in_iteration = prev_iter;
         self.context.in_switch = prev_switch;
-- 
2.43.0


From c6fdaf685976296b7c9335631df506a03da3f374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:02 +0000
Subject: [PATCH 55/68] fix: a rest element in an assignment pattern has no
 default

---
 src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 2c026b8..6064e5d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4152,6 +4152,11 @@ where
         let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
         let arg = self.parse_assignment_expr()?;
         self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
+        if Self::is_assignment_expr(&arg) {
+            // a rest element has no default
+            self.context.is_assignment_target = false;
+            self.context.is_binding_element = false;
+        }
         Ok(Expr::Spread(Box::new(arg)))
     }
     /// Parse function arguments, expecting to open with `(` and close with `)`
-- 
2.43.0


From 93c16d3742cc046cb8e89284155bcc95724fa253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:20 +0000
Subject: [PATCH 56/68] fix: the rest of an object pattern is one simple target
 at its end

---
 src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 6064e5d..01e9fb8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2590,6 +2590,15 @@ where
         while !self.at_punct(Punct::CloseBrace) {
             let prop = if self.at_punct(Punct::Spread) {
                 let spread = self.parse_spread_element()?;
+                let is_pattern = match &spread {
+                    Expr::Spread(arg) => Self::is_pattern_expr(arg),
+                    _ => false,
+                };
+                if is_pattern || !self.at_punct(Punct::CloseBrace) {
+                    // the rest of an object goes to one simple target, at the end
+                    self.context.is_assignment_target = false;
+                    self.context.is_binding_element = false;
+                }
                 ObjectProperty::Spread(Box::new(spread))
             } else {
                 let (found_proto, prop) = self.parse_obj_prop(has_proto)?;
-- 
2.43.0


From a2fe1c4e46e1c895068c44aa46e8434bbbe66ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:54 +0000
Subject: [PATCH 57/68] fix: eval and arguments are not targets inside patterns
 in strict code

---
 src/lib.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 01e9fb8..1ddec1e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2346,7 +2346,12 @@ where
                 self.parse_function_expr()
             } else {
                 let ident = self.next_item()?;
-                Ok(Expr::Ident(self.get_string(&ident.span)?))
+                let name = self.get_string(&ident.span)?;
+                if self.context.strict && Self::is_restricted_word(&name) {
+                    self.context.is_assignment_target = false;
+                    self.context.is_binding_element = false;
+                }
+                Ok(Expr::Ident(name))
             }
         } else if self.look_ahead.token.is_number() || self.look_ahead.token.is_string() {
             // if self.context.strict && self.look_ahead.token.is_oct_literal() {
@@ -2720,6 +2725,14 @@ where
                         short_hand: false,
                     })
                 } else if start.token.is_ident() {
+                    if self.context.strict
+                        && Self::is_restricted_word(
+                            &self.scanner.stream[start.span.start..start.span.end],
+                        )
+                    {
+                        self.context.is_assignment_target = false;
+                        self.context.is_binding_element = false;
+                    }
                     if self.at_punct(Punct::Assign) {
                         self.context.first_covert_initialized_name_error =
                             Some(self.look_ahead.clone());
-- 
2.43.0


From 2d826f8eafad426313728a7719c1e03110f2d45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:58 +0000
Subject: [PATCH 58/68] fix: arrow parameters are not named eval or arguments
 in strict code

---
 src/lib.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 1ddec1e..133a93d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3240,6 +3240,12 @@ where
                         let prev_allow_strict = self.context.allow_strict_directive;
                         self.context.allow_strict_directive = params.iter().all(Self::is_simple);
                         let body = self.parse_function_source_el()?;
+                        if self.context.strict && params.iter().any(Self::is_restricted_param) {
+                            return Err(Error::UnexpectedToken(
+                                start_pos,
+                                "restricted parameter name".to_string(),
+                            ));
+                        }
                         self.context.strict = prev_strict;
                         self.context.allow_strict_directive = prev_allow_strict;
                         self.context.allow_in = prev_in;
@@ -3255,6 +3261,12 @@ where
                         let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
                         let a = self.parse_assignment_expr()?;
                         self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
+                        if self.context.strict && params.iter().any(Self::is_restricted_param) {
+                            return Err(Error::UnexpectedToken(
+                                start_pos,
+                                "restricted parameter name".to_string(),
+                            ));
+                        }
                         current = Expr::ArrowFunction(ArrowFunctionExpr {
                             id: None,
                             expression: true,
@@ -3484,6 +3496,15 @@ where
         }
     }
 
+    /// A parameter that is only the name eval or arguments
+    fn is_restricted_param(arg: &FunctionArg) -> bool {
+        match arg {
+            FunctionArg::Pat(Pat::Identifier(ref name)) => Self::is_restricted_word(name),
+            FunctionArg::Expr(Expr::Ident(ref name)) => Self::is_restricted_word(name),
+            _ => false,
+        }
+    }
+
     pub fn is_simple(arg: &FunctionArg) -> bool {
         match arg {
             FunctionArg::Pat(ref p) => match p {
-- 
2.43.0


From a35e574a7ff45a6d1b36840671114466b9c970b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:01 +0000
Subject: [PATCH 59/68] fix: a class is not named eval or arguments

---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 133a93d..1f01817 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1832,7 +1832,12 @@ where
         } else if opt_ident && !self.look_ahead.token.is_ident() {
             None
         } else {
-            Some(self.parse_var_ident(false)?)
+            let start = self.look_ahead.clone();
+            let id = self.parse_var_ident(false)?;
+            if Self::is_restricted_word(&id) {
+                return self.expected_token_error(&start, &["class name"]);
+            }
+            Some(id)
         };
         let super_class = if self.at_contextual_keyword("extends") {
             let _ = self.next_item()?;
-- 
2.43.0


From 1f8c9ad3007c74239e7bddbc1cb72b98bb15a9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:40 +0000
Subject: [PATCH 60/68] fix: the rest parameter of an async arrow function is
 the last one

---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1f01817..58a5782 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4144,7 +4144,12 @@ where
         if !self.at_punct(Punct::CloseParen) {
             loop {
                 let arg = if self.at_punct(Punct::Spread) {
-                    self.parse_spread_element()?
+                    let arg = self.parse_spread_element()?;
+                    if !self.at_punct(Punct::CloseParen) {
+                        // a rest parameter is the last one
+                        self.context.is_binding_element = false;
+                    }
+                    arg
                 } else {
                     let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
                     let arg = self.parse_async_arg()?;
-- 
2.43.0


From c44dd6d46e78b045efba2c1358c9ccaf5ffb0c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:13 +0000
Subject: [PATCH 61/68] fix: arrow parameters before a trailing comma are
 binding elements

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 58a5782..f39da2b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2511,6 +2511,10 @@ where
                             if !self.at_punct(Punct::FatArrow) {
                                 self.expect_punct(Punct::FatArrow)?;
                             }
+                            if !self.context.is_binding_element {
+                                return self
+                                    .expected_token_error(&self.look_ahead, &["binding element"]);
+                            }
                             return Ok(Expr::ArrowParamPlaceHolder(
                                 exprs.into_iter().map(|e| FunctionArg::Expr(e)).collect(),
                                 false,
-- 
2.43.0


From a42f6591798ba664a4b4500b43e3e696f9a715c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:31 +0000
Subject: [PATCH 62/68] fix: end the iteration after an error that reads
 nothing

---
 src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index f39da2b..ce1df78 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4775,7 +4775,13 @@ where
         if self.look_ahead.token.is_eof() {
             None
         } else {
-            Some(self.next_part())
+            let start = self.look_ahead.span.start;
+            let part = self.next_part();
+            if part.is_err() && self.look_ahead.span.start == start {
+                // nothing was read, skip a token so that the iteration ends
+                let _ = self.next_item();
+            }
+            Some(part)
         }
     }
 }
-- 
2.43.0


From 576201268310d4ce65d2897dee5d3ed209b03615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:33 +0000
Subject: [PATCH 63/68] fix: the superclass of a class may be a call

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index ce1df78..523edaf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1842,7 +1842,7 @@ where
         let super_class = if self.at_contextual_keyword("extends") {
             let _ = self.next_item()?;
             let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
-            let super_class = self.parse_left_hand_side_expr()?;
+            let super_class = self.parse_left_hand_side_expr_allow_call()?;
             self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
             Some(Box::new(super_class))
         } else {
-- 
2.43.0


From a0863ae9e2c5b630eee82aaaf4fb3f2d9f49c867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:36 +0000
Subject: [PATCH 64/68] fix: static async methods and accessors named async

---
 src/lib.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 523edaf..ad00d99 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1924,16 +1924,17 @@ where
             } else {
                 key = Some(new_key);
             }
-            if token.is_ident()
+            let at_async = match key {
+                Some(ref k) => is_static && token.is_ident() && Self::is_key(k, "async"),
+                None => false,
+            };
+            if at_async
                 && !self.context.has_line_term
-                && self.at_contextual_keyword("async")
+                && Self::qualified_prop_name(&self.look_ahead.token)
             {
-                if !self.look_ahead.token.matches_punct(&Punct::Colon)
-                    && !self.look_ahead.token.matches_punct(&Punct::OpenParen)
-                    && !self.look_ahead.token.matches_punct(&Punct::Asterisk)
-                {
-                    return self.expected_token_error(&self.look_ahead, &[":", "(", "*"]);
-                }
+                is_async = true;
+                computed = self.at_punct(Punct::OpenBracket);
+                key = Some(self.parse_object_property_key()?);
             }
         }
 
-- 
2.43.0


From 0853811798d68b296bc7bbe0d4fd3020d84a083d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:39 +0000
Subject: [PATCH 65/68] fix: operands of yield that start with await, import or
 a reserved word

---
 src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index ad00d99..8d49c40 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4647,9 +4647,12 @@ where
                 || token.matches_punct(&Punct::Decrement)
         }
         if token.is_keyword() {
-            ret = token.matches_keyword(&Keyword::Class)
+            ret = token.is_strict_reserved()
+                || token.matches_keyword(&Keyword::Await)
+                || token.matches_keyword(&Keyword::Class)
                 || token.matches_keyword(&Keyword::Delete)
                 || token.matches_keyword(&Keyword::Function)
+                || token.matches_keyword(&Keyword::Import)
                 || token.matches_keyword(&Keyword::Let)
                 || token.matches_keyword(&Keyword::New)
                 || token.matches_keyword(&Keyword::Super)
@@ -4661,6 +4664,10 @@ where
         if token.is_regex() {
             ret = true;
         }
+        if self.look_ahead.is_template() {
+            // after a substitution the template goes on
+            ret = token.is_template_head();
+        }
         ret
     }
 
-- 
2.43.0


From 461a02967282b9b2e0bde69ac83bb2b334ac83fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:41 +0000
Subject: [PATCH 66/68] fix: async generator declarations

---
 src/lib.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8d49c40..2cde834 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1727,15 +1727,10 @@ where
             false
         };
         self.expect_keyword(Keyword::Function)?;
-        let is_gen = if is_async {
-            false
-        } else {
-            let is_gen = self.at_punct(Punct::Asterisk);
-            if is_gen {
-                let _ = self.next_item()?;
-            }
-            is_gen
-        };
+        let is_gen = self.at_punct(Punct::Asterisk);
+        if is_gen {
+            let _ = self.next_item()?;
+        }
         let (id, first_restricted) = if !opt_ident || !self.at_punct(Punct::OpenParen) {
             let start = self.look_ahead.clone();
             let id = self.parse_var_ident(false)?;
-- 
2.43.0


From 69a4b7adf595321858720a940ccd3ed6e4eb68a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:44 +0000
Subject: [PATCH 67/68] fix: async generator methods

---
 src/lib.rs | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2cde834..3b4b6d2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1880,21 +1880,26 @@ where
         let mut computed = false;
         let mut is_static = false;
         let mut is_async = false;
+        let mut is_async_gen = false;
         if self.at_contextual_keyword("async") {
             let async_item = self.next_item()?;
             if self.at_punct(Punct::OpenParen) {
                 key = Some(PropertyKey::Expr(Expr::Ident(
                     self.get_string(&async_item.span)?,
                 )));
-            } else if self.context.has_line_term || self.at_punct(Punct::Asterisk) {
+            } else if self.context.has_line_term {
                 return self.expected_token_error(&self.look_ahead, &["("]);
             } else {
                 is_async = true;
+                is_async_gen = self.at_punct(Punct::Asterisk);
+                if is_async_gen {
+                    let _ = self.next_item()?;
+                }
             }
         }
         if key.is_some() {
             debug!("found method named async");
-        } else if self.at_punct(Punct::Asterisk) {
+        } else if !is_async && self.at_punct(Punct::Asterisk) {
             debug!("found leading asterisk");
             let _ = self.next_item()?;
         } else {
@@ -1925,9 +1930,14 @@ where
             };
             if at_async
                 && !self.context.has_line_term
-                && Self::qualified_prop_name(&self.look_ahead.token)
+                && (Self::qualified_prop_name(&self.look_ahead.token)
+                    || self.at_punct(Punct::Asterisk))
             {
                 is_async = true;
+                is_async_gen = self.at_punct(Punct::Asterisk);
+                if is_async_gen {
+                    let _ = self.next_item()?;
+                }
                 computed = self.at_punct(Punct::OpenBracket);
                 key = Some(self.parse_object_property_key()?);
             }
@@ -1970,7 +1980,7 @@ where
             kind = Some(PropertyKind::Init);
             method = true;
             value = Some(if is_async {
-                self.parse_async_property_method()?
+                self.parse_async_property_method(is_async_gen)?
             } else {
                 self.parse_property_method()?
             });
@@ -2088,13 +2098,14 @@ where
         }
     }
 
-    fn parse_async_property_method(&mut self) -> Res<PropertyValue> {
+    fn parse_async_property_method(&mut self, is_gen: bool) -> Res<PropertyValue> {
         debug!("parse_property_method_async_fn");
         let prev_yield = self.context.allow_yield;
         let prev_await = self.context.r#await;
         self.context.allow_yield = true;
         self.context.r#await = true;
         let params = self.parse_formal_params()?;
+        self.context.allow_yield = !is_gen;
         let body = self.parse_property_method_body(params.simple, params.found_restricted)?;
         self.context.allow_yield = prev_yield;
         self.context.r#await = prev_await;
@@ -2102,7 +2113,7 @@ where
             id: None,
             params: params.params,
             is_async: true,
-            generator: false,
+            generator: is_gen,
             body,
         };
         Ok(PropertyValue::Expr(Expr::Function(func)))
@@ -2629,10 +2640,10 @@ where
         let start = self.look_ahead.clone();
         let start_pos = self.look_ahead_position;
         let mut has_proto = has_proto;
+        let mut is_async_gen = false;
         let (key, is_async, computed) = if let Token::Ident = start.token {
             let id = self.scanner.string_for(&start.span).unwrap_or(String::new());
             let _ = self.next_item()?;
-            let computed = self.at_punct(Punct::OpenBracket);
             let is_async = id == "async"
                 && !self.context.has_line_term
                 && !self.at_punct(Punct::Colon)
@@ -2640,6 +2651,11 @@ where
                 && !self.at_punct(Punct::Comma)
                 && !self.at_punct(Punct::CloseBrace)
                 && !self.at_punct(Punct::Assign);
+            if is_async && self.at_punct(Punct::Asterisk) {
+                let _ = self.next_item()?;
+                is_async_gen = true;
+            }
+            let computed = self.at_punct(Punct::OpenBracket);
             let key = if is_async {
                 self.parse_object_property_key()?
             } else {
@@ -2721,7 +2737,7 @@ where
                         computed,
                         key,
                         value: if is_async {
-                            self.parse_async_property_method()?
+                            self.parse_async_property_method(is_async_gen)?
                         } else {
                             self.parse_property_method()?
                         },
-- 
2.43.0


From 72a8189df1d1b9cbe638e8f5fb1a246d0be3a5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:34 +0000
Subject: [PATCH 68/68] fix: a line break inside a string or a template does
 not end the statement before the next token

The scanner reports a line terminator for the text from the start of a token to
the start of the next one, so a multi-line template (or a string with a line
continuation) counted as a line break and a missing semicolon after it was
accepted. Only what stands between the two tokens counts now.
---
 src/lib.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3b4b6d2..ae51d41 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -328,6 +328,15 @@ pub struct Line {
 }
 /// The result type for the Parser operations
 type Res<T> = Result<T, Error>;
+/// check if there is a line terminator anywhere in this text
+fn contains_line_term(text: &str) -> bool {
+    for c in text.chars() {
+        if c == '\n' || c == '\r' || c == '\u{2028}' || c == '\u{2029}' {
+            return true;
+        }
+    }
+    false
+}
 /// Capture the lines from the raw js text
 fn get_lines(text: &str) -> Vec<Line> {
     // Obviously we will start at 0
@@ -4400,11 +4409,7 @@ where
     /// swap the last look ahead with this new token
     /// and return the last token
     fn next_item(&mut self) -> Res<Item> {
-        let mut has_line_term = false;
         loop {
-            // a new line before a comment still counts, comments are skipped
-            has_line_term = has_line_term || self.scanner.pending_new_line;
-            self.context.has_line_term = has_line_term;
             if let Some(look_ahead) = self.scanner.next() {
                 if cfg!(feature = "debug_look_ahead") {
                     self._look_ahead = format!("{:?}: {:?}", look_ahead.token, self.scanner.string_for(&look_ahead.span));
@@ -4424,6 +4429,11 @@ where
                     });
                     continue;
                 }
+                // everything between the two tokens counts (comments too), but
+                // not the line terminators inside of a string or a template
+                let start = self.look_ahead.span.end;
+                self.context.has_line_term =
+                    contains_line_term(&self.scanner.stream[start..look_ahead.span.start]);
                 self.update_positions(&look_ahead);
                 let ret = replace(&mut self.look_ahead, look_ahead);
                 return Ok(ret);
-- 
2.43.0

