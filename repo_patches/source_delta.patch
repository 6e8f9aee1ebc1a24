From 4bcdf867c7c7a6b8d8f2e28274f4f287fb4d5d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:44 +0000
Subject: [PATCH 01/12] fix: advance the lexer position by the whole character

A token ending in a character longer than one byte (a line comment, or a
token directly following an unexpected character) was sliced in the middle
of that character, which panics.
---
 src/parser/lexing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lexing.rs b/src/parser/lexing.rs
index fe6a8f1..8cc15aa 100644
--- a/src/parser/lexing.rs
+++ b/src/parser/lexing.rs
@@ -78,7 +78,7 @@ impl<'a> Lexer<'a> {
     fn next(&mut self) -> Option<char> {
         match self.chars.next() {
             Some((i, c)) => {
-                self.current.pos = i + 1;
+                self.current.pos = i + c.len_utf8();
                 self.current.col += 1;
                 if c == '\n' {
                     self.current.line += 1;
-- 
2.43.0


From 32da38d7d00c61251e328f7326c8ef881f2e8745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:45 +0000
Subject: [PATCH 02/12] fix: do not close a block comment with its own opening
 asterisk

`/*/` was lexed as a complete block comment, so the text up to the real
end of the comment was parsed as code.
---
 src/parser/lexing.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/lexing.rs b/src/parser/lexing.rs
index 8cc15aa..cd73449 100644
--- a/src/parser/lexing.rs
+++ b/src/parser/lexing.rs
@@ -297,6 +297,8 @@ impl<'a> Lexer<'a> {
 
     /// Scan the slice that is supposed to be a block comment
     fn lex_blockcomment(&mut self) {
+        // Skip the opening '*', so it is not taken for the closing one
+        self.next();
         while let Some(c) = self.next() {
             if c == '*' {
                 if let Some(c) = self.peek() {
-- 
2.43.0


From 1fe0b71fefa08b03bffb1fa96e85415053543d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:12 +0000
Subject: [PATCH 03/12] fix: report truncated input instead of panicking

A file that ends where a class prefix, a class specifier or an element is
expected (like 'model', 'partial' or 'encapsulated') tried to skip a token
past the end of the file.
---
 src/parser/parsing.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/parsing.rs b/src/parser/parsing.rs
index 859ac97..988072d 100644
--- a/src/parser/parsing.rs
+++ b/src/parser/parsing.rs
@@ -236,6 +236,10 @@ impl<'a> Parser<'a> {
 
     fn advance_with_error(&mut self, msg: String) {
         self.error(msg);
+        // There is nothing to skip at the end of file
+        if self.eof() {
+            return;
+        }
         let mark = self.enter();
         self.advance();
         self.exit(mark, SyntaxKind::Error);
-- 
2.43.0


From bdfcc1e2ce40bdfa6b8b6bc4f3f5c1260fc1da96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:13 +0000
Subject: [PATCH 04/12] fix: report errors in sources without any tokens

Reporting an error looked up the last token, which panics if there is none.
---
 src/parser/parsing.rs | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/parser/parsing.rs b/src/parser/parsing.rs
index 988072d..3e0c207 100644
--- a/src/parser/parsing.rs
+++ b/src/parser/parsing.rs
@@ -218,20 +218,13 @@ impl<'a> Parser<'a> {
 
     /// Mark currently parsed token as erroneus.
     fn error(&mut self, msg: String) {
-        if let Some(tok) = self.tokens.get(self.pos) {
-            self.errors.push(format!(
-                "{}:{}:{}: {}",
-                self.name, tok.start.line, tok.start.col, msg
-            ));
-        } else {
-            self.errors.push(format!(
-                "{}:{}:{}: {}",
-                self.name,
-                self.tokens.last().unwrap().start.line,
-                self.tokens.last().unwrap().start.col,
-                msg
-            ));
-        }
+        let (line, col) = match self.tokens.get(self.pos).or(self.tokens.last()) {
+            Some(tok) => (tok.start.line, tok.start.col),
+            // Nothing but whitespace and comments
+            None => (1, 1),
+        };
+        self.errors
+            .push(format!("{}:{}:{}: {}", self.name, line, col, msg));
     }
 
     fn advance_with_error(&mut self, msg: String) {
-- 
2.43.0


From c7d9cc7780becda6ed2c23e7c8e58f22d8b1ac14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:14 +0000
Subject: [PATCH 05/12] fix: do not accept a separator that ends the source

A trailing separator or operator (like 'a or' parsed as an expression) was
silently accepted as long as it was the last token, and the formatter
panicked on the resulting tree.
---
 src/parser/parsing.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/parser/parsing.rs b/src/parser/parsing.rs
index 3e0c207..ac6634b 100644
--- a/src/parser/parsing.rs
+++ b/src/parser/parsing.rs
@@ -412,7 +412,7 @@ fn der_class_specifier(p: &mut Parser) {
     type_specifier(p);
     p.expect(ModelicaToken::Comma);
     p.expect(ModelicaToken::Identifier);
-    while p.consume(ModelicaToken::Comma) && !p.eof() {
+    while p.consume(ModelicaToken::Comma) {
         p.expect(ModelicaToken::Identifier);
     }
     p.expect(ModelicaToken::RParen);
@@ -431,7 +431,7 @@ fn base_prefix(p: &mut Parser) {
 fn enum_list(p: &mut Parser) {
     let mark = p.enter();
     enumeration_literal(p);
-    while p.consume(ModelicaToken::Comma) && !p.eof() {
+    while p.consume(ModelicaToken::Comma) {
         enumeration_literal(p);
     }
     p.exit(mark, SyntaxKind::EnumList);
@@ -583,7 +583,7 @@ fn import_clause(p: &mut Parser) {
 fn import_list(p: &mut Parser) {
     let mark = p.enter();
     p.expect(ModelicaToken::Identifier);
-    while p.consume(ModelicaToken::Comma) && !p.eof() {
+    while p.consume(ModelicaToken::Comma) {
         p.expect(ModelicaToken::Identifier);
     }
     p.exit(mark, SyntaxKind::ImportList);
@@ -631,7 +631,7 @@ fn argument_or_inheritance_modification_list(p: &mut Parser) {
     } else {
         argument(p);
     }
-    while p.consume(ModelicaToken::Comma) && !p.eof() {
+    while p.consume(ModelicaToken::Comma) {
         if p.check(ModelicaToken::Break) {
             inheritance_modification(p);
         } else {
@@ -682,7 +682,7 @@ fn type_prefix(p: &mut Parser) {
 fn component_list(p: &mut Parser) {
     let mark = p.enter();
     component_declaration(p);
-    while p.consume(ModelicaToken::Comma) && !p.eof() {
+    while p.consume(ModelicaToken::Comma) {
         component_declaration(p);
     }
     p.exit(mark, SyntaxKind::ComponentList);
@@ -758,7 +758,7 @@ fn class_modification(p: &mut Parser) {
 fn argument_list(p: &mut Parser) {
     let mark = p.enter();
     argument(p);
-    while p.consume(ModelicaToken::Comma) && !p.eof() {
+    while p.consume(ModelicaToken::Comma) {
         argument(p);
     }
     p.exit(mark, SyntaxKind::ArgumentList);
@@ -1035,7 +1035,7 @@ fn for_statement(p: &mut Parser) {
 fn for_indices(p: &mut Parser) {
     let mark = p.enter();
     for_index(p);
-    while p.consume(ModelicaToken::Comma) && !p.eof() {
+    while p.consume(ModelicaToken::Comma) {
         for_index(p);
     }
     p.exit(mark, SyntaxKind::ForIndices);
@@ -1160,7 +1160,7 @@ fn simple_expression(p: &mut Parser) {
 fn logical_expression(p: &mut Parser) {
     let mark = p.enter();
     logical_term(p);
-    while p.consume(ModelicaToken::Or) && !p.eof() {
+    while p.consume(ModelicaToken::Or) {
         logical_term(p);
     }
     p.exit(mark, SyntaxKind::LogicalExpression);
@@ -1169,7 +1169,7 @@ fn logical_expression(p: &mut Parser) {
 fn logical_term(p: &mut Parser) {
     let mark = p.enter();
     logical_factor(p);
-    while p.consume(ModelicaToken::And) && !p.eof() {
+    while p.consume(ModelicaToken::And) {
         logical_factor(p);
     }
     p.exit(mark, SyntaxKind::LogicalTerm);
@@ -1288,7 +1288,7 @@ fn primary(p: &mut Parser) {
         ModelicaToken::LBracket => {
             p.advance();
             expression_list(p);
-            while p.consume(ModelicaToken::Semicolon) && !p.eof() {
+            while p.consume(ModelicaToken::Semicolon) {
                 expression_list(p);
             }
             p.expect(ModelicaToken::RBracket);
@@ -1345,7 +1345,7 @@ fn component_reference(p: &mut Parser) {
     if p.check(ModelicaToken::LBracket) {
         array_subscripts(p);
     }
-    while p.consume(ModelicaToken::Dot) && !p.eof() {
+    while p.consume(ModelicaToken::Dot) {
         p.expect(ModelicaToken::Identifier);
         if p.check(ModelicaToken::LBracket) {
             array_subscripts(p);
@@ -1479,7 +1479,7 @@ fn output_expression_list(p: &mut Parser) {
         if !p.check_any(&[ModelicaToken::RParen, ModelicaToken::Comma]) {
             expression(p);
         }
-        while p.consume(ModelicaToken::Comma) && !p.eof() {
+        while p.consume(ModelicaToken::Comma) {
             if !p.check_any(&[ModelicaToken::RParen, ModelicaToken::Comma]) {
                 expression(p);
             }
@@ -1491,7 +1491,7 @@ fn output_expression_list(p: &mut Parser) {
 fn expression_list(p: &mut Parser) {
     let mark = p.enter();
     expression(p);
-    while p.consume(ModelicaToken::Comma) && !p.eof() {
+    while p.consume(ModelicaToken::Comma) {
         expression(p);
     }
     p.exit(mark, SyntaxKind::ExpressionList);
@@ -1501,7 +1501,7 @@ fn array_subscripts(p: &mut Parser) {
     let mark = p.enter();
     p.expect(ModelicaToken::LBracket);
     subscript(p);
-    while p.consume(ModelicaToken::Comma) && !p.eof() {
+    while p.consume(ModelicaToken::Comma) {
         subscript(p);
     }
     p.expect(ModelicaToken::RBracket);
@@ -1528,7 +1528,7 @@ fn description(p: &mut Parser) {
 fn description_string(p: &mut Parser) {
     let mark = p.enter();
     if p.consume(ModelicaToken::String) {
-        while p.consume(ModelicaToken::Plus) && !p.eof() {
+        while p.consume(ModelicaToken::Plus) {
             p.expect(ModelicaToken::String);
         }
     }
-- 
2.43.0


From d2628d63c3b3715edfb5e7e66eebf8cd16b9dc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:53 +0000
Subject: [PATCH 06/12] fix: report an error instead of panicking when the
 parser is stuck

A token that no production consumes (like a stray number among elements)
used up the parser's lifes and aborted the whole run, and so did unfinished
constructs nested deeply enough. Stuck parser now behaves as at the end of
file, and tokens that were left unparsed are an error.
---
 src/parser/parsing.rs | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/parser/parsing.rs b/src/parser/parsing.rs
index ac6634b..290aefe 100644
--- a/src/parser/parsing.rs
+++ b/src/parser/parsing.rs
@@ -126,6 +126,11 @@ impl<'a> Parser<'a> {
             SyntaxKind::AnnotationClause => annotation_clause(self),
             SyntaxKind::Error => panic!("cannot parse error node"),
         }
+        // Happens when parser is stuck, or when the source contains more
+        // than a single `start` production
+        if self.pos < self.tokens.len() {
+            self.error(String::from("Parser stuck"));
+        }
     }
 
     /// Return a new parser instance
@@ -162,21 +167,23 @@ impl<'a> Parser<'a> {
 
     /// Advance the parser, consume the token and push it into the events vector
     fn advance(&mut self) {
-        assert!(!self.eof());
+        assert!(self.pos < self.tokens.len());
         self.events.push(SyntaxEvent::Advance);
         self.pos += 1;
         self.lifes.set(100);
     }
 
-    /// Return `true` if parser reached the end of file
+    /// Return `true` if parser reached the end of file, or if it is stuck
+    /// at the token that no production is able to consume
     fn eof(&self) -> bool {
-        self.pos == self.tokens.len()
+        self.pos == self.tokens.len() || self.lifes.get() == 0
     }
 
-    /// Return type of the n-th token counting from the current one.
+    /// Return type of the n-th token counting from the current one. Stuck
+    /// parser sees only the end of file.
     fn nth(&self, n: usize) -> ModelicaToken {
         if self.lifes.get() == 0 {
-            self.blowup();
+            return ModelicaToken::EOF;
         }
         self.lifes.set(self.lifes.get() - 1);
         self.tokens
@@ -184,18 +191,6 @@ impl<'a> Parser<'a> {
             .map_or(ModelicaToken::EOF, |tok| tok.kind)
     }
 
-    fn blowup(&self) {
-        let tok = if !self.eof() {
-            self.tokens.get(self.pos).unwrap()
-        } else {
-            self.tokens.last().unwrap()
-        };
-        panic!(
-            "{}:{}:{}: Parser stuck",
-            self.name, tok.start.line, tok.start.col
-        );
-    }
-
     /// Return `true` if current token matches the specified type
     fn check(&self, typ: ModelicaToken) -> bool {
         self.nth(0) == typ
-- 
2.43.0


From 09f8cbf161ada3869a01d54bd7291d12cbce4d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:54 +0000
Subject: [PATCH 07/12] fix: restore indentation after a wrapped left-hand side

The level added by a wrapped expression on the left-hand side of an
equation, or in the output list of a statement, was never removed, so
everything that followed was indented one level too deep.
---
 src/formatter/formatting.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/formatter/formatting.rs b/src/formatter/formatting.rs
index eeb71b9..a6a8058 100644
--- a/src/formatter/formatting.rs
+++ b/src/formatter/formatting.rs
@@ -1188,7 +1188,11 @@ fn equation(f: &mut Formatter, tree: Tree) {
     for child in tree.children {
         match child {
             Child::Tree(tree) => match tree.kind {
-                SyntaxKind::SimpleExpression => _ = simple_expression(f, tree, false),
+                SyntaxKind::SimpleExpression => {
+                    if simple_expression(f, tree, false) {
+                        f.markers.push(Marker::Dedent);
+                    }
+                }
                 SyntaxKind::Expression => {
                     let is_multiline_if =
                         tree.is_multiline() && tree.start().kind == ModelicaToken::If;
@@ -1249,7 +1253,11 @@ fn statement(f: &mut Formatter, tree: Tree) {
                     }
                 }
                 SyntaxKind::FunctionCallArgs => function_call_args(f, tree),
-                SyntaxKind::OutputExpressionList => _ = output_expression_list(f, tree, false),
+                SyntaxKind::OutputExpressionList => {
+                    if output_expression_list(f, tree, false) {
+                        f.markers.push(Marker::Dedent);
+                    }
+                }
                 SyntaxKind::IfStatement => if_statement(f, tree),
                 SyntaxKind::ForStatement => for_statement(f, tree),
                 SyntaxKind::WhileStatement => while_statement(f, tree),
-- 
2.43.0


From 363d31bf5dc68f3ba4750f66cec14aadefa7b416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:55 +0000
Subject: [PATCH 08/12] fix: measure blank lines from the end of an inline
 comment

Distance to the next token was counted from the line where a block comment
that follows the token starts, so a comment spanning several lines was taken
for a blank line.
---
 src/formatter/formatting.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/formatter/formatting.rs b/src/formatter/formatting.rs
index a6a8058..04065eb 100644
--- a/src/formatter/formatting.rs
+++ b/src/formatter/formatting.rs
@@ -142,19 +142,21 @@ impl Formatter {
     /// Find and insert comments, and check if blank line may be inserted
     fn handle_break(&mut self, tok: &Token, blanks: Blank) {
         let (inlines, comments) = self.comments_before(tok);
+        let mut line = self.prev_line;
         for comment in inlines {
             if !self.markers.is_empty() {
                 self.markers.push(Marker::Space);
             }
             self.markers.push(Marker::Token(comment.text));
+            line = comment.end.line;
         }
         if let Blank::Required = blanks {
             self.markers.push(Marker::Blank);
         }
-        let mut line = self.prev_line;
+        let mut after_comment = false;
         for comment in comments {
             if let Blank::Required = blanks {
-                if line > self.prev_line {
+                if after_comment {
                     if comment.start.line - line > 1 {
                         self.markers.push(Marker::Blank);
                     } else {
@@ -168,6 +170,7 @@ impl Formatter {
             }
             self.markers.push(Marker::Token(comment.text));
             line = comment.end.line;
+            after_comment = true;
         }
         if let Blank::Legal = blanks {
             if tok.start.line - line > 1 {
@@ -177,7 +180,7 @@ impl Formatter {
             }
         } else if let Blank::Illegal = blanks {
             self.markers.push(Marker::Break);
-        } else if line > self.prev_line {
+        } else if after_comment {
             if tok.start.line - line > 1 {
                 self.markers.push(Marker::Blank);
             } else {
-- 
2.43.0


From 197dfb2f6214f4124be31df498c640d6741c5de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:16 +0000
Subject: [PATCH 09/12] fix: do not start the output with a line break before
 'final'

Nothing precedes the 'final' that opens a file, so there is nothing to
break. The same condition is already used for 'within'.
---
 src/formatter/formatting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/formatter/formatting.rs b/src/formatter/formatting.rs
index 04065eb..c12a0b6 100644
--- a/src/formatter/formatting.rs
+++ b/src/formatter/formatting.rs
@@ -233,7 +233,7 @@ fn stored_definition(f: &mut Formatter, tree: Tree) {
             },
             Child::Token(tok) => {
                 let kind = tok.kind;
-                if kind == ModelicaToken::Final {
+                if kind == ModelicaToken::Final && tok.idx > 0 {
                     f.handle_break(&tok, Blank::Legal);
                 } else if kind == ModelicaToken::Within && tok.idx > 0 {
                     f.handle_break(&tok, Blank::Illegal);
-- 
2.43.0


From 8090d70d10edf604bb5bad74822cc4557e3c5eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:32 +0000
Subject: [PATCH 10/12] fix: keep comments at the beginning and at the end of
 the file

Comments before the first class of a file without 'within', comments after
the last token, and comments of a file that contains nothing else were
dropped from the output.
---
 src/formatter/formatting.rs | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/formatter/formatting.rs b/src/formatter/formatting.rs
index c12a0b6..7a46b2f 100644
--- a/src/formatter/formatting.rs
+++ b/src/formatter/formatting.rs
@@ -109,6 +109,7 @@ pub fn format(tree: Tree, comments: Vec<Token>) -> Vec<Marker> {
         SyntaxKind::AnnotationClause => annotation_clause(&mut f, tree),
         SyntaxKind::Error => (),
     }
+    f.remaining_comments();
     f.markers
 }
 
@@ -163,10 +164,12 @@ impl Formatter {
                         self.markers.push(Marker::Break);
                     }
                 }
-            } else if comment.start.line - line > 1 {
-                self.markers.push(Marker::Blank);
-            } else {
-                self.markers.push(Marker::Break);
+            } else if !self.markers.is_empty() {
+                if comment.start.line - line > 1 {
+                    self.markers.push(Marker::Blank);
+                } else {
+                    self.markers.push(Marker::Break);
+                }
             }
             self.markers.push(Marker::Token(comment.text));
             line = comment.end.line;
@@ -189,6 +192,24 @@ impl Formatter {
         }
     }
 
+    /// Insert comments that follow the last token
+    fn remaining_comments(&mut self) {
+        let mut line = self.prev_line;
+        while let Some(comment) = self.comments.next() {
+            if !self.markers.is_empty() {
+                if comment.start.line == self.prev_line {
+                    self.markers.push(Marker::Space);
+                } else if comment.start.line - line > 1 {
+                    self.markers.push(Marker::Blank);
+                } else {
+                    self.markers.push(Marker::Break);
+                }
+            }
+            line = comment.end.line;
+            self.markers.push(Marker::Token(comment.text));
+        }
+    }
+
     /// Return comments from before the specified token.
     /// First vector contains inline comments.
     fn comments_before(&mut self, tok: &Token) -> (Vec<Token>, Vec<Token>) {
@@ -224,7 +245,11 @@ fn stored_definition(f: &mut Formatter, tree: Tree) {
             Child::Tree(tree) => match tree.kind {
                 SyntaxKind::Name => name(f, tree),
                 SyntaxKind::ClassDefinition => {
-                    if f.prev_tok == ModelicaToken::Semicolon {
+                    // Class may be also preceded only by comments
+                    let is_first = f.prev_tok == ModelicaToken::EOF;
+                    if f.prev_tok == ModelicaToken::Semicolon
+                        || (is_first && tree.start().idx > 0)
+                    {
                         f.handle_break(tree.start(), Blank::Legal);
                     }
                     class_definition(f, tree);
-- 
2.43.0


From 2069a2059cb14aae29ca210c1e097192c14acfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:48 +0000
Subject: [PATCH 11/12] verif hook: expose private items under cfg(mofmt_verif)

---
 src/formatter.rs | 2 ++
 src/lib.rs       | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/src/formatter.rs b/src/formatter.rs
index 1c59954..30b7d71 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -6,3 +6,5 @@ mod printing;
 
 pub use formatting::format;
 pub use printing::print;
+#[cfg(mofmt_verif)]
+pub use markers::Marker;
diff --git a/src/lib.rs b/src/lib.rs
index 9731f01..101f08f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -15,6 +15,14 @@ pub fn pretty_print(tokens: Vec<Token>, comments: Vec<Token>, events: Vec<Syntax
 mod parser;
 mod formatter;
 
+/// Private items that are needed by the external verification harness.
+/// Compiled only with `RUSTFLAGS="--cfg mofmt_verif"`.
+#[cfg(mofmt_verif)]
+pub mod hooks {
+    pub use crate::formatter::{format, print, Marker};
+    pub use crate::parser::{Child, ModelicaToken, SyntaxEvent, Token, Tree};
+}
+
 mod tests {
 
     use super::*;
-- 
2.43.0


From 48a71dd47caed28002fa064fb25c2ef2e5ee44c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:58 +0000
Subject: [PATCH 12/12] fix: count lines at a carriage return that ends a line
 comment

---
 src/parser/lexing.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/lexing.rs b/src/parser/lexing.rs
index cd73449..cea6caa 100644
--- a/src/parser/lexing.rs
+++ b/src/parser/lexing.rs
@@ -80,7 +80,8 @@ impl<'a> Lexer<'a> {
             Some((i, c)) => {
                 self.current.pos = i + c.len_utf8();
                 self.current.col += 1;
-                if c == '\n' {
+                // A carriage return alone ends the line too
+                if c == '\n' || (c == '\r' && !matches!(self.chars.peek(), Some((_, '\n')))) {
                     self.current.line += 1;
                     self.current.col = 1
                 }
-- 
2.43.0

