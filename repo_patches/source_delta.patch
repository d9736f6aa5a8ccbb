From 902bc3de37351465c8be78913f29b4de67fe7f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:47 +0000
Subject: [PATCH 01/31] fix: escape the name of an unknown command in the
 output

With `ignore_unknown_commands`, `\<` was copied into the MathML unescaped, which
made the output malformed.
---
 crates/mathml-renderer/src/ast.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/mathml-renderer/src/ast.rs b/crates/mathml-renderer/src/ast.rs
index 5f77263..d38dd87 100644
--- a/crates/mathml-renderer/src/ast.rs
+++ b/crates/mathml-renderer/src/ast.rs
@@ -812,8 +812,9 @@ impl<'state> Emitter<'state> {
                 self.warnings.set_unknown_commands();
                 write!(
                     self.s,
-                    r#"<merror class="{}"><mtext>\{cmd_name}</mtext></merror>"#,
-                    self.css_classes.unknown_command
+                    r#"<merror class="{}"><mtext>\{}</mtext></merror>"#,
+                    self.css_classes.unknown_command,
+                    EscapeHtml(cmd_name)
                 )?;
             }
         }
-- 
2.43.0


From a13e13cc02e774fcdb7a6800c0fd481665b028eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:47 +0000
Subject: [PATCH 02/31] fix: escape the names of operators in the output

`\operatorname{a<b}` produced a raw `<` inside of `<mo>`.
---
 crates/mathml-renderer/src/ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mathml-renderer/src/ast.rs b/crates/mathml-renderer/src/ast.rs
index d38dd87..4964a50 100644
--- a/crates/mathml-renderer/src/ast.rs
+++ b/crates/mathml-renderer/src/ast.rs
@@ -356,7 +356,7 @@ impl<'state> Emitter<'state> {
                 name,
             } => {
                 emit_operator_attributes(&mut self.s, attrs, left, right)?;
-                write!(self.s, ">{name}</mo>")?;
+                write!(self.s, ">{}</mo>", EscapeHtml(name))?;
             }
             Node::IdentifierStr(letters) => {
                 // The "<mrow>" with "<mspace/>" is needed to prevent Firefox from adding
-- 
2.43.0


From cf935c441a02bc64f956ac3ed41243d976c0fb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:22 +0000
Subject: [PATCH 03/31] fix: keep a \label in a multline which isn't in the
 last row

Only the last row of a `multline` has a number, and `\tag` and `\nonumber` are kept
until then, but a `\label` was dropped at the first `\\`.
---
 crates/math-core/src/parser.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index ad6ce85..f6d4fff 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -24,8 +24,8 @@ use crate::{
     color_defs::get_color,
     custom_cmds::RecordedToken,
     environments::{
-        CLOSE_BRACE, CLOSE_BRACKET, CLOSE_PAREN, Env, EnvState, OPEN_BRACE, OPEN_BRACKET,
-        OPEN_PAREN,
+        CLOSE_BRACE, CLOSE_BRACKET, CLOSE_PAREN, Env, EnvState, NumberingMode, OPEN_BRACE,
+        OPEN_BRACKET, OPEN_PAREN,
     },
     error::{DelimiterModifier, LatexErrKind, LatexError, LimitedUsabilityToken, Place},
     global_state::GlobalState,
@@ -1755,7 +1755,14 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         self.arena,
                     ) {
                         Ok(tag) => {
-                            let link_target = numbered_state.label.take();
+                            // The label of a `multline` belongs to its last row, no matter
+                            // which row it is given in, just like the tag.
+                            let link_target =
+                                if matches!(numbered_state.mode, NumberingMode::OnlyLast) {
+                                    None
+                                } else {
+                                    numbered_state.label.take()
+                                };
                             let label_info = if let Some(tag) = tag {
                                 if let Some(label) = link_target {
                                     self.tokens.stores.global_state.label_map.insert(
-- 
2.43.0


From 6a2d32b0191e83fd254af8ab8a3d002c3746fcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:23 +0000
Subject: [PATCH 04/31] fix: never report an error with an inverted range

When the argument of `\kern` came partly from the body of a custom command, the end
of the range could be before its start, which made `to_report` panic when writing.
---
 crates/math-core/src/parser.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index f6d4fff..73c6f7e 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -3087,7 +3087,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         let value: &str = &buf;
         if value.is_empty() {
             return Err(Box::new(LatexError(
-                arg_start.unwrap_or(span_end)..arg_end,
+                ordered_range(arg_start.unwrap_or(span_end), arg_end),
                 LatexErrKind::ExpectedLength("".into()),
             )));
         }
@@ -3116,7 +3116,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 let start = unit_start.unwrap_or(peek_span.start());
                 let unit_str = core::str::from_utf8(&unit[..i]).unwrap_or("");
                 return Err(Box::new(LatexError(
-                    start..peek_span.start(),
+                    ordered_range(start, peek_span.start()),
                     LatexErrKind::InvalidUnit(KString::from_ref(unit_str)),
                 )));
             };
@@ -3127,7 +3127,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         }
         let unit = core::str::from_utf8(&unit).unwrap_or("");
 
-        let unit_span = unit_start.unwrap_or(arg_end)..arg_end;
+        let unit_span = ordered_range(unit_start.unwrap_or(arg_end), arg_end);
         let Ok(latex_unit) = LatexUnit::try_from(unit) else {
             return Err(Box::new(LatexError(
                 unit_span,
@@ -3144,7 +3144,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 },
             )));
         }
-        let arg_span = arg_start.unwrap_or(span_end)..arg_end;
+        let arg_span = ordered_range(arg_start.unwrap_or(span_end), arg_end);
         let Some(mut value) = limited_float_parse(value) else {
             buf.push_str(unit);
             return Err(Box::new(LatexError(
@@ -3396,6 +3396,14 @@ fn extract_delimiter(tok: TokSpan, location: DelimiterModifier) -> ParseResult<S
     Ok(delim)
 }
 
+/// Get the range between two positions.
+///
+/// Tokens from the body of a custom command don't have positions of their own, so the position
+/// of a later token isn't necessarily greater than that of an earlier one.
+fn ordered_range(start: usize, end: usize) -> Range<usize> {
+    start.min(end)..end
+}
+
 fn relation_attrs(rel_category: symbol::RelCategory) -> OpAttrs {
     match rel_category {
         // Category A relations are stretchy by default; we explicitly
-- 
2.43.0


From f14f9729a55f1c3af90ed599a90bf89d5f8191b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:01 +0000
Subject: [PATCH 05/31] fix: don't attach scripts to the separators of a table

`a & ^2` and `a \\ _b` made the separator the base of the script, so that it never
reached the code which emits the table.
---
 crates/math-core/src/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 73c6f7e..0296162 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -235,6 +235,13 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             };
             prev_class = class;
 
+            // A script at the start of a cell has an empty base; it's not attached to the
+            // separator in front of it.
+            if matches!(target, Node::ColumnSeparator | Node::RowSeparator { .. }) {
+                nodes.push(target);
+                continue;
+            }
+
             // Check if there are any superscripts or subscripts following the parsed node.
             let bounds = self.get_bounds(None)?.ensure_no_explicit_limits()?;
 
-- 
2.43.0


From 37165b15df1a92c161f16b1dcbe0d2d8671483b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:01 +0000
Subject: [PATCH 06/31] fix: end the reach of a style or color switch at the
 end of the cell

`\displaystyle` and `\color` swallowed the `&` and `\\` after them, so the rest of the
table ended up in the current cell and the separators were never emitted.
---
 crates/math-core/src/parser.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 0296162..90b76a4 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -212,7 +212,9 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         let old_style = self.state.style;
 
         // Because we don't want to consume the end token, we just peek here.
-        while !sequence_end.matches(self.tokens.peek().token()) {
+        while !sequence_end.matches(self.tokens.peek().token())
+            && !(matches!(sequence_end, SequenceEnd::AnyEndToken) && self.at_separator())
+        {
             // Check whether we need to collect letters.
             let (class, target) = if let Some(collected) = self.merge_and_transform_letters()? {
                 collected
@@ -308,6 +310,16 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         Ok(nodes)
     }
 
+    /// Whether the next token ends a cell of the table that we are in. A style or a color
+    /// applies at most up to there.
+    fn at_separator(&self) -> bool {
+        match self.tokens.peek().token() {
+            Token::NewColumn => self.state.env.allow_columns,
+            Token::NewLine => self.state.env.meaningful_newlines,
+            _ => false,
+        }
+    }
+
     #[inline]
     fn handle_tokens_without_output(
         &mut self,
-- 
2.43.0


From d0e40df170156d1addfd6b762c6fcbc85798129d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:37 +0000
Subject: [PATCH 07/31] fix: only separate the cells of a table in the table
 itself

---
 crates/math-core/src/parser.rs | 38 ++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 90b76a4..6f0a8e6 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -210,6 +210,21 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         let mut prev_class = prev_class;
         let old_tf = self.state.transform;
         let old_style = self.state.style;
+        let old_separators = (
+            self.state.env.allow_columns,
+            self.state.env.meaningful_newlines,
+        );
+        if matches!(
+            sequence_end,
+            SequenceEnd::EndToken(
+                EndToken::GroupClose | EndToken::Right | EndToken::SquareBracketClose
+            )
+        ) {
+            // The cells of a table can only be separated in the table itself, not within a group
+            // in one of its cells.
+            self.state.env.allow_columns = false;
+            self.state.env.meaningful_newlines = false;
+        }
 
         // Because we don't want to consume the end token, we just peek here.
         while !sequence_end.matches(self.tokens.peek().token())
@@ -307,6 +322,10 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         }
         self.state.transform = old_tf;
         self.state.style = old_style;
+        (
+            self.state.env.allow_columns,
+            self.state.env.meaningful_newlines,
+        ) = old_separators;
         Ok(nodes)
     }
 
@@ -732,7 +751,14 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             }
             Token::MathClass(kind) => {
                 let tok_span = self.next_token()?;
+                let arg_span = tok_span.span();
                 let (_, node) = self.parse_token(Ok(tok_span), parse_as, prev_class)?;
+                if matches!(node, Node::ColumnSeparator | Node::RowSeparator { .. }) {
+                    return Err(Box::new(LatexError(
+                        arg_span.into(),
+                        LatexErrKind::CannotBeUsedAsArgument,
+                    )));
+                }
                 // Recompute the next class:
                 let next_class = self.peek_class_token(parse_as.in_sequence())?;
                 let (left, right) = match kind {
@@ -1707,6 +1733,12 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             }
             Token::NewColumn => {
                 if self.state.env.allow_columns {
+                    if !matches!(parse_as, ParseAs::Sequence) {
+                        return Err(Box::new(LatexError(
+                            span.into(),
+                            LatexErrKind::CannotBeUsedAsArgument,
+                        )));
+                    }
                     class = Class::Close;
                     Ok(Node::ColumnSeparator)
                 } else {
@@ -1740,6 +1772,12 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     //       empty rows in places where they are not needed.
                     break 'new_line Ok(Node::EMPTY_ROW);
                 }
+                if !matches!(parse_as, ParseAs::Sequence) {
+                    break 'new_line Err(LatexError(
+                        span.into(),
+                        LatexErrKind::CannotBeUsedAsArgument,
+                    ));
+                }
                 // A `\hline`/`\hdashline` directly after the `\\` (whitespace is skipped by `peek`)
                 // becomes the top border of the row that follows. Only legal inside an array or
                 // matrix; elsewhere it falls through to the `Token::HLine` error arm.
-- 
2.43.0


From 0b06aa212eea2a2b1a3055376bfadd6c7dbd3d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:58 +0000
Subject: [PATCH 08/31] fix: end the reach of an infix fraction at the end of
 the cell

---
 crates/math-core/src/parser.rs | 104 ++++++++++++++++++++++-----------
 1 file changed, 70 insertions(+), 34 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 6f0a8e6..666e1f5 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -120,6 +120,16 @@ enum ControlFlow {
     ProcessToken,
 }
 
+/// An infix command such as `\over`, which makes a fraction out of what is on either side of it,
+/// as far as the group or the cell of a table reaches.
+#[derive(Clone, Copy, Debug)]
+struct InfixFrac {
+    numerator_start: usize,
+    denominator_start: usize,
+    with_line: bool,
+    delim: Option<InfixDelim>,
+}
+
 /// What one token turned into.
 enum Parsed<'arena> {
     Node(Class, &'arena Node<'arena>),
@@ -205,7 +215,9 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         keep_end_token: bool,
     ) -> ParseResult<Vec<&'arena Node<'arena>>> {
         let mut nodes = Vec::new();
-        let mut infix_frac: Option<(Vec<&'arena Node<'arena>>, bool, Option<InfixDelim>)> = None;
+        let mut infix_frac: Option<InfixFrac> = None;
+        // Where the current cell starts, if this is the content of a table.
+        let mut cell_start = 0;
 
         let mut prev_class = prev_class;
         let old_tf = self.state.transform;
@@ -241,6 +253,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         tokloc,
                         sequence_end,
                         &mut nodes,
+                        cell_start,
                         &mut infix_frac,
                     )? {
                         ControlFlow::SkipToken => continue,
@@ -255,7 +268,12 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             // A script at the start of a cell has an empty base; it's not attached to the
             // separator in front of it.
             if matches!(target, Node::ColumnSeparator | Node::RowSeparator { .. }) {
+                if let Some(infix_frac) = infix_frac.take() {
+                    self.finish_infix_frac(infix_frac, &mut nodes);
+                }
                 nodes.push(target);
+                cell_start = nodes.len();
+                self.state.style = old_style;
                 continue;
             }
 
@@ -284,37 +302,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             // If there are superscripts or subscripts, we need to wrap the node we just got into
             // one of the node types for superscripts and subscripts.
         }
-        if let Some((numerator, with_line, delim)) = infix_frac {
-            let denominator = mem::replace(&mut nodes, Vec::with_capacity(1));
-            let (lt_value, lt_unit) = if with_line {
-                Length::none().into_parts()
-            } else {
-                Length::zero().into_parts()
-            };
-            let frac = self.commit(Node::Frac {
-                num: node_vec_to_node(self.arena, &numerator, false),
-                denom: node_vec_to_node(self.arena, &denominator, false),
-                lt_value,
-                lt_unit,
-                attr: None,
-            });
-            let node = if let Some(delim) = delim {
-                let (open, close) = match delim {
-                    InfixDelim::Paren => (OPEN_PAREN, CLOSE_PAREN),
-                    InfixDelim::Brace => (OPEN_BRACE, CLOSE_BRACE),
-                    InfixDelim::Brack => (OPEN_BRACKET, CLOSE_BRACKET),
-                };
-                self.commit(fenced(
-                    self.arena,
-                    vec![frac],
-                    Some(open),
-                    Some(close),
-                    None,
-                ))
-            } else {
-                frac
-            };
-            nodes.push(node);
+        if let Some(infix_frac) = infix_frac {
+            self.finish_infix_frac(infix_frac, &mut nodes);
         }
         if !keep_end_token {
             // Discard the end token.
@@ -329,6 +318,47 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         Ok(nodes)
     }
 
+    /// Replace the numerator and the denominator at the end of `nodes` by their fraction.
+    fn finish_infix_frac(&self, infix_frac: InfixFrac, nodes: &mut Vec<&'arena Node<'arena>>) {
+        let InfixFrac {
+            numerator_start,
+            denominator_start,
+            with_line,
+            delim,
+        } = infix_frac;
+        let denominator = nodes.split_off(denominator_start);
+        let numerator = nodes.split_off(numerator_start);
+        let (lt_value, lt_unit) = if with_line {
+            Length::none().into_parts()
+        } else {
+            Length::zero().into_parts()
+        };
+        let frac = self.commit(Node::Frac {
+            num: node_vec_to_node(self.arena, &numerator, false),
+            denom: node_vec_to_node(self.arena, &denominator, false),
+            lt_value,
+            lt_unit,
+            attr: None,
+        });
+        let node = if let Some(delim) = delim {
+            let (open, close) = match delim {
+                InfixDelim::Paren => (OPEN_PAREN, CLOSE_PAREN),
+                InfixDelim::Brace => (OPEN_BRACE, CLOSE_BRACE),
+                InfixDelim::Brack => (OPEN_BRACKET, CLOSE_BRACKET),
+            };
+            self.commit(fenced(
+                self.arena,
+                vec![frac],
+                Some(open),
+                Some(close),
+                None,
+            ))
+        } else {
+            frac
+        };
+        nodes.push(node);
+    }
+
     /// Whether the next token ends a cell of the table that we are in. A style or a color
     /// applies at most up to there.
     fn at_separator(&self) -> bool {
@@ -345,7 +375,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         tokspan: &TokSpan,
         sequence_end: SequenceEnd,
         collected_nodes: &mut Vec<&'arena Node<'arena>>,
-        infix_frac: &mut Option<(Vec<&'arena Node<'arena>>, bool, Option<InfixDelim>)>,
+        cell_start: usize,
+        infix_frac: &mut Option<InfixFrac>,
     ) -> ParseResult<ControlFlow> {
         let span = tokspan.span().into();
         let result: Result<(), LatexError> = match *tokspan.token() {
@@ -359,7 +390,12 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             }
             Token::InfixGenFrac { with_line, delim } => {
                 if infix_frac.is_none() {
-                    *infix_frac = Some((mem::take(collected_nodes), with_line, delim));
+                    *infix_frac = Some(InfixFrac {
+                        denominator_start: collected_nodes.len(),
+                        numerator_start: cell_start,
+                        with_line,
+                        delim,
+                    });
                     // The numerator was already parsed in the surrounding style (we only
                     // learn it's a fraction here), but we can at least shrink the style
                     // for the denominator. `parse_sequence` restores the style on exit.
-- 
2.43.0


From d67e7046f4960d5702d9b5c7d08f9d06b1e39ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:03 +0000
Subject: [PATCH 09/31] fix: end the reach of a font switch at the end of the
 cell

---
 crates/math-core/src/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 666e1f5..282ecb1 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -273,6 +273,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 }
                 nodes.push(target);
                 cell_start = nodes.len();
+                self.state.transform = old_tf;
                 self.state.style = old_style;
                 continue;
             }
-- 
2.43.0


From d5092221d969e8a36a53256402c9f365acdfb67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:34 +0000
Subject: [PATCH 10/31] fix: allow an expansion to start with a token which has
 no output

---
 crates/math-core/src/parser.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 282ecb1..65c3073 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -261,7 +261,17 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     }
                 }
                 // Parse the token.
-                self.parse_token(cur_tokloc, ParseAs::Sequence, prev_class)?
+                match self.parse_one_token(cur_tokloc, ParseAs::Sequence, prev_class)? {
+                    Parsed::Node(class, node) => (class, node),
+                    // An expansion to nothing at all leaves an empty row behind.
+                    Parsed::Expansion if matches!(self.tokens.peek().token(), Token::Relax) => {
+                        let relax = self.next_token();
+                        self.parse_token(relax, ParseAs::Sequence, prev_class)?
+                    }
+                    // The first token of an expansion is handled in the same way as a token which
+                    // was written out.
+                    Parsed::Expansion => continue,
+                }
             };
             prev_class = class;
 
-- 
2.43.0


From 622687d191c8f02bcbf424f080fba1d0c69e1911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:17 +0000
Subject: [PATCH 11/31] fix: don't convert a snippet twice in order to report
 its error

---
 crates/math-core-cli/src/replace.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/math-core-cli/src/replace.rs b/crates/math-core-cli/src/replace.rs
index c9514b5..9837b65 100644
--- a/crates/math-core-cli/src/replace.rs
+++ b/crates/math-core-cli/src/replace.rs
@@ -185,18 +185,16 @@ impl<'args> Replacer<'args> {
             // Replace HTML entities
             let replaced = replace_html_entities(&mut self.entity_buffer, content);
             // Convert the content and check for error.
-            let is_error = { f(state, &mut result, replaced, open_typ).is_err() };
-            if is_error {
+            if let Err(latex_error) = f(state, &mut result, replaced, open_typ) {
                 // If we stop on error, return the error together with the snippet.
-                // Unfortunately, due to limitations in the borrow checker, we have to run the
-                // conversion again to get the error.
+                // Unfortunately, due to limitations in the borrow checker, we have to replace the
+                // entities again to get the snippet.
                 // The reason seems to be that the borrow checker cannot tell that when we
                 // return `replaced` here, we are not maintaining the borrow for the next
                 // iteration of the loop.
                 // This is quite unfortunate, but we only have to do this in the error case,
                 // which is hopefully not too common.
                 let replaced = replace_html_entities(&mut self.entity_buffer, content);
-                let latex_error = f(state, &mut result, replaced, open_typ).unwrap_err();
                 return Err(ConversionError(
                     start,
                     ConvErrKind::LatexError(*latex_error, replaced),
-- 
2.43.0


From c792627d8bd6a0d14198420216b3291d1a01942a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:38 +0000
Subject: [PATCH 12/31] fix: reject empty delimiters, which are found
 everywhere

---
 crates/math-core-cli/src/main.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/math-core-cli/src/main.rs b/crates/math-core-cli/src/main.rs
index f395e36..39c8c1d 100644
--- a/crates/math-core-cli/src/main.rs
+++ b/crates/math-core-cli/src/main.rs
@@ -4,7 +4,7 @@ use std::{
     path::{Path, PathBuf},
 };
 
-use clap::Parser;
+use clap::{Parser, builder::NonEmptyStringValueParser};
 
 use math_core::{LatexError, LatexToMathML, MathDisplay};
 
@@ -29,6 +29,7 @@ struct Args {
         long,
         default_value = "$",
         conflicts_with = "formula",
+        value_parser = NonEmptyStringValueParser::new(),
         value_name = "STR"
     )]
     inline_del: String,
@@ -38,6 +39,7 @@ struct Args {
         long,
         default_value = "$$",
         conflicts_with = "formula",
+        value_parser = NonEmptyStringValueParser::new(),
         value_name = "STR"
     )]
     block_del: String,
@@ -47,6 +49,7 @@ struct Args {
         long,
         conflicts_with = "inline_del",
         requires = "inline_close",
+        value_parser = NonEmptyStringValueParser::new(),
         value_name = "STR"
     )]
     inline_open: Option<String>,
@@ -56,6 +59,7 @@ struct Args {
         long,
         conflicts_with = "inline_del",
         requires = "inline_open",
+        value_parser = NonEmptyStringValueParser::new(),
         value_name = "STR"
     )]
     inline_close: Option<String>,
@@ -65,6 +69,7 @@ struct Args {
         long,
         conflicts_with = "block_del",
         requires = "block_close",
+        value_parser = NonEmptyStringValueParser::new(),
         value_name = "STR"
     )]
     block_open: Option<String>,
@@ -74,6 +79,7 @@ struct Args {
         long,
         conflicts_with = "block_del",
         requires = "block_open",
+        value_parser = NonEmptyStringValueParser::new(),
         value_name = "STR"
     )]
     block_close: Option<String>,
-- 
2.43.0


From 95c48ca4591f07684da19dde967d14179fd1aef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:06 +0000
Subject: [PATCH 13/31] fix: keep one value of stretchy for a sized delimiter
 in \mathrel and the like

---
 crates/math-core/src/parser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 65c3073..c45d6e4 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -857,7 +857,13 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         right: _,
                     } => Ok(Node::Operator {
                         op,
-                        attrs: attrs | OpAttrs::STRETCHY_FALSE,
+                        // An operator which is explicitly stretchy has to stay so; `stretchy`
+                        // can't have both values.
+                        attrs: if attrs.contains(OpAttrs::STRETCHY_TRUE) {
+                            attrs
+                        } else {
+                            attrs | OpAttrs::STRETCHY_FALSE
+                        },
                         left,
                         right,
                         size,
-- 
2.43.0


From 1f83e85cff0a9b93a33b2660aa8a2e90e18199c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:25 +0000
Subject: [PATCH 14/31] fix: don't skip over a parameter to find the class of a
 macro

---
 crates/math-core/src/lib.rs         | 11 +++++++----
 crates/math-core/src/token_queue.rs |  9 ++++++---
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/crates/math-core/src/lib.rs b/crates/math-core/src/lib.rs
index a1da1c0..50a87fa 100644
--- a/crates/math-core/src/lib.rs
+++ b/crates/math-core/src/lib.rs
@@ -554,7 +554,9 @@ fn parse_custom_commands(
 
         body.clear();
         let mut num_args = 0;
-        let mut first_class: Option<character_class::Class> = None;
+        // The outer `Option` is `None` as long as nothing has decided the class. A body which
+        // starts with a parameter has no class of its own.
+        let mut first_class: Option<Option<character_class::Class>> = None;
         let result = 'body: {
             let mut lexer = Lexer::new(definition.as_str());
             loop {
@@ -567,7 +569,7 @@ fn parse_custom_commands(
                                 // when the macro is used.
                                 if let Some(resolved) = resolve_builtin_cmd(&parser_cfg, cmd_name) {
                                     if first_class.is_none() {
-                                        first_class = resolved.class();
+                                        first_class = resolved.class().map(Some);
                                     }
                                 } else {
                                     unresolved.push((
@@ -587,11 +589,12 @@ fn parse_custom_commands(
                                 if n >= num_args {
                                     num_args = n + 1;
                                 }
+                                first_class.get_or_insert(None);
                                 body.push(RecordedToken::Token(Token::CustomCmdArg(n)));
                             }
                             tok => {
                                 if first_class.is_none() {
-                                    first_class = tok.class();
+                                    first_class = tok.class().map(Some);
                                 }
                                 body.push(RecordedToken::Token(tok))
                             }
@@ -608,7 +611,7 @@ fn parse_custom_commands(
         if let Err(err) = result {
             return Err((err, idx, definition));
         }
-        custom_cmds.insert(name.as_str(), num_args, &body, first_class);
+        custom_cmds.insert(name.as_str(), num_args, &body, first_class.flatten());
         // The lexer, which borrows the definition, is gone by now.
         definitions.push(definition);
     }
diff --git a/crates/math-core/src/token_queue.rs b/crates/math-core/src/token_queue.rs
index 2447548..261ac34 100644
--- a/crates/math-core/src/token_queue.rs
+++ b/crates/math-core/src/token_queue.rs
@@ -795,7 +795,9 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
         body_tokspans: Vec<QueuedTok<'arena>>,
         num_args: u8,
     ) -> Result<(Vec<RecordedToken>, Option<Class>), Box<LatexError>> {
-        let mut first_class: Option<Class> = None;
+        // The outer `Option` is `None` as long as nothing has decided the class. A body which
+        // starts with a parameter has no class of its own.
+        let mut first_class: Option<Option<Class>> = None;
         let body = body_tokspans
             .into_iter()
             .map(|queued| {
@@ -811,6 +813,7 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
                                 },
                             )));
                         }
+                        first_class.get_or_insert(None);
                         Ok(RecordedToken::Token(Token::CustomCmdArg(arg_num)))
                     }
                     // This has to come before the arm below, which would otherwise record
@@ -825,7 +828,7 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
                         // The class has to be known now, because it is stored with the
                         // definition, so we take it from the meaning the command has here.
                         if first_class.is_none() {
-                            first_class = tok.class();
+                            first_class = tok.class().map(Some);
                         }
                         // A command is recorded by name rather than by what it means right
                         // now, so that the body follows a later redefinition of that name,
@@ -850,7 +853,7 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
                 }
             })
             .collect::<Result<Vec<RecordedToken>, _>>()?;
-        Ok((body, first_class))
+        Ok((body, first_class.flatten()))
     }
 
     /// Read a group of tokens, ending with (an unopened) `}`.
-- 
2.43.0


From f70f22959211abe7259774af1498ee48cb309eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:09 +0000
Subject: [PATCH 15/31] fix: keep the space after a command for a single
 character in text

---
 crates/math-core/src/lexer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/math-core/src/lexer.rs b/crates/math-core/src/lexer.rs
index e8ceda5..17a55be 100644
--- a/crates/math-core/src/lexer.rs
+++ b/crates/math-core/src/lexer.rs
@@ -242,8 +242,11 @@ impl<'source> Lexer<'source> {
             '\\' => {
                 let (cmd_string, end) = self.read_command();
                 let span = Span::new(loc, end);
-                // After a command, all whitespace is skipped, even in text mode.
-                self.skip_whitespace();
+                // After a command, all whitespace is skipped, even in text mode. The exception are
+                // commands for a single character, like `\&`, after which it is part of the text.
+                if !matches!(cmd_string, "#" | "$" | "%" | "&" | "_" | "{" | "}") {
+                    self.skip_whitespace();
+                }
                 return self.parse_env_marker(span, cmd_string);
             }
             c if c.is_ascii_digit() => Token::Digit(c),
-- 
2.43.0


From 8972d5da42097b4cde4a67269079bb03509553c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:46 +0000
Subject: [PATCH 16/31] fix: find a delimiter that overlaps with an escaped one

---
 crates/math-core-cli/src/replace.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/crates/math-core-cli/src/replace.rs b/crates/math-core-cli/src/replace.rs
index 9837b65..5c5281c 100644
--- a/crates/math-core-cli/src/replace.rs
+++ b/crates/math-core-cli/src/replace.rs
@@ -239,8 +239,8 @@ impl<'args> Replacer<'args> {
             let end = window.min(input.len());
             let haystack = &input[..end];
 
-            let inline_result = self.find_delimiter_position(haystack, inline_finder, inline_len);
-            let block_result = self.find_delimiter_position(haystack, block_finder, block_len);
+            let inline_result = self.find_delimiter_position(haystack, inline_finder);
+            let block_result = self.find_delimiter_position(haystack, block_finder);
 
             // Take the closest delimiter, with block display taking priority on ties.
             let found = match (inline_result, block_result) {
@@ -275,12 +275,7 @@ impl<'args> Replacer<'args> {
     }
 
     /// Helper function to find the next unescaped delimiter position
-    fn find_delimiter_position(
-        &self,
-        input: &[u8],
-        finder: &Finder,
-        delimiter_len: usize,
-    ) -> Option<usize> {
+    fn find_delimiter_position(&self, input: &[u8], finder: &Finder) -> Option<usize> {
         if !self.ignore_escaped_delim {
             return finder.find(input);
         }
@@ -292,8 +287,8 @@ impl<'args> Replacer<'args> {
 
             // Check if this delimiter is escaped
             if absolute_pos > 0 && input[absolute_pos - 1] == b'\\' {
-                // Skip past this escaped delimiter
-                offset = absolute_pos + delimiter_len;
+                // Only this occurrence is escaped; another one may overlap with it, as in `\$$$`
+                offset = absolute_pos + 1;
                 continue;
             }
 
-- 
2.43.0


From b773d042b3cc21514730bcc2910a15f63d47633f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:04 +0000
Subject: [PATCH 17/31] fix: report that the path given with --recursive cannot
 be accessed

---
 crates/math-core-cli/src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/math-core-cli/src/main.rs b/crates/math-core-cli/src/main.rs
index 39c8c1d..bcf3362 100644
--- a/crates/math-core-cli/src/main.rs
+++ b/crates/math-core-cli/src/main.rs
@@ -188,6 +188,10 @@ fn main() {
                 Err(e) => exit_conversion_error(e, None),
             }
         } else if args.recursive {
+            // Entries which cannot be accessed are skipped, but not the given path itself.
+            if let Err(e) = fs::metadata(fpath) {
+                exit_io_error(&e);
+            }
             convert_html_recursive(&args, fpath, &mut replacer, &mut converter);
         } else {
             convert_html(&args, fpath, args.write, &mut replacer, &mut converter);
-- 
2.43.0


From 2c4986e6806f9422e64cec8836c0ce5253f1b4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:16 +0000
Subject: [PATCH 18/31] fix: keep the old content of a file if the new one
 cannot be written

---
 crates/math-core-cli/src/main.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/math-core-cli/src/main.rs b/crates/math-core-cli/src/main.rs
index bcf3362..8ed54ab 100644
--- a/crates/math-core-cli/src/main.rs
+++ b/crates/math-core-cli/src/main.rs
@@ -331,9 +331,12 @@ fn convert_html(
     }
     if write {
         if original != converted {
-            let mut fp = fs::File::create(fp).unwrap_or_else(|e| exit_io_error(&e));
-            fp.write_all(converted.as_bytes())
-                .unwrap_or_else(|e| exit_io_error(&e));
+            let mut file = fs::File::create(fp).unwrap_or_else(|e| exit_io_error(&e));
+            if let Err(e) = file.write_all(converted.as_bytes()) {
+                // For example because the disk is full: the old content still fits.
+                let _ = fs::write(fp, original);
+                exit_io_error(&e);
+            }
         }
     } else {
         print!("{converted}");
-- 
2.43.0


From 9ecbb7abe08f17ac916290db04d72ec4c2d8fcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:16 +0000
Subject: [PATCH 19/31] fix: read any number of comments without recursion

---
 crates/math-core/src/lexer.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/crates/math-core/src/lexer.rs b/crates/math-core/src/lexer.rs
index 17a55be..4e934df 100644
--- a/crates/math-core/src/lexer.rs
+++ b/crates/math-core/src/lexer.rs
@@ -144,14 +144,17 @@ impl<'source> Lexer<'source> {
             return Ok(LexerOutput::Token(TokSpan::new(Token::Whitespace, span)));
         }
 
-        let (loc, ch) = self.read_char();
-        let Some(ch) = ch else {
-            return Ok(LexerOutput::Token(TokSpan::new(
-                Token::Eoi,
-                Span::zero_width(loc),
-            )));
-        };
-        if ch == '%' {
+        let (loc, ch) = loop {
+            let (loc, ch) = self.read_char();
+            let Some(ch) = ch else {
+                return Ok(LexerOutput::Token(TokSpan::new(
+                    Token::Eoi,
+                    Span::zero_width(loc),
+                )));
+            };
+            if ch != '%' {
+                break (loc, ch);
+            }
             // Skip comments.
             while self.peek.1 != Some('\n') && self.peek.1.is_some() {
                 self.read_char();
@@ -160,9 +163,7 @@ impl<'source> Lexer<'source> {
             // TeX skips whitespace on the line after a comment.
             // This also prevents two whitespace tokens following each other.
             self.skip_whitespace();
-            // FIXME: use `become` here when stabilized.
-            return self.next_token();
-        }
+        };
         let mut span = Span::new(loc, loc + ch.len_utf8());
         let tok = match ch {
             '\u{0}' => {
-- 
2.43.0


From ec90eea28a24ab52aadeb5fba4feb457200bf548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:11 +0000
Subject: [PATCH 20/31] fix: allow comments between \begin or \end and the name
 of the environment

---
 crates/math-core/src/lexer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/math-core/src/lexer.rs b/crates/math-core/src/lexer.rs
index 4e934df..d347b92 100644
--- a/crates/math-core/src/lexer.rs
+++ b/crates/math-core/src/lexer.rs
@@ -272,8 +272,14 @@ impl<'source> Lexer<'source> {
             _ => return Ok(LexerOutput::CommandName(cmd_string, span)),
         };
         let tok: Result<(Token, Span), LatexError> = 'env_name: {
-            // First skip any whitespace.
+            // First skip any whitespace and comments.
             self.skip_whitespace();
+            while self.peek.1 == Some('%') {
+                while self.peek.1.is_some_and(|ch| ch != '\n') {
+                    self.read_char();
+                }
+                self.skip_whitespace();
+            }
             let group_loc = self.peek.0;
             // Read the environment name.
             let (name, end) = match self.read_env_name() {
-- 
2.43.0


From 38a49e8a545c646a096686986076617a1fa42272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:08 +0000
Subject: [PATCH 21/31] fix: report an HTML colour with a character which is no
 hexadecimal digit

---
 crates/math-core/src/parser.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index c45d6e4..2ce8717 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -2045,12 +2045,17 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                                     _ => 0,
                                 }
                             }
-                            match color_description.as_bytes() {
-                                &[r1, r2, g1, g2, b1, b2] => (
-                                    hex(r1) * 16 + hex(r2),
-                                    hex(g1) * 16 + hex(g2),
-                                    hex(b1) * 16 + hex(b2),
-                                ),
+                            let digits = color_description.as_bytes();
+                            match digits {
+                                &[r1, r2, g1, g2, b1, b2]
+                                    if digits.iter().all(u8::is_ascii_hexdigit) =>
+                                {
+                                    (
+                                        hex(r1) * 16 + hex(r2),
+                                        hex(g1) * 16 + hex(g2),
+                                        hex(b1) * 16 + hex(b2),
+                                    )
+                                }
                                 _ => {
                                     break 'color Err(LatexError(
                                         span,
-- 
2.43.0


From f5f99f2c382dc2b445aaae660154a1cc193a6af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:08 +0000
Subject: [PATCH 22/31] fix: an inch is 72.27 points, in step with the
 centimetre and the millimetre

---
 crates/math-core/src/specifications.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/math-core/src/specifications.rs b/crates/math-core/src/specifications.rs
index 055d882..27aacfa 100644
--- a/crates/math-core/src/specifications.rs
+++ b/crates/math-core/src/specifications.rs
@@ -53,7 +53,7 @@ impl LatexUnit {
             LatexUnit::Pt => Length::new(0.1 * value, Rem),
             LatexUnit::Mm => Length::new(0.28453 * value, Rem),
             LatexUnit::Cm => Length::new(2.8453 * value, Rem),
-            LatexUnit::In => Length::new(7.2 * value, Rem),
+            LatexUnit::In => Length::new(7.227 * value, Rem),
             LatexUnit::Ex => Length::new(value, Ex),
             LatexUnit::Em => Length::new(value, Em),
             LatexUnit::Mu => Length::new(0.055555556 * value, Em),
-- 
2.43.0


From 3797394d7dd618e3c78423b42142e76195789a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:52 +0000
Subject: [PATCH 23/31] fix: keep the size of a \big delimiter which is the
 only thing in an argument

---
 crates/math-core/src/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 2ce8717..75014d5 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -3454,13 +3454,16 @@ pub(crate) fn node_vec_to_node<'arena>(
 ) -> &'arena Node<'arena> {
     if let [single] = nodes {
         if reset_spacing {
-            if let Node::Operator { op, attrs, .. } = **single {
+            if let Node::Operator {
+                op, attrs, size, ..
+            } = **single
+            {
                 arena.push(Node::Operator {
                     op,
                     attrs,
                     left: None,
                     right: None,
-                    size: None,
+                    size,
                 })
             } else {
                 single
-- 
2.43.0


From 3088af11285d4d41b1d35d0193609be8e397b97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:10 +0000
Subject: [PATCH 24/31] fix: a \big delimiter forced into another class keeps
 its size

---
 crates/math-core/src/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 75014d5..76f1874 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -858,8 +858,9 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     } => Ok(Node::Operator {
                         op,
                         // An operator which is explicitly stretchy has to stay so; `stretchy`
-                        // can't have both values.
-                        attrs: if attrs.contains(OpAttrs::STRETCHY_TRUE) {
+                        // can't have both values. A size only has an effect on an operator
+                        // which stretches.
+                        attrs: if size.is_some() || attrs.contains(OpAttrs::STRETCHY_TRUE) {
                             attrs
                         } else {
                             attrs | OpAttrs::STRETCHY_FALSE
-- 
2.43.0


From 8a8dea0b9b4422c25cd7d53ce181bca6e985843b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:30 +0000
Subject: [PATCH 25/31] fix: parse the argument of \cramped in the style that
 it is given

---
 crates/math-core/src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 76f1874..8b66400 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -1935,7 +1935,10 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         }
                     };
 
+                    let inner_style = style.unwrap_or(self.state.style);
+                    let old_style = mem::replace(&mut self.state.style, inner_style);
                     let inner = self.parse_next(ParseAs::Arg)?;
+                    self.state.style = old_style;
                     (style, inner)
                 } else {
                     let inner = self.parse_token(next, ParseAs::Arg, prev_class)?.1;
-- 
2.43.0


From d0b30ebd05ca549c0b6aa9805f67bd33b8b5c82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:31 +0000
Subject: [PATCH 26/31] fix: parse the index of a root in script-script style

---
 crates/math-core/src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 8b66400..66a97b0 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -966,11 +966,13 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     && matches!(tokloc.token(), Token::SquareBracketOpen)
                 {
                     // FIXME: We should perhaps use set `right_boundary_hack` here.
+                    let old_style = mem::replace(&mut self.state.style, Style::ScriptScript);
                     let degree = self.parse_sequence(
                         SequenceEnd::EndToken(EndToken::SquareBracketClose),
                         Class::Open,
                         false,
                     )?;
+                    self.state.style = old_style;
                     let content = self.parse_next(ParseAs::Arg)?;
                     Ok(Node::Root(
                         node_vec_to_node(self.arena, &degree, true),
-- 
2.43.0


From 5d6bbe25ed9485097638fac3210f93159a16a43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:31 +0000
Subject: [PATCH 27/31] fix: shrink the style for the label of \overset,
 \xrightarrow and the like in a script

---
 crates/math-core/src/parser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 66a97b0..8c49487 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -1100,7 +1100,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 }
             }
             Token::Overset | Token::Underset => {
-                let old_style = mem::replace(&mut self.state.style, Style::Script);
+                let label_style = self.state.style.scriptify();
+                let old_style = mem::replace(&mut self.state.style, label_style);
                 let symbol = self.parse_next(ParseAs::Arg)?;
                 self.state.style = old_style;
                 let token = self.next_token();
@@ -2322,7 +2323,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 // Parse the over-argument in the same state the original token-stream
                 // expansion used: `style` is set by the outer `\overset`, and
                 // `right_boundary_hack` is set by the inner `\overset`'s target group.
-                let old_style = mem::replace(&mut self.state.style, Style::Script);
+                let label_style = self.state.style.scriptify();
+                let old_style = mem::replace(&mut self.state.style, label_style);
                 let old_boundary_hack = mem::replace(&mut self.state.right_boundary_hack, true);
 
                 // Optional under-argument in square brackets (e.g. `\xrightarrow[a]{b}`),
-- 
2.43.0


From d2c87fb813862d4d04a843ab2f1e9a17fc98ed1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:32 +0000
Subject: [PATCH 28/31] fix: parse the label of \underbrace and the like in
 script style

---
 crates/math-core/src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 8c49487..8d884c0 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -1128,7 +1128,10 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 {
                     let target = self.commit(base);
                     self.next_token()?; // Discard the circumflex or underscore token.
+                    let label_style = self.state.style.scriptify();
+                    let old_style = mem::replace(&mut self.state.style, label_style);
                     let expl = self.parse_next(ParseAs::Arg)?;
+                    self.state.style = old_style;
                     if is_over {
                         Ok(Node::Over {
                             symbol: expl,
-- 
2.43.0


From 26c06580e49ee57b5f1f341247b2c4504d80a0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:32 +0000
Subject: [PATCH 29/31] fix: parse the scripts of \prescript in script style

---
 crates/math-core/src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 8d884c0..5e4a3ee 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -2173,8 +2173,11 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 return Ok(Parsed::Expansion);
             }
             Token::Prescript => {
+                let script_style = self.state.style.scriptify();
+                let old_style = mem::replace(&mut self.state.style, script_style);
                 let sup = self.parse_next(ParseAs::Arg)?;
                 let sub = self.parse_next(ParseAs::Arg)?;
+                self.state.style = old_style;
                 let base = self.parse_next(ParseAs::Arg)?;
                 let pre = self
                     .arena
-- 
2.43.0


From 9ae9af7b3708e08dc4295555a3cff4dc76bc7fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:51 +0000
Subject: [PATCH 30/31] fix: reject an unknown command in the argument of a
 macro only where it is used

---
 crates/math-core/src/parser.rs      |  5 +++--
 crates/math-core/src/token_queue.rs | 35 ++++++++++++++++++++++++-----
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 5e4a3ee..d3034e3 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -2807,11 +2807,12 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         for arg_num in 0..num_args {
             // The tokens keep the names they came from, so that an argument which is
             // substituted into a `\newcommand` can be recorded by name like any other token.
-            let queued = self.tokens.next_keeping_name()?;
+            // A command which is not defined (yet) is only rejected when the parser gets to it.
+            let queued = self.tokens.next_allowing_unresolved_command()?;
             match queued.token() {
                 Token::GroupBegin => {
                     self.tokens
-                        .record_group(self.state.cmd_args.buffer(), true)?;
+                        .record_cmd_arg_group(self.state.cmd_args.buffer())?;
                 }
                 Token::Eoi => {
                     return Err(Box::new(LatexError(
diff --git a/crates/math-core/src/token_queue.rs b/crates/math-core/src/token_queue.rs
index 261ac34..321e091 100644
--- a/crates/math-core/src/token_queue.rs
+++ b/crates/math-core/src/token_queue.rs
@@ -864,15 +864,38 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
         &mut self,
         tokens: &mut Vec<T>,
         preserve_all: bool,
+    ) -> Result<usize, Box<LatexError>> {
+        self.record_group_with(
+            tokens,
+            if preserve_all {
+                Self::next_any_token_keeping_name
+            } else {
+                Self::next_keeping_name
+            },
+        )
+    }
+
+    /// Same as [`Self::record_group`] with `preserve_all`, but commands which are not defined
+    /// (yet) are recorded instead of being rejected.
+    ///
+    /// This is for the argument of a custom command: whether such a command is used at all, and
+    /// whether it is defined by then, depends on where the body puts the argument. It is rejected
+    /// when the parser gets to it.
+    pub(super) fn record_cmd_arg_group<T: From<QueuedTok<'arena>>>(
+        &mut self,
+        tokens: &mut Vec<T>,
+    ) -> Result<usize, Box<LatexError>> {
+        self.record_group_with(tokens, Self::next_any_token_allowing_unknown_command)
+    }
+
+    fn record_group_with<T: From<QueuedTok<'arena>>>(
+        &mut self,
+        tokens: &mut Vec<T>,
+        next: impl Fn(&mut Self) -> Result<QueuedTok<'arena>, Box<LatexError>>,
     ) -> Result<usize, Box<LatexError>> {
         let mut nesting_level = 0usize;
         let end = loop {
-            let tokloc = if preserve_all {
-                self.next_any_token_keeping_name()
-            } else {
-                self.next_keeping_name()
-            };
-            let tokloc = tokloc?;
+            let tokloc = next(self)?;
             match tokloc.token() {
                 Token::GroupBegin => {
                     nesting_level += 1;
-- 
2.43.0


From 6e73e1fc96da10edc416ac144768ba3a7fff2384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:55 +0000
Subject: [PATCH 31/31] fix: make an unknown command in the body of a macro
 known when its argument defines it

---
 crates/math-core/src/token_queue.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/math-core/src/token_queue.rs b/crates/math-core/src/token_queue.rs
index 321e091..8227d05 100644
--- a/crates/math-core/src/token_queue.rs
+++ b/crates/math-core/src/token_queue.rs
@@ -712,9 +712,17 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
     /// after a `\renewcommand` has already been loaded, so a use of the command right after
     /// its redefinition would otherwise still refer to the old definition. We recognize the
     /// tokens by the name they came from, because the old definition can be any token at all.
+    ///
+    /// A token from the body of a custom command has lost its name, unless the command was not
+    /// defined so far, as the `\b` in `\newcommand{\a}[1]{#1\b}\a{\def\b{x}}`.
     pub(super) fn resolve_buffered_redefined_command(&mut self, name: &str, tok: Token) {
         for queued in &mut self.queue {
-            if queued.name() == Some(name) {
+            if queued.name() == Some(name)
+                || matches!(
+                    *queued.token(),
+                    Token::UnresolvedCommand(unresolved) if self.cmd_names.get(unresolved) == name
+                )
+            {
                 *queued = queued.with_token(tok);
             }
         }
-- 
2.43.0

