From d5f2c519667906e1c6884b3ba214b04d44695239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:06 +0000
Subject: [PATCH 01/14] fix: report commands and environments without their
 argument instead of panicking

---
 crates/mitex/src/converter.rs | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 32cc3c0..411d3f3 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -495,10 +495,10 @@ impl Converter {
         let arg = cmd
             .arguments()
             .next()
-            .expect("\\label command must have one argument");
+            .ok_or_else(|| "\\label command must have one argument".to_owned())?;
         // remove { and } then trim
         let label = arg.text().to_string();
-        let label = &label[1..(label.len() - 1)];
+        let label = remove_delimiters(&label, '{', '}');
         let label = label.trim();
         match self.env {
             LaTeXEnv::None | LaTeXEnv::Itemize | LaTeXEnv::Enumerate => {
@@ -522,29 +522,25 @@ impl Converter {
         cmd: &CmdItem,
     ) -> Result<(), ConvertError> {
         let opt_arg = cmd.arguments().find(|arg| {
-            matches!(
-                arg.first_child().unwrap().kind(),
-                LatexSyntaxKind::ItemBracket
-            )
+            arg.first_child()
+                .is_some_and(|child| matches!(child.kind(), LatexSyntaxKind::ItemBracket))
         });
         let arg = cmd
             .arguments()
             .find(|arg| {
-                matches!(
-                    arg.first_child().unwrap().kind(),
-                    LatexSyntaxKind::ItemCurly
-                )
+                arg.first_child()
+                    .is_some_and(|child| matches!(child.kind(), LatexSyntaxKind::ItemCurly))
             })
-            .expect("\\includegraphics command must have one argument");
+            .ok_or_else(|| "\\includegraphics command must have one argument".to_owned())?;
         // remove { and } then trim
         let body = arg.text().to_string();
-        let body = &body[1..(body.len() - 1)];
+        let body = remove_delimiters(&body, '{', '}');
         let body = body.trim();
         f.write_str("#image(")?;
         // optional arguments
         if let Some(opt_arg) = opt_arg {
             let arg_text = opt_arg.text().to_string();
-            let arg_text = &arg_text[1..(arg_text.len() - 1)];
+            let arg_text = remove_delimiters(&arg_text, '[', ']');
             let arg_text = arg_text.trim();
             // example: \includegraphics[width=0.5\textwidth, height=3cm,
             // angle=45]{example-image} split by comma and convert
@@ -1016,7 +1012,7 @@ impl Converter {
                     let arg = cmd
                         .arguments()
                         .next()
-                        .expect("\\caption command must have one argument");
+                        .ok_or_else(|| "\\caption command must have one argument".to_owned())?;
                     caption = Some(arg);
                 }
             }
@@ -1062,10 +1058,10 @@ impl Converter {
         let arg = env
             .arguments()
             .next()
-            .expect("tabular environment must have one argument");
+            .ok_or_else(|| "tabular environment must have one argument".to_owned())?;
         let arg = arg.text().to_string();
         // remove { and } then trim
-        let arg = &arg[1..(arg.len() - 1)];
+        let arg = remove_delimiters(&arg, '{', '}');
         let arg = arg.trim();
         // split arg to get alignments and vertical lines
         let mut alignments: Vec<char> = vec![];
@@ -1190,6 +1186,13 @@ impl Converter {
     }
 }
 
+/// Removes the delimiters around the text of an argument. An argument without
+/// them (a single token) is its own content.
+fn remove_delimiters(text: &str, left: char, right: char) -> &str {
+    let text = text.strip_prefix(left).unwrap_or(text);
+    text.strip_suffix(right).unwrap_or(text)
+}
+
 struct TypstRepr {
     elem: LatexSyntaxElem,
     mode: LaTeXMode,
-- 
2.43.0


From 6712573589b8018606e2fc0d46e25e66cf879b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:06 +0000
Subject: [PATCH 02/14] fix: close the last cell of a table whose last row
 doesn't end with a newline command

---
 crates/mitex/src/converter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 411d3f3..b8bbb06 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -1180,6 +1180,10 @@ impl Converter {
                 }
             }
         }
+        // close the last cell if it isn't followed by \\
+        if !exterior {
+            f.write_str("],\n")?;
+        }
         f.write_str(");")?;
         self.exit_env(prev);
         Ok(())
-- 
2.43.0


From e760dcd49b2b88755ad0722c7d3ae1b19f1a579d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:25 +0000
Subject: [PATCH 03/14] fix: enclose an item of delimiters in lr() even if
 \right is missing

---
 crates/mitex/src/converter.rs | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index b8bbb06..21bb438 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -142,7 +142,15 @@ impl Converter {
                 LatexSyntaxElem::Node(node) => format!("error unexpected: {:?}", node.text()),
                 LatexSyntaxElem::Token(token) => format!("error unexpected: {:?}", token.text()),
             })?,
-            ItemLR | ClauseArgument | ScopeRoot | ItemText | ItemBracket | ItemParen => {
+            ItemLR => {
+                // the call to `lr` encloses the whole item, even if `\right` is missing
+                f.write_str("lr(")?;
+                for child in elem.as_node().unwrap().children_with_tokens() {
+                    self.convert(f, child, spec)?;
+                }
+                f.write_char(')')?;
+            }
+            ClauseArgument | ScopeRoot | ItemText | ItemBracket | ItemParen => {
                 for child in elem.as_node().unwrap().children_with_tokens() {
                     self.convert(f, child, spec)?;
                 }
@@ -372,19 +380,8 @@ impl Converter {
         elem: LatexSyntaxElem,
         spec: &CommandSpec,
     ) -> Result<(), ConvertError> {
-        let name_and_args = elem
-            .as_node()
-            .unwrap()
-            .children_with_tokens()
-            .collect::<Vec<_>>();
-        let name = name_and_args[0].as_token().unwrap().text();
-        // remove prefix \
-        let name = &name[1..];
-        let args = name_and_args[1..].to_owned();
-        if name == "left" {
-            f.write_str("lr(")?;
-        }
-        for arg in args {
+        // skip the name of the command, `\left` or `\right`
+        for arg in elem.as_node().unwrap().children_with_tokens().skip(1) {
             match arg {
                 LatexSyntaxElem::Node(node) => {
                     self.convert(f, LatexSyntaxElem::Node(node), spec)?;
@@ -397,9 +394,6 @@ impl Converter {
             // add space
             f.write_char(' ')?;
         }
-        if name == "right" {
-            f.write_char(')')?;
-        }
         Ok(())
     }
 
-- 
2.43.0


From 32fc6a0d25f19c27f83d68a0fc6e869949031b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:25 +0000
Subject: [PATCH 04/14] fix: convert with the specification that was given, not
 only parse with it

---
 crates/mitex/src/converter.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 21bb438..dd9475f 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -1216,7 +1216,8 @@ pub fn convert_inner(
     spec: Option<CommandSpec>,
     do_parse: fn(input: &str, spec: CommandSpec) -> SyntaxNode,
 ) -> Result<String, String> {
-    let node = do_parse(input, spec.unwrap_or_else(|| DEFAULT_SPEC.clone()));
+    let spec = spec.unwrap_or_else(|| DEFAULT_SPEC.clone());
+    let node = do_parse(input, spec.clone());
     // println!("{:#?}", node);
     // println!("{:#?}", node.text());
     let mut output = String::new();
@@ -1225,7 +1226,7 @@ pub fn convert_inner(
     let repr = TypstRepr {
         elem: LatexSyntaxElem::Node(node),
         mode,
-        spec: DEFAULT_SPEC.clone(),
+        spec,
         error: err.clone(),
     };
     core::fmt::write(&mut output, format_args!("{}", repr)).map_err(|_| err.borrow().to_owned())?;
-- 
2.43.0


From c5835f7362d4b30fef07eb48cb65e8513ccb915e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:47 +0000
Subject: [PATCH 05/14] fix: don't panic on a macro definition that ends with a
 hash

---
 crates/mitex-lexer/src/macro_engine.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index 64e5ba9..950ab08 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -954,7 +954,9 @@ impl<'a> MacroEngine<'a> {
         let mut empty_texts = false;
         for i in 0..def.len() {
             if def[i].0 == Token::Hash {
-                let next = def.get_mut(i + 1).unwrap();
+                let Some(next) = def.get_mut(i + 1) else {
+                    break;
+                };
                 if next.0 == Token::Word {
                     let Some(first_char) = next.1.chars().next() else {
                         continue;
-- 
2.43.0


From 65bc15e454ffe07a585548148fcb0bfb320ba622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:47 +0000
Subject: [PATCH 06/14] fix: don't panic on \newcommand{\begin{...}}

---
 crates/mitex-lexer/src/macro_engine.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index 950ab08..59bfad1 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -672,8 +672,7 @@ impl<'a> MacroEngine<'a> {
         } else {
             ctx.peek_cmd_name_opt(BraceKind::Curly)?
                 .1
-                .strip_prefix('\\')
-                .unwrap()
+                .strip_prefix('\\')?
         };
 
         #[derive(Clone, Copy, PartialEq)]
-- 
2.43.0


From c348ef75103b868664716fa4dade5659c6c5c741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:47 +0000
Subject: [PATCH 07/14] fix: don't count an argument twice when a word is split
 into macro arguments

---
 crates/mitex-lexer/src/macro_engine.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index 59bfad1..d2539ae 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -803,6 +803,8 @@ impl<'a> MacroEngine<'a> {
                     if num_of_read == num_args {
                         break;
                     }
+                    // the characters have been counted
+                    continue;
                 }
                 Some(_) => {
                     args.push(vec![ctx.peek_full().unwrap()]);
-- 
2.43.0


From 5748e62ba83d01606a456d8f943a9ddc618cfab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:47 +0000
Subject: [PATCH 08/14] fix: only \fi finishes a nested \if... while skipping a
 branch

---
 crates/mitex-lexer/src/macro_engine.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index d2539ae..46b9400 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -454,7 +454,14 @@ impl<'a> MacroEngine<'a> {
                     ctx.next_token();
                     nested += 1;
                 }
-                Token::CommandName(CommandName::Else) | Token::CommandName(CommandName::EndIf) => {
+                Token::CommandName(CommandName::Else) => {
+                    if nested == 0 {
+                        break;
+                    }
+                    // belongs to a nested \if... that isn't finished yet
+                    ctx.next_token();
+                }
+                Token::CommandName(CommandName::EndIf) => {
                     if nested == 0 {
                         break;
                     }
-- 
2.43.0


From 34cc1dd040f1b97de922bc108d300fd5d99da532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:08 +0000
Subject: [PATCH 09/14] fix: the default output of `mitex compile` is the input
 with the extension .typ, not the input itself

---
 crates/mitex-cli/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mitex-cli/src/lib.rs b/crates/mitex-cli/src/lib.rs
index d961afb..e51b134 100644
--- a/crates/mitex-cli/src/lib.rs
+++ b/crates/mitex-cli/src/lib.rs
@@ -227,7 +227,7 @@ fn process_opts(mut opts: Opts) -> Result<Opts, clap::Error> {
         }
         if args.output.is_empty() {
             std::path::Path::new(&args.input)
-                .with_extension("tex")
+                .with_extension("typ")
                 .to_str()
                 .ok_or_else(|| {
                     clap::Error::raw(
-- 
2.43.0


From 6fd8965bca962e526267ade5f50094c2b9c620df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:08 +0000
Subject: [PATCH 10/14] fix: count the line break of a comment inside of \begin
 and \end

---
 crates/mitex-lexer/src/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mitex-lexer/src/token.rs b/crates/mitex-lexer/src/token.rs
index e5bf6d8..0531332 100644
--- a/crates/mitex-lexer/src/token.rs
+++ b/crates/mitex-lexer/src/token.rs
@@ -374,10 +374,10 @@ fn lex_begin_end(lexer: &mut logos::Lexer<Token>, is_begin: bool) -> CommandName
                 if c == '%' {
                     self.collected += c.len_utf8();
                     for c in self.chars.by_ref() {
+                        self.collected += c.len_utf8();
                         if c == '\n' || c == '\r' {
                             break;
                         }
-                        self.collected += c.len_utf8();
                     }
                     continue;
                 }
-- 
2.43.0


From f88a1d9ad55e1d54aa24388aea12ad9d5065cc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:47 +0000
Subject: [PATCH 11/14] fix: don't wrap items before a script by a command
 inside of the script

---
 crates/mitex-parser/src/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/mitex-parser/src/parser.rs b/crates/mitex-parser/src/parser.rs
index 063f13a..e8a0ac2 100644
--- a/crates/mitex-parser/src/parser.rs
+++ b/crates/mitex-parser/src/parser.rs
@@ -812,7 +812,14 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
 
         if has_script {
             self.trivia();
+
+            // The script is not an item of the enclosing list, hence it neither wraps
+            // the items of that list nor affects what is attached next
+            let list_state = self.list_state;
+            self.list_state.may_store_start(None);
+            self.list_state.may_store_last(None);
             self.content(false);
+            self.list_state = list_state;
         }
 
         self.builder.finish_node();
-- 
2.43.0


From e7162a16a8516b63d5b5dc714ba1c4ee3ac6c984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:09 +0000
Subject: [PATCH 12/14] fix: the counter of matched terms doesn't overflow

---
 crates/mitex-parser/src/arg_match.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/mitex-parser/src/arg_match.rs b/crates/mitex-parser/src/arg_match.rs
index cc96df1..a6c225d 100644
--- a/crates/mitex-parser/src/arg_match.rs
+++ b/crates/mitex-parser/src/arg_match.rs
@@ -65,7 +65,9 @@ impl ArgMatcher {
                     return false;
                 }
                 let ct = *counter < *max;
-                *counter += 1;
+                if ct {
+                    *counter += 1;
+                }
                 ct
             }
             Self::Glob { ref re, prefix } => {
-- 
2.43.0


From 740458e32f097807defe50d5ae6cb3184cd656dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:41 +0000
Subject: [PATCH 13/14] fix: an environment whose arguments are greedy doesn't
 panic

---
 crates/mitex-parser/src/parser.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/mitex-parser/src/parser.rs b/crates/mitex-parser/src/parser.rs
index e8a0ac2..77dabd8 100644
--- a/crates/mitex-parser/src/parser.rs
+++ b/crates/mitex-parser/src/parser.rs
@@ -554,8 +554,14 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
             };
             let searcher = right_pat.map(|right_pat| self.arg_matchers.start_match(right_pat));
 
-            if let Some(searcher) = searcher {
-                self.match_arguments::<false>(searcher);
+            match searcher {
+                Some(searcher) if searcher.is_greedy() => {
+                    self.builder.start_node(ClauseArgument.into());
+                    self.match_arguments::<true>(searcher);
+                    self.builder.finish_node();
+                }
+                Some(searcher) => self.match_arguments::<false>(searcher),
+                None => {}
             }
 
             self.builder.finish_node();
-- 
2.43.0


From fa4c944ed04efeb2cfb8fc9ae4d4fd003c0e0dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:16 +0000
Subject: [PATCH 14/14] fix: report \color without an argument instead of
 panicking

---
 crates/mitex/src/converter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index dd9475f..79e5217 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -597,7 +597,10 @@ impl Converter {
 
         // Parse arguments: (model, color, body)
         let (model, color, body) = if cmd_name == "\\color" {
-            let root = cmd.arguments().next().expect("greedy cmd has args");
+            let root = cmd
+                .arguments()
+                .next()
+                .ok_or_else(|| "\\color command must have one argument".to_owned())?;
             let mut iter = root.children_with_tokens().peekable();
 
             // Skip trivia
-- 
2.43.0

