From 265f1f58f2adf6fe76be70097d7f3729a6047095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:58 +0000
Subject: [PATCH 01/26] fix: keep the suffix of a parenthesised expression that
 only partly lies in the line range

---
 src/parser/lua_ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index 3577d98..699a628 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -695,7 +695,7 @@ impl ConfiguredWrite for Node {
             }
 
             VarRoundSuffix(span, locs, n1, n2) => {
-                out_of_range_write!(f, cfg, buf, state, span, "(", locs[0], n1, locs[1], ")");
+                out_of_range_write!(f, cfg, buf, state, span, "(", locs[0], n1, locs[1], ")", locs[2], n2);
 
                 #[cfg_attr(rustfmt, rustfmt_skip)]
                 cfg_write!(f, cfg, buf, state, "(", Hint(&locs[0], ""), n1, Hint(&locs[1], ""), ")")?;
-- 
2.43.0


From c4b19a9047112a698bcfb2d52ad8e91b76d55a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:25 +0000
Subject: [PATCH 02/26] fix: widen the line range to a top-level return and to
 statements joined in one list item

---
 src/formatting/reconstruction.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/formatting/reconstruction.rs b/src/formatting/reconstruction.rs
index d8ff175..4355e27 100644
--- a/src/formatting/reconstruction.rs
+++ b/src/formatting/reconstruction.rs
@@ -45,8 +45,6 @@ pub fn reconstruct_node_tree(node: &mut Node, cfg: &Config, state: &mut State) {
         | GoTo(span, _, n)
         | WhileDo(span, _, n)
         | RepeatUntil(span, _, n)
-        | RetStatExpr(span, _, n)
-        | RetStatExprComma(span, _, n)
         | Chunk(span, n, _)
         | DoBEnd(span, _, n) => {
             update_pos_range(span, state);
@@ -128,8 +126,6 @@ pub fn reconstruct_node_tree(node: &mut Node, cfg: &Config, state: &mut State) {
         | TableConstructorEmpty(span, _)
         | DoEnd(span, _)
         | Name(span, _)
-        | RetStatNone(span)
-        | RetStatNoneComma(span, _)
         | Semicolon(span)
         | SheBang(span, _)
         | FuncBody(span, _) => {
@@ -150,13 +146,28 @@ pub fn reconstruct_node_tree(node: &mut Node, cfg: &Config, state: &mut State) {
                 reconstruct_node_tree(node, cfg, state);
             }
         }
-        StatementList(_, v) => {
+        StatementList(span, v) => {
+            // a statement joined with the next one is a nested list
+            update_pos_range(span, state);
+
             state.block_nested_level += 1;
             for (_, node) in v {
                 reconstruct_node_tree(node, cfg, state);
             }
             state.block_nested_level -= 1;
         }
+        // a return statement is a statement of its block, but it is not an item of `StatementList`
+        RetStatExpr(span, _, n) | RetStatExprComma(span, _, n) => {
+            state.block_nested_level += 1;
+            update_pos_range(span, state);
+            reconstruct_node_tree(&mut *n, cfg, state);
+            state.block_nested_level -= 1;
+        }
+        RetStatNone(span) | RetStatNoneComma(span, _) => {
+            state.block_nested_level += 1;
+            update_pos_range(span, state);
+            state.block_nested_level -= 1;
+        }
         FuncNameSelf(span, _, v, n) => {
             update_pos_range(span, state);
 
-- 
2.43.0


From cce47c1740684c2cbecdfc010ecff4f2596dd32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:41 +0000
Subject: [PATCH 03/26] fix: a one-line trial without max_width is not limited
 instead of panicking

---
 src/formatting/util.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/formatting/util.rs b/src/formatting/util.rs
index 835162a..57fe88d 100644
--- a/src/formatting/util.rs
+++ b/src/formatting/util.rs
@@ -48,9 +48,9 @@ macro_rules! test_oneline {
                 let left_len = util::get_len_after_newline($wrt, $cfg);
                 let right_len = util::get_len_till_newline(&buffer, $cfg);
 
-                match left_len + right_len < $cfg.fmt.max_width.unwrap() {
-                    true => Some(buffer),
-                    false => None,
+                match $cfg.fmt.max_width {
+                    Some(max_width) if left_len + right_len >= max_width => None,
+                    _ => Some(buffer),
                 }
             }
             true => None
-- 
2.43.0


From 5031f316e64e66fbf0bd764d540a5f82dc302e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:57 +0000
Subject: [PATCH 04/26] fix: no overflow when max_width is very large

---
 src/parser/lua_ast.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index 699a628..15a5090 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -343,7 +343,7 @@ impl Node {
             if cfg.fmt.max_width.is_some()
                 && cfg.fmt.newline_format_table_constructor.is_some()
                 && cfg.fmt.force_single_line_table == Some(true)
-                && span.1 - span.0 < 2 * cfg.fmt.max_width.unwrap_or(0)
+                && (span.1 - span.0) / 2 < cfg.fmt.max_width.unwrap_or(0)
             {
                 // disable IfNewLine within table constructor
                 // one-line tables are forced to have no trailing separator
@@ -366,7 +366,7 @@ impl Node {
             FieldNamedBracket(span, _, _, _) | FieldNamed(span, _, _, _) | FieldSequential(span, _)
                 if cfg.fmt.max_width.is_some()
                     && cfg.fmt.newline_format_table_field.is_some()
-                    && span.1 - span.0 < 2 * cfg.fmt.max_width.unwrap_or(0) =>
+                    && (span.1 - span.0) / 2 < cfg.fmt.max_width.unwrap_or(0) =>
             {
                 return test_oneline_no_nl!(f, cfg, buf, state, self);
             }
@@ -392,7 +392,7 @@ impl Node {
                 if cfg.fmt.max_width.is_some()
                     && cfg.fmt.force_single_line_if == Some(true)
                     && cfg.fmt.newline_format_if.is_some()
-                    && span.1 - span.0 < 2 * cfg.fmt.max_width.unwrap_or(0) =>
+                    && (span.1 - span.0) / 2 < cfg.fmt.max_width.unwrap_or(0) =>
             {
                 // disable IfNewLine within table constructor
                 let mut test_cfg = cfg.clone();
@@ -410,7 +410,7 @@ impl Node {
             FuncBody(span, _) | FuncPBody(span, _, _) | FuncBodyB(span, _, _) | FuncPBodyB(span, _, _, _)
                 if cfg.fmt.max_width.is_some()
                     && cfg.fmt.newline_format_function.is_some()
-                    && span.1 - span.0 < 2 * cfg.fmt.max_width.unwrap_or(0)
+                    && (span.1 - span.0) / 2 < cfg.fmt.max_width.unwrap_or(0)
                     && ((state.function_nested_level == 0
                         && cfg.fmt.force_single_line_top_level_function == Some(true))
                         || (state.function_nested_level > 0
-- 
2.43.0


From bd16f4afdb80e045ed97f717efcb8339bac28848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:15 +0000
Subject: [PATCH 05/26] fix: cut the helper character off a comment block at a
 character boundary

---
 src/formatting/loc_hint.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/formatting/loc_hint.rs b/src/formatting/loc_hint.rs
index 6ff98b8..39a6349 100644
--- a/src/formatting/loc_hint.rs
+++ b/src/formatting/loc_hint.rs
@@ -76,10 +76,11 @@ impl ConfiguredWrite for CommentLocHint<'_, '_> {
         match parse_comment(&comment_buffer) {
             Ok(node_tree) => {
                 let mut formatted_comment_block = String::new();
-                formatted_comment_block.push(f.chars().last().unwrap_or(' '));
+                let last_char = f.chars().last().unwrap_or(' ');
+                formatted_comment_block.push(last_char);
 
                 match node_tree.configured_write(&mut formatted_comment_block, cfg, &comment_buffer, state) {
-                    Ok(_) => self.write_formatted_comment_block(f, cfg, buf, &formatted_comment_block[1..]),
+                    Ok(_) => self.write_formatted_comment_block(f, cfg, buf, &formatted_comment_block[last_char.len_utf8()..]),
                     Err(err) => Err(err),
                 }
             }
-- 
2.43.0


From d731e029f46b7cf61ace300418c9dae035359e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:19 +0000
Subject: [PATCH 06/26] fix: report standard input that is not valid UTF-8
 instead of panicking

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 3872269..f148b98 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -79,7 +79,10 @@ fn main() {
 
     if rel_paths.is_empty() {
         let mut buffer = String::new();
-        io::stdin().read_to_string(&mut buffer).unwrap();
+        if let Err(err) = io::stdin().read_to_string(&mut buffer) {
+            eprintln!("An error occured while reading standard input: {}", err);
+            return;
+        }
 
         match formatter::process_buffer_with_config(&buffer, &config, program_opts.verbose) {
             Ok(output) => print!("{}", output),
-- 
2.43.0


From 6212395199e47dcfc5a0c2013e36d30b54fd3790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:23 +0000
Subject: [PATCH 07/26] fix: an unreadable configuration file is an error, not
 a panic

---
 src/config.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index bea1310..c4bb080 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -303,8 +303,12 @@ impl Config {
     }
 
     pub fn reload_format_from_file(&self, file_path: &PathBuf) -> Result<Self, String> {
-        let content = fs::read_to_string(file_path)
-            .expect(&format!("An error occured while reading config file `{}`", file_path.display()));
+        let content = match fs::read_to_string(file_path) {
+            Ok(content) => content,
+            Err(err) => {
+                return Err(format!("An error occured while reading config file `{}`: {}", file_path.display(), err))
+            }
+        };
 
         let mut cfg = self.clone();
 
-- 
2.43.0


From e0286b69ad15f22a06c3684e0a5461b937096e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:27 +0000
Subject: [PATCH 08/26] fix: report an argument that is not valid UTF-8 instead
 of panicking

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index f148b98..dd2a888 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -9,7 +9,7 @@ use luafmt::file_util;
 use luafmt::formatter;
 
 fn get_options_and_filenames() -> (Vec<String>, Vec<String>) {
-    let args: Vec<String> = env::args().skip(1).collect();
+    let args: Vec<String> = env::args_os().skip(1).map(|arg| arg.to_string_lossy().into_owned()).collect();
     let (options, mut sources): (Vec<_>, Vec<_>) = args.into_iter().partition(|arg| arg.starts_with('-'));
     sources.sort();
 
-- 
2.43.0


From cca9b985da517cfb0bf231a10b7b31b62134246d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:50 +0000
Subject: [PATCH 09/26] fix: accept a plus sign in the exponent of a numeral

---
 src/parser/lexer_util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/lexer_util.rs b/src/parser/lexer_util.rs
index d0db6e5..378b5a7 100644
--- a/src/parser/lexer_util.rs
+++ b/src/parser/lexer_util.rs
@@ -74,9 +74,9 @@ pub fn get_float_end(chars: &mut TChars, start: usize) -> (usize, bool, String)
 
             let mut cur_ind = i;
             match chars.peek() {
-                Some(&(si, '-')) => {
+                Some(&(si, sign @ '-')) | Some(&(si, sign @ '+')) => {
                     chars.next();
-                    result.push('-');
+                    result.push(sign);
                     cur_ind = si;
                 }
                 Some(&(_, _)) => {}
-- 
2.43.0


From 7d6d9a45996300423f0d993d10e92f61c1b1a0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:55 +0000
Subject: [PATCH 10/26] fix: accept hexadecimal numerals that start with 0X

---
 src/parser/lua_lexer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/lua_lexer.rs b/src/parser/lua_lexer.rs
index 4b85454..f9ed2ad 100644
--- a/src/parser/lua_lexer.rs
+++ b/src/parser/lua_lexer.rs
@@ -406,10 +406,11 @@ impl<'input> Iterator for Lexer<'input> {
                 Some(&(i, '0')) => {
                     self.chars.next();
                     match self.chars.peek() {
-                        Some(&(_, 'x')) => {
+                        Some(&(_, ch @ 'x')) | Some(&(_, ch @ 'X')) => {
                             self.chars.next();
                             let (end, succ, mut val) = get_hex_integer_end(&mut self.chars, i + 2);
-                            val.insert_str(0, "0x");
+                            val.insert(0, ch);
+                            val.insert(0, '0');
 
                             match succ {
                                 true => return ok(i, Numeral(val), end),
-- 
2.43.0


From 497df22cf13a4f48578400d6a57ddbe189e90eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:25 +0000
Subject: [PATCH 11/26] fix: accept the exponent of a hexadecimal numeral

---
 src/parser/lexer_util.rs | 27 +++++++++++++++++++++++++++
 src/parser/lua_lexer.rs  |  6 ++++++
 2 files changed, 33 insertions(+)

diff --git a/src/parser/lexer_util.rs b/src/parser/lexer_util.rs
index 378b5a7..123dc44 100644
--- a/src/parser/lexer_util.rs
+++ b/src/parser/lexer_util.rs
@@ -63,6 +63,33 @@ pub fn get_hex_integer_end(chars: &mut TChars, start: usize) -> (usize, bool, St
     }
 }
 
+// the exponent of a hexadecimal numeral, if there is one
+pub fn get_hex_exponent_end(chars: &mut TChars, start: usize) -> (usize, bool, String) {
+    let mut result = String::new();
+    let mut end = start;
+
+    match chars.peek() {
+        Some(&(i, ch @ 'p')) | Some(&(i, ch @ 'P')) => {
+            chars.next();
+            result.push(ch);
+            end = i + 1;
+        }
+        _ => return (end, true, result),
+    }
+    match chars.peek() {
+        Some(&(i, sign @ '-')) | Some(&(i, sign @ '+')) => {
+            chars.next();
+            result.push(sign);
+            end = i + 1;
+        }
+        _ => {}
+    }
+
+    let (end, succ, digits) = get_integer_end(chars, end);
+    result.push_str(&digits);
+    return (end, succ, result);
+}
+
 pub fn get_float_end(chars: &mut TChars, start: usize) -> (usize, bool, String) {
     // we already got one float symbol
     let (end, _, mut result) = seek_end_by_predicate(chars, start, &|ch: char, _| !ch.is_ascii_digit() && ch != '.');
diff --git a/src/parser/lua_lexer.rs b/src/parser/lua_lexer.rs
index f9ed2ad..ba6c3e4 100644
--- a/src/parser/lua_lexer.rs
+++ b/src/parser/lua_lexer.rs
@@ -411,6 +411,12 @@ impl<'input> Iterator for Lexer<'input> {
                             let (end, succ, mut val) = get_hex_integer_end(&mut self.chars, i + 2);
                             val.insert(0, ch);
                             val.insert(0, '0');
+                            if !succ {
+                                return Some(Err(LexicalError::UnexpectedEOF));
+                            }
+
+                            let (end, succ, exponent) = get_hex_exponent_end(&mut self.chars, end);
+                            val.push_str(&exponent);
 
                             match succ {
                                 true => return ok(i, Numeral(val), end),
-- 
2.43.0


From 158174b207041cf40fcc0ac5ad451c762411cdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:29 +0000
Subject: [PATCH 12/26] fix: a backslash does not escape the end of a long
 string or comment

---
 src/parser/lexer_util.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/parser/lexer_util.rs b/src/parser/lexer_util.rs
index 123dc44..e841275 100644
--- a/src/parser/lexer_util.rs
+++ b/src/parser/lexer_util.rs
@@ -174,13 +174,12 @@ pub fn get_multiline_string_level(chars: &mut TChars, start: usize) -> usize {
 pub fn get_multiline_string_ends(chars: &mut TChars, level: usize, start: usize) -> (usize, usize, bool, String) {
     // we already got "[==[" symbols
     let mut end = start;
-    let mut escaped = false;
     let mut result = String::new();
 
     loop {
         match chars.next() {
             Some((text_end, ch)) => {
-                if !escaped && ch == ']' {
+                if ch == ']' {
                     let cur_level = get_multiline_string_level(chars, text_end + 1);
 
                     if level == cur_level {
@@ -201,7 +200,6 @@ pub fn get_multiline_string_ends(chars: &mut TChars, level: usize, start: usize)
                 }
 
                 end = text_end;
-                escaped = ch == '\\';
             }
             None => return (end + 1, end + 1, false, result),
         }
-- 
2.43.0


From 9d315ff3bf02d07575f8b466601748cd02041c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:33 +0000
Subject: [PATCH 13/26] fix: keep the text of a comment that is cut short by
 the end of input

---
 src/parser/lexer_util.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parser/lexer_util.rs b/src/parser/lexer_util.rs
index e841275..6c2a3e9 100644
--- a/src/parser/lexer_util.rs
+++ b/src/parser/lexer_util.rs
@@ -235,7 +235,12 @@ pub fn get_comment_start_ends_and_type(chars: &mut TChars, start: usize) -> (usi
 
                             return (text_start, text_end, token_end, None, succ, result);
                         }
-                        None => return (text_start, text_start + level + 1, text_start + level + 1, None, true, String::new()),
+                        None => {
+                            let mut result = "[".to_string();
+                            result.extend((0..level).map(|_| '='));
+
+                            return (text_start, text_start + level + 1, text_start + level + 1, None, true, result);
+                        }
                     }
                 }
                 Some(&(square_2_index, '[')) => {
@@ -250,7 +255,7 @@ pub fn get_comment_start_ends_and_type(chars: &mut TChars, start: usize) -> (usi
                     result.insert(0, '[');
                     return (text_start, text_end, token_end, None, succ, result);
                 }
-                None => return (text_start, text_start + 1, text_start + 1, None, true, String::new()),
+                None => return (text_start, text_start + 1, text_start + 1, None, true, "[".to_string()),
             }
         }
         _ => {
-- 
2.43.0


From 51faee74102ee66c8a8ffea13b6d87da22e9eb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:48 +0000
Subject: [PATCH 14/26] fix: vertical tab and form feed are blank space

---
 src/parser/comment_lexer.rs | 3 +++
 src/parser/lua_lexer.rs     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/parser/comment_lexer.rs b/src/parser/comment_lexer.rs
index 509f0c4..9b71153 100644
--- a/src/parser/comment_lexer.rs
+++ b/src/parser/comment_lexer.rs
@@ -83,6 +83,9 @@ impl<'input> Iterator for Lexer<'input> {
                 Some(&(_, ' ')) | Some(&(_, '\r')) | Some(&(_, '\t')) => {
                     self.chars.next();
                 }
+                Some(&(_, '\u{b}')) | Some(&(_, '\u{c}')) => {
+                    self.chars.next();
+                }
 
                 Some(&(i, '\n')) => return self.consume_ok(i, NewLine, i + 1),
                 Some(&(token_start, '-')) => {
diff --git a/src/parser/lua_lexer.rs b/src/parser/lua_lexer.rs
index ba6c3e4..557d196 100644
--- a/src/parser/lua_lexer.rs
+++ b/src/parser/lua_lexer.rs
@@ -234,6 +234,9 @@ impl<'input> Iterator for Lexer<'input> {
                 Some(&(_, ' ')) | Some(&(_, '\n')) | Some(&(_, '\r')) | Some(&(_, '\t')) => {
                     self.chars.next();
                 }
+                Some(&(_, '\u{b}')) | Some(&(_, '\u{c}')) => {
+                    self.chars.next();
+                }
 
                 Some(&(i, '^')) => return self.consume_ok(i, OpExponentiation, i + 1),
                 Some(&(i, '#')) => {
-- 
2.43.0


From c21f941de960a2a9d94b8ed5741b7e9d8a973227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:37 +0000
Subject: [PATCH 15/26] fix: a unary operator applies to an expression with
 another unary operator

---
 src/parser/lua_syntax.lalrpop | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/parser/lua_syntax.lalrpop b/src/parser/lua_syntax.lalrpop
index 5dee540..3d2e10a 100644
--- a/src/parser/lua_syntax.lalrpop
+++ b/src/parser/lua_syntax.lalrpop
@@ -529,13 +529,18 @@ Op9<T>: Node = {
 }
 
 Op10<T>: Node = {
+    <ls:@L> "-"   <l1:@R> <r1:@L> <e:OpNoMinus<T>> <rs:@R>
+        => Node::UnaryOp(Loc(ls, rs), [Loc(l1, r1)], Str("-"), Box::new(e)),
+    OpNoMinus<T>,
+}
+
+// a minus is not the operand of another minus
+OpNoMinus<T>: Node = {
     <ls:@L> "not" <l1:@R> <r1:@L> <e:Op10<T>> <rs:@R>
         => Node::UnaryNot(Loc(ls, rs), [Loc(l1, r1)], Box::new(e)),
-    <ls:@L> "#"   <l1:@R> <r1:@L> <e:Op11<T>> <rs:@R>
+    <ls:@L> "#"   <l1:@R> <r1:@L> <e:Op10<T>> <rs:@R>
         => Node::UnaryOp(Loc(ls, rs), [Loc(l1, r1)], Str("#"), Box::new(e)),
-    <ls:@L> "-"   <l1:@R> <r1:@L> <e:Op11<T>> <rs:@R>
-        => Node::UnaryOp(Loc(ls, rs), [Loc(l1, r1)], Str("-"), Box::new(e)),
-    <ls:@L> "~"   <l1:@R> <r1:@L> <e:Op11<T>> <rs:@R>
+    <ls:@L> "~"   <l1:@R> <r1:@L> <e:Op10<T>> <rs:@R>
         => Node::UnaryOp(Loc(ls, rs), [Loc(l1, r1)], Str("~"), Box::new(e)),
     Op11<T>,
 }
-- 
2.43.0


From 739a5e6439dbc0c7186116b878887e27ac61e71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:43 +0000
Subject: [PATCH 16/26] fix: the right operand of "^" may start with a unary
 operator

---
 src/parser/lua_syntax.lalrpop | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/parser/lua_syntax.lalrpop b/src/parser/lua_syntax.lalrpop
index 3d2e10a..210e0f6 100644
--- a/src/parser/lua_syntax.lalrpop
+++ b/src/parser/lua_syntax.lalrpop
@@ -547,11 +547,28 @@ OpNoMinus<T>: Node = {
 
 // right-associative operation, but we make it left-associative
 Op11<T>: Node = {
-    <ls:@L> <e1:Op11<T>> <l1:@R> <r1:@L> "^" <l2:@R> <r2:@L> <e2:T> <rs:@R>
+    <ls:@L> <e1:Op11<T>> <l1:@R> <r1:@L> "^" <l2:@R> <r2:@L> <e2:OpPower<T>> <rs:@R>
         => Node::BinaryOp(Loc(ls, rs), [Loc(l1, r1), Loc(l2, r2)], Str("^"), Box::new(e1), Box::new(e2)),
     T,
 }
 
+// the right operand of "^"
+OpPower<T>: Node = {
+    <ls:@L> "-"   <l1:@R> <r1:@L> <e:OpPowerNoMinus<T>> <rs:@R>
+        => Node::UnaryOp(Loc(ls, rs), [Loc(l1, r1)], Str("-"), Box::new(e)),
+    OpPowerNoMinus<T>,
+}
+
+OpPowerNoMinus<T>: Node = {
+    <ls:@L> "not" <l1:@R> <r1:@L> <e:OpPower<T>> <rs:@R>
+        => Node::UnaryNot(Loc(ls, rs), [Loc(l1, r1)], Box::new(e)),
+    <ls:@L> "#"   <l1:@R> <r1:@L> <e:OpPower<T>> <rs:@R>
+        => Node::UnaryOp(Loc(ls, rs), [Loc(l1, r1)], Str("#"), Box::new(e)),
+    <ls:@L> "~"   <l1:@R> <r1:@L> <e:OpPower<T>> <rs:@R>
+        => Node::UnaryOp(Loc(ls, rs), [Loc(l1, r1)], Str("~"), Box::new(e)),
+    T,
+}
+
 Name: Node = {
     <ls:@L> <s:LexVariable> <rs:@R> => Node::Name(Loc(ls, rs), s),
 }
-- 
2.43.0


From 8f9cf917ddc085d43aeb55d6aca12e096a8909fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:00 +0000
Subject: [PATCH 17/26] fix: a one-line comment does not turn into a multiline
 one when its leading blanks are removed

---
 src/parser/comment_ast.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser/comment_ast.rs b/src/parser/comment_ast.rs
index 9758393..2d79368 100644
--- a/src/parser/comment_ast.rs
+++ b/src/parser/comment_ast.rs
@@ -82,6 +82,11 @@ impl<'a> list::AnyListItem<'a, Node> for Node {
     }
 }
 
+// text after "--" that would make the comment a multiline one
+fn opens_multiline_comment(text: &str) -> bool {
+    text.starts_with('[') && text[1..].trim_start_matches('=').starts_with('[')
+}
+
 impl ConfiguredWrite for Node {
     fn configured_write(&self, f: &mut String, cfg: &Config, buf: &str, state: &mut State) -> std::fmt::Result {
         use Node::*;
@@ -135,6 +140,8 @@ impl ConfiguredWrite for Node {
                             // do not print the `prefix` if trimmed `s` is empty
                             if strimmed.is_empty() {
                                 write!(f, "--\n")?;
+                            } else if opens_multiline_comment(&format!("{}{}", prefix, strimmed)) {
+                                write!(f, "--{}\n", s)?;
                             } else {
                                 write!(f, "--{}{}\n", prefix, strimmed)?;
                             }
-- 
2.43.0


From 225b1c7bd458a80b05837ed2901a3c1f4531f829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:28 +0000
Subject: [PATCH 18/26] fix: the text of a multiline comment does not close the
 comment early when its last blanks are removed

---
 src/parser/comment_ast.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/comment_ast.rs b/src/parser/comment_ast.rs
index 2d79368..30f8e86 100644
--- a/src/parser/comment_ast.rs
+++ b/src/parser/comment_ast.rs
@@ -161,7 +161,10 @@ impl ConfiguredWrite for Node {
                         let level_str = (0..*level).map(|_| "=").collect::<String>();
                         match (
                             cfg.fmt.hint_before_multiline_comment_text.as_ref(),
-                            cfg.fmt.hint_after_multiline_comment_text.as_ref(),
+                            // without its last blanks the text would end the comment
+                            cfg.fmt.hint_after_multiline_comment_text.as_ref().filter(|suffix| {
+                                !format!("{}{}", s.trim_end(), suffix).ends_with(&format!("]{}", level_str))
+                            }),
                         ) {
                             (Some(prefix), Some(suffix)) => {
                                 write!(f, "--[{}[{}{}{}]{}]", level_str, prefix, s.trim(), suffix, level_str)
-- 
2.43.0


From 91d79a417f2eed4871343f5b231d4113d618315b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:22 +0000
Subject: [PATCH 19/26] fix: tokens separated in the source do not run together
 when the hint between them is empty

---
 src/formatting/loc_hint.rs | 54 +++++++++++++++++++++++++++++++++-----
 1 file changed, 47 insertions(+), 7 deletions(-)

diff --git a/src/formatting/loc_hint.rs b/src/formatting/loc_hint.rs
index 39a6349..395b2c8 100644
--- a/src/formatting/loc_hint.rs
+++ b/src/formatting/loc_hint.rs
@@ -36,19 +36,59 @@ impl<'a, 'b> LocHintConstructible<'a, 'b> for SpaceLocHint<'a, 'b> {
 }
 
 impl CommentLocHint<'_, '_> {
-    fn write_formatted_comment_block(&self, f: &mut String, cfg: &Config, _buf: &str, comment_block: &str) -> std::fmt::Result {
+    // would the token before the location merge with `next`, if nothing was left between them?
+    fn is_separator_required(&self, buf: &str, state: &State, next: Option<char>) -> bool {
+        let is_word_char = |ch: char| ch.is_ascii_alphanumeric() || ch == '_';
+        let char_before = |pos: usize| match pos {
+            0 => None,
+            _ => Loc(pos - 1, pos).substr(buf, state, 0).chars().next(),
+        };
+
+        // the tokens are not separated in the source
+        if self.0.0 >= self.0.1 {
+            return false;
+        }
+
+        match (char_before(self.0.0), next) {
+            (Some('-'), Some('-')) | (Some('['), Some('[')) | (Some('.'), Some('.')) => true,
+            (Some(l), Some(r)) if is_word_char(l) && is_word_char(r) => true,
+            (Some(l), Some('.')) if is_word_char(l) => {
+                // a numeral swallows the dots that follow it
+                let mut start = self.0.0;
+                while char_before(start).map_or(false, |ch| is_word_char(ch) || ch == '.') {
+                    start -= 1;
+                }
+                let text = Loc(start, self.0.0).substr(buf, state, 0);
+                text.trim_start_matches('.').starts_with(|ch: char| ch.is_ascii_digit())
+            }
+            _ => false,
+        }
+    }
+
+    fn write_formatted_comment_block(
+        &self, f: &mut String, cfg: &Config, buf: &str, state: &State, comment_block: &str,
+    ) -> std::fmt::Result {
 
         // if `comment_block` is empty
         if comment_block.is_empty() {
-            if cfg.fmt.replace_zero_spaces_with_hint == Some(true) {
-                write!(f, "{}", self.1)?;
+            if cfg.fmt.replace_zero_spaces_with_hint != Some(true) {
+                return Ok(());
             }
-            return Ok(());
+
+            let next = Loc(self.0.1, self.0.1 + 1).substr(buf, state, 0).chars().next();
+            return match self.1.is_empty() && self.is_separator_required(buf, state, next) {
+                true => write!(f, " "),
+                false => write!(f, "{}", self.1),
+            };
         }
 
         // hint before comment block, starting with '-'
-        if cfg.fmt.hint_before_comment.is_some() && comment_block.chars().next() == Some('-') {
-            write!(f, "{}", cfg.fmt.hint_before_comment.as_ref().unwrap())?;
+        if comment_block.chars().next() == Some('-') {
+            match cfg.fmt.hint_before_comment.as_ref() {
+                Some(hint) if !hint.is_empty() => write!(f, "{}", hint)?,
+                _ if self.is_separator_required(buf, state, Some('-')) => write!(f, " ")?,
+                _ => {}
+            }
         }
 
         write!(f, "{}", comment_block)?;
@@ -80,7 +120,7 @@ impl ConfiguredWrite for CommentLocHint<'_, '_> {
                 formatted_comment_block.push(last_char);
 
                 match node_tree.configured_write(&mut formatted_comment_block, cfg, &comment_buffer, state) {
-                    Ok(_) => self.write_formatted_comment_block(f, cfg, buf, &formatted_comment_block[last_char.len_utf8()..]),
+                    Ok(_) => self.write_formatted_comment_block(f, cfg, buf, state, &formatted_comment_block[last_char.len_utf8()..]),
                     Err(err) => Err(err),
                 }
             }
-- 
2.43.0


From c16baf1cfd4699ab3c6bcc74498fa1248dde05bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:12 +0000
Subject: [PATCH 20/26] fix: apply the options of a configuration file that
 ends with return

---
 src/config.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/config.rs b/src/config.rs
index c4bb080..09a2f71 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -298,6 +298,7 @@ impl Config {
                     self.load_options_from_config(node);
                 }
             }
+            StatsRetStat(_, _, stts, _) => self.load_options_from_config(stts),
             _ => {}
         }
     }
-- 
2.43.0


From 5cdc658117835aea9e75f8bc9f2154f73ea35dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:17 +0000
Subject: [PATCH 21/26] fix: apply the options of a configuration file that are
 set with a long string

---
 src/config.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/config.rs b/src/config.rs
index 09a2f71..ed25a1b 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -285,6 +285,12 @@ impl Config {
                         | (Name(_, str_name), NormalStringLiteral(_, str_expr))
                         | (Name(_, str_name), CharStringLiteral(_, str_expr)) => self.set(str_name, str_expr),
 
+                        // a line break right after the opening brackets is not part of the string
+                        (Name(_, str_name), MultiLineStringLiteral(_, _, str_expr)) => {
+                            let start = if str_expr.starts_with('\n') { 1 } else { 0 };
+                            self.set(str_name, &str_expr[start..])
+                        }
+
                         (Name(_, str_name), True(..)) => self.set(str_name, "true"),
                         (Name(_, str_name), False(..)) => self.set(str_name, "false"),
                         _ => {}
-- 
2.43.0


From 1ca7db340c69cc09c05177f5bb5bf10ea4b1c90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:39 +0000
Subject: [PATCH 22/26] fix: comment lists test the range of the comment block,
 not that of the source

---
 src/formatting/list.rs     | 7 +++++--
 src/formatting/loc_hint.rs | 9 +++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/formatting/list.rs b/src/formatting/list.rs
index ccad8a5..99a6ee8 100644
--- a/src/formatting/list.rs
+++ b/src/formatting/list.rs
@@ -109,8 +109,11 @@ where
             for i in 1..items.len() {
                 let item = &items[i];
 
-                if util::test_out_of_range(&state.pos_range, &item.0) {
-                    cfg_write!(f, cfg, buf, state, item.0)?;
+                let raw_hint = Hint::new(&item.0, "");
+
+                // the range of a comment list is `comment_pos_range`
+                if raw_hint.is_out_of_range(state) {
+                    cfg_write!(f, cfg, buf, state, raw_hint)?;
                 } else {
                     let prev_item_tp = &items[i - 1];
                     let hint = item.1.list_item_prefix_hint(cfg);
diff --git a/src/formatting/loc_hint.rs b/src/formatting/loc_hint.rs
index 395b2c8..7e7fa77 100644
--- a/src/formatting/loc_hint.rs
+++ b/src/formatting/loc_hint.rs
@@ -13,6 +13,7 @@ pub struct SpaceLocHint<'a, 'b>(pub &'a Loc, pub &'b str);
 pub trait LocHintConstructible<'a, 'b> {
     fn new(loc: &'a Loc, s: &'b str) -> Self;
     fn get_loc(&self) -> &'a Loc;
+    fn is_out_of_range(&self, state: &State) -> bool;
 }
 
 impl<'a, 'b> LocHintConstructible<'a, 'b> for CommentLocHint<'a, 'b> {
@@ -23,6 +24,10 @@ impl<'a, 'b> LocHintConstructible<'a, 'b> for CommentLocHint<'a, 'b> {
     fn get_loc(&self) -> &'a Loc {
         self.0
     }
+
+    fn is_out_of_range(&self, state: &State) -> bool {
+        util::test_out_of_range(&state.pos_range, self.0)
+    }
 }
 
 impl<'a, 'b> LocHintConstructible<'a, 'b> for SpaceLocHint<'a, 'b> {
@@ -33,6 +38,10 @@ impl<'a, 'b> LocHintConstructible<'a, 'b> for SpaceLocHint<'a, 'b> {
     fn get_loc(&self) -> &'a Loc {
         self.0
     }
+
+    fn is_out_of_range(&self, state: &State) -> bool {
+        util::test_out_of_range(&state.comment_pos_range, self.0)
+    }
 }
 
 impl CommentLocHint<'_, '_> {
-- 
2.43.0


From 4cf4a86e042c78b7b661310ccc45fbef2645f6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:59 +0000
Subject: [PATCH 23/26] fix: hints and line breaks are not added outside the
 line range

---
 src/formatting/decoration.rs |  3 ++-
 src/formatting/loc_hint.rs   | 18 ++++++++++++++++--
 src/formatting/util.rs       |  8 ++++++++
 3 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/formatting/decoration.rs b/src/formatting/decoration.rs
index 764da8a..d58046e 100644
--- a/src/formatting/decoration.rs
+++ b/src/formatting/decoration.rs
@@ -9,7 +9,8 @@ where
     LocHint: ConfiguredWrite + LocHintConstructible<'a, 'b>,
 {
     fn configured_write(&self, f: &mut String, cfg: &Config, buf: &str, state: &mut State) -> std::fmt::Result {
-        if !self.0 {
+        // what follows is not formatted, if the location ends after the range
+        if !self.0 || self.1.ends_after_range(state) {
             return self.1.configured_write(f, cfg, buf, state);
         }
 
diff --git a/src/formatting/loc_hint.rs b/src/formatting/loc_hint.rs
index 7e7fa77..5ee1dfb 100644
--- a/src/formatting/loc_hint.rs
+++ b/src/formatting/loc_hint.rs
@@ -14,6 +14,7 @@ pub trait LocHintConstructible<'a, 'b> {
     fn new(loc: &'a Loc, s: &'b str) -> Self;
     fn get_loc(&self) -> &'a Loc;
     fn is_out_of_range(&self, state: &State) -> bool;
+    fn ends_after_range(&self, state: &State) -> bool;
 }
 
 impl<'a, 'b> LocHintConstructible<'a, 'b> for CommentLocHint<'a, 'b> {
@@ -28,6 +29,10 @@ impl<'a, 'b> LocHintConstructible<'a, 'b> for CommentLocHint<'a, 'b> {
     fn is_out_of_range(&self, state: &State) -> bool {
         util::test_out_of_range(&state.pos_range, self.0)
     }
+
+    fn ends_after_range(&self, state: &State) -> bool {
+        util::test_ends_after_range(&state.pos_range, self.0)
+    }
 }
 
 impl<'a, 'b> LocHintConstructible<'a, 'b> for SpaceLocHint<'a, 'b> {
@@ -42,6 +47,10 @@ impl<'a, 'b> LocHintConstructible<'a, 'b> for SpaceLocHint<'a, 'b> {
     fn is_out_of_range(&self, state: &State) -> bool {
         util::test_out_of_range(&state.comment_pos_range, self.0)
     }
+
+    fn ends_after_range(&self, state: &State) -> bool {
+        util::test_ends_after_range(&state.comment_pos_range, self.0)
+    }
 }
 
 impl CommentLocHint<'_, '_> {
@@ -94,7 +103,9 @@ impl CommentLocHint<'_, '_> {
         // hint before comment block, starting with '-'
         if comment_block.chars().next() == Some('-') {
             match cfg.fmt.hint_before_comment.as_ref() {
-                Some(hint) if !hint.is_empty() => write!(f, "{}", hint)?,
+                Some(hint) if !hint.is_empty() && !util::test_starts_before_range(&state.pos_range, self.0) => {
+                    write!(f, "{}", hint)?
+                }
                 _ if self.is_separator_required(buf, state, Some('-')) => write!(f, " ")?,
                 _ => {}
             }
@@ -103,7 +114,10 @@ impl CommentLocHint<'_, '_> {
         write!(f, "{}", comment_block)?;
 
         // hint after comment block, ending with ']'
-        if cfg.fmt.hint_after_multiline_comment.is_some() && comment_block.chars().last() == Some(']') {
+        if cfg.fmt.hint_after_multiline_comment.is_some()
+            && comment_block.chars().last() == Some(']')
+            && !self.ends_after_range(state)
+        {
             write!(f, "{}", cfg.fmt.hint_after_multiline_comment.as_ref().unwrap())?;
         }
 
diff --git a/src/formatting/util.rs b/src/formatting/util.rs
index 57fe88d..8786a7b 100644
--- a/src/formatting/util.rs
+++ b/src/formatting/util.rs
@@ -84,6 +84,14 @@ pub fn test_not_completely_contained(range: &Option<(usize, usize)>, span: &Loc)
     return false;
 }
 
+pub fn test_starts_before_range(range: &Option<(usize, usize)>, span: &Loc) -> bool {
+    range.map_or(false, |(l, _)| span.0 < l)
+}
+
+pub fn test_ends_after_range(range: &Option<(usize, usize)>, span: &Loc) -> bool {
+    range.map_or(false, |(_, r)| span.1 > r)
+}
+
 pub fn trim_end_spaces_and_tabs<'a>(string: &'a String) -> &'a str {
     string.trim_end_matches(|ch: char| return ch == ' ' || ch == '\t')
 }
-- 
2.43.0


From 7e7f6c91cba4a2880b9ff4ef8aa94a8ddce23a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:49 +0000
Subject: [PATCH 24/26] fix: a line break before the first comment is not added
 outside the line range

---
 src/formatting/decoration.rs | 4 ++--
 src/formatting/loc_hint.rs   | 9 +++++++++
 src/formatting/util.rs       | 4 ++++
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/formatting/decoration.rs b/src/formatting/decoration.rs
index d58046e..8f6831d 100644
--- a/src/formatting/decoration.rs
+++ b/src/formatting/decoration.rs
@@ -9,8 +9,8 @@ where
     LocHint: ConfiguredWrite + LocHintConstructible<'a, 'b>,
 {
     fn configured_write(&self, f: &mut String, cfg: &Config, buf: &str, state: &mut State) -> std::fmt::Result {
-        // what follows is not formatted, if the location ends after the range
-        if !self.0 || self.1.ends_after_range(state) {
+        // what follows is not formatted, if the location ends outside the range
+        if !self.0 || self.1.ends_before_range(state) || self.1.ends_after_range(state) {
             return self.1.configured_write(f, cfg, buf, state);
         }
 
diff --git a/src/formatting/loc_hint.rs b/src/formatting/loc_hint.rs
index 5ee1dfb..d81b0a6 100644
--- a/src/formatting/loc_hint.rs
+++ b/src/formatting/loc_hint.rs
@@ -15,6 +15,7 @@ pub trait LocHintConstructible<'a, 'b> {
     fn get_loc(&self) -> &'a Loc;
     fn is_out_of_range(&self, state: &State) -> bool;
     fn ends_after_range(&self, state: &State) -> bool;
+    fn ends_before_range(&self, state: &State) -> bool;
 }
 
 impl<'a, 'b> LocHintConstructible<'a, 'b> for CommentLocHint<'a, 'b> {
@@ -33,6 +34,10 @@ impl<'a, 'b> LocHintConstructible<'a, 'b> for CommentLocHint<'a, 'b> {
     fn ends_after_range(&self, state: &State) -> bool {
         util::test_ends_after_range(&state.pos_range, self.0)
     }
+
+    fn ends_before_range(&self, state: &State) -> bool {
+        util::test_ends_before_range(&state.pos_range, self.0)
+    }
 }
 
 impl<'a, 'b> LocHintConstructible<'a, 'b> for SpaceLocHint<'a, 'b> {
@@ -51,6 +56,10 @@ impl<'a, 'b> LocHintConstructible<'a, 'b> for SpaceLocHint<'a, 'b> {
     fn ends_after_range(&self, state: &State) -> bool {
         util::test_ends_after_range(&state.comment_pos_range, self.0)
     }
+
+    fn ends_before_range(&self, state: &State) -> bool {
+        util::test_ends_before_range(&state.comment_pos_range, self.0)
+    }
 }
 
 impl CommentLocHint<'_, '_> {
diff --git a/src/formatting/util.rs b/src/formatting/util.rs
index 8786a7b..fd4b20b 100644
--- a/src/formatting/util.rs
+++ b/src/formatting/util.rs
@@ -88,6 +88,10 @@ pub fn test_starts_before_range(range: &Option<(usize, usize)>, span: &Loc) -> b
     range.map_or(false, |(l, _)| span.0 < l)
 }
 
+pub fn test_ends_before_range(range: &Option<(usize, usize)>, span: &Loc) -> bool {
+    range.map_or(false, |(l, _)| span.0 < l && span.1 <= l)
+}
+
 pub fn test_ends_after_range(range: &Option<(usize, usize)>, span: &Loc) -> bool {
     range.map_or(false, |(_, r)| span.1 > r)
 }
-- 
2.43.0


From 22e0c52f36ab9bd50a4de24b40e5800d34b2f894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:48 +0000
Subject: [PATCH 25/26] fix: tokens do not run together when only comments or
 line breaks between them are removed

---
 src/formatting/loc_hint.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/formatting/loc_hint.rs b/src/formatting/loc_hint.rs
index d81b0a6..22bfd8b 100644
--- a/src/formatting/loc_hint.rs
+++ b/src/formatting/loc_hint.rs
@@ -98,14 +98,16 @@ impl CommentLocHint<'_, '_> {
 
         // if `comment_block` is empty
         if comment_block.is_empty() {
-            if cfg.fmt.replace_zero_spaces_with_hint != Some(true) {
-                return Ok(());
-            }
+            let hint = match cfg.fmt.replace_zero_spaces_with_hint {
+                Some(true) => self.1,
+                _ if cfg.fmt.remove_spaces_between_tokens == Some(true) => return Ok(()),
+                _ => "",
+            };
 
             let next = Loc(self.0.1, self.0.1 + 1).substr(buf, state, 0).chars().next();
-            return match self.1.is_empty() && self.is_separator_required(buf, state, next) {
+            return match hint.is_empty() && self.is_separator_required(buf, state, next) {
                 true => write!(f, " "),
-                false => write!(f, "{}", self.1),
+                false => write!(f, "{}", hint),
             };
         }
 
-- 
2.43.0


From 75df5848642844ce51800b2d9471b9724896b7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:53 +0000
Subject: [PATCH 26/26] fix: a numeral that ends with a dot, or follows a
 concatenation, keeps apart from the token after it

---
 src/formatting/loc_hint.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/formatting/loc_hint.rs b/src/formatting/loc_hint.rs
index 22bfd8b..f5151b8 100644
--- a/src/formatting/loc_hint.rs
+++ b/src/formatting/loc_hint.rs
@@ -79,14 +79,15 @@ impl CommentLocHint<'_, '_> {
         match (char_before(self.0.0), next) {
             (Some('-'), Some('-')) | (Some('['), Some('[')) | (Some('.'), Some('.')) => true,
             (Some(l), Some(r)) if is_word_char(l) && is_word_char(r) => true,
-            (Some(l), Some('.')) if is_word_char(l) => {
-                // a numeral swallows the dots that follow it
+            (Some(l), Some(r)) if (is_word_char(l) || l == '.') && (is_word_char(r) || r == '.') => {
+                // a numeral swallows the dots, digits and letters that follow it
                 let mut start = self.0.0;
                 while char_before(start).map_or(false, |ch| is_word_char(ch) || ch == '.') {
                     start -= 1;
                 }
                 let text = Loc(start, self.0.0).substr(buf, state, 0);
-                text.trim_start_matches('.').starts_with(|ch: char| ch.is_ascii_digit())
+                let last = text.rsplit("..").next().unwrap_or("");
+                last.trim_start_matches('.').starts_with(|ch: char| ch.is_ascii_digit())
             }
             _ => false,
         }
-- 
2.43.0

