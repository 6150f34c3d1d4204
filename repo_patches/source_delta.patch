From 11877ea7c7cb67a55c50834d654eecbe001a7887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:19 +0000
Subject: [PATCH 01/22] fix: put peeked tokens back when a later token fails

---
 src/token.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/token.rs b/src/token.rs
index afc387a..d1a0a51 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -157,7 +157,13 @@ pub trait TokenStream: Tokenizer {
     Self::Token: Clone,
   {
     let token1 = self.next_token()?;
-    let token2 = self.next_token()?;
+    let token2 = match self.next_token() {
+      Ok(token2) => token2,
+      Err(e) => {
+        self.unread(token1);
+        return Err(e);
+      }
+    };
     self.unread(token2.clone());
     self.unread(token1.clone());
     Ok((token1, token2))
@@ -170,11 +176,19 @@ pub trait TokenStream: Tokenizer {
   where
     Self::Token: Clone,
   {
-    let v = (0..n)
-      .map(|_| self.next_token())
-      .collect::<Result<Vec<_>>>()?;
+    let mut v = Vec::new();
+    let mut result = Ok(());
+    for _ in 0..n {
+      match self.next_token() {
+        Ok(token) => v.push(token),
+        Err(e) => {
+          result = Err(e);
+          break;
+        }
+      }
+    }
     v.iter().rev().for_each(|t| self.unread(t.clone()));
-    Ok(v)
+    result.map(|_| v)
   }
 
   /// Skips tokens untils a token specified by the predicate is encountered.
-- 
2.43.0


From 37144762a987ca51caf65f5343963565b01f3c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:19 +0000
Subject: [PATCH 02/22] fix: put the prefix token back when predicting the body
 fails

---
 src/ast.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index fb85587..3e4ae14 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -510,9 +510,9 @@ where
   fn maybe(tokens: &mut TS) -> Result<bool> {
     if P::maybe(tokens)? {
       let token = tokens.next_token()?;
-      let result = T::maybe(tokens)?;
+      let result = T::maybe(tokens);
       tokens.unread(token);
-      Ok(result)
+      result
     } else {
       T::maybe(tokens)
     }
@@ -556,9 +556,9 @@ where
   fn maybe(tokens: &mut TS) -> Result<bool> {
     if P::maybe(tokens)? {
       let token = tokens.next_token()?;
-      let result = T::maybe(tokens)?;
+      let result = T::maybe(tokens);
       tokens.unread(token);
-      Ok(result)
+      result
     } else {
       Ok(false)
     }
-- 
2.43.0


From 34b83b597ff4b515db8dd85226cc37f7546968ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:00 +0000
Subject: [PATCH 03/22] fix: count diagnostics when the logger feature is off

---
 src/span.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/span.rs b/src/span.rs
index 9c73796..e067fe5 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -173,7 +173,7 @@ impl Span {
   #[cfg(not(feature = "logger"))]
   pub fn log_raw_error(&self, args: Arguments) -> Error {
     // update error number
-    self.status.errors.set(self.status.errors.get() + 1);
+    self.status.errors.fetch_add(1, Ordering::Relaxed);
     Error::Normal(format!("{args}"))
   }
 
@@ -191,7 +191,7 @@ impl Span {
   #[cfg(not(feature = "logger"))]
   pub fn log_raw_fatal_error(&self, args: Arguments) -> Error {
     // update error number
-    self.status.errors.set(self.status.errors.get() + 1);
+    self.status.errors.fetch_add(1, Ordering::Relaxed);
     Error::Fatal(format!("{args}"))
   }
 
@@ -209,7 +209,7 @@ impl Span {
   #[cfg(not(feature = "logger"))]
   pub fn log_raw_warning(&self, _: Arguments) {
     // update warning number
-    self.status.warnings.set(self.status.warnings.get() + 1);
+    self.status.warnings.fetch_add(1, Ordering::Relaxed);
   }
 
   /// Logs warning with no span provided.
-- 
2.43.0


From a676240bc8d364f7c590cbf743056e09e0621a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:21 +0000
Subject: [PATCH 04/22] fix: ask the predicate once per character in
 collect_with_span_until

---
 src/input.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/input.rs b/src/input.rs
index 4a6521b..b6b5ea6 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -135,9 +135,13 @@ pub trait InputStream {
   {
     let mut v = Vec::new();
     let mut span = match self.peek_with_span()? {
-      (Some(c), span) if !f(&c) => span,
+      (Some(c), span) if !f(&c) => {
+        v.push(c);
+        span
+      }
       (_, span) => return Ok((v, span)),
     };
+    self.next_char()?;
     while let Some(c) = self.peek()? {
       if f(&c) {
         break;
-- 
2.43.0


From 5d82074d994910ab5292f75ff52bb58a3b9f3279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:59 +0000
Subject: [PATCH 05/22] fix: keep reading when a read ends inside a character

---
 src/reader.rs | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 8bebb25..24eeccf 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -60,24 +60,30 @@ impl<T, const BUFFER_SIZE: usize> Reader<T, BUFFER_SIZE> {
   {
     // get the current location
     let loc = self.span.start();
-    // read bytes to buffer
-    let count = self
-      .reader
-      .read(&mut self.byte_buf[self.byte_buf_offset..])
-      .map_err(|e| log_raw_fatal_error!(self.span, "{e}"))?
-      + self.byte_buf_offset;
-    // handle EOF
-    if count == 0 {
-      return Ok((None, loc));
-    }
-    // converts bytes to UTF-8 string
-    let (s, end) = match from_utf8(&self.byte_buf[..count]) {
-      Ok(s) => (s, None),
-      Err(e) => {
-        let end = e.valid_up_to();
-        // safe due to the above check
-        let s = unsafe { from_utf8_unchecked(&self.byte_buf[..end]) };
-        (s, Some(end))
+    let (s, end, count) = loop {
+      // read bytes to buffer
+      let read = self
+        .reader
+        .read(&mut self.byte_buf[self.byte_buf_offset..])
+        .map_err(|e| log_raw_fatal_error!(self.span, "{e}"))?;
+      let count = read + self.byte_buf_offset;
+      // handle EOF
+      if count == 0 {
+        return Ok((None, loc));
+      }
+      // converts bytes to UTF-8 string
+      match from_utf8(&self.byte_buf[..count]) {
+        Ok(s) => break (s, None, count),
+        // only got a part of a character, read more bytes
+        Err(e) if e.valid_up_to() == 0 && e.error_len().is_none() && read != 0 => {
+          self.byte_buf_offset = count;
+        }
+        Err(e) => {
+          let end = e.valid_up_to();
+          // safe due to the above check
+          let s = unsafe { from_utf8_unchecked(&self.byte_buf[..end]) };
+          break (s, Some(end), count);
+        }
       }
     };
     // get the character and fill the char buffer
-- 
2.43.0


From bdb49d550324b577b968bae805f8f4c01ca02b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:03 +0000
Subject: [PATCH 06/22] fix: require a digit in unicode escapes

---
 src/lexer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 231179d..cc1da3a 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -324,14 +324,14 @@ where
           return ParseResult::Error;
         }
         // get hex value
-        let mut hex = 0u32;
+        let mut hex: Option<u32> = None;
         for c in iter {
           match c.to_digit(16) {
-            Some(h) => match hex.checked_mul(16) {
-              Some(h16) => hex = h16 + h,
+            Some(h) => match hex.unwrap_or(0).checked_mul(16) {
+              Some(h16) => hex = Some(h16 + h),
               None => break,
             },
-            None if c == '}' => match char::from_u32(hex) {
+            None if c == '}' => match hex.and_then(char::from_u32) {
               Some(c) => return ParseResult::Char(c),
               None => break,
             },
-- 
2.43.0


From 7c48d4ed7f300957c9909465c6d9516df6c358b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:59 +0000
Subject: [PATCH 07/22] fix: accept the minimum value in signed_int_literal

---
 src/lexer.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index cc1da3a..e884daf 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -99,6 +99,15 @@ pub fn int_literal<T>(s: &str) -> Option<T>
 where
   T: IntLiteral,
 {
+  let (digits, radix) = split_int_literal(s)?;
+  // convert to integer
+  T::from_str_radix(digits, radix).ok()
+}
+
+/// Splits the given integer literal into digits and radix.
+///
+/// Returns [`None`] if the given string is not a valid integer literal.
+fn split_int_literal(s: &str) -> Option<(&str, u32)> {
   // check if is a valid integer literal
   let mut chars = s.chars();
   let (radix, starts_from) = match (chars.next(), chars.next()) {
@@ -118,8 +127,7 @@ where
   if !chars.all(|c| c.is_digit(radix)) {
     return None;
   }
-  // convert to integer
-  T::from_str_radix(&s[starts_from..], radix).ok()
+  Some((&s[starts_from..], radix))
 }
 
 /// Parses integer literals with an optional sign from the given string.
@@ -147,11 +155,17 @@ pub fn signed_int_literal<T>(s: &str) -> Option<T>
 where
   T: IntLiteral,
 {
-  let first = s.chars().next()?;
-  if first == '+' || first == '-' {
-    int_literal(&s[1..]).map(|n: T| if first == '-' { n.wrapping_neg() } else { n })
-  } else {
-    int_literal(s)
+  match s.chars().next()? {
+    '+' => int_literal(&s[1..]),
+    '-' => {
+      let (digits, radix) = split_int_literal(&s[1..])?;
+      match T::from_str_radix(digits, radix) {
+        Ok(n) => Some(n.wrapping_neg()),
+        // the number may be in range even if its magnitude is not
+        Err(_) => T::from_str_radix(&format!("-{digits}"), radix).ok(),
+      }
+    }
+    _ => int_literal(s),
   }
 }
 
-- 
2.43.0


From 4522845bc730847fd5b2aab72398ceb88f309f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:48 +0000
Subject: [PATCH 08/22] fix: char::next stopped at U+10FFF and left the
 character range at U+10FFFF

---
 laps_regex/src/mir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laps_regex/src/mir.rs b/laps_regex/src/mir.rs
index f1f054b..636cb07 100644
--- a/laps_regex/src/mir.rs
+++ b/laps_regex/src/mir.rs
@@ -563,7 +563,7 @@ impl SymbolOp for char {
   fn next(&self) -> Option<Self> {
     match self {
       '\u{d7ff}' => Some('\u{e000}'),
-      '\u{10fff}' => None,
+      '\u{10ffff}' => None,
       _ => Some(unsafe { char::from_u32_unchecked(*self as u32 + 1) }),
     }
   }
-- 
2.43.0


From 45834d2cb4b6619bf01b26d99ee657292db82e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:00 +0000
Subject: [PATCH 09/22] fix: byte neighbours overflowed at the ends of the
 range

---
 laps_regex/src/mir.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/laps_regex/src/mir.rs b/laps_regex/src/mir.rs
index 636cb07..0842d32 100644
--- a/laps_regex/src/mir.rs
+++ b/laps_regex/src/mir.rs
@@ -571,10 +571,10 @@ impl SymbolOp for char {
 
 impl SymbolOp for u8 {
   fn prev(&self) -> Option<Self> {
-    (*self != u8::MIN).then_some(self - 1)
+    self.checked_sub(1)
   }
 
   fn next(&self) -> Option<Self> {
-    (*self != u8::MAX).then_some(self + 1)
+    self.checked_add(1)
   }
 }
-- 
2.43.0


From 83410f62f24c1550e517370bf37e6efea9a98a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:36 +0000
Subject: [PATCH 10/22] fix: keep Kleene closures apart from surrounding
 automata

---
 laps_regex/src/nfa.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/laps_regex/src/nfa.rs b/laps_regex/src/nfa.rs
index 05d3f8e..8deda8b 100644
--- a/laps_regex/src/nfa.rs
+++ b/laps_regex/src/nfa.rs
@@ -56,7 +56,10 @@ where
         nfa.fa.state_mut(id).unwrap().add(None, init);
         // set the initial state as a final state
         nfa.fa.set_final_state(init);
-        nfa
+        // surround the loop with empty edges, so that no edges enter the
+        // initial state or leave the final state of the created NFA
+        let nfa = Self::concat(Self::new_nfa_with_symbol(None), nfa);
+        Self::concat(nfa, Self::new_nfa_with_symbol(None))
       }
     }
   }
-- 
2.43.0


From c1924500fbf3a7000bfcf7d8fdd3734a87e8c995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:48 +0000
Subject: [PATCH 11/22] fix: make room for the rejection marker in transition
 tables

---
 laps_macros/src/tokenize.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/laps_macros/src/tokenize.rs b/laps_macros/src/tokenize.rs
index 664ae23..fea6f94 100644
--- a/laps_macros/src/tokenize.rs
+++ b/laps_macros/src/tokenize.rs
@@ -407,21 +407,18 @@ impl RegexImpls {
 
   /// Generates table type.
   fn table_ty(&self) -> TokenStream2 {
-    if self.num_states <= 1 {
+    // `num_states` itself must fit, since it marks the rejection
+    let table_size_bits = self.num_states.checked_ilog2().unwrap_or(0) + 1;
+    if table_size_bits <= 8 {
       quote!(u8)
+    } else if table_size_bits <= 16 {
+      quote!(u16)
+    } else if table_size_bits <= 32 {
+      quote!(u32)
+    } else if table_size_bits <= 64 {
+      quote!(u64)
     } else {
-      let table_size_bits = (self.num_states - 1).ilog2() + 1;
-      if table_size_bits <= 8 {
-        quote!(u8)
-      } else if table_size_bits <= 16 {
-        quote!(u16)
-      } else if table_size_bits <= 32 {
-        quote!(u32)
-      } else if table_size_bits <= 64 {
-        quote!(u64)
-      } else {
-        quote!(u128)
-      }
+      quote!(u128)
     }
   }
 
-- 
2.43.0


From beecf702722377dd92c0df6c3e9033b4fc26c45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:38 +0000
Subject: [PATCH 12/22] fix: let the first of equal expressions keep its tag

---
 laps_regex/src/mir.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/laps_regex/src/mir.rs b/laps_regex/src/mir.rs
index 0842d32..868bd17 100644
--- a/laps_regex/src/mir.rs
+++ b/laps_regex/src/mir.rs
@@ -351,11 +351,13 @@ where
     if a.is_empty() {
       return Err(Error::MatchesNothing);
     }
-    // collect expressions that have a tag
-    let tagged_exps: HashMap<_, _> = a
-      .iter()
-      .filter_map(|(e, t)| t.clone().map(|t| (e.clone(), t)))
-      .collect();
+    // collect expressions that have a tag, the first tag takes precedence
+    let mut tagged_exps = HashMap::new();
+    for (e, t) in &a {
+      if let Some(t) = t {
+        tagged_exps.entry(e.clone()).or_insert_with(|| t.clone());
+      }
+    }
     // optimize all sub-expressions, flatten nested alternations
     // and remove duplicate expressions
     let mut new_a = Vec::new();
-- 
2.43.0


From 6338b70aa8bc5fef460a567e3b1a9305cb95fe6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:31 +0000
Subject: [PATCH 13/22] fix: token_kind, token_ast, Tokenize: take
 documentation and prompts literally in messages

---
 laps_macros/src/token_ast.rs  | 2 +-
 laps_macros/src/token_kind.rs | 9 ++++-----
 laps_macros/src/tokenize.rs   | 4 ++--
 3 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/laps_macros/src/token_ast.rs b/laps_macros/src/token_ast.rs
index a4a55b8..a332079 100644
--- a/laps_macros/src/token_ast.rs
+++ b/laps_macros/src/token_ast.rs
@@ -175,7 +175,7 @@ fn gen_ast_defs(input: &TokenAst) -> Result<(TokenStream2, Vec<TokenStream2>)> {
           match &token.kind {
             #[allow(unused_parens)]
             #pat #if_guard => std::result::Result::Ok(Self(token)),
-            _ => laps::return_error!(token.span, std::concat!("expected ", #prompt, ", found {}"), token),
+            _ => laps::return_error!(token.span, "expected {}, found {}", #prompt, token),
           }
         },
         None => match if_guard {
diff --git a/laps_macros/src/token_kind.rs b/laps_macros/src/token_kind.rs
index fd7fd0d..7e0eda3 100644
--- a/laps_macros/src/token_kind.rs
+++ b/laps_macros/src/token_kind.rs
@@ -83,12 +83,11 @@ fn gen_display_impl(input: &ItemEnum) -> TokenStream2 {
     );
     arms.extend(match &variant.fields {
       Fields::Unnamed(f) if f.unnamed.len() == 1 => {
-        let prompt = prompt + " `{}`";
-        quote!(Self::#ident(v) => std::write!(f, #prompt, v),)
+        quote!(Self::#ident(v) => std::write!(f, "{} `{}`", #prompt, v),)
       }
-      Fields::Named(_) => quote!(Self::#ident { .. } => std::write!(f, #prompt),),
-      Fields::Unnamed(_) => quote!(Self::#ident(..) => std::write!(f, #prompt),),
-      Fields::Unit => quote!(Self::#ident => std::write!(f, #prompt),),
+      Fields::Named(_) => quote!(Self::#ident { .. } => std::write!(f, "{}", #prompt),),
+      Fields::Unnamed(_) => quote!(Self::#ident(..) => std::write!(f, "{}", #prompt),),
+      Fields::Unit => quote!(Self::#ident => std::write!(f, "{}", #prompt),),
     });
   }
   quote! {
diff --git a/laps_macros/src/tokenize.rs b/laps_macros/src/tokenize.rs
index fea6f94..b615b19 100644
--- a/laps_macros/src/tokenize.rs
+++ b/laps_macros/src/tokenize.rs
@@ -470,10 +470,10 @@ impl RegexImpls {
           let err = &v.err;
           let field = match parser {
             Some(e) => quote! {
-              (#e)(buf).ok_or_else(|| return_error!(span, std::concat!("invalid ", #err)))?
+              (#e)(buf).ok_or_else(|| return_error!(span, "invalid {}", #err))?
             },
             None => quote! {
-              buf.parse().map_err(|_| return_error!(span, std::concat!("invalid ", #err)))?
+              buf.parse().map_err(|_| return_error!(span, "invalid {}", #err))?
             },
           };
           let ident = &v.ident;
-- 
2.43.0


From 12913cc4250c083ca7912fe36bb14dced3d463c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:30 +0000
Subject: [PATCH 14/22] fix: print diagnostics for zero-width characters, wide
 lines and reversed spans without panicking

---
 src/span.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/span.rs b/src/span.rs
index e067fe5..765c940 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -435,8 +435,10 @@ impl Span {
           let mut lines = BufReader::new(file).lines();
           if self.start.line == self.end.line {
             self.print_single_line_info(&mut lines, color)
-          } else {
+          } else if self.start.line < self.end.line {
             self.print_multi_line_info(&mut lines, color)
+          } else {
+            Ok(())
           }
         });
       }
@@ -456,14 +458,14 @@ impl Span {
     let line_num = self.start.line as usize;
     let (line, c1, c2) = get_line_str!(lines.nth(line_num - 1), self.start.col, self.end.col);
     let width = ((line_num + 1) as f32).log10().ceil() as usize;
-    let leading = c1 - 1;
-    let len = c2 - c1 + 1;
+    let leading = c1.saturating_sub(1);
+    let len = std::cmp::max(c2 - leading, 1);
     // print the current line to stderr
     eprintln!("{:width$} {}", "", "|".blue());
     eprint!("{} ", format!("{:width$}", line_num).blue());
     eprintln!("{} {}", "|".blue(), line);
-    eprint!("{:width$} {} {:leading$}", "", "|".blue(), "");
-    eprintln!("{}", format!("{:^>len$}", "").color(color));
+    eprint!("{:width$} {} {}", "", "|".blue(), " ".repeat(leading));
+    eprintln!("{}", "^".repeat(len).color(color));
     Ok(())
   }
 
@@ -487,7 +489,7 @@ impl Span {
     write!(buf, "{} ", format!("{:width$}", line_num).blue())?;
     writeln!(buf, "{}   {line}", "|".blue())?;
     write!(buf, "{:width$} {}  ", "", "|".blue())?;
-    writeln!(buf, "{}", format!("{:_>start$}^", "").color(color))?;
+    writeln!(buf, "{}", format!("{}^", "_".repeat(start)).color(color))?;
     // write the middle lines to buffer
     let mid_lines = (self.end.line - self.start.line) as usize - 1;
     if mid_lines <= 4 {
@@ -518,7 +520,7 @@ impl Span {
     } else {
       write!(buf, "{}", "|".color(color))?;
     }
-    writeln!(buf, "{}", format!("{:_>end$}^", "").color(color))?;
+    writeln!(buf, "{}", format!("{}^", "_".repeat(end)).color(color))?;
     // print buffer to stderr
     eprint!("{buf}");
     Ok(())
-- 
2.43.0


From f7341b2cfbc54360541d8f32d57a6897f44206d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:24 +0000
Subject: [PATCH 15/22] fix: derive Spanned for fields named by raw identifiers

---
 laps_macros/src/spanned.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/laps_macros/src/spanned.rs b/laps_macros/src/spanned.rs
index 8639bc2..9e7cdc9 100644
--- a/laps_macros/src/spanned.rs
+++ b/laps_macros/src/spanned.rs
@@ -3,8 +3,8 @@ use proc_macro::TokenStream;
 use proc_macro2::{Ident, Literal, TokenStream as TokenStream2};
 use quote::quote;
 use syn::{
-  punctuated::Punctuated, spanned::Spanned, Attribute, Data, DataEnum, DataStruct, DeriveInput,
-  Field, Fields, Meta, Result, Token, Variant,
+  ext::IdentExt, punctuated::Punctuated, spanned::Spanned, Attribute, Data, DataEnum, DataStruct,
+  DeriveInput, Field, Fields, Meta, Result, Token, Variant,
 };
 
 /// Entry function of `#[derive(Spanned)]`.
@@ -86,7 +86,7 @@ fn gen_fields_extract(
     let ts = has_try_span(&field.attrs)?;
     let span = field.span();
     let (ext, ts_id) = if let Some(id) = &field.ident {
-      let new_id = Ident::new(&format!("_{id}"), span);
+      let new_id = Ident::new(&format!("_{}", id.unraw()), span);
       (quote!(#id: #new_id,), (ts, new_id))
     } else {
       let index = Literal::usize_unsuffixed(i);
-- 
2.43.0


From 19244169482aa979ef59a56185a707fca5c6681a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:33 +0000
Subject: [PATCH 16/22] fix: do not rely on the user's prelude in token_ast

---
 laps_macros/src/token_ast.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/laps_macros/src/token_ast.rs b/laps_macros/src/token_ast.rs
index a332079..b6e60d1 100644
--- a/laps_macros/src/token_ast.rs
+++ b/laps_macros/src/token_ast.rs
@@ -198,7 +198,7 @@ fn gen_ast_defs(input: &TokenAst) -> Result<(TokenStream2, Vec<TokenStream2>)> {
             T: std::convert::TryFrom<#kind, Error = E>,
             E: std::fmt::Debug,
           {
-            self.0.kind.try_into().unwrap()
+            std::convert::TryInto::try_into(self.0.kind).unwrap()
           }
 
           /// Unwraps the inner token kind and returns its value.
@@ -212,7 +212,7 @@ fn gen_ast_defs(input: &TokenAst) -> Result<(TokenStream2, Vec<TokenStream2>)> {
             T: std::convert::TryFrom<&'a #kind, Error = E>,
             E: std::fmt::Debug,
           {
-            self.0.as_ref().try_into().unwrap()
+            std::convert::TryInto::try_into(&self.0.kind).unwrap()
           }
         }
         impl<TS> laps::parse::Parse<TS> for #name
@@ -224,7 +224,7 @@ fn gen_ast_defs(input: &TokenAst) -> Result<(TokenStream2, Vec<TokenStream2>)> {
           }
           fn maybe(tokens: &mut TS) -> laps::span::Result<bool> {
             #[allow(unused_parens)]
-            std::result::Result::Ok(matches!(&tokens.peek()?.kind, #pat #if_guard))
+            std::result::Result::Ok(std::matches!(&tokens.peek()?.kind, #pat #if_guard))
           }
         }
         impl laps::span::Spanned for #name {
-- 
2.43.0


From e4df7381d589db9e29a8594292fd515c85b11fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:43 +0000
Subject: [PATCH 17/22] fix: keep names used by derive(Tokenize) out of the
 user's parsers

---
 laps_macros/src/tokenize.rs | 127 ++++++++++++++++++------------------
 1 file changed, 63 insertions(+), 64 deletions(-)

diff --git a/laps_macros/src/tokenize.rs b/laps_macros/src/tokenize.rs
index b615b19..6783605 100644
--- a/laps_macros/src/tokenize.rs
+++ b/laps_macros/src/tokenize.rs
@@ -43,7 +43,7 @@ pub fn derive_tokenize(item: TokenStream) -> Result<TokenStream> {
     for #name #ty_generics #where_clause {
       type CharType = #char_type;
 
-      fn next_token<I>(input: &mut I) -> laps::span::Result<laps::token::Token<Self>>
+      fn next_token<I>(__laps_input: &mut I) -> laps::span::Result<laps::token::Token<Self>>
       where
         I: laps::input::InputStream<CharType = #char_type>,
       {
@@ -307,60 +307,53 @@ impl RegexImpls {
     let buf_def = Self::buf_def(&info);
     let eof_token = Self::eof_token(&info);
     Ok(quote! {
-      use std::option::Option::{self, *};
-      use std::result::Result::*;
-      use std::{string::String, vec::Vec};
-      use laps::input::InputStream;
-      use laps::return_error;
-      use laps::span::{Result, Span};
+      type __LapsKind #impl_generics = #name #ty_generics;
+      type __LapsToken #impl_generics = laps::token::Token<__LapsKind #ty_generics>;
 
-      type Kind #impl_generics = #name #ty_generics;
-      type Token #impl_generics = laps::token::Token<Kind #ty_generics>;
-
-      struct LexerResult {
+      struct __LapsLexerResult {
         last_state: usize,
         buf: #buf_ty,
-        span: Span,
+        span: laps::span::Span,
         is_eof: bool,
       }
 
-      enum TokenResult #impl_generics #where_clause {
-        Token(Token #ty_generics),
+      enum __LapsTokenResult #impl_generics #where_clause {
+        Token(__LapsToken #ty_generics),
         Skip,
         Unknown,
       }
 
-      fn table() -> &'static [#table_ty] { #table_def }
+      fn __laps_table() -> &'static [#table_ty] { #table_def }
 
       #[allow(clippy::manual_is_ascii_check)]
-      fn equiv_id(c: #char_type) -> Option<usize> { #equiv_id }
+      fn __laps_equiv_id(c: #char_type) -> std::option::Option<usize> { #equiv_id }
 
-      fn is_accept(state: &mut usize, c: #char_type) -> bool {
-        let equiv = match equiv_id(c) {
-          Some(id) => id,
-          None => return false,
+      fn __laps_is_accept(state: &mut usize, c: #char_type) -> bool {
+        let equiv = match __laps_equiv_id(c) {
+          std::option::Option::Some(id) => id,
+          std::option::Option::None => return false,
         };
-        *state = table()[equiv * #num_states + *state] as usize;
+        *state = __laps_table()[equiv * #num_states + *state] as usize;
         *state < #num_states
       }
 
       #[allow(clippy::ptr_arg)]
-      fn token_result #impl_generics (
-        tag: usize, buf: &#buf_ty, span: &Span
-      ) -> Result<TokenResult #ty_generics> #where_clause {
+      fn __laps_token_result #impl_generics (
+        __laps_tag: usize, __laps_buf: &#buf_ty, __laps_span: &laps::span::Span
+      ) -> laps::span::Result<__LapsTokenResult #ty_generics> #where_clause {
         #token_result
       }
 
       #[allow(clippy::ptr_arg)]
-      fn is_final #impl_generics (
-        state: usize, buf: &#buf_ty, span: &Span
-      ) -> Result<TokenResult #ty_generics> #where_clause {
+      fn __laps_is_final #impl_generics (
+        state: usize, buf: &#buf_ty, span: &laps::span::Span
+      ) -> laps::span::Result<__LapsTokenResult #ty_generics> #where_clause {
         #is_final
       }
 
-      fn next_token_impl<I>(input: &mut I) -> Result<LexerResult>
+      fn __laps_next_token_impl<I>(input: &mut I) -> laps::span::Result<__LapsLexerResult>
       where
-        I: InputStream<CharType = #char_type>,
+        I: laps::input::InputStream<CharType = #char_type>,
       {
         let mut state = #init_id;
         let mut last_state;
@@ -369,9 +362,9 @@ impl RegexImpls {
         let is_eof = loop {
           let (c, loc) = input.next_char_loc()?;
           last_state = state;
-          if let Some(c) = c {
-            if !is_accept(&mut state, c) {
-              input.unread((Some(c), loc));
+          if let std::option::Option::Some(c) = c {
+            if !__laps_is_accept(&mut state, c) {
+              input.unread((std::option::Option::Some(c), loc));
               break false;
             }
             buf.push(c);
@@ -380,17 +373,17 @@ impl RegexImpls {
             break true;
           }
         };
-        Ok(LexerResult { last_state, buf, span, is_eof })
+        std::result::Result::Ok(__LapsLexerResult { last_state, buf, span, is_eof })
       }
 
       loop {
-        let LexerResult { last_state, buf, span, is_eof } = next_token_impl(input)?;
-        match is_final(last_state, &buf, &span)? {
-          TokenResult::Token(t) => return Ok(t),
-          TokenResult::Skip => continue,
-          TokenResult::Unknown if is_eof && buf.is_empty() => #eof_token,
-          TokenResult::Unknown if is_eof => return_error!(span, "unexpected end-of-file"),
-          TokenResult::Unknown => return_error!(span, "unrecognized token"),
+        let __LapsLexerResult { last_state, buf, span, is_eof } = __laps_next_token_impl(__laps_input)?;
+        match __laps_is_final(last_state, &buf, &span)? {
+          __LapsTokenResult::Token(t) => return std::result::Result::Ok(t),
+          __LapsTokenResult::Skip => continue,
+          __LapsTokenResult::Unknown if is_eof && buf.is_empty() => #eof_token,
+          __LapsTokenResult::Unknown if is_eof => laps::return_error!(span, "unexpected end-of-file"),
+          __LapsTokenResult::Unknown => laps::return_error!(span, "unrecognized token"),
         }
       }
     })
@@ -399,9 +392,9 @@ impl RegexImpls {
   /// Generate buffer type.
   fn buf_ty(info: &EnumInfo) -> TokenStream2 {
     if info.bytes_mode {
-      quote!(Vec<u8>)
+      quote!(std::vec::Vec<u8>)
     } else {
-      quote!(String)
+      quote!(std::string::String)
     }
   }
 
@@ -450,12 +443,12 @@ impl RegexImpls {
     let equivs = self.sym_map.iter().map(|(l, r, id)| {
       let l = bound(l);
       let r = bound(r);
-      quote!(if (#l..=#r).contains(&c) { return Some(#id) })
+      quote!(if (#l..=#r).contains(&c) { return std::option::Option::Some(#id) })
     });
     quote! {
-      if !(#l..=#r).contains(&c) { return None }
+      if !(#l..=#r).contains(&c) { return std::option::Option::None }
       #(#equivs)*
-      None
+      std::option::Option::None
     }
   }
 
@@ -470,26 +463,30 @@ impl RegexImpls {
           let err = &v.err;
           let field = match parser {
             Some(e) => quote! {
-              (#e)(buf).ok_or_else(|| return_error!(span, "invalid {}", #err))?
+              (#e)(__laps_buf).ok_or_else(|| laps::return_error!(__laps_span, "invalid {}", #err))?
             },
             None => quote! {
-              buf.parse().map_err(|_| return_error!(span, "invalid {}", #err))?
+              __laps_buf.parse().map_err(|_| laps::return_error!(__laps_span, "invalid {}", #err))?
             },
           };
           let ident = &v.ident;
           let kind = match &v.fields {
-            FieldInfo::Unit => quote!(Kind::#ident),
-            FieldInfo::UnnamedUnit => quote!(Kind::#ident()),
-            FieldInfo::Unnamed => quote!(Kind::#ident(#field)),
+            FieldInfo::Unit => quote!(__LapsKind::#ident),
+            FieldInfo::UnnamedUnit => quote!(__LapsKind::#ident()),
+            FieldInfo::Unnamed => quote!(__LapsKind::#ident(#field)),
           };
-          Some(
-            quote!(if tag == #i { return Ok(TokenResult::Token(Token::new(#kind, span.clone()))) }),
-          )
+          Some(quote!(if __laps_tag == #i {
+            return std::result::Result::Ok(__LapsTokenResult::Token(
+              __LapsToken::new(#kind, __laps_span.clone())
+            ))
+          }))
         }
-        Some(VariantAttr::Skip(_)) => Some(quote!(if tag == #i { return Ok(TokenResult::Skip) })),
+        Some(VariantAttr::Skip(_)) => Some(quote!(if __laps_tag == #i {
+          return std::result::Result::Ok(__LapsTokenResult::Skip)
+        })),
         _ => None,
       });
-    quote!(#(#tokens)* Ok(TokenResult::Unknown))
+    quote!(#(#tokens)* std::result::Result::Ok(__LapsTokenResult::Unknown))
   }
 
   /// Generates state to token mappings.
@@ -501,20 +498,22 @@ impl RegexImpls {
     let tokens = self
       .tags
       .iter()
-      .map(|(id, tag)| quote!(if state == #id { return token_result(#tag, buf, span) }));
+      .map(|(id, tag)| quote!(if state == #id { return __laps_token_result(#tag, buf, span) }));
     quote! {
-      if !(#l..=#r).contains(&state) { return Ok(TokenResult::Unknown) }
+      if !(#l..=#r).contains(&state) {
+        return std::result::Result::Ok(__LapsTokenResult::Unknown)
+      }
       #(#tokens)*
-      Ok(TokenResult::Unknown)
+      std::result::Result::Ok(__LapsTokenResult::Unknown)
     }
   }
 
   /// Generate buffer definition.
   fn buf_def(info: &EnumInfo) -> TokenStream2 {
     if info.bytes_mode {
-      quote!(Vec::new())
+      quote!(std::vec::Vec::new())
     } else {
-      quote!(String::new())
+      quote!(std::string::String::new())
     }
   }
 
@@ -525,8 +524,8 @@ impl RegexImpls {
       Some(VariantAttr::Eof) => {
         let ident = &v.ident;
         match v.fields {
-          FieldInfo::Unit => Some(quote!(Kind::#ident)),
-          FieldInfo::UnnamedUnit => Some(quote!(Kind::#ident())),
+          FieldInfo::Unit => Some(quote!(__LapsKind::#ident)),
+          FieldInfo::UnnamedUnit => Some(quote!(__LapsKind::#ident())),
           _ => unreachable!(),
         }
       }
@@ -534,8 +533,8 @@ impl RegexImpls {
     });
     // generate token
     match eof {
-      Some(eof) => quote!(return Ok(Token::new(#eof, span))),
-      None => quote!(return_error!(span, "unexpected end-of-file")),
+      Some(eof) => quote!(return std::result::Result::Ok(__LapsToken::new(#eof, span))),
+      None => quote!(laps::return_error!(span, "unexpected end-of-file")),
     }
   }
 }
-- 
2.43.0


From 97a847ee2335ac5a8f7df9c027018163483e4264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:53 +0000
Subject: [PATCH 18/22] fix: derive Parse for fields whose type has its own
 function maybe

---
 laps_macros/src/parse.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/laps_macros/src/parse.rs b/laps_macros/src/parse.rs
index e3b9d24..a603472 100644
--- a/laps_macros/src/parse.rs
+++ b/laps_macros/src/parse.rs
@@ -157,7 +157,7 @@ fn gen_struct_methods(
   let result = if !starts_with.is_empty() {
     gen_maybe(starts_with)
   } else if let Some(Field { ty, .. }) = first_field(&data.fields) {
-    quote!(<#ty>::maybe(tokens))
+    quote!(<#ty as laps::parse::Parse<#ts_type>>::maybe(tokens))
   } else {
     quote!(std::result::Result::Ok(true))
   };
@@ -184,7 +184,7 @@ fn gen_enum_methods(
     if i != data.variants.len() - 1 {
       <Token![if]>::default().to_tokens(&mut branches);
       branches.append_all(match first_field(&variant.fields) {
-        Some(Field { ty, .. }) => quote!(<#ty>::maybe(tokens)?),
+        Some(Field { ty, .. }) => quote!(<#ty as laps::parse::Parse<#ts_type>>::maybe(tokens)?),
         None => quote!(true),
       });
     }
@@ -209,7 +209,7 @@ fn gen_enum_methods(
         <Token![||]>::default().to_tokens(&mut tokens);
       }
       tokens.append_all(match first_field(&variant.fields) {
-        Some(Field { ty, .. }) => quote!(<#ty>::maybe(tokens)?),
+        Some(Field { ty, .. }) => quote!(<#ty as laps::parse::Parse<#ts_type>>::maybe(tokens)?),
         None => quote!(true),
       });
     }
-- 
2.43.0


From bf68f4af2548a444209aebbff2ce97a6c049697f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:03 +0000
Subject: [PATCH 19/22] fix: do not rely on the user's prelude in logging
 macros

---
 src/span.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/span.rs b/src/span.rs
index 765c940..d038ae9 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -747,7 +747,7 @@ impl LocationUpdate for u8 {
 #[macro_export]
 macro_rules! log_raw_error {
   ($span:expr, $($arg:tt)+) => {
-    $span.log_raw_error(format_args!($($arg)+))
+    $span.log_raw_error(::std::format_args!($($arg)+))
   };
 }
 
@@ -755,7 +755,7 @@ macro_rules! log_raw_error {
 #[macro_export]
 macro_rules! log_raw_fatal_error {
   ($span:expr, $($arg:tt)+) => {
-    $span.log_raw_fatal_error(format_args!($($arg)+))
+    $span.log_raw_fatal_error(::std::format_args!($($arg)+))
   };
 }
 
@@ -763,7 +763,7 @@ macro_rules! log_raw_fatal_error {
 #[macro_export]
 macro_rules! log_raw_warning {
   ($span:expr, $($arg:tt)+) => {
-    $span.log_raw_warning(format_args!($($arg)+))
+    $span.log_raw_warning(::std::format_args!($($arg)+))
   };
 }
 
@@ -771,7 +771,7 @@ macro_rules! log_raw_warning {
 #[macro_export]
 macro_rules! log_error {
   ($span:expr, $($arg:tt)+) => {
-    $span.log_error(format_args!($($arg)+))
+    $span.log_error(::std::format_args!($($arg)+))
   };
 }
 
@@ -779,7 +779,7 @@ macro_rules! log_error {
 #[macro_export]
 macro_rules! log_fatal_error {
   ($span:expr, $($arg:tt)+) => {
-    $span.log_fatal_error(format_args!($($arg)+))
+    $span.log_fatal_error(::std::format_args!($($arg)+))
   };
 }
 
@@ -787,7 +787,7 @@ macro_rules! log_fatal_error {
 #[macro_export]
 macro_rules! log_warning {
   ($span:expr, $($arg:tt)+) => {
-    $span.log_warning(format_args!($($arg)+))
+    $span.log_warning(::std::format_args!($($arg)+))
   };
 }
 
@@ -795,7 +795,7 @@ macro_rules! log_warning {
 #[macro_export]
 macro_rules! return_error {
   ($span:expr, $($arg:tt)+) => {
-    return $span.log_error(format_args!($($arg)+)).into()
+    return ::std::convert::Into::into($span.log_error(::std::format_args!($($arg)+)))
   };
 }
 
-- 
2.43.0


From e7733ade5f39f9566aae8d171676ab395424fb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:13 +0000
Subject: [PATCH 20/22] fix: accept other attributes after regex, skip and eof

---
 laps_macros/src/tokenize.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/laps_macros/src/tokenize.rs b/laps_macros/src/tokenize.rs
index 6783605..5d6ab73 100644
--- a/laps_macros/src/tokenize.rs
+++ b/laps_macros/src/tokenize.rs
@@ -135,23 +135,19 @@ impl VariantInfo {
     // collect variant attributes
     let mut attr = None;
     for a in &v.attrs {
-      if attr.is_none() {
-        match &a.meta {
-          Meta::List(l) if l.path.is_ident("regex") => {
-            attr = Some(VariantAttr::new_regex(&l.tokens)?);
-          }
-          Meta::List(l) if l.path.is_ident("skip") => {
-            attr = Some(VariantAttr::new_skip(&l.tokens)?);
-          }
-          Meta::Path(p) if p.is_ident("eof") => attr = Some(VariantAttr::Eof),
-          _ => {}
-        }
-      } else {
+      let new_attr = match &a.meta {
+        Meta::List(l) if l.path.is_ident("regex") => VariantAttr::new_regex(&l.tokens)?,
+        Meta::List(l) if l.path.is_ident("skip") => VariantAttr::new_skip(&l.tokens)?,
+        Meta::Path(p) if p.is_ident("eof") => VariantAttr::Eof,
+        _ => continue,
+      };
+      if attr.is_some() {
         return_error!(
           a.span(),
           "attribute `regex`/`skip`/`eof` is bound more than once"
         )
       }
+      attr = Some(new_attr);
     }
     // check attribute
     match &attr {
-- 
2.43.0


From fd3804102e28f3c0ebf720ad82f1fad8fa4f00f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:51 +0000
Subject: [PATCH 21/22] fix: build state-transition tables without symbols

---
 laps_macros/src/tokenize.rs | 7 +++++--
 laps_regex/src/table.rs     | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/laps_macros/src/tokenize.rs b/laps_macros/src/tokenize.rs
index 5d6ab73..46b30f7 100644
--- a/laps_macros/src/tokenize.rs
+++ b/laps_macros/src/tokenize.rs
@@ -433,8 +433,11 @@ impl RegexImpls {
       }
     };
     // generate boundary check
-    let l = bound(&self.sym_map.first().unwrap().0);
-    let r = bound(&self.sym_map.last().unwrap().1);
+    let (l, r) = match (self.sym_map.first(), self.sym_map.last()) {
+      (Some((l, _, _)), Some((_, r, _))) => (bound(l), bound(r)),
+      // there are no symbols
+      _ => return quote!(std::option::Option::None),
+    };
     // generate equivalent IDs
     let equivs = self.sym_map.iter().map(|(l, r, id)| {
       let l = bound(l);
diff --git a/laps_regex/src/table.rs b/laps_regex/src/table.rs
index 2343ded..5b2abc4 100644
--- a/laps_regex/src/table.rs
+++ b/laps_regex/src/table.rs
@@ -35,8 +35,8 @@ impl<S, T> StateTransTable<S, T> {
     S: Clone + Hash + Eq + Ord + SymbolOp,
   {
     let (equivs, trans_table, init_id, tags) = TempTable::new(dfa).into_optimized();
-    // get number of states
-    let num_states = trans_table[0].len();
+    // get number of states, there is only one if there are no symbols
+    let num_states = trans_table.first().map_or(1, |t| t.len());
     // get the final table
     let table = trans_table
       .into_iter()
-- 
2.43.0


From fd2916a1ed51e79f314a490aa232e65fe057772a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:57 +0000
Subject: [PATCH 22/22] fix: prefer the smallest tag when regexes are added in
 another order

---
 laps_regex/src/re.rs | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/laps_regex/src/re.rs b/laps_regex/src/re.rs
index 5d33ab0..26e8456 100644
--- a/laps_regex/src/re.rs
+++ b/laps_regex/src/re.rs
@@ -80,26 +80,28 @@ where
     if self.re_tags.is_empty() {
       Err(Error::EmptyBuilder)
     } else {
-      Mir::Alter(
-        self
-          .re_tags
-          .into_iter()
-          .map(|(re, tag)| {
-            re_parse(&re)
-              .map_err(|e| Error::Regex(Box::new(e), tag.clone()))
-              .and_then(|hir| Mir::new(hir).map_err(Error::Mir))
-              .map(|mir| (mir, Some(tag)))
-          })
-          .collect::<Result<_, _>>()?,
-      )
-      .optimize()
-      .map(|mir| {
-        RegexMatcher::new(StateTransTable::new(DFA::new(
-          NFA::new(mir),
-          self.enable_par,
-        )))
-      })
-      .map_err(Error::Mir)
+      let mut mirs = self
+        .re_tags
+        .into_iter()
+        .map(|(re, tag)| {
+          re_parse(&re)
+            .map_err(|e| Error::Regex(Box::new(e), tag.clone()))
+            .and_then(|hir| Mir::new(hir).map_err(Error::Mir))
+            .map(|mir| (mir, Some(tag)))
+        })
+        .collect::<Result<Vec<_>, _>>()?;
+      // the optimizer keeps only the first one of equal expressions,
+      // which must be the one with the smallest tag
+      mirs.sort_by(|(_, l), (_, r)| l.cmp(r));
+      Mir::Alter(mirs)
+        .optimize()
+        .map(|mir| {
+          RegexMatcher::new(StateTransTable::new(DFA::new(
+            NFA::new(mir),
+            self.enable_par,
+          )))
+        })
+        .map_err(Error::Mir)
     }
   }
 }
-- 
2.43.0

