From 841dab734fa024609f6eb3b7fcc07a1eadc93717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:09 +0000
Subject: [PATCH 01/55] fix: report #else without #if and every second #else

An #else with no open conditional underflowed the state stack (panic), and a
second #else was only noticed when no conditional had been opened in between;
it then closed the conditional early.
---
 libs/preprocessor/src/ifstate.rs | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/libs/preprocessor/src/ifstate.rs b/libs/preprocessor/src/ifstate.rs
index de0412c..bd215f1 100644
--- a/libs/preprocessor/src/ifstate.rs
+++ b/libs/preprocessor/src/ifstate.rs
@@ -2,7 +2,10 @@ use std::sync::Arc;
 
 use hemtt_workspace::reporting::Token;
 
-use crate::{codes::pe17_double_else::DoubleElse, Error};
+use crate::{
+    codes::{pe17_double_else::DoubleElse, pe1_unexpected_token::UnexpectedToken},
+    Error,
+};
 
 #[derive(Clone, Debug, Eq, PartialEq)]
 pub enum IfState {
@@ -35,7 +38,8 @@ impl IfState {
 #[derive(Clone, Default, Debug, Eq, PartialEq)]
 pub struct IfStates {
     stack: Vec<IfState>,
-    did_else: Option<Arc<Token>>,
+    /// The `#else` of each open conditional, if it had one
+    did_else: Vec<Option<Arc<Token>>>,
 }
 
 impl IfStates {
@@ -44,12 +48,11 @@ impl IfStates {
     }
 
     pub fn push(&mut self, s: IfState) {
-        self.did_else = None;
+        self.did_else.push(None);
         self.stack.push(s);
     }
 
     pub fn push_if(&mut self, token: Arc<Token>, state: bool) {
-        self.did_else = None;
         if state {
             self.push(IfState::ReadingIf(token));
         } else {
@@ -58,21 +61,22 @@ impl IfStates {
     }
 
     pub fn pop(&mut self) -> Option<IfState> {
-        self.did_else = None;
+        self.did_else.pop();
         self.stack.pop()
     }
 
     pub fn flip(&mut self, token: Arc<Token>) -> Result<(), Error> {
-        if let Some(previous) = self.did_else.take() {
+        let Some(current) = self.stack.last() else {
+            return Err(UnexpectedToken::code(
+                token.as_ref().clone(),
+                vec!["an open `#if`, `#ifdef` or `#ifndef`".to_string()],
+            ));
+        };
+        if let Some(Some(previous)) = self.did_else.last() {
             return Err(DoubleElse::code(
                 token.as_ref().clone(),
                 previous.as_ref().clone(),
-                self.stack
-                    .last()
-                    .expect("did_else should only be Some if there is a last element in the stack")
-                    .token()
-                    .as_ref()
-                    .clone(),
+                current.token().as_ref().clone(),
             ));
         }
         if self
@@ -90,7 +94,9 @@ impl IfStates {
                 self.push(new);
             }
         }
-        self.did_else = Some(token);
+        if let Some(did_else) = self.did_else.last_mut() {
+            *did_else = Some(token);
+        }
         Ok(())
     }
 }
-- 
2.43.0


From 4905f188f482c04a6cdee02b93f06b8864b8c212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:09 +0000
Subject: [PATCH 02/55] fix: report a macro misused at the end of a macro body
 instead of panicking

The token stream of a macro body has no end-of-input token, so peeking after
its last token found nothing and the expect() panicked.
---
 libs/preprocessor/src/processor/defines.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/libs/preprocessor/src/processor/defines.rs b/libs/preprocessor/src/processor/defines.rs
index 7c49671..6334d80 100644
--- a/libs/preprocessor/src/processor/defines.rs
+++ b/libs/preprocessor/src/processor/defines.rs
@@ -35,12 +35,7 @@ impl Processor {
         pragma: &mut Pragma,
         stream: &mut PeekMoreIterator<impl Iterator<Item = Arc<Token>>>,
     ) -> Result<Option<Vec<Vec<Arc<Token>>>>, Error> {
-        if !stream
-            .peek()
-            .expect("peeked by caller")
-            .symbol()
-            .is_left_paren()
-        {
+        if !stream.peek().is_some_and(|t| t.symbol().is_left_paren()) {
             return Ok(None);
         }
         stream.next().expect("peeked above");
@@ -301,11 +296,7 @@ impl Processor {
                 return Err(ExpectedFunctionOrValue::code(
                     ident.as_ref().clone(),
                     source.as_ref().clone(),
-                    stream
-                        .peek()
-                        .expect("peeked by caller")
-                        .symbol()
-                        .is_left_paren(),
+                    stream.peek().is_some_and(|t| t.symbol().is_left_paren()),
                 ));
             }
         };
-- 
2.43.0


From 8acdc64e19db2a16b79352ec4aac8798b7f65531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:09 +0000
Subject: [PATCH 03/55] fix: report an #if cut off by the end of the file
 instead of panicking

The end-of-input token was read as part of the condition, so '#if NAME' at the
end of a file panicked and other conditions were compared with it included.
---
 libs/preprocessor/src/processor/directives.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/libs/preprocessor/src/processor/directives.rs b/libs/preprocessor/src/processor/directives.rs
index 59c0997..87ae3c2 100644
--- a/libs/preprocessor/src/processor/directives.rs
+++ b/libs/preprocessor/src/processor/directives.rs
@@ -333,7 +333,10 @@ impl Processor {
                     .peek()
                     .expect("peeked in the if statement, so there should be a token")
                     .clone();
-                if token.symbol().is_whitespace() || token.symbol().is_newline() {
+                if token.symbol().is_whitespace()
+                    || token.symbol().is_newline()
+                    || token.symbol().is_eoi()
+                {
                     break;
                 }
                 tokens.push(token);
@@ -416,11 +419,7 @@ impl Processor {
             let right = read_value(stream);
             if right.is_empty() {
                 return Err(UnexpectedEOF::code(
-                    operators
-                        .last()
-                        .expect("right should exists at this point")
-                        .as_ref()
-                        .clone(),
+                    operators.last().unwrap_or(&command).as_ref().clone(),
                 ));
             }
             if right.len() == 1 {
-- 
2.43.0


From 2ed3e9c30f5fb199f53dcc4c2c834d421a53c4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 04/55] fix: do not expand a macro again inside its own
 expansion through another macro

Two macros naming each other recursed until the stack overflowed.
---
 libs/preprocessor/src/defines.rs           | 16 ++++++++++++++++
 libs/preprocessor/src/processor/defines.rs |  2 ++
 2 files changed, 18 insertions(+)

diff --git a/libs/preprocessor/src/defines.rs b/libs/preprocessor/src/defines.rs
index 827fc05..00f1b97 100644
--- a/libs/preprocessor/src/defines.rs
+++ b/libs/preprocessor/src/defines.rs
@@ -23,6 +23,8 @@ type InnerDefines = HashMap<Arc<str>, (Arc<Token>, Definition, DefineSource)>;
 pub struct Defines {
     global: InnerDefines,
     stack: Vec<(Arc<str>, InnerDefines)>,
+    /// Value macros that are currently being expanded
+    expanding: Vec<Arc<str>>,
     counter: u16,
 }
 
@@ -88,6 +90,12 @@ impl Defines {
                 return true;
             }
         }
+        // a macro is not expanded again inside its own expansion
+        if self.stack.iter().any(|(name, _)| **name == *key)
+            || self.expanding.iter().any(|name| **name == *key)
+        {
+            return false;
+        }
         self.global.contains_key(key)
     }
 
@@ -269,6 +277,14 @@ impl Defines {
         self.stack.pop();
     }
 
+    pub fn push_expanding(&mut self, name: &str) {
+        self.expanding.push(Arc::from(name));
+    }
+
+    pub fn pop_expanding(&mut self) {
+        self.expanding.pop();
+    }
+
     pub const fn stack(&self) -> &Vec<(Arc<str>, InnerDefines)> {
         &self.stack
     }
diff --git a/libs/preprocessor/src/processor/defines.rs b/libs/preprocessor/src/processor/defines.rs
index 6334d80..84f376e 100644
--- a/libs/preprocessor/src/processor/defines.rs
+++ b/libs/preprocessor/src/processor/defines.rs
@@ -280,6 +280,7 @@ impl Processor {
                 } else {
                     let mut layer = Vec::new();
                     let body: Vec<_> = body.into_iter().filter(|t| !t.symbol().is_join()).collect();
+                    self.defines.push_expanding(&ident_string);
                     self.walk(
                         Some(callsite),
                         Some(&ident_string),
@@ -287,6 +288,7 @@ impl Processor {
                         &mut body.into_iter().peekmore(),
                         &mut layer,
                     )?;
+                    self.defines.pop_expanding();
                     buffer.push(Output::Macro(ident.clone(), layer));
                 }
             }
-- 
2.43.0


From 404f4f8499a66f4b6a961962054508cce7a6ee8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 05/55] fix: keep a # at the start of a line that is not a
 directive

---
 libs/preprocessor/src/processor/directives.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/libs/preprocessor/src/processor/directives.rs b/libs/preprocessor/src/processor/directives.rs
index 87ae3c2..d8f1140 100644
--- a/libs/preprocessor/src/processor/directives.rs
+++ b/libs/preprocessor/src/processor/directives.rs
@@ -41,12 +41,14 @@ impl Processor {
     ) -> Result<bool, Error> {
         if let Some(token) = stream.peek() {
             if token.symbol().is_directive() {
-                stream.next();
-                if let Some(command) = stream.peek() {
-                    if command.symbol().is_word() {
-                        self.directive_command(pragma, stream, buffer)?;
-                        return Ok(true);
-                    }
+                let is_command = stream
+                    .peek_forward(1)
+                    .is_some_and(|command| command.symbol().is_word());
+                let _ = stream.peek_backward(1);
+                if is_command {
+                    stream.next();
+                    self.directive_command(pragma, stream, buffer)?;
+                    return Ok(true);
                 }
             }
         }
-- 
2.43.0


From f04538649ec4083ceaa7debbafa2df87c35970c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 06/55] fix: track token positions through comments and quotes

A comment inside a string ended two bytes (and two lines) after its start, a
multi-line one there did not advance the line, and columns after comments and
nested quotes were wrong.
---
 libs/preprocessor/src/parse/mod.rs | 32 +++++++++++-------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/libs/preprocessor/src/parse/mod.rs b/libs/preprocessor/src/parse/mod.rs
index ba8a21e..9dc2de0 100644
--- a/libs/preprocessor/src/parse/mod.rs
+++ b/libs/preprocessor/src/parse/mod.rs
@@ -45,47 +45,39 @@ pub fn parse(path: &WorkspacePath) -> Result<Vec<Arc<Token>>, Error> {
                 col = 0;
             }
             Rule::COMMENT => {
+                if let Some((_, last)) = pair.as_str().rsplit_once('\n') {
+                    line += pair.as_str().matches('\n').count();
+                    col = last.len();
+                } else {
+                    col += pair.as_str().len();
+                }
                 if in_single_string || in_double_string {
                     if !skipping_comment {
                         tokens.push(Arc::new(Token::new(
                             Symbol::Word(pair.as_str().to_string()),
                             Position::new(
                                 start,
-                                LineCol(start.0 + 2, (start.1 .0 + 2, start.1 .1 + 2)),
+                                LineCol(offset + pair.as_str().len(), (line, col)),
                                 path.clone(),
                             ),
                         )));
                     }
-                } else {
-                    let lines = pair.as_str().split('\n').collect::<Vec<_>>();
-                    let count = lines.len() - 1;
-                    line += count;
-                    if count > 0 {
-                        col = lines
-                            .last()
-                            .expect("exists because count is greater than 0")
-                            .len()
-                            + 1;
-                    } else {
-                        col = 0;
-                    }
-                    if pair.as_str() == "//" {
-                        // skip to end of line
-                        skipping_comment = true;
-                    }
+                } else if pair.as_str() == "//" {
+                    // skip to end of line
+                    skipping_comment = true;
                 }
             }
             Rule::single_quote => {
                 if !skipping_comment && !in_double_string {
                     in_single_string = !in_single_string;
-                    col += 1;
                 }
+                col += 1;
             }
             Rule::double_quote => {
                 if !skipping_comment && !in_single_string {
                     in_double_string = !in_double_string;
-                    col += 1;
                 }
+                col += 1;
             }
             _ => {
                 col += pair.as_str().len();
-- 
2.43.0


From 23668e5f6254cd2260f9aeee10ff02d5aa38192d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 07/55] fix: keep the end of input token when a file ends in a
 line comment

A directive cut off by such a comment panicked instead of being reported.
---
 libs/preprocessor/src/parse/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/preprocessor/src/parse/mod.rs b/libs/preprocessor/src/parse/mod.rs
index 9dc2de0..2176a3f 100644
--- a/libs/preprocessor/src/parse/mod.rs
+++ b/libs/preprocessor/src/parse/mod.rs
@@ -84,7 +84,7 @@ pub fn parse(path: &WorkspacePath) -> Result<Vec<Arc<Token>>, Error> {
             }
         }
         offset += pair.as_str().len();
-        if skipping_comment {
+        if skipping_comment && pair.as_rule() != Rule::EOI {
             continue;
         }
         let end = LineCol(offset, (line, col));
-- 
2.43.0


From bada0e73a08d6707ed3b5a15902ceeea5834f406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 08/55] fix: end a line scoped pragma flag with its line

Documented to follow the same scopes as suppressions, but it stayed in force
to the end of the file.
---
 libs/preprocessor/src/processor/pragma.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/preprocessor/src/processor/pragma.rs b/libs/preprocessor/src/processor/pragma.rs
index e985b3c..3c1db0a 100644
--- a/libs/preprocessor/src/processor/pragma.rs
+++ b/libs/preprocessor/src/processor/pragma.rs
@@ -52,6 +52,7 @@ impl Pragma {
 
     pub fn clear_line(&mut self) {
         self.suppress.retain(|_, v| *v as u8 > Scope::Line as u8);
+        self.flags.retain(|_, v| *v as u8 > Scope::Line as u8);
     }
 
     pub fn is_suppressed(&self, code: &Suppress) -> bool {
-- 
2.43.0


From 1d8d6e402854586afa595ba105ad003d5b4df0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:50 +0000
Subject: [PATCH 09/55] fix: recompute the checksum of archives without
 properties as written

---
 libs/pbo/src/read.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/libs/pbo/src/read.rs b/libs/pbo/src/read.rs
index 2090b8d..2b6edd4 100644
--- a/libs/pbo/src/read.rs
+++ b/libs/pbo/src/read.rs
@@ -177,22 +177,22 @@ impl<I: Seek + Read> ReadablePbo<I> {
         let mut headers: Cursor<Vec<u8>> = Cursor::new(Vec::new());
         if let Some(vers_header) = &self.vers_header {
             vers_header.write_pbo(&mut headers)?;
-        }
 
-        if let Some(prefix) = self.properties.get("prefix") {
-            headers.write_cstring(b"prefix")?;
-            headers.write_cstring(prefix)?;
-        }
+            if let Some(prefix) = self.properties.get("prefix") {
+                headers.write_cstring(b"prefix")?;
+                headers.write_cstring(prefix)?;
+            }
 
-        for (key, value) in &self.properties {
-            if key == "prefix" {
-                continue;
+            for (key, value) in &self.properties {
+                if key == "prefix" {
+                    continue;
+                }
+                headers.write_cstring(key.as_bytes())?;
+                headers.write_cstring(value.as_bytes())?;
             }
-            headers.write_cstring(key.as_bytes())?;
-            headers.write_cstring(value.as_bytes())?;
-        }
 
-        headers.write_all(&[0])?;
+            headers.write_all(&[0])?;
+        }
 
         for header in &self.files_sorted() {
             header.write_pbo(&mut headers)?;
-- 
2.43.0


From ee564e1fd350e77e5a0ab7d4ecb50114c6014b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:50 +0000
Subject: [PATCH 10/55] fix: write files whose names differ only in case in a
 fixed order

---
 libs/pbo/src/write.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/pbo/src/write.rs b/libs/pbo/src/write.rs
index fcfe538..498a863 100644
--- a/libs/pbo/src/write.rs
+++ b/libs/pbo/src/write.rs
@@ -91,6 +91,7 @@ impl<I: Seek + Read> WritablePbo<I> {
             a.filename()
                 .to_lowercase()
                 .cmp(&b.filename().to_lowercase())
+                .then_with(|| a.filename().cmp(b.filename()))
         });
         sorted
     }
-- 
2.43.0


From adcab5b1fa2f5bb317d17a081022c4f44118e02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:59 +0000
Subject: [PATCH 11/55] fix: find archive entries stored with forward slashes
 or names that differ only in case

---
 libs/pbo/src/read.rs | 43 +++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/libs/pbo/src/read.rs b/libs/pbo/src/read.rs
index 2b6edd4..fe6a127 100644
--- a/libs/pbo/src/read.rs
+++ b/libs/pbo/src/read.rs
@@ -75,9 +75,25 @@ impl<I: Seek + Read> ReadablePbo<I> {
 
     /// Find a header by name
     pub fn header(&self, name: &str) -> Option<&Header> {
+        let name = name.replace('/', "\\");
         self.headers
             .iter()
-            .find(|h| h.filename() == name.replace('/', "\\"))
+            .find(|h| h.filename().replace('/', "\\") == name)
+    }
+
+    /// Position of a file: the exact name, otherwise one that differs only in case
+    fn position(&self, name: &str) -> Option<usize> {
+        let name = name.replace('/', "\\");
+        let lower = name.to_lowercase();
+        let named = |h: &Header| h.filename().replace('/', "\\");
+        self.headers
+            .iter()
+            .position(|h| named(h) == name)
+            .or_else(|| {
+                self.headers
+                    .iter()
+                    .position(|h| named(h).to_lowercase() == lower)
+            })
     }
 
     /// Get the PBO's properties
@@ -111,15 +127,15 @@ impl<I: Seek + Read> ReadablePbo<I> {
     /// # Errors
     /// if the file cannot be read
     pub fn file(&mut self, name: &str) -> Result<Option<File<I>>, Error> {
+        let Some(position) = self.position(name) else {
+            return Ok(None);
+        };
         self.input.seek(SeekFrom::Start(self.blob_start))?;
-        for header in &self.headers {
-            if header.filename().to_lowercase() == name.replace('/', "\\").to_lowercase() {
-                return Ok(Some(File::new(header, &mut self.input)));
-            }
+        for header in &self.headers[..position] {
             self.input
                 .seek(SeekFrom::Current(i64::from(header.size())))?;
         }
-        Ok(None)
+        Ok(Some(File::new(&self.headers[position], &mut self.input)))
     }
 
     /// Find the offset of a file
@@ -127,14 +143,13 @@ impl<I: Seek + Read> ReadablePbo<I> {
     /// # Errors
     /// if the file cannot be read
     pub fn file_offset(&self, name: &str) -> Result<Option<u64>, Error> {
-        let mut offset = self.blob_start;
-        for header in &self.headers {
-            if header.filename().to_lowercase() == name.replace('/', "\\").to_lowercase() {
-                return Ok(Some(offset));
-            }
-            offset += header.size() as u64;
-        }
-        Ok(None)
+        Ok(self.position(name).map(|position| {
+            self.headers[..position]
+                .iter()
+                .fold(self.blob_start, |offset, header| {
+                    offset + u64::from(header.size())
+                })
+        }))
     }
 
     /// Check if the files are sorted correctly
-- 
2.43.0


From 3229d0b606aed1954b0a20adbf0a1784bfd79ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:59 +0000
Subject: [PATCH 12/55] fix: store files added with a header under their name
 with backslashes

---
 libs/pbo/src/model/header.rs | 5 +++++
 libs/pbo/src/write.rs        | 1 +
 2 files changed, 6 insertions(+)

diff --git a/libs/pbo/src/model/header.rs b/libs/pbo/src/model/header.rs
index 98ada5a..5a4dd76 100644
--- a/libs/pbo/src/model/header.rs
+++ b/libs/pbo/src/model/header.rs
@@ -38,6 +38,11 @@ impl Header {
         }
     }
 
+    /// The same header for a file of another name
+    pub(crate) fn with_filename(self, filename: String) -> Self {
+        Self { filename, ..self }
+    }
+
     #[must_use]
     /// Get the filename
     pub fn filename(&self) -> &str {
diff --git a/libs/pbo/src/write.rs b/libs/pbo/src/write.rs
index 498a863..88ece20 100644
--- a/libs/pbo/src/write.rs
+++ b/libs/pbo/src/write.rs
@@ -56,6 +56,7 @@ impl<I: Seek + Read> WritablePbo<I> {
         input: I,
     ) -> Result<Option<(I, Header)>, Error> {
         let name = header.filename().replace('/', "\\");
+        let header = header.with_filename(name.clone());
         Ok(self.files.insert(name, (input, header)))
     }
 
-- 
2.43.0


From 38b9761393cd2915dd1d1bd6fc95bfc7f6a65fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:28 +0000
Subject: [PATCH 13/55] fix: reject signatures made with another key of the
 same authority

---
 bin/src/utils/verify.rs    | 3 +++
 libs/signing/src/error.rs  | 4 ++++
 libs/signing/src/public.rs | 7 +++++++
 3 files changed, 14 insertions(+)

diff --git a/bin/src/utils/verify.rs b/bin/src/utils/verify.rs
index 8e244b9..1d0666b 100644
--- a/bin/src/utils/verify.rs
+++ b/bin/src/utils/verify.rs
@@ -71,6 +71,9 @@ pub fn execute(cmd: &Command) -> Result<(), Error> {
         Err(hemtt_signing::Error::AuthorityMismatch { .. }) => {
             error!("Verification Failed: Authority does not match");
         }
+        Err(hemtt_signing::Error::KeyMismatch) => {
+            error!("Verification Failed: Signature was made with another key");
+        }
         Err(hemtt_signing::Error::HashMismatch { .. }) => {
             error!("Verification Failed: Signature does not match");
         }
diff --git a/libs/signing/src/error.rs b/libs/signing/src/error.rs
index b7fc81e..23c5590 100644
--- a/libs/signing/src/error.rs
+++ b/libs/signing/src/error.rs
@@ -41,6 +41,10 @@ pub enum Error {
         key: String,
     },
 
+    #[error("Key mismatch")]
+    /// The signature was made with another key of the same authority
+    KeyMismatch,
+
     #[error("Unknown signature version {0}")]
     /// Unknown signature version
     UknownBISignVersion(u32),
diff --git a/libs/signing/src/public.rs b/libs/signing/src/public.rs
index 1e62b17..bd0a7f4 100644
--- a/libs/signing/src/public.rs
+++ b/libs/signing/src/public.rs
@@ -116,6 +116,13 @@ impl BIPublicKey {
             });
         }
 
+        if self.length != signature.length
+            || self.exponent != signature.exponent
+            || self.n != signature.n
+        {
+            return Err(Error::KeyMismatch);
+        }
+
         if pbo.is_sorted().is_err() {
             return Err(Error::InvalidFileSorting);
         }
-- 
2.43.0


From 22b6448c6948523bbd9b04e0ad56209a54d38d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:17 +0000
Subject: [PATCH 14/55] fix: report keys and signatures of the wrong length as
 an error

---
 libs/signing/src/public.rs    | 7 +++----
 libs/signing/src/signature.rs | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/libs/signing/src/public.rs b/libs/signing/src/public.rs
index bd0a7f4..0cb2dfc 100644
--- a/libs/signing/src/public.rs
+++ b/libs/signing/src/public.rs
@@ -74,9 +74,6 @@ impl BIPublicKey {
     ///
     /// # Errors
     /// If the reader fails to read
-    ///
-    /// # Panics
-    /// If the public key is invalid
     pub fn read<I: Read>(input: &mut I) -> Result<Self, Error> {
         let authority = input.read_cstring()?;
         let temp = input.read_u32::<LittleEndian>()?;
@@ -86,7 +83,9 @@ impl BIPublicKey {
         let length = input.read_u32::<LittleEndian>()?;
         let exponent = BigUint::new(vec![input.read_u32::<LittleEndian>()?]);
 
-        assert_eq!(temp, length / 8 + 20);
+        if temp != length / 8 + 20 {
+            return Err(Error::InvalidLength);
+        }
 
         let mut buffer = vec![0; (length / 8) as usize];
         input.read_exact(&mut buffer)?;
diff --git a/libs/signing/src/signature.rs b/libs/signing/src/signature.rs
index af52b13..b6437d2 100644
--- a/libs/signing/src/signature.rs
+++ b/libs/signing/src/signature.rs
@@ -108,9 +108,6 @@ impl BISign {
     ///
     /// # Errors
     /// If the reader fails to read
-    ///
-    /// # Panics
-    /// If the signature is invalid
     pub fn read<I: Read>(input: &mut I) -> Result<Self, Error> {
         let authority = input.read_cstring()?;
         let temp = input.read_u32::<LittleEndian>()?;
@@ -120,7 +117,9 @@ impl BISign {
         let length = input.read_u32::<LittleEndian>()?;
         let exponent = BigUint::new(vec![input.read_u32::<LittleEndian>()?]);
 
-        assert_eq!(temp, length / 8 + 20);
+        if temp != length / 8 + 20 {
+            return Err(Error::InvalidLength);
+        }
 
         let mut buffer = vec![0; (length / 8) as usize];
         input.read_exact(&mut buffer)?;
-- 
2.43.0


From 69e7471a6f92c49940775ef694ab5856efb87b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:31 +0000
Subject: [PATCH 15/55] fix: array lints used source offsets as offsets of the
 processed text

After a comment, macro or include the two differ: a scalar assigned to a
name with [] made the lint panic, and an array assigned to a name without
[] was reported without a place.
---
 .../src/analyze/lints/c06_unexpected_array.rs | 20 ++++++--------
 .../src/analyze/lints/c07_expected_array.rs   | 26 +++++++++++--------
 2 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/libs/config/src/analyze/lints/c06_unexpected_array.rs b/libs/config/src/analyze/lints/c06_unexpected_array.rs
index 5f46cb2..9146800 100644
--- a/libs/config/src/analyze/lints/c06_unexpected_array.rs
+++ b/libs/config/src/analyze/lints/c06_unexpected_array.rs
@@ -145,22 +145,18 @@ impl Code06UnexpectedArray {
         let array_file = processed
             .source(array_start.source())
             .expect("source should exist");
-        let ident_start = processed
-            .mapping(name.span.start)
-            .expect("mapping should exist");
-        let ident_end = processed
-            .mapping(name.span.end)
+        let array_end = processed
+            .mapping(array.span.end)
             .expect("mapping should exist");
         self.suggestion = Some(format!("{}[]", name.value));
-        self.diagnostic = Diagnostic::from_code_processed(
-            &self,
-            ident_start.original_start()..ident_end.original_start(),
-            processed,
-        );
+        self.diagnostic = Diagnostic::from_code_processed(&self, name.span.clone(), processed);
         if let Some(diag) = &mut self.diagnostic {
             diag.labels.push(
-                Label::secondary(array_file.0.clone(), array.span.clone())
-                    .with_message("unexpected array"),
+                Label::secondary(
+                    array_file.0.clone(),
+                    array_start.original_start()..array_end.original_start(),
+                )
+                .with_message("unexpected array"),
             );
         }
         self
diff --git a/libs/config/src/analyze/lints/c07_expected_array.rs b/libs/config/src/analyze/lints/c07_expected_array.rs
index ebdf5bf..4213b9a 100644
--- a/libs/config/src/analyze/lints/c07_expected_array.rs
+++ b/libs/config/src/analyze/lints/c07_expected_array.rs
@@ -157,26 +157,30 @@ impl Code07ExpectedArray {
         if let Value::Array(_) = value {
             panic!("Code07ExpectedArray::generate_processed called on non-Code07ExpectedArray property");
         }
-        let ident_start = processed
-            .mapping(name.span.start)
+        let value_start = processed
+            .mapping(value.span().start)
             .expect("mapping should exist");
-        let ident_file = processed
-            .source(ident_start.source())
-            .expect("source should exist");
-        let ident_end = processed
-            .mapping(name.span.end)
+        let value_end = processed
+            .mapping(value.span().end)
             .expect("mapping should exist");
-        let haystack = &processed.extract(ident_end.original_start()..value.span().start);
-        let possible_end = ident_end.original_start() + haystack.find(']').unwrap_or(1) + 1;
+        let value_file = processed
+            .source(value_start.source())
+            .expect("source should exist");
+        let haystack = &processed.extract(name.span.end..value.span().start);
+        let possible_end = name.span.end + haystack.find(']').unwrap_or(1) + 1;
         self.suggestion = Some(name.value.to_string());
         self.diagnostic = Diagnostic::from_code_processed(
             &self,
-            ident_start.original_start()..possible_end,
+            name.span.start..possible_end,
             processed,
         );
         if let Some(diag) = &mut self.diagnostic {
             diag.labels.push(
-                Label::secondary(ident_file.0.clone(), value.span()).with_message("not an array"),
+                Label::secondary(
+                    value_file.0.clone(),
+                    value_start.original_start()..value_end.original_start(),
+                )
+                .with_message("not an array"),
             );
         }
         self
-- 
2.43.0


From b0a4986b1b1e3026b863d7c0f912e8283b8ddee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:02 +0000
Subject: [PATCH 16/55] fix: numbers without an operator between them were
 accepted as a value

'x = 1.0.0;' gave 10, 'x = 1 2;' gave 2 and 'x = 1 2 +;' gave 3.
---
 libs/common/src/math.rs        | 7 +++++++
 libs/config/src/parse/value.rs | 3 ++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/libs/common/src/math.rs b/libs/common/src/math.rs
index c7a7389..44f9a93 100644
--- a/libs/common/src/math.rs
+++ b/libs/common/src/math.rs
@@ -25,7 +25,14 @@ fn shunting_yard(expression: &str) -> Option<Vec<Token>> {
 
     let tokens = tokenize(expression).ok()?;
 
+    // operands and operators have to alternate
+    let mut expect_operand = true;
     for token in tokens {
+        let is_operand_start = matches!(token, Token::Number(_) | Token::LeftParenthesis);
+        if is_operand_start != expect_operand {
+            return None;
+        }
+        expect_operand = matches!(token, Token::Operator(_) | Token::LeftParenthesis);
         match token {
             Token::Number(_) => output_queue.push(token),
             Token::Operator(op) => {
diff --git a/libs/config/src/parse/value.rs b/libs/config/src/parse/value.rs
index 3772809..1c522a8 100644
--- a/libs/config/src/parse/value.rs
+++ b/libs/config/src/parse/value.rs
@@ -16,7 +16,8 @@ pub fn value() -> impl Parser<char, Value, Error = Simple<char>> {
 
 pub fn math() -> impl Parser<char, Number, Error = Simple<char>> {
     choice((
-        super::number::number().map(|n| n.to_string()),
+        // the space keeps numbers that follow each other apart
+        super::number::number().map(|n| format!("{n} ")),
         just("-".to_string()),
         just("+".to_string()),
         just("*".to_string()),
-- 
2.43.0


From ba6092918f18c9b70b5793bdf800f5013d44ceee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:06 +0000
Subject: [PATCH 17/55] fix: a number followed by a space lost its type and
 precision

'x = 1e20 ;' and '9007199254740993 ;' were evaluated as expressions and
saturated or rounded, unlike the same numbers without the space.
---
 libs/config/src/model/number.rs | 10 ++++++----
 libs/config/src/parse/value.rs  |  7 ++++++-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/libs/config/src/model/number.rs b/libs/config/src/model/number.rs
index d7beec7..79a56ca 100644
--- a/libs/config/src/model/number.rs
+++ b/libs/config/src/model/number.rs
@@ -39,10 +39,12 @@ impl Number {
                     span,
                 });
             }
-            return Some(Self::Int64 {
-                value: value as i64,
-                span,
-            });
+            if value.abs() < 9_223_372_036_854_775_808.0 {
+                return Some(Self::Int64 {
+                    value: value as i64,
+                    span,
+                });
+            }
         }
         Some(Self::Float32 {
             value: value as f32,
diff --git a/libs/config/src/parse/value.rs b/libs/config/src/parse/value.rs
index 1c522a8..40aeae2 100644
--- a/libs/config/src/parse/value.rs
+++ b/libs/config/src/parse/value.rs
@@ -33,7 +33,12 @@ pub fn math() -> impl Parser<char, Number, Error = Simple<char>> {
     .collect::<String>()
     .map(|s| s.trim().to_string())
     .try_map(|expr, span: Range<usize>| {
-        let number = Number::try_evaulation(&expr, span.clone());
+        // a lone number is not an expression, number() keeps its type and precision
+        let number = if expr.parse::<f64>().is_ok() {
+            None
+        } else {
+            Number::try_evaulation(&expr, span.clone())
+        };
         number.map_or_else(
             || {
                 Err(Simple::custom(
-- 
2.43.0


From 3de5b54ef7d43fa7f66c2db633186af862c85c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:14 +0000
Subject: [PATCH 18/55] fix: an expression starting with a minus was rejected

'x = -2 + 1;' was a parse error.
---
 libs/common/src/math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/common/src/math.rs b/libs/common/src/math.rs
index 44f9a93..a357f12 100644
--- a/libs/common/src/math.rs
+++ b/libs/common/src/math.rs
@@ -141,7 +141,7 @@ fn tokenize(expression: &str) -> Result<Vec<Token>, String> {
                     '-' => {
                         if matches!(
                             tokens.last(),
-                            Some(Token::Operator(_) | Token::LeftParenthesis)
+                            None | Some(Token::Operator(_) | Token::LeftParenthesis)
                         ) {
                             current_number.push(c);
                         } else {
-- 
2.43.0


From d1831d0ebe769b3e9022f1e8941815fb269ea267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:51 +0000
Subject: [PATCH 19/55] fix: an __EVAL without brackets made the config parser
 panic

---
 libs/config/src/parse/value.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/libs/config/src/parse/value.rs b/libs/config/src/parse/value.rs
index 40aeae2..6371743 100644
--- a/libs/config/src/parse/value.rs
+++ b/libs/config/src/parse/value.rs
@@ -63,13 +63,14 @@ pub fn eval() -> impl Parser<char, Expression, Error = Simple<char>> {
                     .at_least(1)
                     .collect::<String>())
         }))
-        .map_with_span(|expr, span| Expression {
-            value: expr
-                .strip_prefix('(')
+        .try_map(|expr, span: Range<usize>| {
+            expr.strip_prefix('(')
                 .and_then(|s| s.strip_suffix(')'))
-                .expect("eval should be wrapped in brackets")
-                .to_string(),
-            span,
+                .map(|value| Expression {
+                    value: value.to_string(),
+                    span: span.clone(),
+                })
+                .ok_or_else(|| Simple::custom(span, "eval should be wrapped in brackets"))
         })
 }
 
-- 
2.43.0


From b1d7f500e5c99383f3ae6c780fe48029dd835c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:45 +0000
Subject: [PATCH 20/55] fix: launch configurations extending each other in a
 circle never finished loading

---
 libs/common/src/config/project/hemtt/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/common/src/config/project/hemtt/mod.rs b/libs/common/src/config/project/hemtt/mod.rs
index 5ed768c..5732fb5 100644
--- a/libs/common/src/config/project/hemtt/mod.rs
+++ b/libs/common/src/config/project/hemtt/mod.rs
@@ -102,10 +102,12 @@ impl HemttSectionFile {
                     .into_iter()
                     .map(|(k, v)| {
                         let mut base = v;
+                        let mut visited = vec![k.clone()];
                         while let Some(extends) = &base.extends {
-                            if extends == &k {
+                            if visited.contains(extends) {
                                 return Err(Error::LaunchConfigExtendsSelf(k));
                             }
+                            visited.push(extends.clone());
                             if let Some(extends) = launch_source.get(extends) {
                                 base = base.extend(extends.clone());
                             } else {
-- 
2.43.0


From 760b11594df5bdd09f4d00e91a4bf24105672f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:24 +0000
Subject: [PATCH 21/55] fix: two lints of the same name were accepted when
 added together

---
 libs/workspace/src/lint/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libs/workspace/src/lint/mod.rs b/libs/workspace/src/lint/mod.rs
index c8eb9b5..a376d43 100644
--- a/libs/workspace/src/lint/mod.rs
+++ b/libs/workspace/src/lint/mod.rs
@@ -172,8 +172,13 @@ impl<D> LintManager<D> {
     /// Returns a list of codes if the lint config is invalid
     pub fn check(&self, lints: &Lints<D>) -> Result<(), Codes> {
         let mut errors: Codes = vec![];
-        for lint in lints {
-            if self.lints.iter().any(|l| l.ident() == lint.ident()) {
+        for (i, lint) in lints.iter().enumerate() {
+            if self
+                .lints
+                .iter()
+                .chain(&lints[..i])
+                .any(|l| l.ident() == lint.ident())
+            {
                 errors.push(Arc::new(InvalidLintConfig {
                     message: format!("Lint `{}` already exists", lint.ident()),
                 }));
-- 
2.43.0


From ace519d0f353fd5b76d6e5053d5df69f171a0cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:29 +0000
Subject: [PATCH 22/55] fix: the configured severity of
 magwell_missing_magazine was ignored

---
 .../lints/c09_magwell_missing_magazine.rs        | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/libs/config/src/analyze/lints/c09_magwell_missing_magazine.rs b/libs/config/src/analyze/lints/c09_magwell_missing_magazine.rs
index ebd6028..b2186ec 100644
--- a/libs/config/src/analyze/lints/c09_magwell_missing_magazine.rs
+++ b/libs/config/src/analyze/lints/c09_magwell_missing_magazine.rs
@@ -85,7 +85,7 @@ impl LintRunner<SqfLintData> for Runner {
     fn run(
         &self,
         project: Option<&ProjectConfig>,
-        _config: &LintConfig,
+        config: &LintConfig,
         processed: Option<&Processed>,
         target: &Config,
         _data: &SqfLintData,
@@ -152,6 +152,7 @@ impl LintRunner<SqfLintData> for Runner {
                         codes.push(Arc::new(Code09MagwellMissingMagazine::new(
                             name.clone(),
                             span.clone(),
+                            config.severity(),
                             processed,
                         )));
                     }
@@ -165,6 +166,7 @@ impl LintRunner<SqfLintData> for Runner {
 pub struct Code09MagwellMissingMagazine {
     array: Ident,
     span: Range<usize>,
+    severity: Severity,
 
     diagnostic: Option<Diagnostic>,
 }
@@ -180,6 +182,10 @@ impl Code for Code09MagwellMissingMagazine {
         Some("/analysis/config.html#magwell_missing_magazine")
     }
 
+    fn severity(&self) -> Severity {
+        self.severity
+    }
+
     fn message(&self) -> String {
         "magazine defined in CfgMagazineWells was not found in CfgMagazines".to_string()
     }
@@ -195,10 +201,16 @@ impl Code for Code09MagwellMissingMagazine {
 
 impl Code09MagwellMissingMagazine {
     #[must_use]
-    pub fn new(array: Ident, span: Range<usize>, processed: &Processed) -> Self {
+    pub fn new(
+        array: Ident,
+        span: Range<usize>,
+        severity: Severity,
+        processed: &Processed,
+    ) -> Self {
         Self {
             array,
             span,
+            severity,
 
             diagnostic: None,
         }
-- 
2.43.0


From d538bca856c49dd189c411c7cefd200ad1e70cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:36 +0000
Subject: [PATCH 23/55] fix: a missing semicolon after non-ASCII text was
 reported without being shown, or in the wrong place

---
 .../src/analyze/lints/c08_missing_semicolon.rs      | 13 +++++++++----
 libs/workspace/src/reporting/diagnostic/mod.rs      |  7 ++++---
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/libs/config/src/analyze/lints/c08_missing_semicolon.rs b/libs/config/src/analyze/lints/c08_missing_semicolon.rs
index 005bdab..4dd91f5 100644
--- a/libs/config/src/analyze/lints/c08_missing_semicolon.rs
+++ b/libs/config/src/analyze/lints/c08_missing_semicolon.rs
@@ -140,11 +140,16 @@ impl Code08MissingSemicolon {
     }
 
     fn generate_processed(mut self, processed: &Processed) -> Self {
-        let haystack = &processed.extract(self.span.clone());
+        let haystack = processed.extract(self.span.clone());
+        let haystack = haystack.chars().collect::<Vec<_>>();
         let possible_end = self.span.start
-            + haystack
-                .find('\n')
-                .unwrap_or_else(|| haystack.rfind(|c: char| c != ' ' && c != '}').unwrap_or(0) + 1);
+            + haystack.iter().position(|c| *c == '\n').unwrap_or_else(|| {
+                haystack
+                    .iter()
+                    .rposition(|c| *c != ' ' && *c != '}')
+                    .unwrap_or(0)
+                    + 1
+            });
         self.diagnostic =
             Diagnostic::from_code_processed(&self, possible_end..possible_end, processed);
         self
diff --git a/libs/workspace/src/reporting/diagnostic/mod.rs b/libs/workspace/src/reporting/diagnostic/mod.rs
index 1c6088e..7adbe9a 100644
--- a/libs/workspace/src/reporting/diagnostic/mod.rs
+++ b/libs/workspace/src/reporting/diagnostic/mod.rs
@@ -66,9 +66,10 @@ impl Diagnostic {
         let mut diag = Self::new(code.ident(), code.message()).set_severity(code.severity());
 
         // Error out out bounds, will never show, just use last char
-        if span.start == processed.as_str().len() {
-            span.start = processed.as_str().len() - 1;
-            span.end = processed.as_str().len() - 1;
+        let len = processed.as_str().chars().count();
+        if span.start == len {
+            span.start = len - 1;
+            span.end = len - 1;
         }
         let map_start = processed.mapping(span.start)?;
         let map_end = processed.mapping(span.end)?;
-- 
2.43.0


From 3104ed48435511735a24edd047667dbad85b7c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:09 +0000
Subject: [PATCH 24/55] fix: a subtraction without spaces was rejected

---
 libs/config/src/parse/value.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/config/src/parse/value.rs b/libs/config/src/parse/value.rs
index 6371743..9466a42 100644
--- a/libs/config/src/parse/value.rs
+++ b/libs/config/src/parse/value.rs
@@ -17,6 +17,9 @@ pub fn value() -> impl Parser<char, Value, Error = Simple<char>> {
 pub fn math() -> impl Parser<char, Number, Error = Simple<char>> {
     choice((
         // the space keeps numbers that follow each other apart
+        super::number::number()
+            .then_ignore(just("-".to_string()))
+            .map(|n| format!("{n} -")),
         super::number::number().map(|n| format!("{n} ")),
         just("-".to_string()),
         just("+".to_string()),
-- 
2.43.0


From 4c27182796b607a49539bcc54c06e5514542fddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:17 +0000
Subject: [PATCH 25/55] fix: a prefix file with an empty prefix was accepted

---
 libs/common/src/prefix.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/common/src/prefix.rs b/libs/common/src/prefix.rs
index bfd9536..9a41f68 100644
--- a/libs/common/src/prefix.rs
+++ b/libs/common/src/prefix.rs
@@ -57,6 +57,9 @@ impl Prefix {
                 let key = split.0.trim().to_lowercase();
                 if key == "prefix" {
                     let content = split.1.trim();
+                    if content.is_empty() {
+                        return Err(Error::Empty);
+                    }
                     if content.starts_with('\\') {
                         return Err(Error::InvalidPrefix(content.to_string()));
                     }
-- 
2.43.0


From 79a5a5a341d4f7f16d671efd4ee63246143c6cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:44 +0000
Subject: [PATCH 26/55] fix: a fifth component of a version was silently
 dropped

---
 libs/common/src/version.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/common/src/version.rs b/libs/common/src/version.rs
index 53932ed..aedd52a 100644
--- a/libs/common/src/version.rs
+++ b/libs/common/src/version.rs
@@ -153,6 +153,9 @@ impl TryFrom<&str> for Version {
         } else {
             None
         };
+        if let Some(extra) = version.next() {
+            return Err(Error::InvalidComponent(extra.to_string()));
+        }
         let hash = parts.next().map(std::string::ToString::to_string);
         Ok(Self {
             major,
-- 
2.43.0


From 1d68751f7a046e307d90ff3c0a65f20bb361e363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:51 +0000
Subject: [PATCH 27/55] fix: a build number without the other parts of the
 version was silently ignored

---
 libs/common/src/config/project/version.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libs/common/src/config/project/version.rs b/libs/common/src/config/project/version.rs
index ddd6a98..058af25 100644
--- a/libs/common/src/config/project/version.rs
+++ b/libs/common/src/config/project/version.rs
@@ -122,12 +122,16 @@ pub struct VersionSectionFile {
 impl TryFrom<VersionSectionFile> for VersionConfig {
     type Error = Error;
     fn try_from(file: VersionSectionFile) -> Result<Self, Self::Error> {
-        if (file.major.is_some() || file.minor.is_some() || file.patch.is_some())
+        if (file.major.is_some()
+            || file.minor.is_some()
+            || file.patch.is_some()
+            || file.build.is_some())
             && file.path.is_some()
         {
             return Err(Error::Version(crate::version::Error::VersionPathConflict));
         }
-        if file.major.is_none() && (file.minor.is_some() || file.patch.is_some()) {
+        if file.major.is_none() && (file.minor.is_some() || file.patch.is_some() || file.build.is_some())
+        {
             return Err(Error::Version(crate::version::Error::ExpectedMajor));
         }
         Ok(Self {
-- 
2.43.0


From ec8e9052fc769327349ed23721107736760dbfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:59 +0000
Subject: [PATCH 28/55] fix: a git_hash longer than the commit id panicked

---
 libs/common/src/config/project/version.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/common/src/config/project/version.rs b/libs/common/src/config/project/version.rs
index 058af25..b32e0ca 100644
--- a/libs/common/src/config/project/version.rs
+++ b/libs/common/src/config/project/version.rs
@@ -43,7 +43,7 @@ impl VersionConfig {
             let repo = Repository::discover(".")?;
             let rev = repo.revparse_single("HEAD")?;
             let id = rev.id().to_string();
-            version.set_build(&id[0..length as usize]);
+            version.set_build(&id[0..id.len().min(length as usize)]);
         };
 
         unsafe {
-- 
2.43.0


From 52a245ba0decb32d6fa7e833f6e635e64b2c72a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:06 +0000
Subject: [PATCH 29/55] fix: lints.toml silently replaced stringtable lints of
 project.toml

---
 libs/common/src/config/project/lint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/common/src/config/project/lint.rs b/libs/common/src/config/project/lint.rs
index 42b34f6..66da836 100644
--- a/libs/common/src/config/project/lint.rs
+++ b/libs/common/src/config/project/lint.rs
@@ -32,7 +32,7 @@ impl LintGroupConfig {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.config.is_empty() && self.sqf.is_empty()
+        self.config.is_empty() && self.sqf.is_empty() && self.stringtables.is_empty()
     }
 }
 
-- 
2.43.0


From 0709104ee69068a5d84cd36addb8b94d87eacaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:00 +0000
Subject: [PATCH 30/55] fix: the text [hemtt.launch] was rewritten inside
 values of project.toml

---
 libs/common/src/config/project/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/libs/common/src/config/project/mod.rs b/libs/common/src/config/project/mod.rs
index 03711f1..57462a4 100644
--- a/libs/common/src/config/project/mod.rs
+++ b/libs/common/src/config/project/mod.rs
@@ -170,8 +170,18 @@ impl ProjectFile {
             }
         });
 
-        let mut config: Self =
-            toml::from_str(&content.replace("[hemtt.launch]", "[hemtt.launch.default]"))?;
+        let content = content
+            .split('\n')
+            .map(|line| {
+                if line.trim_start().starts_with("[hemtt.launch]") {
+                    line.replacen("[hemtt.launch]", "[hemtt.launch.default]", 1)
+                } else {
+                    line.to_string()
+                }
+            })
+            .collect::<Vec<_>>()
+            .join("\n");
+        let mut config: Self = toml::from_str(&content)?;
 
         config.meta_path = PathBuf::from(path);
 
-- 
2.43.0


From 11c547a7591d7af10b101b99021596b32c9e4065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:06 +0000
Subject: [PATCH 31/55] fix: a subtraction of zero was rejected

---
 libs/config/src/parse/value.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libs/config/src/parse/value.rs b/libs/config/src/parse/value.rs
index 9466a42..f0f062e 100644
--- a/libs/config/src/parse/value.rs
+++ b/libs/config/src/parse/value.rs
@@ -17,9 +17,10 @@ pub fn value() -> impl Parser<char, Value, Error = Simple<char>> {
 pub fn math() -> impl Parser<char, Number, Error = Simple<char>> {
     choice((
         // the space keeps numbers that follow each other apart
-        super::number::number()
-            .then_ignore(just("-".to_string()))
-            .map(|n| format!("{n} -")),
+        // a zero does not keep its sign
+        just("-".to_string())
+            .ignore_then(super::number::number())
+            .map(|n| format!("-{n} ")),
         super::number::number().map(|n| format!("{n} ")),
         just("-".to_string()),
         just("+".to_string()),
-- 
2.43.0


From a002f66e8c4b670045a97cd5cbaa5b270d1ef3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:57 +0000
Subject: [PATCH 32/55] fix: paths below a prefix with non-ASCII letters
 panicked or were not found

---
 libs/common/src/strip.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/libs/common/src/strip.rs b/libs/common/src/strip.rs
index 3e5497d..6d85c34 100644
--- a/libs/common/src/strip.rs
+++ b/libs/common/src/strip.rs
@@ -5,14 +5,13 @@ pub trait StripInsensitive {
 
 impl StripInsensitive for str {
     fn strip_prefix_insensitive(&self, prefix: &str) -> Option<&str> {
-        if self.len() < prefix.len() {
-            return None;
-        }
-        if self[..prefix.len()].eq_ignore_ascii_case(prefix) {
-            Some(&self[prefix.len()..])
-        } else {
-            None
+        let mut rest = self.chars();
+        for expected in prefix.chars() {
+            if !rest.next()?.to_lowercase().eq(expected.to_lowercase()) {
+                return None;
+            }
         }
+        Some(rest.as_str())
     }
 }
 
-- 
2.43.0


From ad9a9c9f4485b87f61432725ba185c754f64a258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:02 +0000
Subject: [PATCH 33/55] fix: with nested prefixes a path resolved to one of
 them at random

---
 libs/workspace/src/path.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/libs/workspace/src/path.rs b/libs/workspace/src/path.rs
index 06712e7..0d63155 100644
--- a/libs/workspace/src/path.rs
+++ b/libs/workspace/src/path.rs
@@ -136,10 +136,15 @@ impl WorkspacePath {
     pub fn as_virtual_str(&self) -> String {
         let mut path = self.data.path.as_str().replace('\\', "/");
         let path_lower = path.to_lowercase();
-        if let Some((base, root)) =
-            self.data.workspace.pointers.iter().find(|(_, vfs)| {
+        if let Some((base, root)) = self
+            .data
+            .workspace
+            .pointers
+            .iter()
+            .filter(|(_, vfs)| {
                 path_lower.starts_with(&format!("{}/", vfs.as_str().to_lowercase()))
             })
+            .max_by_key(|(base, vfs)| (vfs.as_str().len(), *base))
         {
             path = format!("{}{}", base, &path[root.as_str().len()..].to_string());
         }
@@ -250,7 +255,8 @@ impl WorkspacePath {
                 .workspace
                 .pointers
                 .iter()
-                .find(|(p, _)| path_lower.starts_with(&format!("{}/", p.to_lowercase())))
+                .filter(|(p, _)| path_lower.starts_with(&format!("{}/", p.to_lowercase())))
+                .max_by_key(|(p, _)| p.len())
             {
                 let ret_path = root.join(
                     path.strip_prefix_insensitive(base)
-- 
2.43.0


From e20c6ee886c7fe977ae9946486c14d2d453df516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:07 +0000
Subject: [PATCH 34/55] fix: `..` was skipped when looking for a file ignoring
 case

---
 libs/workspace/src/path.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/workspace/src/path.rs b/libs/workspace/src/path.rs
index 0d63155..2075a08 100644
--- a/libs/workspace/src/path.rs
+++ b/libs/workspace/src/path.rs
@@ -433,7 +433,9 @@ fn exists_case_insensitive(path: &Path) -> Option<PathBuf> {
 fn exists_case_insensitive_from(path: &Path, from: PathBuf) -> Option<PathBuf> {
     let mut current_path = from;
     for component in path.components() {
-        if let std::path::Component::Normal(name) = component {
+        if component == std::path::Component::ParentDir {
+            current_path.pop();
+        } else if let std::path::Component::Normal(name) = component {
             let mut found = false;
             if let Ok(entries) = std::fs::read_dir(&current_path) {
                 for entry in entries.filter_map(Result::ok) {
-- 
2.43.0


From c3fe41d0800f88b340da442a961d2e11a60ac07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:32 +0000
Subject: [PATCH 35/55] fix: sort the containers of a stringtable by name

---
 libs/stringtable/src/package.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/stringtable/src/package.rs b/libs/stringtable/src/package.rs
index 735eafc..10944f5 100644
--- a/libs/stringtable/src/package.rs
+++ b/libs/stringtable/src/package.rs
@@ -32,6 +32,7 @@ impl Package {
 
     pub fn sort(&mut self) {
         self.keys.sort_by(|a, b| a.id().cmp(b.id()));
+        self.containers.sort_by(|a, b| a.name().cmp(b.name()));
         for container in &mut self.containers {
             container.sort();
         }
-- 
2.43.0


From df2e15dcff5277d30e66fb30cbea739de2e1e2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:36 +0000
Subject: [PATCH 36/55] fix: attach stringtable comments to the next line that
 is not blank

---
 libs/stringtable/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/stringtable/src/lib.rs b/libs/stringtable/src/lib.rs
index 242e0d2..dd3c79f 100644
--- a/libs/stringtable/src/lib.rs
+++ b/libs/stringtable/src/lib.rs
@@ -68,7 +68,7 @@ impl Project {
                         buffer.push('\n');
                     }
                 }
-                if !reading_comments && !buffer.is_empty() {
+                if !reading_comments && !buffer.is_empty() && !l_trim.is_empty() {
                     comments.push((
                         buffer.trim().to_string(),
                         l_trim.to_string(),
-- 
2.43.0


From 1f72498e08191ab3eeb9e15f4dbc74c65c0477c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:40 +0000
Subject: [PATCH 37/55] fix: keep stringtable comments before lines with
 escaped characters

---
 libs/stringtable/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/stringtable/src/lib.rs b/libs/stringtable/src/lib.rs
index dd3c79f..b645233 100644
--- a/libs/stringtable/src/lib.rs
+++ b/libs/stringtable/src/lib.rs
@@ -122,6 +122,7 @@ impl Project {
         let mut clear_next = false;
         let mut in_key = None;
         for line in buffer.lines() {
+            let line = line.replace("&amp;amp;", "&");
             let l_trim = line.trim();
             if clear_next {
                 clear_next = false;
@@ -141,7 +142,7 @@ impl Project {
                     writer.write_char('\n')?;
                 }
             }
-            writer.write_str(line.replace("&amp;amp;", "&").as_str())?;
+            writer.write_str(&line)?;
             writer.write_char('\n')?;
             if l_trim.starts_with("<Key") {
                 in_key = Some(l_trim.to_string());
-- 
2.43.0


From 919086d80f8d907e23c9e710af11ae18422dbcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:43 +0000
Subject: [PATCH 38/55] fix: write CDATA of stringtables without escaping it
 twice

---
 libs/stringtable/src/key.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/stringtable/src/key.rs b/libs/stringtable/src/key.rs
index 70bdb18..ac6a67b 100644
--- a/libs/stringtable/src/key.rs
+++ b/libs/stringtable/src/key.rs
@@ -1,4 +1,3 @@
-use quick_xml::escape::minimal_escape;
 use serde::{Deserialize, Serialize, Serializer};
 
 #[allow(clippy::ref_option)] // `&Option<String>` is expected by serde
@@ -7,7 +6,8 @@ where
     S: Serializer,
 {
     match s {
-        Some(s) => ser.serialize_str(&minimal_escape(s)),
+        // `<` and `>` are escaped by the serializer
+        Some(s) => ser.serialize_str(&s.replace('&', "&amp;")),
         None => ser.serialize_none(),
     }
 }
-- 
2.43.0


From eb6d9d1e1ac87c64059b33fc8928fc19fa0d9d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:03 +0000
Subject: [PATCH 39/55] fix: keep escaped characters in the attributes of
 stringtables

---
 libs/stringtable/src/key.rs     | 10 +++++++++-
 libs/stringtable/src/lib.rs     |  2 +-
 libs/stringtable/src/package.rs |  2 +-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/libs/stringtable/src/key.rs b/libs/stringtable/src/key.rs
index ac6a67b..10f567a 100644
--- a/libs/stringtable/src/key.rs
+++ b/libs/stringtable/src/key.rs
@@ -12,10 +12,18 @@ where
     }
 }
 
+/// Escape an attribute, which was read with its entities as they are in the file
+pub(crate) fn attribute<S>(s: &str, ser: S) -> Result<S::Ok, S::Error>
+where
+    S: Serializer,
+{
+    ser.serialize_str(&s.replace('&', "&amp;"))
+}
+
 #[derive(Clone, Debug, Deserialize, Serialize)]
 #[serde(rename_all = "PascalCase")]
 pub struct Key {
-    #[serde(rename = "@ID")]
+    #[serde(rename = "@ID", serialize_with = "attribute")]
     id: String,
     #[serde(skip_serializing_if = "Option::is_none", serialize_with = "min_escape")]
     #[serde(alias = "original", alias = "ORIGINAL")]
diff --git a/libs/stringtable/src/lib.rs b/libs/stringtable/src/lib.rs
index b645233..e352033 100644
--- a/libs/stringtable/src/lib.rs
+++ b/libs/stringtable/src/lib.rs
@@ -15,7 +15,7 @@ use tracing::error;
 
 #[derive(Clone, Debug, Deserialize, Serialize)]
 pub struct Project {
-    #[serde(rename = "@name")]
+    #[serde(rename = "@name", serialize_with = "crate::key::attribute")]
     name: String,
     #[serde(rename = "Package")]
     packages: Vec<Package>,
diff --git a/libs/stringtable/src/package.rs b/libs/stringtable/src/package.rs
index 10944f5..1ad5fa3 100644
--- a/libs/stringtable/src/package.rs
+++ b/libs/stringtable/src/package.rs
@@ -4,7 +4,7 @@ use crate::{Key, Totals};
 
 #[derive(Clone, Debug, Deserialize, Serialize)]
 pub struct Package {
-    #[serde(rename = "@name")]
+    #[serde(rename = "@name", serialize_with = "crate::key::attribute")]
     name: String,
     #[serde(rename = "Key")]
     #[serde(default)]
-- 
2.43.0


From 941618e94073ff463d7bf6f1ae8b924f786bc71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:07 +0000
Subject: [PATCH 40/55] fix: keep a comment at the end of a stringtable

---
 libs/stringtable/src/lib.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libs/stringtable/src/lib.rs b/libs/stringtable/src/lib.rs
index e352033..c6345c4 100644
--- a/libs/stringtable/src/lib.rs
+++ b/libs/stringtable/src/lib.rs
@@ -97,6 +97,10 @@ impl Project {
                 "Failed to read lines".to_string(),
             ));
         };
+        if !buffer.is_empty() {
+            // at the end of the file
+            comments.push((buffer.trim().to_string(), String::new(), None));
+        }
         comments.sort();
         comments.dedup();
         let mut this: Self =
@@ -129,7 +133,7 @@ impl Project {
                 in_key = None;
             }
             for (before, after, key) in &self.meta_comments {
-                if l_trim.starts_with(after) && &in_key == key {
+                if !after.is_empty() && l_trim.starts_with(after) && &in_key == key {
                     let mut whitespace = line
                         .chars()
                         .take_while(|c| c.is_whitespace())
@@ -150,6 +154,12 @@ impl Project {
                 clear_next = true;
             }
         }
+        for (before, after, _) in &self.meta_comments {
+            if after.is_empty() {
+                writer.write_str(before)?;
+                writer.write_char('\n')?;
+            }
+        }
 
         Ok(())
     }
-- 
2.43.0


From 9a6140fb27f5152fcb6e9c1f61739e88005f68d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:11 +0000
Subject: [PATCH 41/55] fix: keep stringtable comments after a key without
 translations

---
 libs/stringtable/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libs/stringtable/src/lib.rs b/libs/stringtable/src/lib.rs
index c6345c4..372d3f0 100644
--- a/libs/stringtable/src/lib.rs
+++ b/libs/stringtable/src/lib.rs
@@ -83,7 +83,10 @@ impl Project {
                     }
                 }
                 if !reading_comments {
-                    if l_trim.starts_with("<Key") {
+                    if l_trim.starts_with("<Key")
+                        && !l_trim.ends_with("/>")
+                        && !l_trim.ends_with("</Key>")
+                    {
                         in_key = Some(l_trim.to_string());
                     } else if l_trim.starts_with("</Key>") {
                         in_key = None;
@@ -148,7 +151,7 @@ impl Project {
             }
             writer.write_str(&line)?;
             writer.write_char('\n')?;
-            if l_trim.starts_with("<Key") {
+            if l_trim.starts_with("<Key") && !l_trim.ends_with("</Key>") {
                 in_key = Some(l_trim.to_string());
             } else if l_trim.starts_with("</Key>") {
                 clear_next = true;
-- 
2.43.0


From 2a256180977d945d43214997e653266fe49a0da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:28 +0000
Subject: [PATCH 42/55] fix: compressing into a buffer that is too small writes
 beyond it

---
 libs/lzo/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libs/lzo/src/lib.rs b/libs/lzo/src/lib.rs
index b4bb667..73300ec 100644
--- a/libs/lzo/src/lib.rs
+++ b/libs/lzo/src/lib.rs
@@ -50,6 +50,10 @@ pub enum LzoError {
 /// # Errors
 /// [`LzoError`] if an error occurs
 pub fn compress(input: &[u8], output: &mut Vec<u8>) -> Result<(), LzoError> {
+    // the compressor does not check for the end of its output
+    if output.capacity() < worst_compress(input.len()) {
+        return Err(LzoError::OutputOverrun);
+    }
     unsafe {
         let wrkmem = libc::malloc(LZO1X_MEM_COMPRESS);
         let mut out_len = output.capacity();
@@ -78,6 +82,10 @@ pub fn compress(input: &[u8], output: &mut Vec<u8>) -> Result<(), LzoError> {
 /// # Errors
 /// [`LzoError`] if an error occurs
 pub fn compress_to_slice<'a>(in_: &[u8], out: &'a mut [u8]) -> Result<&'a mut [u8], LzoError> {
+    // the compressor does not check for the end of its output
+    if out.len() < worst_compress(in_.len()) {
+        return Err(LzoError::OutputOverrun);
+    }
     unsafe {
         let wrkmem = libc::malloc(LZO1X_MEM_COMPRESS);
         let mut out_len = out.len();
-- 
2.43.0


From ebecdf1fe9409c5c267cd18593b7d5d6dcd45857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:32 +0000
Subject: [PATCH 43/55] fix: errors of the last write of a p3d are lost

---
 libs/p3d/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/p3d/src/lib.rs b/libs/p3d/src/lib.rs
index d10547a..dd6b37f 100644
--- a/libs/p3d/src/lib.rs
+++ b/libs/p3d/src/lib.rs
@@ -76,6 +76,7 @@ impl P3D {
         for lod in &self.lods {
             lod.write(&mut writer)?;
         }
+        writer.flush()?;
 
         Ok(())
     }
-- 
2.43.0


From 541e1069830535cdd5d6722995da7169f0029b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:36 +0000
Subject: [PATCH 44/55] fix: a p3d with a wrong count aborts the process

---
 libs/p3d/src/lib.rs | 2 +-
 libs/p3d/src/lod.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/p3d/src/lib.rs b/libs/p3d/src/lib.rs
index dd6b37f..493692b 100644
--- a/libs/p3d/src/lib.rs
+++ b/libs/p3d/src/lib.rs
@@ -49,7 +49,7 @@ impl P3D {
 
         let version = reader.read_u32::<LittleEndian>()?;
         let num_lods = reader.read_u32::<LittleEndian>()?;
-        let mut lods: Vec<LOD> = Vec::with_capacity(num_lods as usize);
+        let mut lods: Vec<LOD> = Vec::new();
 
         for _i in 0..num_lods {
             lods.push(LOD::read(&mut reader)?);
diff --git a/libs/p3d/src/lod.rs b/libs/p3d/src/lod.rs
index 4724aa6..3aad3ea 100644
--- a/libs/p3d/src/lod.rs
+++ b/libs/p3d/src/lod.rs
@@ -40,9 +40,9 @@ impl LOD {
 
         input.bytes().nth(3);
 
-        let mut points: Vec<Point> = Vec::with_capacity(num_points as usize);
-        let mut face_normals: Vec<(f32, f32, f32)> = Vec::with_capacity(num_face_normals as usize);
-        let mut faces: Vec<Face> = Vec::with_capacity(num_faces as usize);
+        let mut points: Vec<Point> = Vec::new();
+        let mut face_normals: Vec<(f32, f32, f32)> = Vec::new();
+        let mut faces: Vec<Face> = Vec::new();
 
         for _i in 0..num_points {
             points.push(Point::read(input)?);
-- 
2.43.0


From 59a795cdc2bf09bba1c809f69e34728d080c703c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:41 +0000
Subject: [PATCH 45/55] fix: average colour of a paa is written under the wrong
 name

---
 libs/paa/src/paa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/paa/src/paa.rs b/libs/paa/src/paa.rs
index e00241a..0f51679 100644
--- a/libs/paa/src/paa.rs
+++ b/libs/paa/src/paa.rs
@@ -112,7 +112,7 @@ impl Paa {
         output.write_all(&PaXType::DXT5.as_bytes())?; // 2
 
         // Average Color
-        output.write_all(b"GGATAVGC")?; // 8
+        output.write_all(b"GGATCGVA")?; // 8
         output.write_u32::<LittleEndian>(size_of::<u32>() as u32)?; // 4
         let avg_color = image
             .pixels()
-- 
2.43.0


From c06eeae2fa09411e91314fe9a8d946d4d94cecf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:45 +0000
Subject: [PATCH 46/55] fix: reading a paa of an unsupported format panics

---
 libs/paa/src/paa.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/paa/src/paa.rs b/libs/paa/src/paa.rs
index 0f51679..a72a1ac 100644
--- a/libs/paa/src/paa.rs
+++ b/libs/paa/src/paa.rs
@@ -88,6 +88,12 @@ impl Paa {
                     seek.clone_from_slice(&offs[p..p + 4]);
                     let seek = u32::from_le_bytes(seek);
                     if seek != 0 {
+                        if !matches!(paa.format, PaXType::DXT1 | PaXType::DXT3 | PaXType::DXT5) {
+                            return Err(Error::new(
+                                std::io::ErrorKind::Unsupported,
+                                format!("unsupported paa format: {}", paa.format),
+                            ));
+                        }
                         input.seek(SeekFrom::Start(u64::from(seek)))?;
                         paa.maps
                             .push(MipMap::from_stream(paa.format.clone().into(), &mut input)?);
-- 
2.43.0


From 9fc26932715bb02f4322811dbea59a123db45614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:49 +0000
Subject: [PATCH 47/55] fix: images too large for a paa are written with wrong
 sizes

---
 libs/paa/src/paa.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libs/paa/src/paa.rs b/libs/paa/src/paa.rs
index a72a1ac..912ca51 100644
--- a/libs/paa/src/paa.rs
+++ b/libs/paa/src/paa.rs
@@ -115,6 +115,17 @@ impl Paa {
     /// [`std::io::Error`] if the output is not writable
     pub fn write(image: &RgbaImage, output: &mut impl Write) -> Result<(), Error> {
         let algo: Format = PaXType::DXT5.clone().into();
+        // the highest bit of the width says that the data is compressed, its length has 3 bytes
+        let size = algo.compressed_size(image.width() as usize, image.height() as usize);
+        if image.width() >= 0x8000
+            || image.height() > u32::from(u16::MAX)
+            || size >= 0x0100_0000
+        {
+            return Err(Error::new(
+                std::io::ErrorKind::InvalidInput,
+                format!("image is too large: {}x{}", image.width(), image.height()),
+            ));
+        }
         output.write_all(&PaXType::DXT5.as_bytes())?; // 2
 
         // Average Color
@@ -172,7 +183,6 @@ impl Paa {
         // Write main image
         output.write_u16::<LittleEndian>(image.width() as u16)?;
         output.write_u16::<LittleEndian>(image.height() as u16)?;
-        let size = algo.compressed_size(image.width() as usize, image.height() as usize);
         output.write_u24::<LittleEndian>(size as u32)?;
         let mut buffer = vec![0; size];
         algo.compress(
-- 
2.43.0


From c5c44b94ef4d2565ba4f3b752ed85ad1310f8dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:54 +0000
Subject: [PATCH 48/55] fix: images of mip maps that do not fill their blocks
 panic

---
 libs/paa/src/mipmap.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/libs/paa/src/mipmap.rs b/libs/paa/src/mipmap.rs
index 6c46873..e1f0513 100644
--- a/libs/paa/src/mipmap.rs
+++ b/libs/paa/src/mipmap.rs
@@ -84,28 +84,28 @@ impl MipMap {
             width_2 -= 32768;
             true
         };
-        let mut img_size: u32 = u32::from(width_2) * u32::from(self.height);
-        if self.format == Format::Bc1 {
-            img_size /= 2;
-        }
-        let mut buffer: Box<[u8]> = vec![0; img_size as usize].into_boxed_slice();
-        let mut out_buffer = vec![0u8; 4 * (width_2 as usize) * (self.height as usize)];
+        // images are stored in blocks of 4x4, the rows of the last ones are cut off afterwards
+        let rows = usize::from(self.height).next_multiple_of(4);
+        let img_size = self.format.compressed_size(usize::from(width_2), rows);
+        let mut buffer: Box<[u8]> = vec![0; img_size].into_boxed_slice();
+        let mut out_buffer = vec![0u8; 4 * (width_2 as usize) * rows];
         if compress {
             let _ = hemtt_lzo::decompress_to_slice(data, &mut buffer);
             self.format.decompress(
                 &buffer,
                 usize::from(width_2),
-                usize::from(self.height),
+                rows,
                 &mut out_buffer,
             );
         } else {
             self.format.decompress(
                 data,
                 usize::from(width_2),
-                usize::from(self.height),
+                rows,
                 &mut out_buffer,
             );
         };
+        out_buffer.truncate(4 * (width_2 as usize) * (self.height as usize));
         image::DynamicImage::ImageRgba8(
             image::RgbaImage::from_raw(u32::from(width_2), u32::from(self.height), out_buffer)
                 .expect("paa should contain valid image data"),
-- 
2.43.0


From 21cb6bdd69b84123ef157ddfb01eff52af079567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:58 +0000
Subject: [PATCH 49/55] fix: a texture found in another format counts as a
 material of that name

---
 libs/p3d/src/functions/missing.rs | 32 +++++++++++++------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/libs/p3d/src/functions/missing.rs b/libs/p3d/src/functions/missing.rs
index 7a58fd1..66bba86 100644
--- a/libs/p3d/src/functions/missing.rs
+++ b/libs/p3d/src/functions/missing.rs
@@ -40,6 +40,16 @@ impl SearchCache {
     }
 }
 
+/// Is there a file at exactly this path, as far as the cache knows, or in the workspace
+fn located(workspace: &WorkspacePath, cache: &SearchCache, path: &String) -> Result<bool, Error> {
+    if let Some(exists) = cache.exists(path) {
+        return Ok(exists);
+    }
+    let exists = workspace.locate(path)?.is_some();
+    cache.insert(path.clone(), exists);
+    Ok(exists)
+}
+
 impl P3D {
     /// Find missing textures and materials in the P3D
     ///
@@ -69,11 +79,7 @@ impl P3D {
                 format!("\\{texture}")
             };
             // let texture = texture.to_lowercase();
-            if let Some(exists) = cache.exists(&texture) {
-                if !exists {
-                    missing_textures.push(texture);
-                }
-            } else if workspace.locate(&texture)?.is_none() {
+            if !located(workspace, cache, &texture)? {
                 #[allow(clippy::case_sensitive_file_extension_comparisons)]
                 // working on lowercase paths
                 let (replaced, ext) = if texture.ends_with(".paa") {
@@ -85,14 +91,9 @@ impl P3D {
                 } else {
                     (texture.clone(), "")
                 };
-                if ext.is_empty() || workspace.locate(&replaced)?.is_none() {
-                    cache.insert(texture.clone(), false);
+                if ext.is_empty() || !located(workspace, cache, &replaced)? {
                     missing_textures.push(texture);
-                } else {
-                    cache.insert(texture.clone(), true);
                 }
-            } else {
-                cache.insert(texture.clone(), true);
             }
         }
         let mut missing_materials = Vec::new();
@@ -105,15 +106,8 @@ impl P3D {
             } else {
                 format!("\\{material}")
             };
-            if let Some(exists) = cache.exists(&material) {
-                if !exists {
-                    missing_materials.push(material);
-                }
-            } else if workspace.locate(&material)?.is_none() {
-                cache.insert(material.clone(), false);
+            if !located(workspace, cache, &material)? {
                 missing_materials.push(material);
-            } else {
-                cache.insert(material.clone(), true);
             }
         }
         Ok((missing_textures, missing_materials))
-- 
2.43.0


From 016d5b811fae4ade1400c258e7784f78ddf795e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:02 +0000
Subject: [PATCH 50/55] fix: a texture's extension is also replaced within its
 path

---
 libs/p3d/src/functions/missing.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libs/p3d/src/functions/missing.rs b/libs/p3d/src/functions/missing.rs
index 66bba86..f4b38f4 100644
--- a/libs/p3d/src/functions/missing.rs
+++ b/libs/p3d/src/functions/missing.rs
@@ -82,12 +82,12 @@ impl P3D {
             if !located(workspace, cache, &texture)? {
                 #[allow(clippy::case_sensitive_file_extension_comparisons)]
                 // working on lowercase paths
-                let (replaced, ext) = if texture.ends_with(".paa") {
-                    (texture.replace(".paa", ".tga"), "tga")
-                } else if texture.ends_with(".tga") {
-                    (texture.replace(".tga", ".paa"), "paa")
-                } else if texture.ends_with(".png") {
-                    (texture.replace(".png", ".paa"), "paa")
+                let (replaced, ext) = if let Some(stem) = texture.strip_suffix(".paa") {
+                    (format!("{stem}.tga"), "tga")
+                } else if let Some(stem) = texture.strip_suffix(".tga") {
+                    (format!("{stem}.paa"), "paa")
+                } else if let Some(stem) = texture.strip_suffix(".png") {
+                    (format!("{stem}.paa"), "paa")
                 } else {
                     (texture.clone(), "")
                 };
-- 
2.43.0


From 8c78e34cd2841c30f0f22d049aee688ea2f1f0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:46 +0000
Subject: [PATCH 51/55] fix: rapify excludes of an addon are relative to it

---
 bin/src/modules/rapifier.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bin/src/modules/rapifier.rs b/bin/src/modules/rapifier.rs
index a903bb4..57b913d 100644
--- a/bin/src/modules/rapifier.rs
+++ b/bin/src/modules/rapifier.rs
@@ -67,14 +67,17 @@ impl Module for Rapifier {
                         globs.push(glob::Pattern::new(file)?);
                     }
                 }
+                let folder = format!("/{}/", addon.folder());
                 for entry in ctx.workspace_path().join(addon.folder())?.walk_dir()? {
                     if entry.metadata()?.file_type == VfsFileType::File
                         && can_rapify(entry.as_str())
                     {
-                        if globs
-                            .iter()
-                            .any(|pat| pat.matches_with(entry.as_str(), glob_options))
-                        {
+                        // the excludes are relative to the addon
+                        let relative = entry.as_str().trim_start_matches(&folder);
+                        if globs.iter().any(|pat| {
+                            pat.matches_with(relative, glob_options)
+                                || pat.matches_with(entry.as_str(), glob_options)
+                        }) {
                             debug!("skipping {}", entry.as_str());
                             continue;
                         }
-- 
2.43.0


From 38fb4f62c813c50490164182bc99c1db439f3be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:46 +0000
Subject: [PATCH 52/55] fix: file excludes of the project are relative to it

---
 bin/src/modules/pbo.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bin/src/modules/pbo.rs b/bin/src/modules/pbo.rs
index 033e3a7..26aea8f 100644
--- a/bin/src/modules/pbo.rs
+++ b/bin/src/modules/pbo.rs
@@ -126,7 +126,10 @@ fn internal_build(
             }
 
             for exclude in ctx.config().files().exclude() {
-                if glob::Pattern::new(exclude)?.matches(entry.as_str()) {
+                let pattern = glob::Pattern::new(exclude)?;
+                if pattern.matches(entry.as_str())
+                    || pattern.matches(entry.as_str().trim_start_matches('/'))
+                {
                     continue 'entries;
                 }
             }
-- 
2.43.0


From a0cb75bce1992425542bade3860b16d3016fde5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:46 +0000
Subject: [PATCH 53/55] fix: names with dots are kept for PBOs, signatures and
 archives

---
 bin/src/modules/archive.rs |  4 +---
 bin/src/modules/pbo.rs     |  9 ++++-----
 bin/src/modules/sign.rs    | 25 ++++++++++++-------------
 3 files changed, 17 insertions(+), 21 deletions(-)

diff --git a/bin/src/modules/archive.rs b/bin/src/modules/archive.rs
index 479bc82..f2a1ee2 100644
--- a/bin/src/modules/archive.rs
+++ b/bin/src/modules/archive.rs
@@ -29,9 +29,7 @@ pub fn release(ctx: &Context) -> Result<Report, Error> {
     if !output.exists() {
         create_dir_all(&output)?;
     }
-    let output = output
-        .join(format!("{}-latest", ctx.config().prefix()))
-        .with_extension("zip");
+    let output = output.join(format!("{}-latest.zip", ctx.config().prefix()));
     let options = SimpleFileOptions::default().compression_level(Some(9));
 
     debug!("creating release at {:?}", output.display());
diff --git a/bin/src/modules/pbo.rs b/bin/src/modules/pbo.rs
index 26aea8f..79918a0 100644
--- a/bin/src/modules/pbo.rs
+++ b/bin/src/modules/pbo.rs
@@ -68,10 +68,11 @@ fn internal_build(
     let mut pbo = WritablePbo::new();
     let target = ctx.build_folder().expect("build folder exists");
 
-    let pbo_name = addon.pbo_name(ctx.config().prefix());
+    // the name may contain dots, nothing after them is an extension
+    let pbo_name = format!("{}.pbo", addon.pbo_name(ctx.config().prefix()));
 
     let target_pbo = {
-        let mut path = match collapse {
+        match collapse {
             Collapse::No => match addon.location() {
                 Location::Addons => target.join("addons").join(pbo_name),
                 Location::Optionals => {
@@ -90,9 +91,7 @@ fn internal_build(
                 }
             },
             Collapse::Yes => target.join("addons").join(pbo_name),
-        };
-        path.set_extension("pbo");
-        path
+        }
     };
     let Some(parent) = target_pbo.parent() else {
         return Err(Error::Io(std::io::Error::new(
diff --git a/bin/src/modules/sign.rs b/bin/src/modules/sign.rs
index d90a3c2..bfb7072 100644
--- a/bin/src/modules/sign.rs
+++ b/bin/src/modules/sign.rs
@@ -81,15 +81,11 @@ impl Module for Sign {
             let pbo_name = addon.pbo_name(ctx.config().prefix());
             let (mut pbo, sig_location, key) = match addon.location() {
                 Location::Addons => {
-                    let target_pbo = {
-                        let mut path = ctx
-                            .build_folder()
-                            .expect("build folder exists")
-                            .join("addons")
-                            .join(pbo_name);
-                        path.set_extension("pbo");
-                        path
-                    };
+                    let target_pbo = ctx
+                        .build_folder()
+                        .expect("build folder exists")
+                        .join("addons")
+                        .join(format!("{pbo_name}.pbo"));
                     (
                         ReadablePbo::from(File::open(&target_pbo)?)?,
                         target_pbo.with_extension(format!("pbo.{authority}.bisign")),
@@ -97,7 +93,7 @@ impl Module for Sign {
                     )
                 }
                 Location::Optionals => {
-                    let (mut target_pbo, key, authority) =
+                    let (target_pbo, key, authority) =
                         if ctx.config().hemtt().build().optional_mod_folders() {
                             let authority = get_authority(ctx, Some(&pbo_name))?;
                             let key = BIPrivateKey::generate(1024, &authority)?;
@@ -113,18 +109,21 @@ impl Module for Sign {
                             key.to_public_key().write(&mut File::create(
                                 mod_root.join("keys").join(format!("{authority}.bikey")),
                             )?)?;
-                            (mod_root.join("addons").join(pbo_name), key, authority)
+                            (
+                                mod_root.join("addons").join(format!("{pbo_name}.pbo")),
+                                key,
+                                authority,
+                            )
                         } else {
                             (
                                 ctx.build_folder()
                                     .expect("build folder exists")
                                     .join(addon.location().to_string())
-                                    .join(pbo_name),
+                                    .join(format!("{pbo_name}.pbo")),
                                 addons_key.clone(),
                                 authority.clone(),
                             )
                         };
-                    target_pbo.set_extension("pbo");
                     (
                         ReadablePbo::from(File::open(&target_pbo)?)?,
                         target_pbo.with_extension(format!("pbo.{authority}.bisign")),
-- 
2.43.0


From 4455046ddeb4163a1c86b2736d7da68d4ab1ee19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:46 +0000
Subject: [PATCH 54/55] fix: files are not copied over the sources they are
 linked to

---
 bin/src/modules/files.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/bin/src/modules/files.rs b/bin/src/modules/files.rs
index 582a875..7f7051a 100644
--- a/bin/src/modules/files.rs
+++ b/bin/src/modules/files.rs
@@ -40,9 +40,15 @@ impl Module for Files {
                 continue;
             }
 
-            let mut d = ctx.build_folder().expect("build folder exists").clone();
-
-            d.push(entry.as_str().trim_start_matches('/'));
+            let build_folder = ctx.build_folder().expect("build folder exists");
+            let d = build_folder.join(entry.as_str().trim_start_matches('/'));
+            // file patching links the sources, copying through a link would overwrite them
+            if d.ancestors()
+                .take_while(|p| p != build_folder)
+                .any(std::path::Path::is_symlink)
+            {
+                continue;
+            }
             let folder = d.parent().expect("must have parent, just joined");
             if !folder.exists() {
                 std::mem::drop(create_dir_all(folder));
-- 
2.43.0


From cdff5fb34bed05ff5b646585a7f4b33317c94997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:18 +0000
Subject: [PATCH 55/55] fix: a hook fails when a script it calls fails

---
 bin/src/modules/hook/libraries/hemtt.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bin/src/modules/hook/libraries/hemtt.rs b/bin/src/modules/hook/libraries/hemtt.rs
index 40a2bf9..f7da0b0 100644
--- a/bin/src/modules/hook/libraries/hemtt.rs
+++ b/bin/src/modules/hook/libraries/hemtt.rs
@@ -96,6 +96,12 @@ pub mod project_functions {
         }
         inner_script(hemtt, name)
             .map_err(|e| e.to_string().into())
-            .map(|(_, d)| d)
+            .and_then(|(report, d)| {
+                if report.failed() {
+                    Err(format!("script `{name}` failed").into())
+                } else {
+                    Ok(d)
+                }
+            })
     }
 }
-- 
2.43.0

