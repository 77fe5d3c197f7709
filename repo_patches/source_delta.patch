From 2637df623417d73803c097d1f70d907b62da07fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:47 +0000
Subject: [PATCH 01/29] fix: report envelope changes made by let and flag
 actions at once

The SetEnvelope event was queued but execution went on, so the host learned
of the change late, or never when a later action replaced the queue.
---
 src/runtime/context.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/runtime/context.rs b/src/runtime/context.rs
index 76cf232..ca0c629 100644
--- a/src/runtime/context.rs
+++ b/src/runtime/context.rs
@@ -286,6 +286,9 @@ impl<'x> Context<'x> {
                     Instruction::Let(let_) => match self.eval_expression(&let_.expr) {
                         Ok(result) => {
                             self.set_variable(&let_.name, result);
+                            if let Some(event) = self.queued_events.next() {
+                                return Some(Ok(event));
+                            }
                         }
                         Err(event) => {
                             return Some(Ok(event));
@@ -320,7 +323,12 @@ impl<'x> Context<'x> {
                             return Some(Ok(event));
                         }
                     }
-                    Instruction::EditFlags(flags) => flags.exec(self),
+                    Instruction::EditFlags(flags) => {
+                        flags.exec(self);
+                        if let Some(event) = self.queued_events.next() {
+                            return Some(Ok(event));
+                        }
+                    }
                     Instruction::Include(include) => match include.exec(self) {
                         IncludeResult::Cached(script) => {
                             self.script_stack.push(ScriptStack {
-- 
2.43.0


From 4e8a2d3c10813ca780a70a1c93f4e22382fb012a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:27 +0000
Subject: [PATCH 02/29] fix: read declared global variables regardless of case

Names are stored in lower case, but ${Name} of a variable declared with the
global command was looked up as written and always read as empty.
---
 src/compiler/lexer/string.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/lexer/string.rs b/src/compiler/lexer/string.rs
index d72e373..303c650 100644
--- a/src/compiler/lexer/string.rs
+++ b/src/compiler/lexer/string.rs
@@ -279,7 +279,7 @@ impl CompilerState<'_> {
     ) -> Result<Option<VariableType>, ErrorType> {
         if !maybe_namespace {
             if self.is_var_global(var_name) {
-                Ok(Some(VariableType::Global(var_name.to_string())))
+                Ok(Some(VariableType::Global(var_name.to_lowercase())))
             } else if let Some(var_id) = self.get_local_var(var_name) {
                 Ok(Some(VariableType::Local(var_id)))
             } else {
@@ -328,7 +328,7 @@ impl CompilerState<'_> {
                 },
                 None => {
                     if self.is_var_global(var_name) {
-                        VariableType::Global(var_name.to_string())
+                        VariableType::Global(var_name.to_lowercase())
                     } else if let Some(var_id) = self.get_local_var(var_name) {
                         VariableType::Local(var_id)
                     } else {
-- 
2.43.0


From 7946fb917b213708fc3d83bbf1d6e94b0f89b001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:36 +0000
Subject: [PATCH 03/29] fix: continue in nested loops

Directly inside a while nested in another while, continue emitted no jump;
inside a foreverypart nested in a while it left the part iterator pushed.
---
 src/compiler/grammar/instruction.rs | 31 ++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index 0baff56..a26ac9a 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -582,22 +582,35 @@ impl Compiler {
                                 token_info.line_num,
                                 token_info.line_pos,
                             )?;
-                            let mut found_while = 0;
+                            let mut num_pops = 0;
+                            let mut found_while = false;
+                            let mut jmp_pos = None;
                             for block in [&state.block]
                                 .into_iter()
                                 .chain(state.block_stack.iter().rev())
                             {
-                                if let Word::While = &block.btype {
-                                    found_while += 1;
-                                } else if found_while == 1 {
-                                    state
-                                        .instructions
-                                        .push(Instruction::Jmp(block.last_block_start));
-                                    found_while += 1;
+                                if found_while {
+                                    jmp_pos = Some(block.last_block_start);
                                     break;
                                 }
+                                match &block.btype {
+                                    Word::While => {
+                                        found_while = true;
+                                    }
+                                    Word::ForEveryPart => {
+                                        num_pops += 1;
+                                    }
+                                    _ => (),
+                                }
                             }
-                            if found_while != 2 {
+                            if let Some(jmp_pos) = jmp_pos {
+                                if num_pops > 0 {
+                                    state
+                                        .instructions
+                                        .push(Instruction::ForEveryPartPop(num_pops));
+                                }
+                                state.instructions.push(Instruction::Jmp(jmp_pos));
+                            } else {
                                 return Err(token_info.custom(ErrorType::ContinueOutsideLoop));
                             }
                         }
-- 
2.43.0


From 80486ee80a187c19f70eeef4138eeb0ac26e21aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:11 +0000
Subject: [PATCH 04/29] fix: resolve :local variables used in :replace
 modifiers

Their placeholder ids were not mapped to real slots, so the variables read as
empty.
---
 src/compiler/grammar/instruction.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index a26ac9a..04f8142 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -27,7 +27,7 @@ use super::{
         action_notify::Notify,
         action_redirect::Redirect,
         action_reject::Reject,
-        action_set::{Let, Set},
+        action_set::{Let, Modifier, Set},
         action_vacation::Vacation,
     },
     expr::Expression,
@@ -1000,6 +1000,7 @@ impl CompilerState<'_> {
                     v.value.map_local_vars(last_id);
                 }
                 Instruction::ExtractText(v) => {
+                    v.modifiers.map_local_vars(last_id);
                     v.name.map_local_vars(last_id);
                 }
                 Instruction::Convert(v) => {
@@ -1016,6 +1017,7 @@ impl CompilerState<'_> {
                     v.value_patterns.map_local_vars(last_id);
                 }
                 Instruction::Set(v) => {
+                    v.modifiers.map_local_vars(last_id);
                     v.name.map_local_vars(last_id);
                     v.value.map_local_vars(last_id);
                 }
@@ -1185,6 +1187,15 @@ impl MapLocalVars for Value {
     }
 }
 
+impl MapLocalVars for Modifier {
+    fn map_local_vars(&mut self, last_id: usize) {
+        if let Modifier::Replace { find, replace } = self {
+            find.map_local_vars(last_id);
+            replace.map_local_vars(last_id);
+        }
+    }
+}
+
 impl<T: MapLocalVars> MapLocalVars for Option<T> {
     fn map_local_vars(&mut self, last_id: usize) {
         if let Some(value) = self {
-- 
2.43.0


From b658a207a238b7727db74f6df68f924ffe33de44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:13 +0000
Subject: [PATCH 05/29] fix: deleteheader does not disable match variables

A deleteheader with :matches or :regex was recorded as a capturing test, so
match variables used after it in the same block expanded to nothing.
---
 src/compiler/grammar/actions/action_editheader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compiler/grammar/actions/action_editheader.rs b/src/compiler/grammar/actions/action_editheader.rs
index 2959f9d..e401125 100644
--- a/src/compiler/grammar/actions/action_editheader.rs
+++ b/src/compiler/grammar/actions/action_editheader.rs
@@ -207,6 +207,10 @@ impl CompilerState<'_> {
             },
             mime_anychild,
         });
+        if matches!(match_type, MatchType::Matches(_) | MatchType::Regex(_)) {
+            // Deleteheader is not a test, its matches are not captured.
+            self.block.match_test_pos.pop();
+        }
         self.instructions.push(cmd);
         Ok(())
     }
-- 
2.43.0


From 6353a13f97a59f18f886599d6482b603a60cd0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:59 +0000
Subject: [PATCH 06/29] fix: replace and enclose keep part references valid

Removing the nested parts of a replaced part shifted the ids held by multiparts
and by foreverypart loops in progress, and enclosing the message left loops
iterating over parts that no longer exist, which panicked on the next edit.
---
 src/runtime/actions/action_mime.rs | 49 ++++++++++++++++++++++++++++--
 1 file changed, 47 insertions(+), 2 deletions(-)

diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index 4732512..3c9e3b4 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -4,7 +4,7 @@
  * SPDX-License-Identifier: AGPL-3.0-only OR LicenseRef-SEL
  */
 
-use std::cmp::Reverse;
+use std::{cmp::Reverse, vec::IntoIter};
 
 use mail_parser::{
     decoders::html::html_to_text, Encoding, HeaderName, Message, MessagePart, PartType,
@@ -29,7 +29,7 @@ impl Replace {
         let mut part_ids = ctx.find_nested_parts_ids(false);
         part_ids.sort_unstable_by_key(|a| Reverse(*a));
         for part_id in part_ids {
-            ctx.message.parts.remove(part_id as usize);
+            ctx.remove_part(part_id);
         }
         ctx.has_changes = true;
 
@@ -186,7 +186,13 @@ impl Enclose {
         let boundary = mail_builder::mime::make_boundary(".");
 
         ctx.message_size += ((boundary.len() + 6) * 3) + body.len() + 2;
+        // The parts being iterated are no longer parts of the message
         ctx.part = 0;
+        ctx.part_iter = Vec::new().into_iter();
+        for (part, part_iter) in ctx.part_iter_stack.iter_mut() {
+            *part = 0;
+            *part_iter = Vec::new().into_iter();
+        }
         ctx.has_changes = true;
         ctx.message = Message {
             html_body: Vec::with_capacity(0),
@@ -380,6 +386,45 @@ enum StackItem<'x> {
 }
 
 impl Context<'_> {
+    /// Removes a part, adjusting everything that refers to the following ones
+    fn remove_part(&mut self, part_id: u32) {
+        let remap = |ids: &mut Vec<u32>| {
+            ids.retain_mut(|id| {
+                if *id > part_id {
+                    *id -= 1;
+                    true
+                } else {
+                    *id != part_id
+                }
+            })
+        };
+        let remap_iter = |iter: &mut IntoIter<u32>| {
+            let mut ids = std::mem::take(iter).collect::<Vec<_>>();
+            remap(&mut ids);
+            *iter = ids.into_iter();
+        };
+
+        self.message.parts.remove(part_id as usize);
+        for part in self.message.parts.iter_mut() {
+            if let PartType::Multipart(ids) = &mut part.body {
+                remap(ids);
+            }
+        }
+        remap(&mut self.message.text_body);
+        remap(&mut self.message.html_body);
+        remap(&mut self.message.attachments);
+        remap_iter(&mut self.part_iter);
+        for (part, part_iter) in self.part_iter_stack.iter_mut() {
+            if *part > part_id {
+                *part -= 1;
+            }
+            remap_iter(part_iter);
+        }
+        if self.part > part_id {
+            self.part -= 1;
+        }
+    }
+
     pub(crate) fn build_message_id(&mut self) -> Option<Event> {
         if self.has_changes {
             self.last_message_id += 1;
-- 
2.43.0


From d4cc1dd94256c3d6a5849bbf59fc1ae327bde550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:49 +0000
Subject: [PATCH 07/29] fix: size of edited messages

The running size was wrong after deleting inserted headers, converting or
replacing parts, and could underflow, which made the size test answer wrongly
and building the message panic on an impossible allocation. Measure the message
instead.
---
 src/runtime/actions/action_convert.rs    |  6 -----
 src/runtime/actions/action_editheader.rs |  9 -------
 src/runtime/actions/action_mime.rs       | 15 ++----------
 src/runtime/context.rs                   | 31 +++++++++++++++---------
 4 files changed, 21 insertions(+), 40 deletions(-)

diff --git a/src/runtime/actions/action_convert.rs b/src/runtime/actions/action_convert.rs
index ff62b97..46796a4 100644
--- a/src/runtime/actions/action_convert.rs
+++ b/src/runtime/actions/action_convert.rs
@@ -81,12 +81,6 @@ impl Convert {
                 offset_end: 0,
                 offset_field: 0,
             }];
-            ctx.message_size = ctx.message_size + ct.len() + new_body.len() + 16
-                - (if part.offset_body != 0 {
-                    (part.offset_end - part.offset_header) as usize
-                } else {
-                    part.body.len()
-                });
             part.offset_body = 0;
             part.body = new_body;
             part.encoding = Encoding::QuotedPrintable; //Used as non-mime flag
diff --git a/src/runtime/actions/action_editheader.rs b/src/runtime/actions/action_editheader.rs
index 8f14dbe..161348d 100644
--- a/src/runtime/actions/action_editheader.rs
+++ b/src/runtime/actions/action_editheader.rs
@@ -61,7 +61,6 @@ impl DeleteHeader {
         };
         let value_patterns = ctx.eval_values(&self.value_patterns);
         let mut deleted_headers = Vec::new();
-        let mut deleted_bytes = 0;
 
         if ctx.runtime.protected_headers.contains(&header_name) {
             return;
@@ -112,11 +111,6 @@ impl DeleteHeader {
                     }
                 }
 
-                if header.offset_end != 0 {
-                    deleted_bytes += (header.offset_end - header.offset_field) as usize;
-                } else {
-                    deleted_bytes += header.name.as_str().len() + header.value.len() + 4;
-                }
                 deleted_headers.push((part_id, header_pos));
 
                 false
@@ -131,8 +125,6 @@ impl DeleteHeader {
                     .remove(*header_pos);
             }
         }
-
-        ctx.message_size -= deleted_bytes;
     }
 }
 
@@ -165,7 +157,6 @@ impl<'x> Context<'x> {
         last: bool,
     ) {
         let header_value = header_value.into();
-        self.message_size += header_name.len() + header_value.len() + 4;
         let header = Header {
             name: header_name,
             value: HeaderValue::Text(header_value),
diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index 3c9e3b4..8beaf9b 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -35,16 +35,9 @@ impl Replace {
 
         // Update part
         let body = ctx.eval_value(&self.replacement).to_string().into_owned();
-        let body_len = body.len();
 
         let part = &mut ctx.message.parts[ctx.part as usize];
 
-        ctx.message_size = ctx.message_size + body_len
-            - (if part.offset_body != 0 {
-                (part.offset_end - part.offset_header) as usize
-            } else {
-                part.body.len()
-            });
         part.body = PartType::Text(body.into());
         part.encoding = if !self.mime {
             Encoding::QuotedPrintable
@@ -57,20 +50,17 @@ impl Replace {
 
         if ctx.part == 0 {
             for mut header in prev_headers {
-                let mut size = (header.offset_end - header.offset_field) as usize;
                 match &header.name {
                     HeaderName::Subject => {
                         if self.subject.is_some() {
                             header.name = HeaderName::Other("Original-Subject".into());
                             header.offset_field = header.offset_start;
-                            size += "Original-".len();
                         }
                     }
                     HeaderName::From => {
                         if self.from.is_some() {
                             header.name = HeaderName::Other("Original-From".into());
                             header.offset_field = header.offset_start;
-                            size += "Original-".len();
                         }
                     }
 
@@ -80,7 +70,6 @@ impl Replace {
                     }
                     _ => continue,
                 }
-                ctx.message_size += size;
                 part.headers.push(header);
             }
 
@@ -185,7 +174,6 @@ impl Enclose {
         #[cfg(not(test))]
         let boundary = mail_builder::mime::make_boundary(".");
 
-        ctx.message_size += ((boundary.len() + 6) * 3) + body.len() + 2;
         // The parts being iterated are no longer parts of the message
         ctx.part = 0;
         ctx.part_iter = Vec::new().into_iter();
@@ -431,6 +419,7 @@ impl Context<'_> {
             self.main_message_id = self.last_message_id;
             self.has_changes = false;
             let message = self.build_message();
+            self.message_size = message.len();
             Some(Event::CreatedMessage {
                 message_id: self.main_message_id,
                 message,
@@ -440,7 +429,7 @@ impl Context<'_> {
         }
     }
 
-    pub(crate) fn build_message(&mut self) -> Vec<u8> {
+    pub(crate) fn build_message(&self) -> Vec<u8> {
         let mut current_message = &self.message;
         let mut current_boundary = "";
         let mut message = Vec::with_capacity(self.message_size);
diff --git a/src/runtime/context.rs b/src/runtime/context.rs
index ca0c629..84ba1f8 100644
--- a/src/runtime/context.rs
+++ b/src/runtime/context.rs
@@ -10,7 +10,7 @@ use ahash::AHashMap;
 use mail_parser::Message;
 
 use crate::{
-    compiler::grammar::{instruction::Instruction, Capability},
+    compiler::grammar::{instruction::Instruction, test::Test, Capability},
     Context, Envelope, Event, Input, Metadata, Runtime, Sieve, SpamStatus, VirusStatus,
     MAX_LOCAL_VARIABLES, MAX_MATCH_VARIABLES,
 };
@@ -153,19 +153,26 @@ impl<'x> Context<'x> {
                         iter = current_script.instructions.get(self.pos..)?.iter();
                         continue;
                     }
-                    Instruction::Test(test) => match test.exec(self) {
-                        TestResult::Bool(result) => {
-                            self.test_result = result;
+                    Instruction::Test(test) => {
+                        // Measure the edited message
+                        if self.has_changes && matches!(test, Test::Size(_)) {
+                            self.message_size = self.build_message().len();
                         }
-                        TestResult::Event { event, is_not } => {
-                            self.test_result = is_not;
-                            return Some(Ok(event));
-                        }
-                        TestResult::Error(err) => {
-                            self.finish_loop();
-                            return Some(Err(err));
+
+                        match test.exec(self) {
+                            TestResult::Bool(result) => {
+                                self.test_result = result;
+                            }
+                            TestResult::Event { event, is_not } => {
+                                self.test_result = is_not;
+                                return Some(Ok(event));
+                            }
+                            TestResult::Error(err) => {
+                                self.finish_loop();
+                                return Some(Err(err));
+                            }
                         }
-                    },
+                    }
                     Instruction::Eval(expr) => match self.eval_expression(expr) {
                         Ok(result) => {
                             self.test_result = result.to_bool();
-- 
2.43.0


From e7c2b3dd2825fe6ad0723d768040307fdf293d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:42 +0000
Subject: [PATCH 08/29] fix: converting the root part keeps the message headers

Convert replaced all headers of a converted part with a Content-Type, so the
conversion of a single part message lost its From, To, Subject and so on.
---
 src/runtime/actions/action_convert.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/runtime/actions/action_convert.rs b/src/runtime/actions/action_convert.rs
index 46796a4..0d369c6 100644
--- a/src/runtime/actions/action_convert.rs
+++ b/src/runtime/actions/action_convert.rs
@@ -49,7 +49,7 @@ impl Convert {
             return TestResult::Bool(false ^ self.is_not);
         };
         let mut did_convert = false;
-        for part in ctx.message.parts.iter_mut() {
+        for (part_id, part) in ctx.message.parts.iter_mut().enumerate() {
             let (new_body, ct) = match (&part.body, conversion) {
                 (PartType::Html(html), Conversion::HtmlToText) => (
                     PartType::Text(html_to_text(html.as_ref()).into()),
@@ -74,13 +74,22 @@ impl Convert {
                     continue;
                 }
             };
-            part.headers = vec![Header {
+            // The root part also holds the headers of the message
+            part.headers.retain(|header| {
+                part_id == 0
+                    && !matches!(
+                        header.name,
+                        HeaderName::ContentType | HeaderName::ContentTransferEncoding
+                    )
+                    && header.name != HeaderName::Other("Content-Type".into())
+            });
+            part.headers.push(Header {
                 name: HeaderName::Other("Content-Type".into()),
                 value: HeaderValue::Text(ct.to_string().into()),
                 offset_start: 0,
                 offset_end: 0,
                 offset_field: 0,
-            }];
+            });
             part.offset_body = 0;
             part.body = new_body;
             part.encoding = Encoding::QuotedPrintable; //Used as non-mime flag
-- 
2.43.0


From e70a4ee198e351f190ba4c6bb6fdd1ad2b9f5802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:08 +0000
Subject: [PATCH 09/29] fix: the final keep names the current version of the
 message

Edits already announced by an earlier action were left out of a keep that ends
the delivery: it named the version current when the keep was evaluated, and the
implicit keep always named the unedited message.
---
 src/runtime/context.rs | 37 ++++++++++++++-----------------------
 1 file changed, 14 insertions(+), 23 deletions(-)

diff --git a/src/runtime/context.rs b/src/runtime/context.rs
index 84ba1f8..77a6078 100644
--- a/src/runtime/context.rs
+++ b/src/runtime/context.rs
@@ -422,10 +422,7 @@ impl<'x> Context<'x> {
         }
 
         match self.final_event.take() {
-            Some(Event::Keep {
-                mut flags,
-                message_id,
-            }) => {
+            Some(Event::Keep { mut flags, .. }) => {
                 let create_event = if self.has_changes {
                     self.build_message_id()
                 } else {
@@ -447,7 +444,10 @@ impl<'x> Context<'x> {
                     .into_iter();
                     self.queued_events.next().map(Ok)
                 } else {
-                    Some(Ok(Event::Keep { flags, message_id }))
+                    Some(Ok(Event::Keep {
+                        flags,
+                        message_id: self.main_message_id,
+                    }))
                 }
             }
             Some(event) => Some(Ok(event)),
@@ -458,30 +458,21 @@ impl<'x> Context<'x> {
     pub(crate) fn finish_loop(&mut self) {
         self.script_stack.clear();
         if let Some(event) = self.final_event.take() {
-            self.queued_events = if let Event::Keep {
-                mut flags,
-                message_id,
-            } = event
-            {
+            self.queued_events = if let Event::Keep { mut flags, .. } = event {
                 let global_flags = self.get_global_flags();
                 if flags.is_empty() && !global_flags.is_empty() {
                     flags = global_flags;
                 }
 
-                if self.has_changes {
-                    if let Some(event) = self.build_message_id() {
-                        vec![
-                            event,
-                            Event::Keep {
-                                flags,
-                                message_id: self.main_message_id,
-                            },
-                        ]
-                    } else {
-                        vec![Event::Keep { flags, message_id }]
-                    }
+                let create_event = self.build_message_id();
+                let keep_event = Event::Keep {
+                    flags,
+                    message_id: self.main_message_id,
+                };
+                if let Some(create_event) = create_event {
+                    vec![create_event, keep_event]
                 } else {
-                    vec![Event::Keep { flags, message_id }]
+                    vec![keep_event]
                 }
             } else {
                 vec![event]
-- 
2.43.0


From 79d44056edd2324f3c3e17a94151a4dedba3495f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:02 +0000
Subject: [PATCH 10/29] fix: headers generated by replace, enclose and convert
 can be found

They were stored under an unparsed name, so tests and deleteheader did not see
them.
---
 src/runtime/actions/action_convert.rs |  3 +--
 src/runtime/actions/action_mime.rs    | 35 +++++++++++++++------------
 2 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/runtime/actions/action_convert.rs b/src/runtime/actions/action_convert.rs
index 0d369c6..e0352db 100644
--- a/src/runtime/actions/action_convert.rs
+++ b/src/runtime/actions/action_convert.rs
@@ -81,10 +81,9 @@ impl Convert {
                         header.name,
                         HeaderName::ContentType | HeaderName::ContentTransferEncoding
                     )
-                    && header.name != HeaderName::Other("Content-Type".into())
             });
             part.headers.push(Header {
-                name: HeaderName::Other("Content-Type".into()),
+                name: HeaderName::ContentType,
                 value: HeaderValue::Text(ct.to_string().into()),
                 offset_start: 0,
                 offset_end: 0,
diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index 8beaf9b..01dca93 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -79,7 +79,7 @@ impl Replace {
                 if !from.is_empty() {
                     ctx.insert_header(
                         0,
-                        HeaderName::Other("From".into()),
+                        HeaderName::From,
                         from.to_string()
                             .as_ref()
                             .remove_crlf(ctx.runtime.max_header_size),
@@ -91,7 +91,7 @@ impl Replace {
             if add_from {
                 ctx.insert_header(
                     0,
-                    HeaderName::Other("From".to_string().into()),
+                    HeaderName::From,
                     ctx.user_from_field(),
                     true,
                 );
@@ -102,7 +102,7 @@ impl Replace {
                 if !subject.is_empty() {
                     ctx.insert_header(
                         0,
-                        HeaderName::Other("Subject".into()),
+                        HeaderName::Subject,
                         subject
                             .to_string()
                             .as_ref()
@@ -121,7 +121,7 @@ impl Replace {
 
                 ctx.insert_header(
                     0,
-                    HeaderName::Other("Date".to_string().into()),
+                    HeaderName::Date,
                     header_value,
                     true,
                 );
@@ -136,7 +136,7 @@ impl Replace {
 
             ctx.insert_header(
                 0,
-                HeaderName::Other("Message-ID".to_string().into()),
+                HeaderName::MessageId,
                 String::from_utf8(header_value).unwrap(),
                 true,
             );
@@ -145,7 +145,7 @@ impl Replace {
         if !self.mime {
             ctx.insert_header(
                 ctx.part,
-                HeaderName::Other("Content-Type".into()),
+                HeaderName::ContentType,
                 "text/plain; charset=utf-8".to_string(),
                 true,
             );
@@ -220,20 +220,20 @@ impl Enclose {
 
         ctx.insert_header(
             0,
-            HeaderName::Other("Content-Type".into()),
+            HeaderName::ContentType,
             format!("multipart/mixed; boundary=\"{boundary}\""),
             true,
         );
-        ctx.insert_header(0, HeaderName::Other("Subject".into()), subject, true);
+        ctx.insert_header(0, HeaderName::Subject, subject, true);
         ctx.insert_header(
             1,
-            HeaderName::Other("Content-Type".into()),
+            HeaderName::ContentType,
             "text/plain; charset=utf-8",
             true,
         );
         ctx.insert_header(
             2,
-            HeaderName::Other("Content-Type".into()),
+            HeaderName::ContentType,
             "message/rfc822",
             true,
         );
@@ -267,7 +267,7 @@ impl Enclose {
 
                             ctx.insert_header(
                                 0,
-                                HeaderName::Other(header_name.to_string().into()),
+                                name.into_owned(),
                                 header_value.remove_crlf(ctx.runtime.max_header_size),
                                 true,
                             );
@@ -280,7 +280,7 @@ impl Enclose {
         if add_from {
             ctx.insert_header(
                 0,
-                HeaderName::Other("From".to_string().into()),
+                HeaderName::From,
                 ctx.user_from_field(),
                 true,
             );
@@ -294,7 +294,7 @@ impl Enclose {
 
             ctx.insert_header(
                 0,
-                HeaderName::Other("Date".to_string().into()),
+                HeaderName::Date,
                 header_value,
                 true,
             );
@@ -309,7 +309,7 @@ impl Enclose {
 
             ctx.insert_header(
                 0,
-                HeaderName::Other("Message-ID".to_string().into()),
+                HeaderName::MessageId,
                 String::from_utf8(header_value).unwrap(),
                 true,
             );
@@ -475,7 +475,12 @@ impl Context<'_> {
                             );
                         }
                     } else {
-                        if header.name == HeaderName::Other("Content-Type".into()) {
+                        if header.name == HeaderName::ContentType
+                            && header
+                                .value
+                                .as_text()
+                                .is_some_and(|ct| ct.contains("boundary=\""))
+                        {
                             ct_pos = header_pos;
                         }
 
-- 
2.43.0


From cb3276737dcc65e1bc889efcb6a08f427d26e2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:11 +0000
Subject: [PATCH 11/29] fix: extracttext honours the variable size limit

---
 src/runtime/actions/action_mime.rs | 23 ++---------------------
 1 file changed, 2 insertions(+), 21 deletions(-)

diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index 01dca93..ae19a67 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -11,10 +11,7 @@ use mail_parser::{
 };
 
 use crate::{
-    compiler::{
-        grammar::actions::action_mime::{Enclose, ExtractText, Replace},
-        VariableType,
-    },
+    compiler::grammar::actions::action_mime::{Enclose, ExtractText, Replace},
     Context, Event,
 };
 
@@ -347,23 +344,7 @@ impl ExtractText {
             }
         }
 
-        match &self.name {
-            VariableType::Local(var_id) => {
-                if let Some(var) = ctx.vars_local.get_mut(*var_id) {
-                    *var = value.into();
-                } else {
-                    debug_assert!(false, "Non-existent local variable {var_id}");
-                }
-            }
-            VariableType::Global(var_name) => {
-                ctx.vars_global
-                    .insert(var_name.to_string().into(), value.into());
-            }
-            VariableType::Envelope(env) => {
-                ctx.add_set_envelope_event(*env, value);
-            }
-            _ => (),
-        }
+        ctx.set_variable(&self.name, value.into());
     }
 }
 
-- 
2.43.0


From 9a639e05132fed446d921bd38be20f887948526f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:54 +0000
Subject: [PATCH 12/29] fix: numbers count towards the variable size limit

---
 src/runtime/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 30242cb..99af170 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -109,7 +109,7 @@ impl Variable {
     pub fn len(&self) -> usize {
         match self {
             Variable::String(s) => s.len(),
-            Variable::Integer(_) | Variable::Float(_) => 2,
+            Variable::Integer(_) | Variable::Float(_) => self.to_string().len(),
             Variable::Array(l) => l.iter().map(|v| v.len() + 2).sum(),
         }
     }
-- 
2.43.0


From 5afcd3cba7cacd61286e0b94ccf9ab45fd19250a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:54 +0000
Subject: [PATCH 13/29] fix: overflow of large vacation periods given in days

---
 src/runtime/actions/action_vacation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/actions/action_vacation.rs b/src/runtime/actions/action_vacation.rs
index bee00dd..ca8e247 100644
--- a/src/runtime/actions/action_vacation.rs
+++ b/src/runtime/actions/action_vacation.rs
@@ -145,7 +145,7 @@ impl TestVacation {
                         format!("_v{}{}", from, ctx.eval_value(&self.reason).to_string())
                     },
                     expiry: match &self.period {
-                        Period::Days(days) => days * 86400,
+                        Period::Days(days) => days.saturating_mul(86400),
                         Period::Seconds(seconds) => *seconds,
                         Period::Default => ctx.runtime.default_vacation_expiry,
                     },
-- 
2.43.0


From 3c0e54e7ed8e6b970dd549985d66ff17e0e5da09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:39 +0000
Subject: [PATCH 14/29] fix: notify honours the outgoing message limit

---
 src/runtime/actions/action_notify.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/runtime/actions/action_notify.rs b/src/runtime/actions/action_notify.rs
index 88d5909..94a43af 100644
--- a/src/runtime/actions/action_notify.rs
+++ b/src/runtime/actions/action_notify.rs
@@ -37,10 +37,12 @@ impl Notify {
         } else {
             return;
         };
+        if ctx.num_out_messages >= ctx.runtime.max_out_messages {
+            return;
+        }
 
         let has_fcc = self.fcc.is_some();
-        let is_mailto = scheme.eq_ignore_ascii_case("mailto")
-            && ctx.num_out_messages < ctx.runtime.max_out_messages;
+        let is_mailto = scheme.eq_ignore_ascii_case("mailto");
         let mut events = Vec::with_capacity(3);
 
         if is_mailto || has_fcc {
@@ -262,8 +264,8 @@ impl Notify {
                     .or_else(|| ctx.message.subject().map(|s| s.to_string()))
                     .unwrap_or_default(),
             });
-            ctx.num_out_messages += 1;
         }
+        ctx.num_out_messages += 1;
 
         if let Some(fcc) = &self.fcc {
             // File carbon copy
-- 
2.43.0


From aba8ff213db2ec085510a42f913c06e166d946de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:44 +0000
Subject: [PATCH 15/29] fix: no line breaks or reserved headers in generated
 messages

---
 src/runtime/actions/action_notify.rs   | 50 ++++++++++++++++++--------
 src/runtime/actions/action_vacation.rs | 37 ++++++++++++-------
 2 files changed, 60 insertions(+), 27 deletions(-)

diff --git a/src/runtime/actions/action_notify.rs b/src/runtime/actions/action_notify.rs
index 94a43af..9955293 100644
--- a/src/runtime/actions/action_notify.rs
+++ b/src/runtime/actions/action_notify.rs
@@ -15,7 +15,7 @@ use crate::{
     Context, Event, Importance, Recipient,
 };
 
-use super::action_vacation::MAX_SUBJECT_LEN;
+use super::action_vacation::{write_header, MAX_SUBJECT_LEN};
 
 impl Notify {
     pub(crate) fn exec(&self, ctx: &mut Context) {
@@ -95,9 +95,7 @@ impl Notify {
                 + 200;
 
             let mut message = Vec::with_capacity(message_len);
-            message.extend_from_slice(b"From: ");
-            message.extend_from_slice(from.as_bytes());
-            message.extend_from_slice(b"\r\n");
+            write_header(&mut message, "From: ", &from);
 
             for (header, addresses) in [("To: ", &params.to), ("Cc: ", &params.cc)] {
                 if !addresses.is_empty() {
@@ -128,20 +126,27 @@ impl Notify {
                         continue;
                     }
                     HeaderName::Date => {
+                        if has_date {
+                            continue;
+                        }
                         has_date = true;
                     }
                     HeaderName::MessageId => {
+                        if has_message_id {
+                            continue;
+                        }
                         has_message_id = true;
                     }
-                    HeaderName::From => {
+                    HeaderName::From | HeaderName::ContentType => {
+                        continue;
+                    }
+                    HeaderName::Other(name) if !is_allowed_header(name) => {
                         continue;
                     }
                     _ => (),
                 }
                 message.extend_from_slice(header.as_str().as_bytes());
-                message.extend_from_slice(b": ");
-                message.extend_from_slice(value.as_bytes());
-                message.extend_from_slice(b"\r\n");
+                write_header(&mut message, ": ", value);
             }
 
             if !has_date {
@@ -174,7 +179,6 @@ impl Notify {
             message.extend_from_slice(priority.as_bytes());
             message.extend_from_slice(b"\r\n");
 
-            message.extend_from_slice(b"Subject: ");
             let subject = if let Some(subject) = has_subject {
                 subject.as_str()
             } else if let Some(subject) = &notify_message {
@@ -183,19 +187,19 @@ impl Notify {
                 ctx.message.subject().unwrap_or_default()
             };
             let mut iter = subject.chars().enumerate();
-            let mut buf = [0; 4];
+            let mut short_subject = String::with_capacity(MAX_SUBJECT_LEN);
             #[allow(clippy::while_let_on_iterator)]
             while let Some((pos, char)) = iter.next() {
                 if pos < MAX_SUBJECT_LEN {
-                    message.extend_from_slice(char.encode_utf8(&mut buf).as_bytes());
+                    short_subject.push(char);
                 } else {
                     break;
                 }
             }
             if iter.next().is_some() {
-                message.extend_from_slice('…'.encode_utf8(&mut buf).as_bytes());
+                short_subject.push('…');
             }
-            message.extend_from_slice(b"\r\n");
+            write_header(&mut message, "Subject: ", &short_subject);
 
             message.extend_from_slice(b"Auto-Submitted: auto-notified\r\n");
             message.extend_from_slice(b"X-Sieve: yes\r\n");
@@ -558,8 +562,26 @@ fn parse_mailto(uri: &str) -> Option<MailtoMessage> {
     }
 }
 
+// Headers taken from the URI must have a valid name and may not replace those
+// that identify the message as an automatic notification
+fn is_allowed_header(name: &str) -> bool {
+    !name.is_empty()
+        && name
+            .bytes()
+            .all(|ch| ch.is_ascii_graphic() && ch != b':')
+        && ![
+            "auto-submitted",
+            "importance",
+            "x-priority",
+            "x-sieve",
+        ]
+        .iter()
+        .any(|reserved| name.eq_ignore_ascii_case(reserved))
+}
+
 #[inline(always)]
-fn insert_address(params: &mut MailtoMessage, name: HeaderName, value: String) {
+fn insert_address(params: &mut MailtoMessage, name: HeaderName, mut value: String) {
+    value.retain(|ch| !ch.is_ascii_control());
     if !params
         .to
         .iter()
diff --git a/src/runtime/actions/action_vacation.rs b/src/runtime/actions/action_vacation.rs
index ca8e247..9cdc9dc 100644
--- a/src/runtime/actions/action_vacation.rs
+++ b/src/runtime/actions/action_vacation.rs
@@ -261,8 +261,7 @@ impl Vacation {
         let mut message = Vec::with_capacity(message_len);
         write_header(&mut message, "From: ", vacation_from.to_string().as_ref());
         if let Some(vacation_to_full) = vacation_to_full {
-            message.extend_from_slice(b"To:");
-            message.extend_from_slice(vacation_to_full);
+            write_raw_header(&mut message, "To:", vacation_to_full);
         } else {
             write_header(&mut message, "To: ", vacation_to.to_string().as_ref());
         }
@@ -272,17 +271,13 @@ impl Vacation {
             vacation_subject.to_string().as_ref(),
         );
         if let Some(message_id) = message_id {
-            message.extend_from_slice(b"In-Reply-To: <");
-            message.extend_from_slice(message_id.as_bytes());
-            message.extend_from_slice(b">\r\n");
+            write_header(&mut message, "In-Reply-To: ", &format!("<{message_id}>"));
 
-            message.extend_from_slice(b"References: <");
-            message.extend_from_slice(message_id.as_bytes());
             if let Some(references) = references {
-                message.extend_from_slice(b"> ");
-                message.extend_from_slice(references);
+                write_header_value(&mut message, "References: <", message_id);
+                write_raw_header(&mut message, "> ", references);
             } else {
-                message.extend_from_slice(b">\r\n");
+                write_header(&mut message, "References: ", &format!("<{message_id}>"));
             }
         }
         message.extend_from_slice(b"Date: ");
@@ -336,8 +331,24 @@ impl Vacation {
     }
 }
 
-fn write_header(buf: &mut Vec<u8>, name: &str, value: &str) {
-    buf.extend_from_slice(name.as_bytes());
-    buf.extend_from_slice(value.as_bytes());
+pub(crate) fn write_header(buf: &mut Vec<u8>, name: &str, value: &str) {
+    write_header_value(buf, name, value);
     buf.extend_from_slice(b"\r\n");
 }
+
+fn write_header_value(buf: &mut Vec<u8>, name: &str, value: &str) {
+    buf.extend_from_slice(name.as_bytes());
+    // Line breaks would start a new header
+    buf.extend(value.bytes().map(|ch| match ch {
+        b'\r' | b'\n' => b' ',
+        _ => ch,
+    }));
+}
+
+fn write_raw_header(buf: &mut Vec<u8>, name: &str, value: &[u8]) {
+    buf.extend_from_slice(name.as_bytes());
+    buf.extend_from_slice(value);
+    if !value.ends_with(b"\n") {
+        buf.extend_from_slice(b"\r\n");
+    }
+}
-- 
2.43.0


From 3e46d786be98dd7b88397d91e29715e58da22403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:01 +0000
Subject: [PATCH 16/29] fix: arithmetic overflows with i64::MIN and inserted
 headers

---
 src/runtime/eval.rs       | 5 +++--
 src/runtime/expression.rs | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/runtime/eval.rs b/src/runtime/eval.rs
index 43da865..12fce1d 100644
--- a/src/runtime/eval.rs
+++ b/src/runtime/eval.rs
@@ -365,8 +365,9 @@ impl HeaderVariable {
                 .get(header.offset_start as usize..header.offset_end as usize)
                 .map(sanitize_raw_header)
                 .map(Variable::from),
-            HeaderPart::RawName => raw
-                .get(header.offset_field as usize..header.offset_start as usize - 1)
+            HeaderPart::RawName => (header.offset_start as usize)
+                .checked_sub(1)
+                .and_then(|end| raw.get(header.offset_field as usize..end))
                 .map(|bytes| std::str::from_utf8(bytes).unwrap_or_default())
                 .map(Variable::from),
             HeaderPart::Exists => Variable::from(true).into(),
diff --git a/src/runtime/expression.rs b/src/runtime/expression.rs
index 017e196..c2dbfe2 100644
--- a/src/runtime/expression.rs
+++ b/src/runtime/expression.rs
@@ -225,7 +225,7 @@ impl Variable {
 
     pub fn op_minus(self) -> Variable {
         match self {
-            Variable::Integer(n) => Variable::Integer(-n),
+            Variable::Integer(n) => Variable::Integer(n.saturating_neg()),
             Variable::Float(n) => Variable::Float(-n),
             _ => self.parse_number().op_minus(),
         }
-- 
2.43.0


From b981353dfcd4b79f68e35401993feb4091911781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:08 +0000
Subject: [PATCH 17/29] fix: report scripts with too many variables and keep
 the message

---
 src/runtime/context.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/runtime/context.rs b/src/runtime/context.rs
index 77a6078..d3c932b 100644
--- a/src/runtime/context.rs
+++ b/src/runtime/context.rs
@@ -109,6 +109,12 @@ impl<'x> Context<'x> {
                     });
                     self.pos = 0;
                     self.test_result = false;
+                } else {
+                    // Do not lose the message because of a script that cannot be executed
+                    self.finish_loop();
+                    return Some(Err(RuntimeError::ScriptErrorMessage(
+                        "Script exceeds the number of variables allowed".to_string(),
+                    )));
                 }
             }
         }
-- 
2.43.0


From 7601b52f0899788b3401612e12975c38a257928d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 18/29] fix: flags separated by spaces in a list of several
 strings

---
 src/runtime/actions/action_flags.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/runtime/actions/action_flags.rs b/src/runtime/actions/action_flags.rs
index a1290f5..6f02f23 100644
--- a/src/runtime/actions/action_flags.rs
+++ b/src/runtime/actions/action_flags.rs
@@ -92,17 +92,10 @@ impl Context<'_> {
         strings: &[Value],
         mut cb: impl FnMut(&str) -> bool,
     ) -> bool {
-        for (pos, string) in strings.iter().enumerate() {
-            let flag_ = self.eval_value(string);
-            let flag = flag_.to_string();
-            if !flag.is_empty() {
-                if pos == 0 && strings.len() == 1 {
-                    for flag in flag.split_ascii_whitespace() {
-                        if !flag.is_empty() && cb(flag) {
-                            return true;
-                        }
-                    }
-                } else if cb(flag.trim()) {
+        for string in strings {
+            let flags = self.eval_value(string);
+            for flag in flags.to_string().split_ascii_whitespace() {
+                if cb(flag) {
                     return true;
                 }
             }
-- 
2.43.0


From 9b2a2074d9a5b4ba901da9cda27a7022d3f2a1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:39 +0000
Subject: [PATCH 19/29] fix: evaluate the arguments of replace before editing
 the message

---
 src/runtime/actions/action_mime.rs | 36 +++++++++++++-----------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index ae19a67..b22be15 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -22,6 +22,17 @@ use mail_builder::headers::message_id::generate_message_id_header;
 
 impl Replace {
     pub(crate) fn exec(&self, ctx: &mut Context) {
+        // Evaluate arguments before the message is modified
+        let body = ctx.eval_value(&self.replacement).to_string().into_owned();
+        let [from, subject] = [&self.from, &self.subject].map(|value| {
+            value.as_ref().map(|value| {
+                ctx.eval_value(value)
+                    .to_string()
+                    .as_ref()
+                    .remove_crlf(ctx.runtime.max_header_size)
+            })
+        });
+
         // Delete children parts
         let mut part_ids = ctx.find_nested_parts_ids(false);
         part_ids.sort_unstable_by_key(|a| Reverse(*a));
@@ -31,8 +42,6 @@ impl Replace {
         ctx.has_changes = true;
 
         // Update part
-        let body = ctx.eval_value(&self.replacement).to_string().into_owned();
-
         let part = &mut ctx.message.parts[ctx.part as usize];
 
         part.body = PartType::Text(body.into());
@@ -72,16 +81,9 @@ impl Replace {
 
             // Add From
             let mut add_from = true;
-            if let Some(from) = self.from.as_ref().map(|f| ctx.eval_value(f)) {
+            if let Some(from) = from {
                 if !from.is_empty() {
-                    ctx.insert_header(
-                        0,
-                        HeaderName::From,
-                        from.to_string()
-                            .as_ref()
-                            .remove_crlf(ctx.runtime.max_header_size),
-                        true,
-                    );
+                    ctx.insert_header(0, HeaderName::From, from, true);
                     add_from = false;
                 }
             }
@@ -95,17 +97,9 @@ impl Replace {
             }
 
             // Add Subject
-            if let Some(subject) = self.subject.as_ref().map(|f| ctx.eval_value(f)) {
+            if let Some(subject) = subject {
                 if !subject.is_empty() {
-                    ctx.insert_header(
-                        0,
-                        HeaderName::Subject,
-                        subject
-                            .to_string()
-                            .as_ref()
-                            .remove_crlf(ctx.runtime.max_header_size),
-                        true,
-                    );
+                    ctx.insert_header(0, HeaderName::Subject, subject, true);
                 }
             }
 
-- 
2.43.0


From ade10a6c8de04fe493d7cadab9217d8d2032c1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:26 +0000
Subject: [PATCH 20/29] fix: Message-ID of inserted headers without angle
 brackets

---
 src/runtime/actions/action_vacation.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/runtime/actions/action_vacation.rs b/src/runtime/actions/action_vacation.rs
index 9cdc9dc..c615f83 100644
--- a/src/runtime/actions/action_vacation.rs
+++ b/src/runtime/actions/action_vacation.rs
@@ -208,7 +208,11 @@ impl Vacation {
                     }
                 }
                 HeaderName::MessageId => {
-                    message_id = header.value.as_text();
+                    // Inserted headers include the angle brackets
+                    message_id = header
+                        .value
+                        .as_text()
+                        .map(|id| id.trim().trim_start_matches('<').trim_end_matches('>'));
                 }
                 HeaderName::References => {
                     if header.offset_start > 0 {
-- 
2.43.0


From 888ab99333d6414b5f049e57c9d9877173adfbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:38 +0000
Subject: [PATCH 21/29] fix: a vacation reply after the outgoing limit was
 reached

---
 src/runtime/actions/action_vacation.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/runtime/actions/action_vacation.rs b/src/runtime/actions/action_vacation.rs
index c615f83..80c39c8 100644
--- a/src/runtime/actions/action_vacation.rs
+++ b/src/runtime/actions/action_vacation.rs
@@ -161,6 +161,11 @@ impl TestVacation {
 
 impl Vacation {
     pub(crate) fn exec(&self, ctx: &mut Context) {
+        // Other messages may have been sent since the test
+        if ctx.num_out_messages >= ctx.runtime.max_out_messages {
+            return;
+        }
+
         let mut vacation_to = Cow::from("");
 
         for (name, value) in &ctx.envelope {
-- 
2.43.0


From b59f2581751e78e57c01c06b0506fefb0ce8d472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:11 +0000
Subject: [PATCH 22/29] fix: header variables of headers inserted by the script

---
 src/runtime/eval.rs | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/runtime/eval.rs b/src/runtime/eval.rs
index 12fce1d..b4b8893 100644
--- a/src/runtime/eval.rs
+++ b/src/runtime/eval.rs
@@ -156,6 +156,14 @@ impl<'x> Context<'x> {
         } else {
             for h in &part.headers {
                 match &header.part {
+                    HeaderPart::Raw if h.offset_end == 0 => {
+                        // Inserted header
+                        if let HeaderValue::Text(text) = &h.value {
+                            result.push(Variable::from(sanitize_raw_header(
+                                format!("{}: {}", h.name.as_str(), text).as_bytes(),
+                            )));
+                        }
+                    }
                     HeaderPart::Raw => {
                         if let Some(var) = raw
                             .get(h.offset_field as usize..h.offset_end as usize)
@@ -206,6 +214,12 @@ impl<'x> Context<'x> {
 
 impl HeaderVariable {
     fn eval_part<'x>(&self, header: &'x Header<'x>, raw: &'x [u8], result: &mut Vec<Variable>) {
+        if header.offset_end == 0 {
+            if let HeaderValue::Text(text) = &header.value {
+                return self.eval_inserted(&header.name, text, result);
+            }
+        }
+
         let var = match &self.part {
             HeaderPart::Text => match &header.value {
                 HeaderValue::Text(v) if self.include_single_part() => {
@@ -395,6 +409,28 @@ impl HeaderVariable {
         result.push(var.unwrap_or_default());
     }
 
+    /// Evaluates a header added by the script as if it had been received.
+    fn eval_inserted(&self, name: &HeaderName, text: &str, result: &mut Vec<Variable>) {
+        let field = format!("{}: {}\n", name.as_str(), text).into_bytes();
+        let offset_start = name.as_str().len() + 1;
+        let mut stream = MessageStream::new(&field[offset_start..]);
+        let header = Header {
+            name: name.clone(),
+            value: match &self.part {
+                HeaderPart::Address(_) => stream.parse_address(),
+                HeaderPart::Date => stream.parse_date(),
+                HeaderPart::Id => stream.parse_id(),
+                HeaderPart::ContentType(_) => stream.parse_content_type(),
+                HeaderPart::Received(_) => stream.parse_received(),
+                _ => HeaderValue::Text(text.into()),
+            },
+            offset_field: 0,
+            offset_start: offset_start as u32,
+            offset_end: field.len() as u32,
+        };
+        self.eval_part(&header, &field, result);
+    }
+
     #[inline(always)]
     fn include_single_part(&self) -> bool {
         [-1, 0, 1].contains(&self.index_part)
-- 
2.43.0


From 9fc6054e46c06dfb790fcca760dc0b38e728afb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:32 +0000
Subject: [PATCH 23/29] fix: an escaped backslash does not escape the next
 character

---
 src/compiler/lexer/tokenizer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/lexer/tokenizer.rs b/src/compiler/lexer/tokenizer.rs
index 5c8e591..b21fed8 100644
--- a/src/compiler/lexer/tokenizer.rs
+++ b/src/compiler/lexer/tokenizer.rs
@@ -460,6 +460,8 @@ impl Iterator for Tokenizer<'_> {
                     b'\\' => {
                         if last_ch == b'\\' {
                             self.push_byte(ch);
+                            // The escape sequence is complete
+                            self.last_ch = 0;
                         }
                     }
                     b'0'..=b'9' => {
-- 
2.43.0


From 0c804226126c838fc3bda55fd85a1f0bdb0ea79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:43 +0000
Subject: [PATCH 24/29] fix: addresses in the middle of a mailto URI count as
 recipients

---
 src/runtime/actions/action_notify.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/runtime/actions/action_notify.rs b/src/runtime/actions/action_notify.rs
index 9955293..2e518a9 100644
--- a/src/runtime/actions/action_notify.rs
+++ b/src/runtime/actions/action_notify.rs
@@ -499,6 +499,7 @@ fn parse_mailto(uri: &str) -> Option<MailtoMessage> {
                             header,
                             String::from_utf8(std::mem::take(&mut buf)).ok()?,
                         );
+                        has_addresses = true;
                     }
                     state = State::ParamName;
                 }
-- 
2.43.0


From cbd8ff03b384b083f9f7aa91a8f16bf44212dca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:46 +0000
Subject: [PATCH 25/29] fix: resolve :local variables in the content types of
 body tests

---
 src/compiler/grammar/instruction.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index 04f8142..29567bc 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -34,7 +34,7 @@ use super::{
     Capability, Clear, Invalid, While,
 };
 
-use super::tests::test_ihave::Error;
+use super::tests::{test_body::BodyTransform, test_ihave::Error};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
 #[cfg_attr(
@@ -1088,6 +1088,9 @@ impl MapLocalVars for Test {
             }
             Test::Body(v) => {
                 v.key_list.map_local_vars(last_id);
+                if let BodyTransform::Content(content_types) = &mut v.body_transform {
+                    content_types.map_local_vars(last_id);
+                }
             }
             Test::Convert(v) => {
                 v.from_media_type.map_local_vars(last_id);
-- 
2.43.0


From 7188271637a6853fa1074669c95e8f04678584c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:56 +0000
Subject: [PATCH 26/29] fix: line and column of an invalid instruction in error
 messages

---
 src/compiler/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/mod.rs b/src/compiler/mod.rs
index e62705f..f83f87f 100644
--- a/src/compiler/mod.rs
+++ b/src/compiler/mod.rs
@@ -578,8 +578,8 @@ impl Display for RuntimeError {
                 f,
                 "Script executed invalid instruction {:?} at line {}, column {}.",
                 value.name(),
-                value.line_pos(),
-                value.line_num()
+                value.line_num(),
+                value.line_pos()
             ),
             RuntimeError::ScriptErrorMessage(value) => {
                 write!(f, "Script reported error {value:?}.")
-- 
2.43.0


From a80b69c1dc5ec7d24b76799d59d071318c2b6049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:48 +0000
Subject: [PATCH 27/29] fix: letter case of the media type given to convert

---
 src/runtime/actions/action_convert.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/runtime/actions/action_convert.rs b/src/runtime/actions/action_convert.rs
index e0352db..b2de036 100644
--- a/src/runtime/actions/action_convert.rs
+++ b/src/runtime/actions/action_convert.rs
@@ -33,7 +33,9 @@ impl Convert {
         }
 
         let conversion = if (from_media_type.eq_ignore_ascii_case("text")
-            || from_media_type.starts_with("text/"))
+            || from_media_type
+                .get(..5)
+                .is_some_and(|t| t.eq_ignore_ascii_case("text/")))
             && to_media_type.eq_ignore_ascii_case("text/html")
         {
             if from_media_type.eq_ignore_ascii_case("text") {
-- 
2.43.0


From 9eeced943a99ea974acb611f9a6c4382f667d733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:28 +0000
Subject: [PATCH 28/29] fix: string lists in the arguments of unknown tests

---
 src/compiler/grammar/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/grammar/mod.rs b/src/compiler/grammar/mod.rs
index dba1559..f9a7ccc 100644
--- a/src/compiler/grammar/mod.rs
+++ b/src/compiler/grammar/mod.rs
@@ -234,10 +234,10 @@ impl CompilerState<'_> {
         let mut d_count = 0;
         while let Some(token_info) = self.tokens.peek() {
             match token_info?.token {
-                Token::ParenthesisOpen => {
+                Token::ParenthesisOpen | Token::BracketOpen => {
                     d_count += 1;
                 }
-                Token::ParenthesisClose => {
+                Token::ParenthesisClose | Token::BracketClose => {
                     if d_count == 0 {
                         break;
                     } else {
-- 
2.43.0


From fe121d2a882e03af7a34762b9713541533bab86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:13 +0000
Subject: [PATCH 29/29] fix: parameter names without a value in mailto URIs
 became header fields

---
 src/runtime/actions/action_notify.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/runtime/actions/action_notify.rs b/src/runtime/actions/action_notify.rs
index 2e518a9..adca216 100644
--- a/src/runtime/actions/action_notify.rs
+++ b/src/runtime/actions/action_notify.rs
@@ -540,11 +540,8 @@ fn parse_mailto(uri: &str) -> Option<MailtoMessage> {
                 insert_address(&mut params, header, value);
                 has_addresses = true;
             }
-            State::ParamName => {
-                params
-                    .headers
-                    .push((HeaderName::Other(value.into()), String::new()));
-            }
+            // A name alone has no value to send
+            State::ParamName => (),
             State::ParamValue(param) => match param {
                 Mailto::Header(header) => params.headers.push((header, value)),
                 Mailto::Body => params.body = value.into(),
-- 
2.43.0

