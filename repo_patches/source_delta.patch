From 7d143615f0f34285d34a588ce3efbf3b15b544ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:03 +0000
Subject: [PATCH 01/20] fix: Constants lexeme matches only constants that occur
 at the pointer

---
 src/lexeme/constants.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lexeme/constants.rs b/src/lexeme/constants.rs
index 7c03d57..d310d69 100644
--- a/src/lexeme/constants.rs
+++ b/src/lexeme/constants.rs
@@ -53,8 +53,12 @@ where
     ) -> Option<Lex<Self::Token>> {
         self.log_enter();
         let result = self.values.iter().rev().find_map(|(value, token)| {
-            let lex = Lex::new(token.clone(), pointer, pointer + value.len());
-            Some(lex)
+            if value.len() > 0 && code.value[pointer..].starts_with(value.as_bytes()) {
+                let lex = Lex::new(token.clone(), pointer, pointer + value.len());
+                Some(lex)
+            } else {
+                None
+            }
         });
         self.log_result(pointer, code, &result);
         result
-- 
2.43.0


From 289dfe750cfb5e7e591038bdb1d97713d5244e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:03 +0000
Subject: [PATCH 02/20] fix: FieldTree falls back to the longest registered
 prefix

---
 src/field_tree.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/field_tree.rs b/src/field_tree.rs
index 9297fc7..ee07bcb 100644
--- a/src/field_tree.rs
+++ b/src/field_tree.rs
@@ -34,8 +34,12 @@ impl<TToken: Clone> FieldTree<TToken> {
     pub fn find(&self, code_part: &[u8]) -> Option<(TToken, usize)> {
         let mut current_field = self;
         let mut index = 0;
+        let mut longest_match: Option<(TToken, usize)> = None;
 
         loop {
+            if let Some(t) = current_field.token.as_ref() {
+                longest_match = Some((t.clone(), index));
+            }
             if code_part.len() > index {
                 match current_field
                     .children
@@ -46,11 +50,11 @@ impl<TToken: Clone> FieldTree<TToken> {
                         current_field = &current_field.children[i].1;
                     }
                     Err(_) => {
-                        break current_field.token.as_ref().map(|t| (t.clone(), index));
+                        break longest_match;
                     }
                 }
             } else {
-                break current_field.token.as_ref().map(|t| (t.clone(), index));
+                break longest_match;
             }
         }
     }
-- 
2.43.0


From cba74dbb54f360d37af9e78e6e26cff8b9937782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:03 +0000
Subject: [PATCH 03/20] fix: Position from a code prefix counts the column from
 the last line break

---
 src/position.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/position.rs b/src/position.rs
index dfc3031..32c4c94 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -13,11 +13,11 @@ impl From<&[u8]> for Position {
     fn from(code: &[u8]) -> Self {
         let mut pointer: usize = 0;
         let mut line: usize = 0;
-        for c in code {
+        for (index, c) in code.iter().enumerate() {
             if *c == b'\n' {
                 line += 1;
+                pointer = index + 1;
             }
-            pointer += 1;
         }
         let s = unsafe { std::str::from_utf8_unchecked(&code[pointer..]) };
         Position::new(line + 1, s.len() + 1)
-- 
2.43.0


From 38dbaf3924ba5e115568a70750ca81700fb7400d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:03 +0000
Subject: [PATCH 04/20] fix: parse error reports the token at the furthest
 parsed point

---
 src/cache.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index 38b91a3..1caecd8 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -66,8 +66,7 @@ impl<TNode: NodeImpl> Cache<FltrPtr, TNode> {
         let pointer = match err {
             ProductionError::Unparsed => {
                 let failed_index = match stream.filtered_index_at(self.max_parsed_point) {
-                    Ok(i) => i + 1,
-                    Err(i) => i,
+                    Ok(i) | Err(i) => i,
                 };
 
                 match stream.get(failed_index) {
-- 
2.43.0


From e60f5e4af0ec2c42addb8ca741641838f9e65405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:03 +0000
Subject: [PATCH 05/20] fix: lexerless parse error message is valid UTF-8

---
 src/cache.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index 1caecd8..2715e47 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -121,11 +121,13 @@ impl<TToken> Cache<usize, TToken> {
                     let failed_index = self.get_index();
                     (
                         failed_index,
-                        format!("Unexpected '{}'.", unsafe {
-                            std::str::from_utf8_unchecked(
-                                &code.value[failed_index..failed_index + 1],
-                            )
-                        },),
+                        format!(
+                            "Unexpected '{}'.",
+                            String::from_utf8_lossy(&code.value[failed_index..])
+                                .chars()
+                                .next()
+                                .unwrap_or(char::REPLACEMENT_CHARACTER)
+                        ),
                     )
                 }
             }
-- 
2.43.0


From ad1d4d282ffec8cafc3852f74648fe3eb487e834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:03 +0000
Subject: [PATCH 06/20] fix: filtered_data_at looks the index up in the
 filtered stream

---
 src/filtered_stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filtered_stream.rs b/src/filtered_stream.rs
index dc2887a..bdfe2db 100644
--- a/src/filtered_stream.rs
+++ b/src/filtered_stream.rs
@@ -86,8 +86,8 @@ impl<'lex, TToken> TokenStream<'lex, TToken> {
             .filtered_stream
             .binary_search_by_key(&code_pointer, |s| self[*s].start)
         {
-            Ok(index) => Ok(&self.original_stream[index]),
-            Err(index) => Err(&self.original_stream[index]),
+            Ok(index) => Ok(&self[self.filtered_stream[index]]),
+            Err(index) => Err(&self[self.filtered_stream[index]]),
         }
     }
     pub fn pointer(&self, filtered_index: FltrPtr) -> usize {
-- 
2.43.0


From f961db0419968062f7792c65b1b72035edc1dd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:03 +0000
Subject: [PATCH 07/20] fix: has_stream is true for indices inside the stream

---
 src/filtered_stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filtered_stream.rs b/src/filtered_stream.rs
index bdfe2db..b504905 100644
--- a/src/filtered_stream.rs
+++ b/src/filtered_stream.rs
@@ -102,7 +102,7 @@ impl<'lex, TToken> TokenStream<'lex, TToken> {
     }
 
     pub fn has_stream(&self, index: FltrPtr) -> bool {
-        self.filtered_stream.len() < index.0
+        index.0 < self.filtered_stream.len()
     }
     pub fn eos_pointer(&self) -> usize {
         self.original_stream[self.original_stream.len() - 1].end
-- 
2.43.0


From c55b913235f75309359d8e99772036db98448d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:03 +0000
Subject: [PATCH 08/20] fix: Structural production starts at the first
 structural token not before the current token

---
 src/filtered_stream.rs                | 2 +-
 src/production/wrappers/structural.rs | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/filtered_stream.rs b/src/filtered_stream.rs
index b504905..c331073 100644
--- a/src/filtered_stream.rs
+++ b/src/filtered_stream.rs
@@ -147,7 +147,7 @@ impl<'lex, TToken> TokenStream<'lex, TToken> {
     pub fn find_filter_ptr(&self, index: TokenPtr) -> Result<FltrPtr, FltrPtr> {
         match self.filtered_stream.binary_search(&index) {
             Ok(i) => Ok(FltrPtr(i)),
-            Err(i) => Ok(FltrPtr(i)),
+            Err(i) => Err(FltrPtr(i)),
         }
     }
     pub fn last_segment_index(&self, lex_index: &FltrPtr) -> Option<TokenPtr> {
diff --git a/src/production/wrappers/structural.rs b/src/production/wrappers/structural.rs
index e9658f5..8fbdf38 100644
--- a/src/production/wrappers/structural.rs
+++ b/src/production/wrappers/structural.rs
@@ -112,8 +112,7 @@ impl<TProd: IProduction> IProduction for Structural<TProd> {
         self.log_entry();
 
         let next_fltr_ptr = match token_stream.find_filter_ptr(index) {
-            Ok(fp) => fp + 1,
-            Err(fp) => fp,
+            Ok(fp) | Err(fp) => fp,
         };
 
         let parsed_data =
-- 
2.43.0


From 4b94f6a7685641a76141d18e2c12e33aa82dad83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:03 +0000
Subject: [PATCH 09/20] fix: raw tokens before the first structural token are
 not skipped at the stream start

---
 src/production/non_terminals/suffixes.rs  | 6 ++----
 src/production/non_terminals/union.rs     | 6 ++----
 src/production/wrappers/non_structural.rs | 4 ++--
 src/production/wrappers/structural.rs     | 6 +++---
 4 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/production/non_terminals/suffixes.rs b/src/production/non_terminals/suffixes.rs
index 3d5935c..b5e9019 100644
--- a/src/production/non_terminals/suffixes.rs
+++ b/src/production/non_terminals/suffixes.rs
@@ -291,14 +291,12 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
             }
             Err(_) => {
                 if !is_structural {
-                    let last_token_ptr = if moved_ptr > FltrPtr::default() {
-                        token_stream.get_token_ptr(moved_ptr - 1)
+                    let current_token_ptr = if moved_ptr > FltrPtr::default() {
+                        token_stream.get_token_ptr(moved_ptr - 1) + 1
                     } else {
                         TokenPtr::default()
                     };
 
-                    let current_token_ptr = last_token_ptr + 1;
-
                     let current_token_lex = &token_stream[current_token_ptr];
 
                     if !current_token_lex.token.is_structural() {
diff --git a/src/production/non_terminals/union.rs b/src/production/non_terminals/union.rs
index abf7057..19a0347 100644
--- a/src/production/non_terminals/union.rs
+++ b/src/production/non_terminals/union.rs
@@ -238,14 +238,12 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Union<TN, TL> {
             }
             Err(_) => {
                 if !is_structural {
-                    let last_token_ptr = if fltr_ptr > FltrPtr::default() {
-                        token_stream.get_token_ptr(fltr_ptr - 1)
+                    let current_token_ptr = if fltr_ptr > FltrPtr::default() {
+                        token_stream.get_token_ptr(fltr_ptr - 1) + 1
                     } else {
                         TokenPtr::default()
                     };
 
-                    let current_token_ptr = last_token_ptr + 1;
-
                     let current_token_lex = &token_stream[current_token_ptr];
 
                     if !current_token_lex.token.is_structural() {
diff --git a/src/production/wrappers/non_structural.rs b/src/production/wrappers/non_structural.rs
index 42ef336..662b7b1 100644
--- a/src/production/wrappers/non_structural.rs
+++ b/src/production/wrappers/non_structural.rs
@@ -98,14 +98,14 @@ impl<TProd: IProduction> IProduction for NonStructural<TProd> {
         self.log_entry();
 
         let start_segment = if fltr_ptr > FltrPtr::default() {
-            token_stream.get_token_ptr(fltr_ptr - 1)
+            token_stream.get_token_ptr(fltr_ptr - 1) + 1
         } else {
             TokenPtr::default()
         };
 
         let parsed_data =
             self.get_symbol()
-                .advance_token_ptr(code, start_segment + 1, token_stream, cache)?;
+                .advance_token_ptr(code, start_segment, token_stream, cache)?;
 
         let result = if self.fill_range {
             let end_segment = token_stream.get_token_ptr(fltr_ptr);
diff --git a/src/production/wrappers/structural.rs b/src/production/wrappers/structural.rs
index 8fbdf38..5f9033a 100644
--- a/src/production/wrappers/structural.rs
+++ b/src/production/wrappers/structural.rs
@@ -126,13 +126,13 @@ impl<TProd: IProduction> IProduction for Structural<TProd> {
             token_stream[parsed_data.consumed_index].start,
         );
 
-        let last_token_ptr = if parsed_data.consumed_index > FltrPtr::default() {
-            token_stream.get_token_ptr(parsed_data.consumed_index - 1)
+        let next_token_ptr = if parsed_data.consumed_index > FltrPtr::default() {
+            token_stream.get_token_ptr(parsed_data.consumed_index - 1) + 1
         } else {
             TokenPtr::default()
         };
 
-        Ok(SuccessData::new(last_token_ptr + 1, parsed_data.children))
+        Ok(SuccessData::new(next_token_ptr, parsed_data.children))
     }
 
     fn advance_ptr(
-- 
2.43.0


From 903011de356c462c517207b036cfb41cfd2e1977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:01 +0000
Subject: [PATCH 10/20] fix: grammar validation walks every reachable
 production

---
 src/production/mod.rs                    |  2 ++
 src/production/non_terminals/concat.rs   | 12 +++----
 src/production/non_terminals/mod.rs      | 41 +++++++++++++++++++-----
 src/production/non_terminals/suffixes.rs | 12 +++----
 src/production/non_terminals/union.rs    | 12 +++----
 5 files changed, 50 insertions(+), 29 deletions(-)

diff --git a/src/production/mod.rs b/src/production/mod.rs
index e135b94..6ed4fb8 100644
--- a/src/production/mod.rs
+++ b/src/production/mod.rs
@@ -196,6 +196,7 @@ mod terminals;
 mod wrappers;
 use once_cell::unsync::OnceCell;
 use regex::bytes::Regex;
+use std::cell::Cell;
 use std::{marker::PhantomData, rc::Rc};
 
 #[cfg(test)]
@@ -280,6 +281,7 @@ struct NTHelper {
     identifier: &'static str,
     nullability: OnceCell<bool>,
     null_hidden: OnceCell<bool>,
+    validating: Cell<bool>,
     debugger: OnceCell<Log<&'static str>>,
 }
 
diff --git a/src/production/non_terminals/concat.rs b/src/production/non_terminals/concat.rs
index 8f4e7f6..8725163 100644
--- a/src/production/non_terminals/concat.rs
+++ b/src/production/non_terminals/concat.rs
@@ -190,13 +190,11 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Concat<TN, TL> {
 
     fn validate<'id>(
         &'id self,
-        mut connected_set: HashMap<&'id str, usize>,
+        connected_set: HashMap<&'id str, usize>,
         visited_prod: &mut HashSet<&'id str>,
     ) -> Result<(), ImplementationError> {
-        if !self
-            .nt_helper
-            .has_visited(&mut connected_set, visited_prod)?
-        {
+        self.nt_helper
+            .validate_symbols(connected_set, visited_prod, |connected_set, visited_prod| {
             if self.symbols.get().is_none() {
                 return Err(ImplementationError::new(
                     "InitializationError".into(),
@@ -216,8 +214,8 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Concat<TN, TL> {
                     prod.validate(HashMap::new(), visited_prod)?;
                 }
             }
-        }
-        Ok(())
+            Ok(())
+        })
     }
 
     fn advance_fltr_ptr(
diff --git a/src/production/non_terminals/mod.rs b/src/production/non_terminals/mod.rs
index bbb804b..fbd962f 100644
--- a/src/production/non_terminals/mod.rs
+++ b/src/production/non_terminals/mod.rs
@@ -2,6 +2,7 @@ use super::{NTHelper, ProductionLogger};
 use crate::{ImplementationError, Log};
 use once_cell::unsync::OnceCell;
 use std::{
+    cell::Cell,
     collections::{HashMap, HashSet},
     fmt::Write,
 };
@@ -38,6 +39,7 @@ impl NTHelper {
             identifier,
             nullability: OnceCell::new(),
             null_hidden: OnceCell::new(),
+            validating: Cell::new(false),
             debugger: OnceCell::new(),
         }
     }
@@ -60,22 +62,45 @@ impl NTHelper {
     fn has_visited<'id>(
         &'id self,
         connected_set: &mut HashMap<&'id str, usize>,
-        visited_prod: &mut HashSet<&'id str>,
+        visited_prod: &HashSet<&'id str>,
     ) -> Result<bool, ImplementationError> {
         if connected_set.contains_key(self.identifier) {
             Err(ImplementationError::new(
                 "LeftRecursion.".to_string(),
                 build_circular_format(self.identifier, &connected_set),
             ))
+        } else if visited_prod.contains(self.identifier)
+            || (connected_set.is_empty() && self.validating.get())
+        {
+            Ok(true)
         } else {
-            if visited_prod.insert(self.identifier) {
-                let l = connected_set.len();
-                connected_set.insert(self.identifier, l);
-                Ok(true)
-            } else {
-                Ok(false)
-            }
+            let l = connected_set.len();
+            connected_set.insert(self.identifier, l);
+            Ok(false)
+        }
+    }
+
+    /// Run the validation of the symbols once for each chain of productions which does not consume input.
+    fn validate_symbols<'id, F>(
+        &'id self,
+        mut connected_set: HashMap<&'id str, usize>,
+        visited_prod: &mut HashSet<&'id str>,
+        validate: F,
+    ) -> Result<(), ImplementationError>
+    where
+        F: FnOnce(
+            HashMap<&'id str, usize>,
+            &mut HashSet<&'id str>,
+        ) -> Result<(), ImplementationError>,
+    {
+        if !self.has_visited(&mut connected_set, visited_prod)? {
+            let is_validating = self.validating.replace(true);
+            let result = validate(connected_set, visited_prod);
+            self.validating.set(is_validating);
+            result?;
+            visited_prod.insert(self.identifier);
         }
+        Ok(())
     }
     fn assign_debugger(&self, debugger: Log<&'static str>) -> Result<(), String> {
         self.debugger
diff --git a/src/production/non_terminals/suffixes.rs b/src/production/non_terminals/suffixes.rs
index b5e9019..3cbb593 100644
--- a/src/production/non_terminals/suffixes.rs
+++ b/src/production/non_terminals/suffixes.rs
@@ -231,13 +231,11 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
 
     fn validate<'id>(
         &'id self,
-        mut connected_set: HashMap<&'id str, usize>,
+        connected_set: HashMap<&'id str, usize>,
         visited_prod: &mut HashSet<&'id str>,
     ) -> Result<(), ImplementationError> {
-        if !self
-            .nt_helper
-            .has_visited(&mut connected_set, visited_prod)?
-        {
+        self.nt_helper
+            .validate_symbols(connected_set, visited_prod, |connected_set, visited_prod| {
             if self.suffixes.get().is_none() {
                 return Err(ImplementationError::new(
                     "InitializationError".into(),
@@ -258,8 +256,8 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
                     prod.validate(HashMap::new(), visited_prod)?;
                 }
             }
-        }
-        Ok(())
+            Ok(())
+        })
     }
 
     fn advance_fltr_ptr(
diff --git a/src/production/non_terminals/union.rs b/src/production/non_terminals/union.rs
index 19a0347..c49f40c 100644
--- a/src/production/non_terminals/union.rs
+++ b/src/production/non_terminals/union.rs
@@ -191,13 +191,11 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Union<TN, TL> {
 
     fn validate<'id>(
         &'id self,
-        mut connected_set: HashMap<&'id str, usize>,
+        connected_set: HashMap<&'id str, usize>,
         visited_prod: &mut HashSet<&'id str>,
     ) -> Result<(), ImplementationError> {
-        if !self
-            .nt_helper
-            .has_visited(&mut connected_set, visited_prod)?
-        {
+        self.nt_helper
+            .validate_symbols(connected_set, visited_prod, |connected_set, visited_prod| {
             if self.symbols.get().is_none() {
                 return Err(ImplementationError::new(
                     "InitializationError".into(),
@@ -210,8 +208,8 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Union<TN, TL> {
             for prod in self.get_productions() {
                 prod.validate(connected_set.clone(), visited_prod)?;
             }
-        }
-        Ok(())
+            Ok(())
+        })
     }
 
     fn advance_fltr_ptr(
-- 
2.43.0


From 176c1f9b4d78287dd4f0ed4a1baaf1babb754009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:01 +0000
Subject: [PATCH 11/20] fix: Suffixes validates every suffix and detects a left
 recursion through its left part

---
 src/production/non_terminals/suffixes.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/production/non_terminals/suffixes.rs b/src/production/non_terminals/suffixes.rs
index 3cbb593..39ca2e7 100644
--- a/src/production/non_terminals/suffixes.rs
+++ b/src/production/non_terminals/suffixes.rs
@@ -174,7 +174,7 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
         match self.nt_helper.nullability.get() {
             Some(t) => Ok(*t),
             None => {
-                let is_nullable = self.left.is_nullable() && {
+                let is_nullable = self.left.obtain_nullability(visited.clone())? && {
                     let standalone_or_nullable = self.standalone || {
                         let mut is_nullable = false;
                         for (prod, _) in self.get_suffixes() {
@@ -247,11 +247,10 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
             }
 
             self.left.validate(connected_set.clone(), visited_prod)?;
-            let mut is_nullable: bool = self.left.obtain_nullability(HashMap::new())?;
+            let is_nullable: bool = self.left.obtain_nullability(HashMap::new())?;
             for (prod, _) in self.get_suffixes() {
                 if is_nullable {
                     prod.validate(connected_set.clone(), visited_prod)?;
-                    is_nullable = prod.obtain_nullability(HashMap::new())?;
                 } else {
                     prod.validate(HashMap::new(), visited_prod)?;
                 }
-- 
2.43.0


From 8c1f4b8c60a3c2c0904e7967fd01df2e3033903d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:01 +0000
Subject: [PATCH 12/20] fix: SeparatedList validates its production before
 asking for its nullability

---
 src/production/wrappers/separated_list.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/production/wrappers/separated_list.rs b/src/production/wrappers/separated_list.rs
index ace2f80..1773ddf 100644
--- a/src/production/wrappers/separated_list.rs
+++ b/src/production/wrappers/separated_list.rs
@@ -139,14 +139,14 @@ impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> IProd
         visited_prod: &mut HashSet<&'id str>,
     ) -> Result<(), ImplementationError> {
         // vps.push(&self.separator);
-        if self.get_production().obtain_nullability(HashMap::new())? {
-            self.get_production()
-                .validate(connected_sets.clone(), visited_prod)?;
+        self.get_production()
+            .validate(connected_sets.clone(), visited_prod)?;
+        if !connected_sets.is_empty()
+            && self.get_production().obtain_nullability(HashMap::new())?
+        {
             self.get_separator()
                 .validate(connected_sets, visited_prod)?;
         } else {
-            self.get_production()
-                .validate(connected_sets, visited_prod)?;
             self.get_separator()
                 .validate(HashMap::new(), visited_prod)?;
         }
-- 
2.43.0


From 319ffd82d98d1ca322a4c94ba94b2d5ce7fcab0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:01 +0000
Subject: [PATCH 13/20] fix: SeparatedList is nullable whenever its production
 is nullable

---
 src/production/wrappers/separated_list.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/production/wrappers/separated_list.rs b/src/production/wrappers/separated_list.rs
index 1773ddf..9c7c7fc 100644
--- a/src/production/wrappers/separated_list.rs
+++ b/src/production/wrappers/separated_list.rs
@@ -264,19 +264,18 @@ impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> IProd
     }
 
     fn is_nullable(&self) -> bool {
-        self.production.is_nullable() && self.separator.is_nullable()
+        self.production.is_nullable()
     }
 
     fn is_nullable_n_hidden(&self) -> bool {
-        self.production.is_nullable_n_hidden() && self.separator.is_nullable_n_hidden()
+        self.production.is_nullable_n_hidden()
     }
 
     fn obtain_nullability<'id>(
         &'id self,
         visited: HashMap<&'id str, usize>,
     ) -> Result<bool, ImplementationError> {
-        Ok(self.production.obtain_nullability(visited.clone())?
-            && self.separator.obtain_nullability(visited)?)
+        self.production.obtain_nullability(visited)
     }
 
     fn impl_first_set(&self, first_set: &mut HashSet<Self::Token>) {
-- 
2.43.0


From 3d3489adcaa6646918e45773dbdeb38eb920e6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:01 +0000
Subject: [PATCH 14/20] fix: SeparatedList terminates when an iteration does
 not consume input

---
 src/production/wrappers/separated_list.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/production/wrappers/separated_list.rs b/src/production/wrappers/separated_list.rs
index 9c7c7fc..cc0a4f6 100644
--- a/src/production/wrappers/separated_list.rs
+++ b/src/production/wrappers/separated_list.rs
@@ -38,7 +38,7 @@ impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> Separ
     }
 
     fn consume<
-        T: Copy,
+        T: PartialEq + Copy,
         TCache: Copy + Default + Eq + Hash + Ord,
         P: Fn(T, &mut Cache<TCache, TP::Node>) -> ParsedResult<T, TP::Node>,
         S: Fn(T, &mut Cache<TCache, TP::Node>) -> ParsedResult<T, TP::Node>,
@@ -58,6 +58,9 @@ impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> Separ
                 Ok(separator_success_data) => {
                     match parse_production(separator_success_data.consumed_index, cache) {
                         Ok(next_success_data) => {
+                            if moved_ptr == next_success_data.consumed_index {
+                                break Ok(SuccessData::new(moved_ptr, children));
+                            }
                             children.extend(separator_success_data.children);
                             children.extend(next_success_data.children);
                             moved_ptr = next_success_data.consumed_index;
-- 
2.43.0


From 0d7ac19ca82a5fbd1e8f3702a97b52d12ede2b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:01 +0000
Subject: [PATCH 15/20] fix: is_nullable_n_hidden is true exactly for
 productions whose empty match has no node

---
 src/production/terminals/null.rs          | 2 +-
 src/production/wrappers/cache.rs          | 2 +-
 src/production/wrappers/look_ahead.rs     | 4 ++--
 src/production/wrappers/non_structural.rs | 2 +-
 src/production/wrappers/nullable.rs       | 4 +++-
 src/production/wrappers/structural.rs     | 2 +-
 6 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/production/terminals/null.rs b/src/production/terminals/null.rs
index dfae4b1..55caf47 100644
--- a/src/production/terminals/null.rs
+++ b/src/production/terminals/null.rs
@@ -71,7 +71,7 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for NullProd<TN, TL> {
 
     fn impl_first_set<'prod>(&'prod self, _: &mut HashSet<Self::Token>) {}
     fn is_nullable_n_hidden(&self) -> bool {
-        false
+        self.node_value.is_none()
     }
 
     fn validate(
diff --git a/src/production/wrappers/cache.rs b/src/production/wrappers/cache.rs
index cc8558c..3d636cb 100644
--- a/src/production/wrappers/cache.rs
+++ b/src/production/wrappers/cache.rs
@@ -64,7 +64,7 @@ impl<TProd: IProduction> IProduction for Cacheable<TProd> {
         self.production.impl_first_set(first_set)
     }
     fn is_nullable_n_hidden(&self) -> bool {
-        true
+        self.get_production().is_nullable_n_hidden()
     }
 
     #[inline]
diff --git a/src/production/wrappers/look_ahead.rs b/src/production/wrappers/look_ahead.rs
index b6b9563..8bb3962 100644
--- a/src/production/wrappers/look_ahead.rs
+++ b/src/production/wrappers/look_ahead.rs
@@ -55,7 +55,7 @@ impl<TProd: IProduction> IProduction for Lookahead<TProd> {
 
     #[inline]
     fn is_nullable(&self) -> bool {
-        false
+        self.get_production().is_nullable()
     }
 
     fn impl_grammar(
@@ -77,7 +77,7 @@ impl<TProd: IProduction> IProduction for Lookahead<TProd> {
         self.production.impl_first_set(first_set)
     }
     fn is_nullable_n_hidden(&self) -> bool {
-        true
+        self.is_nullable() && self.node_value.is_none()
     }
 
     #[inline]
diff --git a/src/production/wrappers/non_structural.rs b/src/production/wrappers/non_structural.rs
index 662b7b1..2046779 100644
--- a/src/production/wrappers/non_structural.rs
+++ b/src/production/wrappers/non_structural.rs
@@ -75,7 +75,7 @@ impl<TProd: IProduction> IProduction for NonStructural<TProd> {
         self.production.impl_first_set(first_set)
     }
     fn is_nullable_n_hidden(&self) -> bool {
-        self.production.is_nullable()
+        self.production.is_nullable_n_hidden()
     }
 
     #[inline]
diff --git a/src/production/wrappers/nullable.rs b/src/production/wrappers/nullable.rs
index 78a9cb8..e74347a 100644
--- a/src/production/wrappers/nullable.rs
+++ b/src/production/wrappers/nullable.rs
@@ -91,7 +91,9 @@ impl<TProd: IProduction> IProduction for Nullable<TProd> {
     }
 
     fn is_nullable_n_hidden(&self) -> bool {
-        false
+        self.node_value.is_none()
+            && (!self.get_production().is_nullable()
+                || self.get_production().is_nullable_n_hidden())
     }
 
     #[inline]
diff --git a/src/production/wrappers/structural.rs b/src/production/wrappers/structural.rs
index 5f9033a..2017006 100644
--- a/src/production/wrappers/structural.rs
+++ b/src/production/wrappers/structural.rs
@@ -72,7 +72,7 @@ impl<TProd: IProduction> IProduction for Structural<TProd> {
         self.production.impl_first_set(first_set)
     }
     fn is_nullable_n_hidden(&self) -> bool {
-        self.production.is_nullable()
+        self.production.is_nullable_n_hidden()
     }
 
     #[inline]
-- 
2.43.0


From a02b3af3c088b642bc9bed67a4499758ffb4f794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:01 +0000
Subject: [PATCH 16/20] fix: ConstantFieldSet can be validated

---
 src/production/terminals/constant_field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/production/terminals/constant_field.rs b/src/production/terminals/constant_field.rs
index e188046..b5c8aa2 100644
--- a/src/production/terminals/constant_field.rs
+++ b/src/production/terminals/constant_field.rs
@@ -306,6 +306,6 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for ConstantFieldSet<TN, TL> {
         _: HashMap<&'id str, usize>,
         _: &mut HashSet<&'id str>,
     ) -> Result<(), crate::ImplementationError> {
-        todo!()
+        Ok(())
     }
 }
-- 
2.43.0


From 96c5eafc48442d87f1961d5249d10db9eecfc05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:01 +0000
Subject: [PATCH 17/20] fix: Structural production does not move the raw token
 pointer backwards

---
 src/production/wrappers/structural.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/production/wrappers/structural.rs b/src/production/wrappers/structural.rs
index 2017006..1de91d4 100644
--- a/src/production/wrappers/structural.rs
+++ b/src/production/wrappers/structural.rs
@@ -132,7 +132,10 @@ impl<TProd: IProduction> IProduction for Structural<TProd> {
             TokenPtr::default()
         };
 
-        Ok(SuccessData::new(next_token_ptr, parsed_data.children))
+        Ok(SuccessData::new(
+            next_token_ptr.max(index),
+            parsed_data.children,
+        ))
     }
 
     fn advance_ptr(
-- 
2.43.0


From a752f9673a5a2642973ce6a67e0bba4fd2cb2fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:09 +0000
Subject: [PATCH 18/20] verification hook: constructor for cache keys behind
 cfg(vf_hooks)

---
 src/cache.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cache.rs b/src/cache.rs
index 2715e47..c4fe18d 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -141,3 +141,12 @@ impl<TToken> Cache<usize, TToken> {
         ParseError::new(pointer, error_message)
     }
 }
+
+#[allow(unexpected_cfgs)]
+#[cfg(vf_hooks)]
+impl CacheKey {
+    /// Verification hook: create a cache key outside the crate.
+    pub fn vf_new(key: usize) -> Self {
+        Self(key)
+    }
+}
-- 
2.43.0


From 7ac7a688b8b6c08986c8e6f662943451467f53eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:02 +0000
Subject: [PATCH 19/20] fix: a Suffixes with an empty suffix always forms a
 node

---
 src/production/non_terminals/suffixes.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/production/non_terminals/suffixes.rs b/src/production/non_terminals/suffixes.rs
index 39ca2e7..beb3c0e 100644
--- a/src/production/non_terminals/suffixes.rs
+++ b/src/production/non_terminals/suffixes.rs
@@ -160,10 +160,11 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
     }
 
     fn is_nullable_n_hidden(&self) -> bool {
-        *self
-            .nt_helper
-            .null_hidden
-            .get_or_init(|| self.standalone && self.left.is_nullable_n_hidden())
+        *self.nt_helper.null_hidden.get_or_init(|| {
+            self.standalone
+                && self.obtain_first_null_suffix().is_none()
+                && self.left.is_nullable_n_hidden()
+        })
     }
 
     fn obtain_nullability<'id>(
-- 
2.43.0


From 2fd6c7c54a300c7e39c75c29e1d728bc6e232942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 20/20] fix: error report for a token that is not valid UTF-8
 does not panic

---
 src/cache.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index c4fe18d..2d2b710 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -74,11 +74,9 @@ impl<TNode: NodeImpl> Cache<FltrPtr, TNode> {
                         if lex_data.token == TL::eof() {
                             writeln!(error_message, "Unexpected end of file.").unwrap();
                         } else {
-                            let s = unsafe {
-                                std::str::from_utf8_unchecked(
-                                    &code.value[lex_data.start..lex_data.end],
-                                )
-                            };
+                            let s = String::from_utf8_lossy(
+                                &code.value[lex_data.start..lex_data.end],
+                            );
                             if cfg!(debug_assertions) {
                                 writeln!(
                                     error_message,
-- 
2.43.0

