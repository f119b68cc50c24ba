From 49e9c10e54e11b6df34e20370040fb81fb9196ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 1/9] fix: slice escaped strings at byte offsets, not char
 counts

---
 src/value/escape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value/escape.rs b/src/value/escape.rs
index 5a32f63..ae5ee4a 100644
--- a/src/value/escape.rs
+++ b/src/value/escape.rs
@@ -19,7 +19,7 @@ pub enum Error {
 }
 
 pub fn escape(string: &str) -> Result<Cow<'_, str>, Error> {
-    let mut chars = string.chars().enumerate();
+    let mut chars = string.char_indices();
     let mut output = Cow::from(string);
     while let Some((i, ch)) = chars.next() {
         match ch {
-- 
2.43.0


From 9c7f4995901b53629e5fe52eadda8cfa758b813d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 2/9] fix: keep already chained errors in Error::chain

---
 src/error.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 75168e0..654df06 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -234,7 +234,12 @@ impl Error {
     /// assert_eq!(unchained, vec!["1", "2", "3"]);
     /// ```
     pub fn chain(self, mut error: Error) -> Self {
-        error.prev = Some(Box::new(self));
+        let mut last = &mut error.prev;
+        while let Some(prev) = last {
+            last = &mut prev.prev;
+        }
+
+        *last = Some(Box::new(self));
         error
     }
 
-- 
2.43.0


From 5ffce2a60e485e1ddf03a87d2ae283312d7bd8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 3/9] fix: put the requested path first in errors from inner
 extraction

---
 src/error.rs   | 6 ++++++
 src/figment.rs | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 654df06..327b4f8 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -146,6 +146,12 @@ impl Error {
         self
     }
 
+    pub(crate) fn prefixed_path(self, path: &str) -> Self {
+        path.rsplit('.')
+            .filter(|v| !v.is_empty())
+            .fold(self, |e, key| e.prefixed(key))
+    }
+
     pub(crate) fn retagged(mut self, tag: Tag) -> Self {
         if self.tag.is_default() {
             self.tag = tag;
diff --git a/src/figment.rs b/src/figment.rs
index 76d0277..9ae4f52 100644
--- a/src/figment.rs
+++ b/src/figment.rs
@@ -569,7 +569,7 @@ impl Figment {
     pub fn extract_inner<'a, T: Deserialize<'a>>(&self, path: &str) -> Result<T> {
         let value = self.find_value(path)?;
         let de = ConfiguredValueDe::<'_, DefaultInterpreter>::from(self, &value);
-        T::deserialize(de).map_err(|e| e.with_path(path))
+        T::deserialize(de).map_err(|e| e.prefixed_path(path))
     }
 
     /// As [`extract`](Figment::extract_lossy), but interpret numbers and
@@ -603,7 +603,7 @@ impl Figment {
     pub fn extract_inner_lossy<'a, T: Deserialize<'a>>(&self, path: &str) -> Result<T> {
         let value = self.find_value(path)?;
         let de = ConfiguredValueDe::<'_, LossyInterpreter>::from(self, &value);
-        T::deserialize(de).map_err(|e| e.with_path(path))
+        T::deserialize(de).map_err(|e| e.prefixed_path(path))
     }
 
     /// Returns an iterator over the metadata for all of the collected values in
-- 
2.43.0


From ec6bbd6f759d351448dc9cfd1d260757b301719a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:44 +0000
Subject: [PATCH 4/9] fix: keep the lowercase setting when chaining Env filters
 and maps

---
 src/providers/env.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/providers/env.rs b/src/providers/env.rs
index 64c8965..4005dd6 100644
--- a/src/providers/env.rs
+++ b/src/providers/env.rs
@@ -136,7 +136,7 @@ impl Env {
             filter_map: Box::new(move |key| f(filter_map(key))),
             profile: self.profile,
             prefix: self.prefix,
-            lowercase: true,
+            lowercase: self.lowercase,
         }
     }
 
-- 
2.43.0


From cab5fa617a5554aeedb4bc444900c7af1cbd22d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 5/9] fix: support 128-bit integers when deserializing values

---
 src/value/de.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/value/de.rs b/src/value/de.rs
index b4ceb6f..2eff906 100644
--- a/src/value/de.rs
+++ b/src/value/de.rs
@@ -167,6 +167,7 @@ impl<'de: 'c, 'c, I: Interpreter> Deserializer<'de> for ConfiguredValueDe<'c, I>
             |de| I::interpret_as_bool(de.value),
             |e| e.retagged(de.value.tag()).resolved(de.config),
         deserialize_u8, deserialize_u16, deserialize_u32, deserialize_u64,
+        deserialize_u128, deserialize_i128,
         deserialize_i8, deserialize_i16, deserialize_i32, deserialize_i64,
         deserialize_f32, deserialize_f64 =>
             |de| I::interpret_as_num(de.value),
@@ -323,7 +324,7 @@ impl<'de> Deserializer<'de> for &Value {
     }
 
     serde::forward_to_deserialize_any! {
-        bool u8 u16 u32 u64 i8 i16 i32 i64 f32 f64 char str
+        bool u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 f32 f64 char str
         string seq bytes byte_buf map unit struct
         ignored_any unit_struct tuple_struct tuple identifier
     }
@@ -346,12 +347,18 @@ impl<'de> Deserializer<'de> for Num {
             Num::U16(n) => visitor.visit_u16(n),
             Num::U32(n) => visitor.visit_u32(n),
             Num::U64(n) => visitor.visit_u64(n),
-            Num::U128(n) => visitor.visit_u128(n),
+            Num::U128(n) => {
+                int_try!(n; u128 => u64 => visitor.visit_u64);
+                visitor.visit_u128(n)
+            }
             Num::I8(n) => visitor.visit_i8(n),
             Num::I16(n) => visitor.visit_i16(n),
             Num::I32(n) => visitor.visit_i32(n),
             Num::I64(n) => visitor.visit_i64(n),
-            Num::I128(n) => visitor.visit_i128(n),
+            Num::I128(n) => {
+                int_try!(n; i128 => i64 => visitor.visit_i64);
+                visitor.visit_i128(n)
+            }
             Num::F32(n) => visitor.visit_f32(n),
             Num::F64(n) => visitor.visit_f64(n),
             Num::ISize(n) => {
@@ -374,7 +381,7 @@ impl<'de> Deserializer<'de> for Num {
     }
 
     serde::forward_to_deserialize_any! {
-        bool u8 u16 u32 u64 i8 i16 i32 i64 f32 f64 char str string seq enum
+        bool u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 f32 f64 char str string seq enum
         bytes byte_buf map struct unit newtype_struct
         ignored_any unit_struct tuple_struct tuple option identifier
     }
@@ -393,7 +400,7 @@ impl<'de> Deserializer<'de> for Empty {
     }
 
     serde::forward_to_deserialize_any! {
-        bool u8 u16 u32 u64 i8 i16 i32 i64 f32 f64 char str string seq enum
+        bool u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 f32 f64 char str string seq enum
         bytes byte_buf map struct unit newtype_struct
         ignored_any unit_struct tuple_struct tuple option identifier
     }
-- 
2.43.0


From 24619a46213bbc39f217ec8979b4ba6d4ec3e42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:57 +0000
Subject: [PATCH 6/9] fix: parse dotted numbers as f64, as documented, not as
 f32

---
 src/value/value.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/value/value.rs b/src/value/value.rs
index 3d95af8..162d4bb 100644
--- a/src/value/value.rs
+++ b/src/value/value.rs
@@ -515,11 +515,7 @@ impl FromStr for Num {
     fn from_str(string: &str) -> Result<Self, Self::Err> {
         let string = string.trim();
         if string.contains('.') {
-            if string.len() <= (f32::DIGITS as usize + 1) {
-                Ok(string.parse::<f32>().map_err(Either::Right)?.into())
-            } else {
-                Ok(string.parse::<f64>().map_err(Either::Right)?.into())
-            }
+            Ok(string.parse::<f64>().map_err(Either::Right)?.into())
         } else if string.starts_with('-') {
             let int = string.parse::<i128>().map_err(Either::Left)?;
             try_convert![int => i8, i16, i32, i64];
-- 
2.43.0


From d4c04f3127b6186b7b2f20e147c9d1644c194e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:27 +0000
Subject: [PATCH 7/9] fix: leave pseudo-fields of magic values out of error
 paths

---
 src/error.rs    | 10 ++++++++++
 src/value/de.rs |  6 ++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 327b4f8..ed7ed50 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -152,6 +152,16 @@ impl Error {
             .fold(self, |e, key| e.prefixed(key))
     }
 
+    /// Removes the leading path component if it is one of the fields `fields`
+    /// of a magic value's pseudo-structure: it isn't part of the key's path.
+    pub(crate) fn unprefixed(mut self, fields: &[&str]) -> Self {
+        if self.path.first().map_or(false, |key| fields.contains(&&**key)) {
+            self.path.remove(0);
+        }
+
+        self
+    }
+
     pub(crate) fn retagged(mut self, tag: Tag) -> Self {
         if self.tag.is_default() {
             self.tag = tag;
diff --git a/src/value/de.rs b/src/value/de.rs
index 2eff906..3b314b1 100644
--- a/src/value/de.rs
+++ b/src/value/de.rs
@@ -113,8 +113,10 @@ impl<'de: 'c, 'c, I: Interpreter> Deserializer<'de> for ConfiguredValueDe<'c, I>
         let (config, tag) = (self.config, self.value.tag());
         let result = match name {
             Value::NAME => Value::deserialize_from(self, visitor),
-            RelativePathBuf::NAME => RelativePathBuf::deserialize_from(self, visitor),
-            Tagged::<()>::NAME => Tagged::<()>::deserialize_from(self, visitor),
+            RelativePathBuf::NAME => RelativePathBuf::deserialize_from(self, visitor)
+                .map_err(|e| e.unprefixed(RelativePathBuf::FIELDS)),
+            Tagged::<()>::NAME => Tagged::<()>::deserialize_from(self, visitor)
+                .map_err(|e| e.unprefixed(Tagged::<()>::FIELDS)),
             // SelectedProfile::NAME => SelectedProfile::deserialize_from(self, visitor),
             _ => self.deserialize_any(visitor)
         };
-- 
2.43.0


From 8c79fc91fd4c22eaf3b8e4843241fc9d5f74b7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:53 +0000
Subject: [PATCH 8/9] fix: let jail paths that resolve to the jail itself
 through

---
 src/jail.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/jail.rs b/src/jail.rs
index 4dea3ba..d8f0df8 100644
--- a/src/jail.rs
+++ b/src/jail.rs
@@ -159,7 +159,11 @@ impl Jail {
     }
 
     fn safe_jailed_path(&self, path: &Path) -> Result<PathBuf> {
-        let path = dedot(path);
+        let mut path = dedot(path);
+        if path.as_os_str().is_empty() {
+            path.push(".");
+        }
+
         if path.is_absolute() && path.starts_with(self.directory()) {
             return Ok(path);
         }
-- 
2.43.0


From 19f3662b6ade00b6afdaa5b47131f9166f0df54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:00 +0000
Subject: [PATCH 9/9] fix: record saved environment in Jail only for variables
 actually set

---
 src/jail.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/jail.rs b/src/jail.rs
index d8f0df8..6e6b2a3 100644
--- a/src/jail.rs
+++ b/src/jail.rs
@@ -2,7 +2,7 @@ use std::fs::{File, self};
 use std::io::{Write, BufWriter};
 use std::path::{Path, PathBuf};
 use std::fmt::Display;
-use std::ffi::{OsStr, OsString};
+use std::ffi::OsString;
 use std::collections::HashMap;
 
 use tempfile::TempDir;
@@ -348,11 +348,9 @@ impl Jail {
     /// ```
     pub fn set_env<K: AsRef<str>, V: Display>(&mut self, k: K, v: V) {
         let key = k.as_ref();
-        if !self.saved_env_vars.contains_key(OsStr::new(key)) {
-            self.saved_env_vars.insert(key.into(), std::env::var_os(key));
-        }
-
+        let previous = std::env::var_os(key);
         std::env::set_var(key, v.to_string());
+        self.saved_env_vars.entry(key.into()).or_insert(previous);
     }
 }
 
-- 
2.43.0

