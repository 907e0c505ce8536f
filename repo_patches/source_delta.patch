From c9c2e46a4fcf2fbc42a1fd004d0e56d0c35d5a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:04 +0000
Subject: [PATCH 1/9] fix: slice escaped strings at byte, not char, indices

---
 src/value/escape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value/escape.rs b/src/value/escape.rs
index 5a32f63..ae5ee4a 100644
--- a/src/value/escape.rs
+++ b/src/value/escape.rs
@@ -19,7 +19,7 @@ pub enum Error {
 }
 
 pub fn escape(string: &str) -> Result<Cow<'_, str>, Error> {
-    let mut chars = string.chars().enumerate();
+    let mut chars = string.char_indices();
     let mut output = Cow::from(string);
     while let Some((i, ch)) = chars.next() {
         match ch {
-- 
2.43.0


From b6aca1e7500ac6ede2c880f1dddc81039801a797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:24 +0000
Subject: [PATCH 2/9] fix: keep every chained error in Error::chain()

---
 src/error.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 75168e0..14b62f7 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -234,7 +234,12 @@ impl Error {
     /// assert_eq!(unchained, vec!["1", "2", "3"]);
     /// ```
     pub fn chain(self, mut error: Error) -> Self {
-        error.prev = Some(Box::new(self));
+        let mut last = &mut error;
+        while let Some(ref mut prev) = last.prev {
+            last = prev;
+        }
+
+        last.prev = Some(Box::new(self));
         error
     }
 
-- 
2.43.0


From 6087714aa33b64f457f70a1c9ffce537dc7d50ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:30 +0000
Subject: [PATCH 3/9] fix: preserve 'lowercase' when chaining 'Env' filters and
 maps

---
 src/providers/env.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/providers/env.rs b/src/providers/env.rs
index 64c8965..4005dd6 100644
--- a/src/providers/env.rs
+++ b/src/providers/env.rs
@@ -136,7 +136,7 @@ impl Env {
             filter_map: Box::new(move |key| f(filter_map(key))),
             profile: self.profile,
             prefix: self.prefix,
-            lowercase: true,
+            lowercase: self.lowercase,
         }
     }
 
-- 
2.43.0


From 09125e9146dbd9d731df8b2b58205f43113fbb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 4/9] fix: support deserializing 128-bit integers

---
 src/value/de.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/value/de.rs b/src/value/de.rs
index b4ceb6f..21d538d 100644
--- a/src/value/de.rs
+++ b/src/value/de.rs
@@ -167,8 +167,8 @@ impl<'de: 'c, 'c, I: Interpreter> Deserializer<'de> for ConfiguredValueDe<'c, I>
             |de| I::interpret_as_bool(de.value),
             |e| e.retagged(de.value.tag()).resolved(de.config),
         deserialize_u8, deserialize_u16, deserialize_u32, deserialize_u64,
-        deserialize_i8, deserialize_i16, deserialize_i32, deserialize_i64,
-        deserialize_f32, deserialize_f64 =>
+        deserialize_u128, deserialize_i8, deserialize_i16, deserialize_i32,
+        deserialize_i64, deserialize_i128, deserialize_f32, deserialize_f64 =>
             |de| I::interpret_as_num(de.value),
             |e| e.retagged(de.value.tag()).resolved(de.config),
     }
@@ -323,7 +323,7 @@ impl<'de> Deserializer<'de> for &Value {
     }
 
     serde::forward_to_deserialize_any! {
-        bool u8 u16 u32 u64 i8 i16 i32 i64 f32 f64 char str
+        bool u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 f32 f64 char str
         string seq bytes byte_buf map unit struct
         ignored_any unit_struct tuple_struct tuple identifier
     }
@@ -374,7 +374,7 @@ impl<'de> Deserializer<'de> for Num {
     }
 
     serde::forward_to_deserialize_any! {
-        bool u8 u16 u32 u64 i8 i16 i32 i64 f32 f64 char str string seq enum
+        bool u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 f32 f64 char str string seq enum
         bytes byte_buf map struct unit newtype_struct
         ignored_any unit_struct tuple_struct tuple option identifier
     }
@@ -393,7 +393,7 @@ impl<'de> Deserializer<'de> for Empty {
     }
 
     serde::forward_to_deserialize_any! {
-        bool u8 u16 u32 u64 i8 i16 i32 i64 f32 f64 char str string seq enum
+        bool u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 f32 f64 char str string seq enum
         bytes byte_buf map struct unit newtype_struct
         ignored_any unit_struct tuple_struct tuple option identifier
     }
-- 
2.43.0


From f3265e8224f03c92bc51982a2b230cd8b009b4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:52 +0000
Subject: [PATCH 5/9] fix: report the full key path in order from
 extract_inner()

---
 src/error.rs   | 6 ++++++
 src/figment.rs | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 14b62f7..724ffda 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -146,6 +146,12 @@ impl Error {
         self
     }
 
+    pub(crate) fn prefixed_path(self, path: &str) -> Self {
+        path.rsplit('.')
+            .filter(|key| !key.is_empty())
+            .fold(self, |error, key| error.prefixed(key))
+    }
+
     pub(crate) fn retagged(mut self, tag: Tag) -> Self {
         if self.tag.is_default() {
             self.tag = tag;
diff --git a/src/figment.rs b/src/figment.rs
index 76d0277..9ae4f52 100644
--- a/src/figment.rs
+++ b/src/figment.rs
@@ -569,7 +569,7 @@ impl Figment {
     pub fn extract_inner<'a, T: Deserialize<'a>>(&self, path: &str) -> Result<T> {
         let value = self.find_value(path)?;
         let de = ConfiguredValueDe::<'_, DefaultInterpreter>::from(self, &value);
-        T::deserialize(de).map_err(|e| e.with_path(path))
+        T::deserialize(de).map_err(|e| e.prefixed_path(path))
     }
 
     /// As [`extract`](Figment::extract_lossy), but interpret numbers and
@@ -603,7 +603,7 @@ impl Figment {
     pub fn extract_inner_lossy<'a, T: Deserialize<'a>>(&self, path: &str) -> Result<T> {
         let value = self.find_value(path)?;
         let de = ConfiguredValueDe::<'_, LossyInterpreter>::from(self, &value);
-        T::deserialize(de).map_err(|e| e.with_path(path))
+        T::deserialize(de).map_err(|e| e.prefixed_path(path))
     }
 
     /// Returns an iterator over the metadata for all of the collected values in
-- 
2.43.0


From 469b702cdf2a8873991d14bce3216ff1b556a159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 6/9] fix: parse numeric strings with a fraction as f64

---
 src/value/value.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/value/value.rs b/src/value/value.rs
index 3d95af8..162d4bb 100644
--- a/src/value/value.rs
+++ b/src/value/value.rs
@@ -515,11 +515,7 @@ impl FromStr for Num {
     fn from_str(string: &str) -> Result<Self, Self::Err> {
         let string = string.trim();
         if string.contains('.') {
-            if string.len() <= (f32::DIGITS as usize + 1) {
-                Ok(string.parse::<f32>().map_err(Either::Right)?.into())
-            } else {
-                Ok(string.parse::<f64>().map_err(Either::Right)?.into())
-            }
+            Ok(string.parse::<f64>().map_err(Either::Right)?.into())
         } else if string.starts_with('-') {
             let int = string.parse::<i128>().map_err(Either::Left)?;
             try_convert![int => i8, i16, i32, i64];
-- 
2.43.0


From ef8d499a167e48e7a96e53d4e0f4c631b9a11dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 7/9] fix: attribute every error of a provider's error chain to
 the provider

`retagged` only tagged the head of a chain, so the earlier errors of a
chain returned by a provider were reported without metadata.
---
 src/error.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 724ffda..eb24320 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -153,8 +153,13 @@ impl Error {
     }
 
     pub(crate) fn retagged(mut self, tag: Tag) -> Self {
-        if self.tag.is_default() {
-            self.tag = tag;
+        let mut error = Some(&mut self);
+        while let Some(e) = error {
+            if e.tag.is_default() {
+                e.tag = tag;
+            }
+
+            error = e.prev.as_deref_mut();
         }
 
         self
-- 
2.43.0


From 5fc8f8f09dc4dea43758dfce42754cab8d60dd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:03 +0000
Subject: [PATCH 8/9] fix: accept jailed paths that normalise to the current
 directory

The empty path that `.` or `a/..` normalise to names no directory, so
`Jail::change_dir(".")` failed although the directory is in the jail.
---
 src/jail.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/jail.rs b/src/jail.rs
index 4dea3ba..d8f0df8 100644
--- a/src/jail.rs
+++ b/src/jail.rs
@@ -159,7 +159,11 @@ impl Jail {
     }
 
     fn safe_jailed_path(&self, path: &Path) -> Result<PathBuf> {
-        let path = dedot(path);
+        let mut path = dedot(path);
+        if path.as_os_str().is_empty() {
+            path.push(".");
+        }
+
         if path.is_absolute() && path.starts_with(self.directory()) {
             return Ok(path);
         }
-- 
2.43.0


From c3881efcd6de8828945631f98c4dcc2f9a009493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:03 +0000
Subject: [PATCH 9/9] fix: do not record an environment variable that could not
 be set

Restoring a name that `set_var` rejects panics while dropping the jail,
which aborts the process when the jail is dropped due to that very panic.
---
 src/jail.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jail.rs b/src/jail.rs
index d8f0df8..4041151 100644
--- a/src/jail.rs
+++ b/src/jail.rs
@@ -348,11 +348,11 @@ impl Jail {
     /// ```
     pub fn set_env<K: AsRef<str>, V: Display>(&mut self, k: K, v: V) {
         let key = k.as_ref();
+        let saved = std::env::var_os(key);
+        std::env::set_var(key, v.to_string());
         if !self.saved_env_vars.contains_key(OsStr::new(key)) {
-            self.saved_env_vars.insert(key.into(), std::env::var_os(key));
+            self.saved_env_vars.insert(key.into(), saved);
         }
-
-        std::env::set_var(key, v.to_string());
     }
 }
 
-- 
2.43.0

