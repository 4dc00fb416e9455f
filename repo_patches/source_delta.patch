From 5cd4f679239d775e90ed3ea673a040a889f4263b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 1/4] fix: validate position of empty insertions and
 replacements

replace_range returned Ok(()) for an empty range with empty text before
looking at the position, so try_insert_str(idx, ""), insert_str_truncate on
a full string and replace_range(i..i, "") accepted indexes out of bounds or
inside a character instead of returning OutOfBounds or Utf8.
---
 src/arraystring.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/arraystring.rs b/src/arraystring.rs
index e3d96ae..77d9f60 100644
--- a/src/arraystring.rs
+++ b/src/arraystring.rs
@@ -861,9 +861,6 @@ where
             with.as_ref().len(),
             with.as_ref()
         );
-        if start == end && str.is_empty() {
-            return Ok(());
-        }
         is_inside_boundary(start, end)?;
         is_inside_boundary(end, self.len())?;
         is_inside_boundary(str.len(), Self::capacity())?;
-- 
2.43.0


From 5c74ec50dace875872a943fc01081114418d75c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 2/4] fix: respect width, alignment and precision when
 displaying

Display went through write!(f, "{}", ..), which formats with default options,
so format!("{:>5}", string) was not padded as it is for str and String.
---
 src/implementations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/implementations.rs b/src/implementations.rs
index 04f3daf..2502c49 100644
--- a/src/implementations.rs
+++ b/src/implementations.rs
@@ -227,7 +227,7 @@ where
     #[inline]
     #[cfg_attr(all(feature = "no-panic", not(debug_assertions)), no_panic)]
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
-        write!(f, "{}", self.as_str())
+        Display::fmt(self.as_str(), f)
     }
 }
 
-- 
2.43.0


From a1e7ef93afb310b44eb7dc48af815bb93130cd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 3/4] fix: deserialize strings that are not borrowed from the
 input

Deserialize went through <&str>::deserialize, which fails for every format or
input that cannot lend the text (escaped JSON strings, readers, serde_json
values), so strings did not survive a round trip. Use a visitor, as String does.
---
 src/integration.rs | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/integration.rs b/src/integration.rs
index 9e1b32f..1dea43f 100644
--- a/src/integration.rs
+++ b/src/integration.rs
@@ -80,6 +80,8 @@ mod serde_impl {
     pub use crate::{arraystring::sealed::ValidCapacity, prelude::*};
     #[cfg(all(feature = "no-panic", not(debug_assertions)))]
     use no_panic::no_panic;
+    use core::{fmt, str};
+    use serde::de::{self, Unexpected, Visitor};
     pub use serde::{de::Deserializer, ser::Serializer, Deserialize, Serialize};
 
     impl<const N: usize> Serialize for ArrayString<N>
@@ -93,6 +95,33 @@ mod serde_impl {
         }
     }
 
+    /// Accepts borrowed, transient and owned strings (or UTF-8 bytes), truncating them
+    struct TruncateVisitor<const N: usize>;
+
+    impl<'a, const N: usize> Visitor<'a> for TruncateVisitor<N>
+    where
+        ArrayString<N>: ValidCapacity,
+    {
+        type Value = ArrayString<N>;
+
+        fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
+            f.write_str("a string")
+        }
+
+        #[inline]
+        fn visit_str<E: de::Error>(self, s: &str) -> Result<Self::Value, E> {
+            Ok(ArrayString::from_str_truncate(s))
+        }
+
+        #[inline]
+        fn visit_bytes<E: de::Error>(self, bytes: &[u8]) -> Result<Self::Value, E> {
+            match str::from_utf8(bytes) {
+                Ok(s) => Ok(ArrayString::from_str_truncate(s)),
+                Err(_) => Err(E::invalid_value(Unexpected::Bytes(bytes), &self)),
+            }
+        }
+    }
+
     impl<'a, const N: usize> Deserialize<'a> for ArrayString<N>
     where
         Self: ValidCapacity,
@@ -100,7 +129,7 @@ mod serde_impl {
         #[inline]
         #[cfg_attr(all(feature = "no-panic", not(debug_assertions)), no_panic)]
         fn deserialize<D: Deserializer<'a>>(des: D) -> Result<Self, D::Error> {
-            <&str>::deserialize(des).map(Self::from_str_truncate)
+            des.deserialize_str(TruncateVisitor)
         }
     }
 
-- 
2.43.0


From 9d830f4f6bed1f16d0caef7e9b6d19426799c228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:56 +0000
Subject: [PATCH 4/4] fix: keep the string valid when a logger panics during a
 replacement

---
 src/arraystring.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/arraystring.rs b/src/arraystring.rs
index 77d9f60..f877daf 100644
--- a/src/arraystring.rs
+++ b/src/arraystring.rs
@@ -869,6 +869,10 @@ where
         // Will never overflow since start < end and str.len() cannot be bigger than 255
         is_inside_boundary(self.len() + str.len() + start - end, Self::capacity())?;
 
+        // Computed before the bytes are changed, as `len` may call a logger that panics
+        let tail = self.len() - end;
+        let size = start + str.len() + tail;
+
         let ptr = self.array.as_mut_ptr();
         // Safety: we ensure that `start <= end <= self.len()`
         // and that the difference in size between `str.len()` and `start..end` fits in the available space (`Self::capacity() - self.len()`)
@@ -878,13 +882,13 @@ where
             let str_end = cut_start.add(str.len());
 
             if cut_end != str_end {
-                core::ptr::copy(cut_end, str_end, self.len() - end);
+                core::ptr::copy(cut_end, str_end, tail);
             }
             if !str.is_empty() {
                 core::ptr::copy_nonoverlapping(str.as_ptr(), cut_start, str.len());
             }
         }
-        self.size = (self.len() + str.len() + start - end).into_lossy();
+        self.size = size.into_lossy();
         Ok(())
     }
 }
-- 
2.43.0

