From 3bcd878510abd0efa409c130da98070931e79268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:12 +0000
Subject: [PATCH 01/38] fix: don't write past the end when initializing a
 secret buffer's capacity

---
 src/util/ownedslice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/ownedslice.rs b/src/util/ownedslice.rs
index 8139cc8..4174c83 100644
--- a/src/util/ownedslice.rs
+++ b/src/util/ownedslice.rs
@@ -87,7 +87,7 @@ impl<T: Default + Copy> OwnedSlice<T> {
     /// Sets all uninitialized values of buffer to the default value.
     pub fn init_capacity(&mut self, len: usize) {
         let mut cur = unsafe { self.0.as_ptr().add(len) };
-        let end = unsafe { cur.add(self.1) };
+        let end = unsafe { self.0.as_ptr().add(self.1) };
         let default = T::default();
         while cur < end {
             unsafe {
-- 
2.43.0


From 8292c9655450d66678be740f48c023a118256b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:53 +0000
Subject: [PATCH 02/38] fix: reject the empty string in Cmd::from_word

---
 src/string/subtypes/impls.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/string/subtypes/impls.rs b/src/string/subtypes/impls.rs
index 93f31b1..4cfa293 100644
--- a/src/string/subtypes/impls.rs
+++ b/src/string/subtypes/impls.rs
@@ -75,6 +75,9 @@ impl<'a> Cmd<'a> {
     /// Tries to convert `word` into an instance of this type, uppercasing where necessary.
     pub fn from_word(word: impl Into<Word<'a>>) -> Result<Self, InvalidString> {
         let mut word = word.into();
+        if word.is_empty() {
+            return Err(InvalidString::Empty);
+        }
         if let Some(inval) = word.iter().find(|b| !b.is_ascii_alphabetic()) {
             return Err(InvalidString::Byte(*inval));
         };
-- 
2.43.0


From d71479f155b7cde170c9cbd4fb4cacb984e4e71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:58 +0000
Subject: [PATCH 03/38] fix: unescape the first escape sequence of a tag value

---
 src/string/tf/escape.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/string/tf/escape.rs b/src/string/tf/escape.rs
index b13f02a..ccdb4ef 100644
--- a/src/string/tf/escape.rs
+++ b/src/string/tf/escape.rs
@@ -61,11 +61,8 @@ pub fn unescape<'a>(tag_value: impl Into<NoNul<'a>>) -> NoNul<'a> {
     };
     let (mut new_bytes, rest) = unsafe {
         let (no_escape, rest) = tag_value.as_bytes_unsafe().split_at(first_idx);
-        // rest contains at least one byte because first_idx is a valid index.
-        let (first, rest) = rest.split_first().unwrap_unchecked();
         let mut new_bytes = Vec::with_capacity(tag_value.len() - 1);
         new_bytes.extend_from_slice(no_escape);
-        new_bytes.push(unescape_byte(first));
         (new_bytes, rest)
     };
     let mut esc = false;
-- 
2.43.0


From 189105166ac0b242b5ed09d29b925275a603e3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:03 +0000
Subject: [PATCH 04/38] fix: don't loop forever on tag keys that begin with a
 colon

---
 src/ircmsg/tags.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ircmsg/tags.rs b/src/ircmsg/tags.rs
index 8b15297..dacf62c 100644
--- a/src/ircmsg/tags.rs
+++ b/src/ircmsg/tags.rs
@@ -88,6 +88,10 @@ impl<'a> Tags<'a> {
         while !splitter.is_empty() {
             let Ok(key) = splitter.string::<Key>(false) else {
                 splitter.consume_invalid::<Key>();
+                // Colons are valid for `Key`s, but not at the start of one.
+                if splitter.peek_byte() == Some(b':') {
+                    splitter.next_byte();
+                }
                 continue;
             };
             let value = if matches!(splitter.next_byte(), Some(b'=')) {
-- 
2.43.0


From fb1791e13228d58ecde3489d2012d26328fb2975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:09 +0000
Subject: [PATCH 05/38] fix: only split message arguments on spaces

---
 src/ircmsg/args.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ircmsg/args.rs b/src/ircmsg/args.rs
index a5792d6..57c2991 100644
--- a/src/ircmsg/args.rs
+++ b/src/ircmsg/args.rs
@@ -141,7 +141,7 @@ impl<'a> Args<'a> {
         let mut words = Vec::with_capacity(2);
         let mut long = None;
         loop {
-            line.consume_whitespace();
+            line.consume_invalid::<Arg>();
             match line.string::<Arg>(false) {
                 Ok(arg) => words.push(arg),
                 Err(InvalidString::Colon) => {
-- 
2.43.0


From 89601d45880cd496da163fa0d085c6b00dd1e74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:42 +0000
Subject: [PATCH 06/38] fix: keep the map edit guard consistent while it holds
 unsorted elements

---
 src/util/flatmap.rs | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/util/flatmap.rs b/src/util/flatmap.rs
index da32864..e11060a 100644
--- a/src/util/flatmap.rs
+++ b/src/util/flatmap.rs
@@ -138,7 +138,6 @@ fn get_impl<E, X: KeyExtractor<E>>(
     let (sorted, unsorted) = pairs.split_at(sorted_until);
     match sorted.binary_search_by(|v| X::extract_key(v).borrow().cmp(key)) {
         Ok(key) => Some(key),
-        Err(v) if v < sorted_until => None,
         Err(_) => unsorted
             .iter()
             .position(|v| X::extract_key(v).borrow() == key)
@@ -184,13 +183,25 @@ impl<E, X: KeyExtractor<E>> FlatMap<E, X> {
 }
 
 impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
-    collection_methods!(src);
+    /// Returns the number of elements in `self`, sorted and otherwise.
+    pub fn len(&self) -> usize {
+        self.real_len
+    }
+    /// Returns true if `self` contains no elements.
+    pub fn is_empty(&self) -> bool {
+        self.real_len == 0
+    }
 
     /// Return a slice of all the elements in the `Vec`, sorted and otherwise.
     pub fn as_slice(&self) -> &[E] {
         let ptr = self.src.as_ptr();
         unsafe { std::slice::from_raw_parts(ptr, self.real_len) }
     }
+    /// As `as_slice`, but mutable.
+    fn as_slice_mut(&mut self) -> &mut [E] {
+        let ptr = self.src.as_mut_ptr();
+        unsafe { std::slice::from_raw_parts_mut(ptr, self.real_len) }
+    }
     /// Return the index of a given element in the full `Vec`.
     fn get_idx(&self, key: &X::KeyBorrowed) -> Option<usize> {
         let sorted_until = self.src.len();
@@ -198,11 +209,11 @@ impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
     }
     pub fn get<'a>(&'a self, key: &X::KeyBorrowed) -> Option<&'a E> {
         let idx = self.get_idx(key)?;
-        Some(unsafe { self.src.get_unchecked(idx) })
+        Some(unsafe { self.as_slice().get_unchecked(idx) })
     }
     pub fn get_mut<'a>(&'a mut self, key: &X::KeyBorrowed) -> Option<&'a mut E> {
         let idx = self.get_idx(key)?;
-        Some(unsafe { self.src.get_unchecked_mut(idx) })
+        Some(unsafe { self.as_slice_mut().get_unchecked_mut(idx) })
     }
     fn push(&mut self, elem: E) -> &mut E {
         let key = X::extract_key(&elem);
@@ -228,7 +239,7 @@ impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
         unsafe { self.src.set_len(sorted_until) };
         let mut ptr = self.src.as_mut_ptr();
         unsafe {
-            ptr = ptr.add(self.real_len);
+            ptr = ptr.add(self.real_len - 1);
             ptr.as_mut().unwrap_unchecked()
         }
     }
@@ -236,7 +247,7 @@ impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
         let kb = X::extract_key(&elem).borrow();
         let idx = self.get_idx(kb);
         if let Some(idx) = idx {
-            let old_elem = unsafe { &mut self.src.get_unchecked_mut(idx) };
+            let old_elem = unsafe { self.as_slice_mut().get_unchecked_mut(idx) };
             Some(std::mem::replace(old_elem, elem))
         } else {
             self.push(elem);
@@ -258,7 +269,7 @@ impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
         let kb = X::extract_key(&elem).borrow();
         let idx = self.get_idx(kb);
         if let Some(idx) = idx {
-            (unsafe { self.src.get_unchecked_mut(idx) }, Some(elem))
+            (unsafe { self.as_slice_mut().get_unchecked_mut(idx) }, Some(elem))
         } else {
             (self.push(elem), None)
         }
@@ -268,15 +279,18 @@ impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
         // That said, removal should be infrequent, so it's probably
         // not worth adding some sort of tombstoning to the edit guard.
         let idx = self.get_idx(key)?;
+        let sorted_until = std::cmp::min(self.src.len(), idx);
+        unsafe { self.src.set_len(self.real_len) };
         let retval = self.src.swap_remove(idx);
         self.real_len -= 1;
-        unsafe { self.src.set_len(idx) };
+        unsafe { self.src.set_len(sorted_until) };
         Some(retval)
     }
     /// Removes all key-value pairs.
     pub fn clear(&mut self) {
-        self.src.clear();
+        unsafe { self.src.set_len(self.real_len) };
         self.real_len = 0;
+        self.src.clear();
     }
 }
 
-- 
2.43.0


From 00c20bfc3dac67431444b31041081e9a7a572a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:27 +0000
Subject: [PATCH 07/38] fix: don't assume UTF-8 validity beyond what a splitter
 has checked

---
 src/string/splitter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/string/splitter.rs b/src/string/splitter.rs
index ee73db0..d2e3ac0 100644
--- a/src/string/splitter.rs
+++ b/src/string/splitter.rs
@@ -77,6 +77,9 @@ impl Range {
         }
         if start && end {
             self.encoding = saved.encoding;
+        } else if start || end {
+            // The encoding may have been checked for a smaller range than the restored one.
+            self.encoding = std::cmp::min(self.encoding, saved.encoding);
         }
     }
     pub fn constrain<'a, T>(&self, slice: &'a [T]) -> &'a [T] {
@@ -115,7 +118,8 @@ impl<T> Splitter<T> {
 
 impl<T: AsRef<[u8]>> Splitter<T> {
     fn check_encoding_inner(&mut self, accept: Encoding) -> Result<(), std::str::Utf8Error> {
-        if self.range.encoding < accept {
+        // An empty range says nothing about whether it lies on a character boundary.
+        if self.range.encoding < accept && self.range.len() != 0 {
             let slice = self.range.constrain(self.as_ref());
             let idx = slice.iter().position(|c| !c.is_ascii());
             self.range.encoding = if let Some(idx) = idx {
-- 
2.43.0


From ac9e17283eb577695f5d5b0c2da01e86e3c74f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:34 +0000
Subject: [PATCH 08/38] fix: keep strings derived from secret strings secret

---
 src/string/bytes.rs     | 14 +++++++++++---
 src/string/tf/escape.rs | 10 +++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/string/bytes.rs b/src/string/bytes.rs
index 1612ba1..ffe3421 100644
--- a/src/string/bytes.rs
+++ b/src/string/bytes.rs
@@ -46,7 +46,8 @@ unsafe impl<'a> crate::owning::MakeOwning for crate::string::Bytes<'a> {
 
     fn make_owning(&mut self) {
         if !self.is_owning() {
-            self.owning_force(false);
+            let secret = self.secret;
+            self.owning_force(secret);
         }
     }
 }
@@ -164,6 +165,9 @@ impl<'a> Bytes<'a> {
                 utf8: 1i8.into(),
                 secret: self.secret,
             },
+            Cow::Owned(o) if self.secret => {
+                Bytes { utf8: 1i8.into(), ..Bytes::from_secret(o.into_bytes()) }
+            }
             Cow::Owned(o) => o.into(),
         }
     }
@@ -192,7 +196,11 @@ impl<'a> Bytes<'a> {
     #[cfg(feature = "base64")]
     pub fn to_base64_plus(&self) -> super::Arg<'static> {
         if self.is_empty() {
-            crate::names::PLUS
+            if self.secret {
+                crate::names::PLUS.secret()
+            } else {
+                crate::names::PLUS
+            }
         } else {
             unsafe { super::Arg::from_unchecked(self.to_base64_impl()) }
         }
@@ -246,7 +254,7 @@ impl<'a> Bytes<'a> {
     pub fn transform<T: Transform>(&mut self, tf: T) -> T::Value {
         let tfed = tf.transform(self);
         if tfed.transformed.as_ref().is_empty() {
-            *self = Bytes::empty();
+            *self = Bytes { secret: self.secret, ..Bytes::empty() };
             return tfed.value;
         }
         match tfed.transformed {
diff --git a/src/string/tf/escape.rs b/src/string/tf/escape.rs
index ccdb4ef..a712ed1 100644
--- a/src/string/tf/escape.rs
+++ b/src/string/tf/escape.rs
@@ -1,4 +1,4 @@
-use crate::string::{NoNul, Word};
+use crate::string::{Bytes, NoNul, Word};
 use std::num::NonZeroU8;
 
 /// Returns the unescaped value for an tag value escape code.
@@ -50,7 +50,9 @@ pub fn escape<'a>(tag_value: impl Into<NoNul<'a>>) -> Word<'a> {
             new_bytes.push(*byte);
         }
     }
-    unsafe { Word::from_unchecked(new_bytes.into()) }
+    let new_bytes =
+        if tag_value.is_secret() { Bytes::from_secret(new_bytes) } else { new_bytes.into() };
+    unsafe { Word::from_unchecked(new_bytes) }
 }
 
 /// Returns an unescaped form of the provided tag value.
@@ -76,5 +78,7 @@ pub fn unescape<'a>(tag_value: impl Into<NoNul<'a>>) -> NoNul<'a> {
             new_bytes.push(*byte);
         }
     }
-    unsafe { NoNul::from_unchecked(new_bytes.into()) }
+    let new_bytes =
+        if tag_value.is_secret() { Bytes::from_secret(new_bytes) } else { new_bytes.into() };
+    unsafe { NoNul::from_unchecked(new_bytes) }
 }
-- 
2.43.0


From f42693b2b416bc6a8c167395001753acd904b430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:43 +0000
Subject: [PATCH 09/38] fix: zero out the buffers of secret strings when they
 are dropped

---
 src/string/base64.rs    | 11 +++++-----
 src/string/bytes.rs     | 45 +++++++++++++++++++++++++++++------------
 src/string/secretbuf.rs |  2 +-
 3 files changed, 39 insertions(+), 19 deletions(-)

diff --git a/src/string/base64.rs b/src/string/base64.rs
index a118458..30c6588 100644
--- a/src/string/base64.rs
+++ b/src/string/base64.rs
@@ -23,12 +23,13 @@ impl ChunkEncoder {
         if max == 0 {
             return ChunkEncoder::empty();
         }
-        let encoded: Bytes<'static> = ENGINE.encode(bytes).into();
+        let encoded: Bytes<'static> = if secret {
+            Bytes::from_secret(ENGINE.encode(bytes).into_bytes())
+        } else {
+            ENGINE.encode(bytes).into()
+        };
         let splitter = if !encoded.is_empty() {
-            let mut encoded = unsafe { Arg::from_unchecked(encoded) };
-            if secret {
-                encoded = encoded.secret();
-            }
+            let encoded = unsafe { Arg::from_unchecked(encoded) };
             Ok(Splitter::new(encoded))
         } else {
             Err(secret)
diff --git a/src/string/bytes.rs b/src/string/bytes.rs
index ffe3421..33f078d 100644
--- a/src/string/bytes.rs
+++ b/src/string/bytes.rs
@@ -67,7 +67,7 @@ impl<'a> Bytes<'a> {
     }
     /// Cheaply conversts a secret value into a `Bytes`.
     pub fn from_secret(value: Vec<u8>) -> Self {
-        let (ownership, value) = unsafe { OwnedBytes::from_vec(value) };
+        let (ownership, value) = unsafe { OwnedBytes::from_vec(value, true) };
         Bytes { value, ownership, utf8: AtomicI8::new(0), secret: true }
     }
     /// Returns `true` if `self` is not borrowing its data.
@@ -107,7 +107,7 @@ impl<'a> Bytes<'a> {
     }
     fn owning_force(&mut self, secret: bool) {
         unsafe {
-            let (ownership, value) = OwnedBytes::from_vec(self.value.to_vec());
+            let (ownership, value) = OwnedBytes::from_vec(self.value.to_vec(), secret);
             *self = Bytes { value, ownership, utf8: self.utf8.load(Relaxed).into(), secret }
         }
     }
@@ -176,7 +176,7 @@ impl<'a> Bytes<'a> {
         use base64::engine::{general_purpose::STANDARD as ENGINE, Engine};
         let encoded = ENGINE.encode(self.value);
         unsafe {
-            let (ownership, value) = OwnedBytes::from_vec(encoded.into_bytes());
+            let (ownership, value) = OwnedBytes::from_vec(encoded.into_bytes(), self.secret);
             Bytes { value, ownership, utf8: 1i8.into(), secret: self.secret }
         }
     }
@@ -273,7 +273,7 @@ impl<'a> Bytes<'a> {
             Cow::Owned(o) => {
                 let utf8 = self.utf8_for_policy(tfed.utf8);
                 unsafe {
-                    let (ownership, value) = OwnedBytes::from_vec(o);
+                    let (ownership, value) = OwnedBytes::from_vec(o, self.secret);
                     *self = Bytes { value, ownership, utf8: utf8.into(), secret: self.secret };
                 }
             }
@@ -285,7 +285,7 @@ impl<'a> Bytes<'a> {
     /// This operation copies data unless `self` has sole ownership of its data.
     pub fn into_vec(self) -> Vec<u8> {
         if let Some(owner) = self.ownership {
-            unsafe { owner.into_vec(self.value, self.secret) }
+            unsafe { owner.into_vec(self.value) }
         } else {
             self.value.to_vec()
         }
@@ -317,7 +317,7 @@ impl std::borrow::Borrow<[u8]> for Bytes<'_> {
 impl<'a> From<Vec<u8>> for Bytes<'a> {
     fn from(value: Vec<u8>) -> Self {
         unsafe {
-            let (ownership, value) = OwnedBytes::from_vec(value);
+            let (ownership, value) = OwnedBytes::from_vec(value, false);
             Bytes { value, ownership, utf8: 0i8.into(), secret: false }
         }
     }
@@ -326,7 +326,7 @@ impl<'a> From<Vec<u8>> for Bytes<'a> {
 impl<'a> From<String> for Bytes<'a> {
     fn from(value: String) -> Self {
         unsafe {
-            let (ownership, value) = OwnedBytes::from_vec(value.into_bytes());
+            let (ownership, value) = OwnedBytes::from_vec(value.into_bytes(), false);
             Bytes { value, ownership, utf8: 1i8.into(), secret: false }
         }
     }
@@ -371,7 +371,7 @@ impl<'a> From<Bytes<'a>> for Vec<u8> {
 impl<'a> From<Bytes<'a>> for Cow<'a, [u8]> {
     fn from(value: Bytes<'a>) -> Self {
         match value.ownership {
-            Some(v) => Cow::Owned(unsafe { v.into_vec(value.value, value.secret) }),
+            Some(v) => Cow::Owned(unsafe { v.into_vec(value.value) }),
             None => Cow::Borrowed(value.value),
         }
     }
@@ -485,7 +485,22 @@ impl std::fmt::Debug for Bytes<'_> {
 /// There is also only a strong reference count, which is kept seperate.
 #[repr(transparent)]
 #[derive(Clone)]
-struct OwnedBytes(crate::util::ThinArc<crate::util::OwnedSlice<u8>>);
+struct OwnedBytes(crate::util::ThinArc<OwnedData>);
+
+/// The buffer of an [`OwnedBytes`], which is zeroed out on drop if it's secret.
+struct OwnedData {
+    slice: std::mem::ManuallyDrop<crate::util::OwnedSlice<u8>>,
+    secret: bool,
+}
+
+impl Drop for OwnedData {
+    fn drop(&mut self) {
+        if self.secret {
+            self.slice.reinit_all();
+        }
+        unsafe { std::mem::ManuallyDrop::drop(&mut self.slice) }
+    }
+}
 
 impl OwnedBytes {
     /// Converts a Vec into Self (which owns the data)
@@ -497,20 +512,24 @@ impl OwnedBytes {
     /// This returns a reference with an unbound lifetime.
     /// Make sure this lifetime doesn't leak anywhere that might outlive
     /// the `Self`.
-    pub unsafe fn from_vec<'a>(value: Vec<u8>) -> (Option<Self>, &'a [u8]) {
+    pub unsafe fn from_vec<'a>(value: Vec<u8>, secret: bool) -> (Option<Self>, &'a [u8]) {
         if value.is_empty() {
             return (None, &[]);
         }
         let (os, len) = crate::util::OwnedSlice::from_vec(value);
         let slice = unsafe { os.as_slice(len) };
-        (Some(OwnedBytes(crate::util::ThinArc::new(os))), slice)
+        let data = OwnedData { slice: std::mem::ManuallyDrop::new(os), secret };
+        (Some(OwnedBytes(crate::util::ThinArc::new(data))), slice)
     }
     /// Attempts to re-use the buffer for constructing a `Vec` from `slice`.
     ///
     /// # Safety
     /// `slice` is assumed to be a slice of the data owned by self.
-    pub unsafe fn into_vec(self, slice: &[u8], secret: bool) -> Vec<u8> {
-        if let Ok(os) = self.0.try_unwrap() {
+    pub unsafe fn into_vec(self, slice: &[u8]) -> Vec<u8> {
+        if let Ok(mut data) = self.0.try_unwrap() {
+            let secret = data.secret;
+            let os = std::mem::ManuallyDrop::take(&mut data.slice);
+            std::mem::forget(data);
             let (retval, destroy) = os.into_vec_with_slice(slice);
             if secret {
                 if let Some(mut destroy) = destroy {
diff --git a/src/string/secretbuf.rs b/src/string/secretbuf.rs
index d7e43a6..8d041b0 100644
--- a/src/string/secretbuf.rs
+++ b/src/string/secretbuf.rs
@@ -22,7 +22,7 @@ impl SecretBuf {
     }
     /// Allows read-only access to the contents of this buffer through a [`Bytes`].
     pub fn as_bytes(&self) -> Bytes<'_> {
-        Bytes::from(self.as_ref()).secret()
+        Bytes::from_bytes(self.as_ref()).secret()
     }
     /// Effeciently converts `self` into a secret [`Bytes`].
     pub fn into_bytes<'a>(mut self) -> Bytes<'a> {
-- 
2.43.0


From 0875bb1763a8726d99cbe92af10d88b41f42db47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:03 +0000
Subject: [PATCH 10/38] fix: don't read more bytes than expected into a secret
 buffer

---
 src/string/secretbuf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string/secretbuf.rs b/src/string/secretbuf.rs
index 8d041b0..a1fb7b9 100644
--- a/src/string/secretbuf.rs
+++ b/src/string/secretbuf.rs
@@ -82,7 +82,7 @@ impl SecretBuf {
         self.reserve(expect);
         // Safety: This data gets initialized on creation of the SecretBuf,
         // or above.
-        let mut write_to = unsafe { self.data.as_write_slice(self.len) };
+        let mut write_to = unsafe { &mut self.data.as_write_slice(self.len)[..expect] };
         let mut bytes_read = 0usize;
         while bytes_read < expect {
             let last_read = read.read(write_to)?;
-- 
2.43.0


From ef4de9aac4ef8cc17b3fc2da76ef4bb0bb1aa6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:09 +0000
Subject: [PATCH 11/38] fix: count a long last argument in
 ArgsEditGuard::args_left

---
 src/ircmsg/args.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ircmsg/args.rs b/src/ircmsg/args.rs
index 57c2991..3c22a0b 100644
--- a/src/ircmsg/args.rs
+++ b/src/ircmsg/args.rs
@@ -61,7 +61,7 @@ impl<'a> ArgsEditGuard<'a, '_> {
     /// IRC messages should contain no more than 15 arguments,
     /// but IRC software should also support any number of arguments.
     pub fn args_left(&self) -> isize {
-        15 - self.0.len() as isize
+        15 - self.0.len() as isize - self.1.is_some() as isize
     }
     /// Returns a mutable slice of all the arguments as a slice of [`Arg`]s,
     /// or None if the final argument is long.
-- 
2.43.0


From 2ef80f1992b877b3d63dac5643adf93509bbfc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:15 +0000
Subject: [PATCH 12/38] fix: deserialize numerics from integers, as they are
 serialized

---
 src/ircmsg/numeric.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ircmsg/numeric.rs b/src/ircmsg/numeric.rs
index 8be4785..de1ff49 100644
--- a/src/ircmsg/numeric.rs
+++ b/src/ircmsg/numeric.rs
@@ -5,7 +5,7 @@ use std::{io::Write, num::NonZeroU8};
 /// A three-digit numeric reply code.
 #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
 #[cfg_attr(feature = "serde", derive(serde_derive::Serialize, serde_derive::Deserialize))]
-#[cfg_attr(feature = "serde", serde(into = "u16"))]
+#[cfg_attr(feature = "serde", serde(into = "u16", try_from = "u16"))]
 pub struct Numeric([NonZeroU8; 3]);
 
 impl AsRef<str> for Numeric {
-- 
2.43.0


From 388c59bedc8f3044e8412577d215feed9309c219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:26 +0000
Subject: [PATCH 13/38] fix: don't parse the line terminator as part of the
 message in Decoder impls

---
 src/ircmsg/codec.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/ircmsg/codec.rs b/src/ircmsg/codec.rs
index 2d93c2f..ba0aea9 100644
--- a/src/ircmsg/codec.rs
+++ b/src/ircmsg/codec.rs
@@ -472,6 +472,17 @@ pub(super) mod tokio_codec {
         None
     }
 
+    /// Removes the line terminator from `line`, if there is one.
+    fn trim_newline(mut line: &[u8]) -> &[u8] {
+        if let Some(rest) = line.strip_suffix(b"\n") {
+            line = rest;
+            while let Some(rest) = line.strip_suffix(b"\r") {
+                line = rest;
+            }
+        }
+        line
+    }
+
     impl Decoder for ClientCodec {
         type Item = ServerMsg<'static>;
         type Error = std::io::Error;
@@ -482,7 +493,7 @@ pub(super) mod tokio_codec {
                 return Ok(None);
             };
             let line_raw = src.split_to(split_at.get());
-            let line = Line::from_bytes(line_raw.as_ref())?;
+            let line = Line::from_bytes(trim_newline(&line_raw))?;
             Ok(Some(ServerMsg::parse(line.owning())?))
         }
     }
@@ -496,7 +507,7 @@ pub(super) mod tokio_codec {
                 return Ok(None);
             };
             let line_raw = src.split_to(split_at.get());
-            let line = Line::from_bytes(line_raw.as_ref())?;
+            let line = Line::from_bytes(trim_newline(&line_raw))?;
             Ok(Some(ClientMsg::parse(line.owning())?))
         }
     }
-- 
2.43.0


From 58f29af6559e713144e84b9eea406dc696b56884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:09 +0000
Subject: [PATCH 14/38] fix: report the end of the stream in the middle of a
 message as such

---
 src/ircmsg/codec.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ircmsg/codec.rs b/src/ircmsg/codec.rs
index ba0aea9..e5b2256 100644
--- a/src/ircmsg/codec.rs
+++ b/src/ircmsg/codec.rs
@@ -15,7 +15,10 @@ macro_rules! read_msg {
             if buflen < $limit {
                 let read_count = $limit - buflen;
                 $read.set_limit(read_count as u64);
-                if $read_expr? == 0 {
+                // Reads only stop short of both the limit and a newline at the end of the stream.
+                if $read_expr? == 0
+                    || ($buf.len() < $limit && !matches!($buf.last(), Some(b'\n')))
+                {
                     return Err(Error::from(ErrorKind::UnexpectedEof));
                 }
             }
-- 
2.43.0


From 052c39471b94fbd25e84f061e389216b73b60a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:53 +0000
Subject: [PATCH 15/38] fix: zero out the unused capacity of an empty secret
 buffer

---
 src/string/bytes.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/string/bytes.rs b/src/string/bytes.rs
index 33f078d..4cb2e70 100644
--- a/src/string/bytes.rs
+++ b/src/string/bytes.rs
@@ -513,10 +513,15 @@ impl OwnedBytes {
     /// Make sure this lifetime doesn't leak anywhere that might outlive
     /// the `Self`.
     pub unsafe fn from_vec<'a>(value: Vec<u8>, secret: bool) -> (Option<Self>, &'a [u8]) {
-        if value.is_empty() {
+        let is_empty = value.is_empty();
+        let (mut os, len) = crate::util::OwnedSlice::from_vec(value);
+        if is_empty {
+            if secret {
+                // There may still be sensitive data in the unused capacity.
+                os.reinit_all();
+            }
             return (None, &[]);
         }
-        let (os, len) = crate::util::OwnedSlice::from_vec(value);
         let slice = unsafe { os.as_slice(len) };
         let data = OwnedData { slice: std::mem::ManuallyDrop::new(os), secret };
         (Some(OwnedBytes(crate::util::ThinArc::new(data))), slice)
-- 
2.43.0


From 32450033f678701199c2ac67be81302c5a619c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:46 +0000
Subject: [PATCH 16/38] fix: detect overlaps between all mode types in
 ModeTypes::from_sets

---
 src/state/mode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/state/mode.rs b/src/state/mode.rs
index b420d1f..62769b1 100644
--- a/src/state/mode.rs
+++ b/src/state/mode.rs
@@ -330,8 +330,9 @@ impl ModeTypes {
     /// and returned as a separate set. Use [`insert_set()`][Self::insert_set] to add them back.
     pub fn from_sets(a: ModeSet, b: ModeSet, c: ModeSet, d: ModeSet) -> (Self, ModeSet) {
         let mut overlap = a.intersection(b);
+        overlap = overlap.union(a.intersection(c));
+        overlap = overlap.union(a.intersection(d));
         overlap = overlap.union(b.intersection(c));
-        overlap = overlap.union(c.intersection(d));
         overlap = overlap.union(b.intersection(d));
         overlap = overlap.union(c.intersection(d));
         (
-- 
2.43.0


From d3e17179e8430d483ca00a9090fad4c6ccc49231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:51 +0000
Subject: [PATCH 17/38] fix: don't treat modes without status prefixes as
 having duplicate prefixes

---
 src/state/mode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state/mode.rs b/src/state/mode.rs
index 62769b1..a9c6bb6 100644
--- a/src/state/mode.rs
+++ b/src/state/mode.rs
@@ -474,7 +474,7 @@ impl StatusModes {
                         format!("duplicate mode `{mode}`").into(),
                     ));
                 }
-                if prefix == prefix_b {
+                if prefix != b'\0' && prefix == prefix_b {
                     return Err(ParseError::InvalidField(
                         "PREFIX value".into(),
                         format!("duplicate prefix `{}`", prefix.escape_ascii()).into(),
-- 
2.43.0


From 9fc118ca8869d16a44aa3df9075557995237a0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:25 +0000
Subject: [PATCH 18/38] fix: don't panic when popping from a queue with a huge
 delay

---
 src/client/queue.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/client/queue.rs b/src/client/queue.rs
index b189e1e..152c3f0 100644
--- a/src/client/queue.rs
+++ b/src/client/queue.rs
@@ -88,6 +88,8 @@ impl Queue {
     /// `burst` specifies how many additional messages may be sent during an initial burst,
     /// e.g. a value of `4` results in a burst of five messages.
     pub fn set_rate_limit(&mut self, delay: Duration, burst: u32) -> &mut Self {
+        // Limit the delay so that neither this nor `pop` can overflow the `Instant`.
+        let delay = delay.min(Duration::from_secs(1 << 30));
         self.delay = delay;
         self.sub = delay.saturating_mul(burst);
         // Pessimistically sets the next-message delay
-- 
2.43.0


From 96e28d339b2f98b53ad0a61a791d664b685333d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:57 +0000
Subject: [PATCH 19/38] fix: generate hexadecimal digits for hexadecimal nick
 suffixes

---
 src/client/nick/suffix.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/client/nick/suffix.rs b/src/client/nick/suffix.rs
index 6ed8285..4600178 100644
--- a/src/client/nick/suffix.rs
+++ b/src/client/nick/suffix.rs
@@ -37,15 +37,15 @@ impl SuffixType {
             SuffixType::Base8 => nick.try_push(b'0' + (num & 7)),
             SuffixType::Base10 => nick.try_push(b'0' + num % 10),
             SuffixType::Base16(uc) => nick.try_push(match num & 15 {
-                num if *uc && num > 9 => b'A' + num,
-                num if !uc && num > 9 => b'a' + num,
+                num if *uc && num > 9 => b'A' + (num - 10),
+                num if !uc && num > 9 => b'a' + (num - 10),
                 num => b'0' + num,
             }),
             SuffixType::NonZeroBase8 => nick.try_push(b'1' + (num % 7)),
             SuffixType::NonZeroBase10 => nick.try_push(b'1' + num % 9),
             SuffixType::NonZeroBase16(uc) => nick.try_push(match num % 15 {
-                num if *uc && num > 8 => b'A' + num,
-                num if !uc && num > 8 => b'a' + num,
+                num if *uc && num > 8 => b'A' + (num - 9),
+                num if !uc && num > 8 => b'a' + (num - 9),
                 num => b'1' + num,
             }),
             SuffixType::Choice(opts) if !opts.is_empty() => {
-- 
2.43.0


From a39e3257d099d6754fa708a4da9fff1383eba8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:02 +0000
Subject: [PATCH 20/38] fix: don't underflow when all sequential nick suffixes
 are empty

---
 src/client/nick/suffix.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/nick/suffix.rs b/src/client/nick/suffix.rs
index 4600178..ee37070 100644
--- a/src/client/nick/suffix.rs
+++ b/src/client/nick/suffix.rs
@@ -147,7 +147,8 @@ impl NickTransformer for Suffix {
                     .suffixes
                     .iter()
                     .fold(0u8, |count, suffix| count.saturating_add(suffix.variance()));
-                (0, limit)
+                // Nick generators always yield at least one nick.
+                (0, limit.max(1))
             }
         };
         Box::new(SuffixGen { cfg: self.clone(), prefix, state: seed, limit })
-- 
2.43.0


From 87608e18bdeae6dd138d0b883d7ee0d110da08bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:07 +0000
Subject: [PATCH 21/38] fix: drop a nick when it is invalid, not when it is
 some other nick

---
 src/client/nick.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/nick.rs b/src/client/nick.rs
index 61ad5f1..c2f8b22 100644
--- a/src/client/nick.rs
+++ b/src/client/nick.rs
@@ -77,7 +77,7 @@ impl NickGen for Nick<'static> {
 
     fn handle_invalid(self: Box<Self>, nick: &Nick<'static>) -> Option<Box<dyn NickGen>> {
         let eq = *nick == *self;
-        eq.then_some(self)
+        (!eq).then_some(self)
     }
 }
 
-- 
2.43.0


From c3d4eee1ed01790ddf96a5996437df938f8dd6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:25 +0000
Subject: [PATCH 22/38] fix: require authentication when there are
 authenticators, not when there are none

---
 src/client/register.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/register.rs b/src/client/register.rs
index 6691694..999b3ce 100644
--- a/src/client/register.rs
+++ b/src/client/register.rs
@@ -109,7 +109,7 @@ impl<O> Register<O> {
         let nicks = self.register_msgs(opts, sink);
         let caps = (self.caps)(opts);
         let (auths, mut needs_auth) = (self.auth)(opts);
-        needs_auth &= auths.is_empty();
+        needs_auth &= !auths.is_empty();
         Handler::new(nicks, caps, needs_auth, auths)
     }
 }
-- 
2.43.0


From fa7f4e131d03c1d313ea282dbb67dfd280385ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:35 +0000
Subject: [PATCH 23/38] fix: parse the list of SASL mechanisms in a 908 as
 comma-separated

---
 src/client/auth/handler.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/client/auth/handler.rs b/src/client/auth/handler.rs
index 981a00c..158b88a 100644
--- a/src/client/auth/handler.rs
+++ b/src/client/auth/handler.rs
@@ -221,16 +221,17 @@ impl Handler {
             // Server is telling us something about the supported mechanisms.
             "908" => {
                 // Let's assume that these apply to all accounts we might try to log in to.
-                #[allow(clippy::mutable_key_type)]
-                let set: std::collections::BTreeSet<_> =
-                    msg.args.split_last().0.iter().map(|a| a.clone().owning()).collect();
-                self.queue.retain(&|ln| set.contains(ln));
+                // The mechanisms are a comma-separated list.
+                let set: std::collections::BTreeSet<_> = (msg.args.split_last().0.iter())
+                    .flat_map(|a| a.split(|b| *b == b','))
+                    .collect();
+                self.queue.retain(&|ln| set.contains(ln.as_bytes()));
                 // If the mechanism is NOT supported,
                 // the server needs to error with a 904, which causes this handler to
                 // cycle to the next authenticator.
                 // However, we can short-circuit this if the queue is empty AND
                 // the authenticator is unsupported.
-                if self.queue.is_empty() && !set.contains(&self.logic.name()) {
+                if self.queue.is_empty() && !set.contains(self.logic.name().as_bytes()) {
                     Err(HandlerError::Unsupported)
                 } else {
                     Ok(false)
-- 
2.43.0


From 5b03f5ec7ecb25b11fe35858c64431cd301351b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:21 +0000
Subject: [PATCH 24/38] fix: don't fail registration on late replies to a
 failed authentication

---
 src/client/register/handler.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/client/register/handler.rs b/src/client/register/handler.rs
index 3ae3071..8cfc215 100644
--- a/src/client/register/handler.rs
+++ b/src/client/register/handler.rs
@@ -250,11 +250,8 @@ impl Handler {
         if crate::client::handlers::pong(msg, sink.borrow_mut()) {
             return Ok(None);
         }
-        // Ignore errors related to SASL.
-        let mut ignore_sasl = false;
         #[cfg(feature = "base64")]
         if let HandlerState::Sasl(sasl) = &mut self.state {
-            ignore_sasl = true;
             match sasl.handle(msg, sink.borrow_mut()) {
                 Ok(false) => (),
                 Ok(true) => {
@@ -415,7 +412,9 @@ impl Handler {
                 }
                 Ok(None)
             }
-            "902" | "904" | "905" | "906" | "907" if ignore_sasl => Ok(None),
+            // Ignore errors related to SASL. These may still arrive after giving up on SASL,
+            // such as the 906 in response to aborting the last authenticator.
+            "902" | "904" | "905" | "906" | "907" => Ok(None),
             "CAP" => {
                 use crate::client::cap;
                 let cap_msg = cap::ServerMsgArgs::parse(&msg.args.clone().owning())
-- 
2.43.0


From 65d994787fe5a724b558a7fc6da7e65b0b497602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:15 +0000
Subject: [PATCH 25/38] fix: forget an incomplete SASL challenge when moving on
 to the next authenticator

---
 src/client/auth/handler.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/client/auth/handler.rs b/src/client/auth/handler.rs
index 158b88a..bac38dc 100644
--- a/src/client/auth/handler.rs
+++ b/src/client/auth/handler.rs
@@ -125,6 +125,12 @@ impl Handler {
         msg
     }
 
+    /// Switches to another authenticator, forgetting any incomplete challenge for the old one.
+    fn set_logic(&mut self, logic: Box<dyn SaslLogic>) {
+        self.logic = logic;
+        self.decoder = crate::string::base64::ChunkDecoder::new(400);
+    }
+
     /// Constrains SASL authenticators to only support mechanisms whose names return `true`
     /// when passed to the provided function.
     ///
@@ -138,7 +144,7 @@ impl Handler {
         if supported(&self.logic.name()) {
             None
         } else if let Some(new_logic) = self.queue.pop() {
-            self.logic = new_logic;
+            self.set_logic(new_logic);
             Some(true)
         } else {
             Some(false)
@@ -198,7 +204,7 @@ impl Handler {
                 // In a more account-aware system, could purge all authenticators that are
                 // meant to log in to the same account on a 902.
                 if let Some(next_logic) = self.queue.pop() {
-                    self.logic = next_logic;
+                    self.set_logic(next_logic);
                     sink.send(self.auth_msg());
                     Ok(false)
                 } else {
-- 
2.43.0


From d01fa37629e9ceeaff33126b73800bc3b321da33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:37 +0000
Subject: [PATCH 26/38] fix: don't answer CTCP replies as if they were queries

---
 src/client/handlers/autoreply.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client/handlers/autoreply.rs b/src/client/handlers/autoreply.rs
index 71fc218..194b3c1 100644
--- a/src/client/handlers/autoreply.rs
+++ b/src/client/handlers/autoreply.rs
@@ -42,6 +42,9 @@ impl Handler for CtcpVersion {
         _: crate::client::channel::SenderRef<'_, Self::Value>,
     ) -> std::ops::ControlFlow<()> {
         // TODO: Should probably consider length limits.
+        if msg.kind != PRIVMSG {
+            return std::ops::ControlFlow::Continue(());
+        }
         let Ok(msg) = msg.parse_as(PRIVMSG) else {
             return std::ops::ControlFlow::Continue(());
         };
-- 
2.43.0


From 5a7de5810308822792f56119cc9e359ca18fee12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:42 +0000
Subject: [PATCH 27/38] fix: keep tracking the client's source when it isn't
 known yet

---
 src/client/handlers/track.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/client/handlers/track.rs b/src/client/handlers/track.rs
index 74aab7c..f9fccfb 100644
--- a/src/client/handlers/track.rs
+++ b/src/client/handlers/track.rs
@@ -31,11 +31,8 @@ impl TrackClientSource {
     }
 }
 
-fn get_client_source(state: &mut ClientState) -> ControlFlow<(), &mut Source<'static>> {
-    match state.get_mut::<ClientSource>() {
-        Some(v) => ControlFlow::Continue(v),
-        None => ControlFlow::Break(()),
-    }
+fn get_client_source(state: &mut ClientState) -> Option<&mut Source<'static>> {
+    state.get_mut::<ClientSource>()
 }
 
 // TODO: Would be nice to extract RPL_USERHOST parsing.
@@ -96,7 +93,9 @@ impl Handler for TrackClientSource {
             // RPL_USERHOST
             "302" => {
                 if let Some([_, items @ ..]) = msg.args.all() {
-                    let src = get_client_source(state)?;
+                    let Some(src) = get_client_source(state) else {
+                        return ControlFlow::Continue(());
+                    };
                     for item in items {
                         let userhost = match parse_userhost_item(item.clone(), &src.nick) {
                             Ok(uh) => uh,
@@ -112,7 +111,9 @@ impl Handler for TrackClientSource {
             }
             "NICK" => {
                 if let Some([nick]) = msg.args.all() {
-                    let src = get_client_source(state)?;
+                    let Some(src) = get_client_source(state) else {
+                        return ControlFlow::Continue(());
+                    };
                     let Ok(nick) = Nick::from_arg(nick.clone()) else {
                         // TODO: Log warning?
                         return ControlFlow::Continue(());
@@ -129,7 +130,9 @@ impl Handler for TrackClientSource {
             }
             "CHGHOST" => {
                 if let Some([user, host]) = msg.args.all() {
-                    let src = get_client_source(state)?;
+                    let Some(src) = get_client_source(state) else {
+                        return ControlFlow::Continue(());
+                    };
                     match msg.source.as_ref() {
                         Some(m_src) if m_src.nick == src.nick => {
                             let user = match User::from_super(user.clone()) {
-- 
2.43.0


From 05a434a8a939054606fcedfa297ad92599cd6d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:47 +0000
Subject: [PATCH 28/38] fix: forget the assumed source length when resetting
 client state

---
 src/client/logic.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/logic.rs b/src/client/logic.rs
index dd64cc2..a99b73a 100644
--- a/src/client/logic.rs
+++ b/src/client/logic.rs
@@ -221,6 +221,7 @@ impl ClientState {
     }
     /// Clears all state.
     pub(super) fn clear(&mut self) {
+        self.source_len = DEFAULT_SOURCE_LEN;
         self.state.clear();
     }
     /// Returns the length that clients should assume for the length of their `source` fields.
-- 
2.43.0


From 7382d029a1a92779fd7c678d79c127371c2252bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:47 +0000
Subject: [PATCH 29/38] fix: consider the server's limits for the source length
 after registration

---
 src/client/register/handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/register/handler.rs b/src/client/register/handler.rs
index 8cfc215..6d43aed 100644
--- a/src/client/register/handler.rs
+++ b/src/client/register/handler.rs
@@ -58,11 +58,11 @@ impl Registration {
     pub fn save(self, state: &mut crate::client::ClientState) {
         use crate::client::state::*;
         let source = Source { nick: self.nick, userhost: self.userhost };
-        state.update_source_len_from(Some(&source), true);
         state.insert::<ClientSource>(source);
         state.insert::<Account>(self.account);
         state.insert::<Caps>(self.caps);
         state.insert::<ISupport>(self.isupport);
+        state.update_source_len();
         if let Some(server_source) = self.source {
             state.insert::<ServerSource>(server_source);
         }
-- 
2.43.0


From 771e416599f47e605eed11a44e3f8dd1988b329c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:10 +0000
Subject: [PATCH 30/38] fix: lift an earlier read timeout from the connection
 when there is no limit

---
 src/client/conn/time.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/client/conn/time.rs b/src/client/conn/time.rs
index 5bc6e37..9f98086 100644
--- a/src/client/conn/time.rs
+++ b/src/client/conn/time.rs
@@ -150,6 +150,10 @@ impl<'a, C: super::Connection> TimeLimitedSync<'a, C> {
         }
         let (read, constrained) = timeout_fallback(write_after, read);
         let read = read.and_then(|dur| Instant::now().checked_add(dur));
+        if read.is_none() {
+            // Don't let an earlier time limit linger.
+            conn.set_read_timeout(None)?;
+        }
         Ok((TimeLimitedSync { conn, read }, constrained))
     }
     fn update_timeout(&mut self) -> std::io::Result<()> {
-- 
2.43.0


From 6e9bab560cb85144af67221a45df98bba9aac118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:53 +0000
Subject: [PATCH 31/38] fix: don't exceed the read timeout while waiting for
 rate limits

---
 src/client/conn/time.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/client/conn/time.rs b/src/client/conn/time.rs
index 9f98086..323c82a 100644
--- a/src/client/conn/time.rs
+++ b/src/client/conn/time.rs
@@ -88,10 +88,10 @@ fn timeout_fallback(
     new_timeout: Option<Duration>,
     old_timeout: Option<Duration>,
 ) -> (Option<Duration>, bool) {
-    if new_timeout.is_some() {
-        (new_timeout, true)
-    } else {
-        (old_timeout, false)
+    match (new_timeout, old_timeout) {
+        (Some(new), Some(old)) if new > old => (Some(old), false),
+        (Some(new), _) => (Some(new), true),
+        (None, _) => (old_timeout, false),
     }
 }
 
-- 
2.43.0


From 92e2d0b357c7843d57fe922b7f89e35284077338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:58 +0000
Subject: [PATCH 32/38] fix: set the write timeout before writing

---
 src/client/conn/sync.rs |  5 ++++-
 src/client/conn/time.rs | 13 ++++++-------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/client/conn/sync.rs b/src/client/conn/sync.rs
index 7cff4ac..64ab776 100644
--- a/src/client/conn/sync.rs
+++ b/src/client/conn/sync.rs
@@ -302,7 +302,7 @@ impl<C: Connection, S> crate::client::Client<C, S> {
                 return Ok(Some((Default::default(), Default::default())));
             }
             let (mut conn, rto_from_queue) =
-                TimeLimitedSync::new(&mut self.conn.conn, &mut self.logic.timeout, wait_for)?;
+                TimeLimitedSync::new(&mut self.conn.conn, &self.logic.timeout, wait_for)?;
             let msg = if self.logic.handlers.wants_owning() {
                 ClientCodec::read_owning_from(&mut conn, &mut self.conn.buf_i)
             } else {
@@ -352,6 +352,9 @@ impl<C: Connection, S> crate::client::Client<C, S> {
             let _ = ClientCodec::write_to(&popped, &mut self.conn.buf_o);
             self.conn.buf_o.extend_from_slice(b"\r\n");
         }
+        if let Some(write_timeout) = self.logic.timeout.take_write_update() {
+            self.conn.conn.set_write_timeout(write_timeout)?;
+        }
         let result = self.conn.conn.as_write().write_all(&self.conn.buf_o);
         self.conn.buf_o.clear();
         result?;
diff --git a/src/client/conn/time.rs b/src/client/conn/time.rs
index 323c82a..658702a 100644
--- a/src/client/conn/time.rs
+++ b/src/client/conn/time.rs
@@ -118,6 +118,10 @@ impl TimeLimits {
     pub fn require_update(&mut self) {
         self.update_write = true;
     }
+    /// Returns the write timeout if it needs to be updated on the stream.
+    pub fn take_write_update(&mut self) -> Option<Option<Duration>> {
+        std::mem::take(&mut self.update_write).then_some(self.write)
+    }
     pub fn read_timeout(&self) -> Option<Duration> {
         self.read
     }
@@ -140,15 +144,10 @@ pub(super) struct TimeLimitedSync<'a, C> {
 impl<'a, C: super::Connection> TimeLimitedSync<'a, C> {
     pub fn new(
         conn: &'a mut C,
-        timeouts: &mut TimeLimits,
+        timeouts: &TimeLimits,
         write_after: Option<Duration>,
     ) -> std::io::Result<(Self, bool)> {
-        let TimeLimits { read, write, update_write, .. } = *timeouts;
-        if update_write {
-            conn.set_write_timeout(write)?;
-            timeouts.update_write = false;
-        }
-        let (read, constrained) = timeout_fallback(write_after, read);
+        let (read, constrained) = timeout_fallback(write_after, timeouts.read);
         let read = read.and_then(|dur| Instant::now().checked_add(dur));
         if read.is_none() {
             // Don't let an earlier time limit linger.
-- 
2.43.0


From cbdd6005271a9d645dc4e4c1faa179b1fd78b7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:21 +0000
Subject: [PATCH 33/38] fix: don't cut over-long lines in two in Decoder impls

---
 src/ircmsg/codec.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/ircmsg/codec.rs b/src/ircmsg/codec.rs
index e5b2256..7cbeb7f 100644
--- a/src/ircmsg/codec.rs
+++ b/src/ircmsg/codec.rs
@@ -425,6 +425,7 @@ impl ServerCodec {
 pub(super) mod tokio_codec {
     use super::{ClientCodec, ServerCodec};
     use crate::{
+        error::ParseError,
         ircmsg::{ClientMsg, ServerMsg},
         string::Line,
     };
@@ -475,15 +476,18 @@ pub(super) mod tokio_codec {
         None
     }
 
-    /// Removes the line terminator from `line`, if there is one.
-    fn trim_newline(mut line: &[u8]) -> &[u8] {
+    /// Removes the line terminator from `line`.
+    /// Errors if there is none because the line is too long.
+    fn trim_newline(mut line: &[u8]) -> Result<&[u8], ParseError> {
         if let Some(rest) = line.strip_suffix(b"\n") {
             line = rest;
             while let Some(rest) = line.strip_suffix(b"\r") {
                 line = rest;
             }
+        } else if !line.ends_with(b"\0") {
+            return Err(ParseError::TooLong);
         }
-        line
+        Ok(line)
     }
 
     impl Decoder for ClientCodec {
@@ -496,7 +500,7 @@ pub(super) mod tokio_codec {
                 return Ok(None);
             };
             let line_raw = src.split_to(split_at.get());
-            let line = Line::from_bytes(trim_newline(&line_raw))?;
+            let line = Line::from_bytes(trim_newline(&line_raw)?)?;
             Ok(Some(ServerMsg::parse(line.owning())?))
         }
     }
@@ -510,7 +514,7 @@ pub(super) mod tokio_codec {
                 return Ok(None);
             };
             let line_raw = src.split_to(split_at.get());
-            let line = Line::from_bytes(trim_newline(&line_raw))?;
+            let line = Line::from_bytes(trim_newline(&line_raw)?)?;
             Ok(Some(ClientMsg::parse(line.owning())?))
         }
     }
-- 
2.43.0


From 97ec1492aba5b3e9ddb921e7f0902802a4917826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:11 +0000
Subject: [PATCH 34/38] fix: let the write timeout elapse for asynchronous I/O

---
 src/client/conn/time.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/client/conn/time.rs b/src/client/conn/time.rs
index 658702a..d0bc18c 100644
--- a/src/client/conn/time.rs
+++ b/src/client/conn/time.rs
@@ -211,21 +211,25 @@ impl<'a, C: super::Connection> std::io::BufRead for TimeLimitedSync<'a, C> {
 pub(super) struct TimeLimitedTokio<'a, C> {
     conn: &'a mut C,
     write: Option<Duration>,
+    /// Elapses if a write makes no progress for too long.
+    write_timer: Option<std::pin::Pin<Box<tokio::time::Sleep>>>,
 }
 
 #[cfg(feature = "tokio")]
 impl<'a, C: super::ConnectionTokio> TimeLimitedTokio<'a, C> {
     pub fn new(conn: &'a mut C, timeouts: &TimeLimits) -> Self {
-        TimeLimitedTokio { conn, write: timeouts.write }
+        TimeLimitedTokio { conn, write: timeouts.write, write_timer: None }
     }
     fn poll_write_timeout(
-        self: std::pin::Pin<&mut Self>,
+        mut self: std::pin::Pin<&mut Self>,
         cx: &mut std::task::Context<'_>,
     ) -> std::task::Poll<std::io::Error> {
         if let Some(timeout) = self.write {
             use std::future::Future;
-            let sleeper = std::pin::pin!(tokio::time::sleep(timeout));
-            if sleeper.poll(cx).is_ready() {
+            let timer =
+                self.write_timer.get_or_insert_with(|| Box::pin(tokio::time::sleep(timeout)));
+            if timer.as_mut().poll(cx).is_ready() {
+                self.write_timer = None;
                 return std::task::Poll::Ready(std::io::Error::new(
                     std::io::ErrorKind::TimedOut,
                     "async write time limit elapsed",
@@ -270,6 +274,7 @@ impl<'a, C: super::ConnectionTokio> tokio::io::AsyncWrite for TimeLimitedTokio<'
     ) -> std::task::Poll<Result<usize, std::io::Error>> {
         let writer = std::pin::Pin::new(self.conn.as_write());
         if let std::task::Poll::Ready(v) = writer.poll_write(cx, buf) {
+            self.write_timer = None;
             return std::task::Poll::Ready(v);
         }
         self.poll_write_timeout(cx).map(Err)
@@ -281,6 +286,7 @@ impl<'a, C: super::ConnectionTokio> tokio::io::AsyncWrite for TimeLimitedTokio<'
     ) -> std::task::Poll<Result<(), std::io::Error>> {
         let writer = std::pin::Pin::new(self.conn.as_write());
         if let std::task::Poll::Ready(v) = writer.poll_flush(cx) {
+            self.write_timer = None;
             return std::task::Poll::Ready(v);
         }
         self.poll_write_timeout(cx).map(Err)
-- 
2.43.0


From a9665aae48fe36c8ef977fd4b13c484385ece0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:08 +0000
Subject: [PATCH 35/38] fix: dropping both ends of a oneshot channel at once
 freed it twice, or while in use

---
 src/client/handler/channel/oneshot.rs | 42 +++++++++++++--------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/src/client/handler/channel/oneshot.rs b/src/client/handler/channel/oneshot.rs
index 806b6de..f657146 100644
--- a/src/client/handler/channel/oneshot.rs
+++ b/src/client/handler/channel/oneshot.rs
@@ -27,7 +27,8 @@ use std::{
 // The senders have no access to the sent value.
 
 struct Inner<T> {
-    sender_count: AtomicUsize,
+    /// How many senders and receivers share this. The last one to go deallocates it.
+    ref_count: AtomicUsize,
     recver: AtomicBool,
     lock: Once,
     // Manually implement OnceLock so that we can deinit the value but keep the lock.
@@ -51,7 +52,7 @@ unsafe impl<T> Sync for Sender<T> {}
 
 impl<T> Clone for Sender<T> {
     fn clone(&self) -> Self {
-        unsafe { self.0.as_ref().sender_count.fetch_add(1, Ordering::Relaxed) };
+        unsafe { self.0.as_ref().ref_count.fetch_add(1, Ordering::Relaxed) };
         Self(self.0)
     }
 }
@@ -70,32 +71,33 @@ impl<T> Drop for Receiver<T> {
         if has_value {
             unsafe { inner_ref.value.get().as_mut().unwrap_unchecked().assume_init_drop() };
         }
-        if inner_ref.sender_count.load(Ordering::Acquire) == 0 {
-            #[allow(dropping_references)]
-            std::mem::drop(inner_ref);
-            std::mem::drop(unsafe { Box::from_raw(self.0.as_ptr()) });
-        }
+        unsafe { release(self.0) };
     }
 }
 
 impl<T> Drop for Sender<T> {
     fn drop(&mut self) {
-        let inner_ref = unsafe { self.0.as_ref() };
-        if inner_ref.sender_count.fetch_sub(1, Ordering::Release) == 1 {
-            #[allow(clippy::collapsible_if)]
-            if !inner_ref.recver.load(Ordering::Acquire) {
-                #[allow(dropping_references)]
-                std::mem::drop(inner_ref);
-                std::mem::drop(unsafe { Box::from_raw(self.0.as_ptr()) });
-            }
-        }
+        unsafe { release(self.0) };
+    }
+}
+
+/// Gives up one share of the channel.
+///
+/// # Safety
+/// The channel must not be used through this share again.
+unsafe fn release<T>(ptr: std::ptr::NonNull<Inner<T>>) {
+    let inner_ref = unsafe { ptr.as_ref() };
+    if inner_ref.ref_count.fetch_sub(1, Ordering::AcqRel) == 1 {
+        #[allow(dropping_references)]
+        std::mem::drop(inner_ref);
+        std::mem::drop(unsafe { Box::from_raw(ptr.as_ptr()) });
     }
 }
 
 /// Creates a new oneshot channel for sending single values.
 pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
     let inner = Box::new(Inner {
-        sender_count: AtomicUsize::new(1),
+        ref_count: AtomicUsize::new(2),
         recver: AtomicBool::new(true),
         lock: Once::new(),
         value: UnsafeCell::new(MaybeUninit::uninit()),
@@ -135,11 +137,7 @@ impl<T> Receiver<T> {
         let retval = has_value.then(|| unsafe {
             inner_ref.value.get().as_ref().unwrap_unchecked().assume_init_read()
         });
-        if inner_ref.sender_count.load(Ordering::Acquire) == 0 {
-            #[allow(dropping_references)]
-            std::mem::drop(inner_ref);
-            std::mem::drop(unsafe { Box::from_raw(ptr.as_ptr()) });
-        }
+        unsafe { release(ptr) };
         retval
     }
     /// Receives a value over this channel. Parks using the provided `parker` if
-- 
2.43.0


From b76d2e708c6426a09d6fdec79988b628e7ba0ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:17 +0000
Subject: [PATCH 36/38] fix: a parker left a dangling handle to its thread for
 later unparks

---
 src/client/handler/channel/parker.rs | 64 ++++++++++++++++------------
 1 file changed, 37 insertions(+), 27 deletions(-)

diff --git a/src/client/handler/channel/parker.rs b/src/client/handler/channel/parker.rs
index f4f6053..f7d8fbd 100644
--- a/src/client/handler/channel/parker.rs
+++ b/src/client/handler/channel/parker.rs
@@ -34,12 +34,17 @@ impl<S> Drop for Unparker<S> {
         let Some(arc) = Arc::into_inner(unsafe { ManuallyDrop::take(&mut self.1) }) else {
             return;
         };
-        let ptr = arc.into_inner();
-        if ptr != unsafe { SKIP_PARKING.as_mut_ptr() } {
-            if let Some(th) = unsafe { ptr.as_ref() } {
-                th.clone().unpark();
-            }
-        }
+        unsafe { unpark_at(arc.into_inner()) };
+    }
+}
+
+/// Unparks the thread whose handle was taken out of the location shared with a [`Parker`], if any.
+///
+/// # Safety
+/// Whoever takes the handle owns it.
+unsafe fn unpark_at(ptr: *mut Thread) {
+    if !ptr.is_null() && ptr != unsafe { SKIP_PARKING.as_mut_ptr() } {
+        unsafe { Box::from_raw(ptr) }.unpark();
     }
 }
 
@@ -49,11 +54,8 @@ impl<S> Unparker<S> {
     ///
     /// This generally doesn't need to be called manually unless `S` is not a sender.
     pub fn unpark(&self) {
-        let ptr = self.1.swap(unsafe { SKIP_PARKING.as_mut_ptr() }, Ordering::AcqRel);
-        if ptr != unsafe { SKIP_PARKING.as_mut_ptr() } {
-            if let Some(th) = unsafe { ptr.as_ref() } {
-                th.clone().unpark();
-            }
+        unsafe {
+            unpark_at(self.1.swap(SKIP_PARKING.as_mut_ptr(), Ordering::AcqRel));
         }
     }
 }
@@ -78,29 +80,37 @@ impl Parker {
     /// Block this thread until either all [`Unparker`]s are dropped or
     /// until one of them unparks this thread.
     pub fn park(&self) {
-        let Some(strong) = self.0.upgrade() else {
+        let Some(mut strong) = self.0.upgrade() else {
             return;
         };
-        let mut th = std::thread::current();
+        // Owned by whoever takes it out of the shared location.
+        // An unparker may still be using it after this thread stops being parked.
+        let th = Box::into_raw(Box::new(std::thread::current()));
         if strong
-            .compare_exchange(
-                std::ptr::null_mut(),
-                &mut th as *mut Thread,
-                Ordering::AcqRel,
-                Ordering::Acquire,
-            )
-            .is_ok()
+            .compare_exchange(std::ptr::null_mut(), th, Ordering::AcqRel, Ordering::Acquire)
+            .is_err()
         {
-            if Arc::into_inner(strong).is_none() {
+            std::mem::drop(unsafe { Box::from_raw(th) });
+        } else {
+            loop {
+                if let Some(inner) = Arc::into_inner(strong) {
+                    // No unparkers left!
+                    if inner.into_inner() == th {
+                        std::mem::drop(unsafe { Box::from_raw(th) });
+                    }
+                    return;
+                }
                 std::thread::park();
-            } else {
-                // No unparkers left!
-                return;
+                match self.0.upgrade() {
+                    Some(s) => strong = s,
+                    None => return,
+                }
+                // Threads can stop being parked for reasons unrelated to this parker.
+                if strong.load(Ordering::Acquire) != th {
+                    break;
+                }
             }
         }
-        let Some(strong) = self.0.upgrade() else {
-            return;
-        };
         strong.store(std::ptr::null_mut(), Ordering::Release);
     }
 }
-- 
2.43.0


From 34eba5830cfb612751c2410d03522d120022c856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:27 +0000
Subject: [PATCH 37/38] fix: the last reference to a shared buffer was dropped
 without synchronizing with the others

---
 src/util/thinarc.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/thinarc.rs b/src/util/thinarc.rs
index 8077a09..f5ef030 100644
--- a/src/util/thinarc.rs
+++ b/src/util/thinarc.rs
@@ -32,7 +32,7 @@ impl<T> ThinArc<T> {
     }
     pub fn try_unwrap(mut self) -> Result<T, Self> {
         unsafe {
-            if self.ret_rc().load(Ordering::Relaxed) == 1 {
+            if self.ret_rc().load(Ordering::Acquire) == 1 {
                 let retval = Ok(self.offsets().1.cast::<T>().read());
                 self.dealloc();
                 std::mem::forget(self);
@@ -109,6 +109,8 @@ impl<T: DynSized + ?Sized> Drop for ThinArc<T> {
     fn drop(&mut self) {
         unsafe {
             if self.ret_rc().fetch_sub(1, Ordering::Release) == 1 {
+                // Everything done with the other references must happen before the value is dropped.
+                std::sync::atomic::fence(Ordering::Acquire);
                 let (ptr_meta, ptr_value) = self.offsets();
                 T::drop_in_place(
                     NonNull::new_unchecked(ptr_value),
-- 
2.43.0


From efc1c6567f06a40e0506746c2b40b676b4be07b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:28 +0000
Subject: [PATCH 38/38] fix: a write timeout that could not be set was never
 set again

---
 src/client/conn/sync.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/client/conn/sync.rs b/src/client/conn/sync.rs
index 64ab776..19eca1b 100644
--- a/src/client/conn/sync.rs
+++ b/src/client/conn/sync.rs
@@ -353,7 +353,11 @@ impl<C: Connection, S> crate::client::Client<C, S> {
             self.conn.buf_o.extend_from_slice(b"\r\n");
         }
         if let Some(write_timeout) = self.logic.timeout.take_write_update() {
-            self.conn.conn.set_write_timeout(write_timeout)?;
+            if let Err(e) = self.conn.conn.set_write_timeout(write_timeout) {
+                // The connection still needs this timeout.
+                self.logic.timeout.require_update();
+                return Err(e);
+            }
         }
         let result = self.conn.conn.as_write().write_all(&self.conn.buf_o);
         self.conn.buf_o.clear();
-- 
2.43.0

