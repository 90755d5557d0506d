From a511db3ba5489b29d39fe29a93d85d5f9b93d5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:45 +0000
Subject: [PATCH 1/4] fix: sha512: decode the midstate eight bytes at a time

`from_midstate` split the 64 byte midstate into 4 byte chunks and converted
each of them to a `u64`, which panics for every midstate. Affects SHA-512,
SHA-384 and SHA-512/256.
---
 src/sha512.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sha512.rs b/src/sha512.rs
index 7c73967..36480e1 100644
--- a/src/sha512.rs
+++ b/src/sha512.rs
@@ -124,8 +124,8 @@ impl HashEngine for Engine {
         assert!(length % BLOCK_SIZE == 0, "length is no multiple of the block size");
 
         let mut ret = [0; 8];
-        for (ret_val, midstate_bytes) in ret.iter_mut().zip(midstate[..].chunks_exact(4)) {
-            *ret_val = u64::from_be_bytes(midstate_bytes.try_into().expect("4 byte slice"));
+        for (ret_val, midstate_bytes) in ret.iter_mut().zip(midstate[..].chunks_exact(8)) {
+            *ret_val = u64::from_be_bytes(midstate_bytes.try_into().expect("8 byte slice"));
         }
 
         Engine { buffer: [0; BLOCK_SIZE], h: ret, length }
-- 
2.43.0


From 43eb02dda1a8b592cb6cf0509bf19ee79ef62882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:45 +0000
Subject: [PATCH 2/4] fix: ripemd160: read the midstate as little endian

`midstate` exports the chaining value in little endian but `from_midstate`
read it as big endian, so a resumed engine produced wrong digests.
---
 src/ripemd160.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ripemd160.rs b/src/ripemd160.rs
index e064084..2794c4f 100644
--- a/src/ripemd160.rs
+++ b/src/ripemd160.rs
@@ -92,7 +92,7 @@ impl HashEngine for Engine {
 
         let mut ret = [0; 5];
         for (ret_val, midstate_bytes) in ret.iter_mut().zip(midstate[..].chunks_exact(4)) {
-            *ret_val = u32::from_be_bytes(midstate_bytes.try_into().expect("4 byte slice"));
+            *ret_val = u32::from_le_bytes(midstate_bytes.try_into().expect("4 byte slice"));
         }
 
         Engine { buffer: [0; BLOCK_SIZE], h: ret, length }
-- 
2.43.0


From 7be9f5709beb79b4bccaf70890f8fbf89fb4f602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:45 +0000
Subject: [PATCH 3/4] fix: siphash24: keep the length when resuming from a
 midstate

`from_midstate` ignored `length`, so the resumed engine reported zero hashed
bytes and encoded a wrong length into the digest.
---
 src/siphash24.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/siphash24.rs b/src/siphash24.rs
index 2f93fe8..64164d0 100644
--- a/src/siphash24.rs
+++ b/src/siphash24.rs
@@ -199,8 +199,8 @@ impl HashEngine for Engine {
     fn midstate(&self) -> State { self.state.clone() }
 
     #[inline]
-    fn from_midstate(midstate: Self::Midstate, _length: usize) -> Engine {
-        Engine { state: midstate, ..Default::default() }
+    fn from_midstate(midstate: Self::Midstate, length: usize) -> Engine {
+        Engine { state: midstate, length, ..Default::default() }
     }
 }
 
-- 
2.43.0


From 1a63e660a520c659f5b36d8c61dc7187d1c47d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:45 +0000
Subject: [PATCH 4/4] fix: hmac: use the right length for the outer engine when
 resuming

`from_midstate` gave the outer engine the byte count of the inner one, so
resuming after any message block was fed produced wrong digests.
---
 src/hmac.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hmac.rs b/src/hmac.rs
index 8aa4470..1b745fe 100644
--- a/src/hmac.rs
+++ b/src/hmac.rs
@@ -264,9 +264,12 @@ impl<E: HashEngine> HashEngine for Engine<E> {
 
     #[inline]
     fn from_midstate(midstate: Midstate<E>, length: usize) -> Self {
+        // The outer engine has only been fed one block, the padded key.
+        let outer_length = E::default().n_bytes_hashed() + E::BLOCK_SIZE;
+
         Engine {
             iengine: E::from_midstate(midstate.inner, length),
-            oengine: E::from_midstate(midstate.outer, length),
+            oengine: E::from_midstate(midstate.outer, outer_length),
         }
     }
 }
-- 
2.43.0

