From 798d1b5438a63017e7865df267232f12a9adc790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:57 +0000
Subject: [PATCH 1/3] fix: don't count the key block in State::count

The key is absorbed through update(), so a keyed state reported 64 bytes
(a keyed blake2sp state 512 bytes) of input that the caller never fed in.
---
 src/blake2sp.rs |  1 +
 src/lib.rs      | 12 +++++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/blake2sp.rs b/src/blake2sp.rs
index 441de2e..e970ab5 100644
--- a/src/blake2sp.rs
+++ b/src/blake2sp.rs
@@ -140,6 +140,7 @@ impl State {
         // corroborated by the official test vectors; see tests/vector_tests.rs.
         root_state.buflen = 0;
         root_state.count = 0;
+        root_state.is_keyed = false;
         Self {
             leaf0: leaf_state(0),
             leaf1: leaf_state(1),
diff --git a/src/lib.rs b/src/lib.rs
index c6fce16..1503ab4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -311,6 +311,7 @@ pub struct State {
     compress_fn: CompressFn,
     last_node: bool,
     hash_length: u8,
+    is_keyed: bool,
 }
 
 impl State {
@@ -327,6 +328,7 @@ impl State {
             count: 0,
             last_node: params.last_node,
             hash_length: params.hash_length,
+            is_keyed: params.key_length > 0,
         };
         if params.key_length > 0 {
             let mut key_block = [0; BLOCKBYTES];
@@ -414,9 +416,10 @@ impl State {
         self
     }
 
-    /// Return the total number of bytes input so far.
+    /// Return the total number of bytes input so far. The key block doesn't count.
     pub fn count(&self) -> u64 {
-        self.count
+        let key_bytes = if self.is_keyed { BLOCKBYTES as u64 } else { 0 };
+        self.count - key_bytes
     }
 }
 
@@ -454,7 +457,9 @@ impl fmt::Debug for State {
         write!(
             f,
             "State {{ count: {}, hash_length: {}, last_node: {} }}",
-            self.count, self.hash_length, self.last_node,
+            self.count(),
+            self.hash_length,
+            self.last_node,
         )
     }
 }
@@ -1002,6 +1007,7 @@ pub fn hash8(
             compress_fn: compress_fn,
             last_node: params.last_node,
             hash_length: params.hash_length,
+            is_keyed: false,
         };
         state.update(&input[count..]);
         state.finalize()
-- 
2.43.0


From 35bd708ccd853c2e07b91432505ed74c1c0628f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:59 +0000
Subject: [PATCH 2/3] fix: put the blake2sp key blocks in the tree's buffer,
 not the leaves'

The leaves kept the key block in their own buffers, which the direct 8-way
compressions ignore. Keyed inputs of more than 15 blocks (or any that
overflowed the internal buffer) gave a wrong hash, or failed a debug
assertion.
---
 src/blake2sp.rs | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/blake2sp.rs b/src/blake2sp.rs
index e970ab5..a2d9624 100644
--- a/src/blake2sp.rs
+++ b/src/blake2sp.rs
@@ -87,6 +87,7 @@ pub struct State {
     buf: [u8; 2 * 8 * BLOCKBYTES],
     buflen: u16,
     compress8_fn: Compress8Fn,
+    is_keyed: bool,
 }
 
 impl State {
@@ -124,6 +125,12 @@ impl State {
             // Note that the regular hash_length parameter still contributes associated data to
             // these instances.
             state.hash_length = OUTBYTES as u8;
+            // Clear the key block from the leaf buffer. The key blocks of all the leaves go at the
+            // front of our own buffer instead, like any other input, because the leaves don't get
+            // input through their normal update() interface. See compress8().
+            state.buflen = 0;
+            state.count = 0;
+            state.is_keyed = false;
             state
         };
         let mut root_state = base_params
@@ -141,6 +148,15 @@ impl State {
         root_state.buflen = 0;
         root_state.count = 0;
         root_state.is_keyed = false;
+        let is_keyed = params.key_length > 0;
+        let mut buf = [0; 2 * 8 * BLOCKBYTES];
+        let mut buflen = 0;
+        if is_keyed {
+            for key_block in buf[..8 * BLOCKBYTES].chunks_mut(BLOCKBYTES) {
+                key_block[..KEYBYTES].copy_from_slice(&params.key);
+            }
+            buflen = 8 * BLOCKBYTES as u16;
+        }
         Self {
             leaf0: leaf_state(0),
             leaf1: leaf_state(1),
@@ -151,9 +167,10 @@ impl State {
             leaf6: leaf_state(6),
             leaf7: leaf_state(7),
             root: root_state,
-            buf: [0; 2 * 8 * BLOCKBYTES],
-            buflen: 0,
+            buf: buf,
+            buflen: buflen,
             compress8_fn: crate::default_compress_impl().1,
+            is_keyed: is_keyed,
         }
     }
 
@@ -388,8 +405,13 @@ impl State {
         root.finalize()
     }
 
-    /// Return the total number of bytes input so far.
+    /// Return the total number of bytes input so far. The key blocks don't count.
     pub fn count(&self) -> u64 {
+        let key_bytes = if self.is_keyed {
+            8 * BLOCKBYTES as u64
+        } else {
+            0
+        };
         self.leaf0.count()
             + self.leaf1.count()
             + self.leaf2.count()
@@ -399,6 +421,7 @@ impl State {
             + self.leaf6.count()
             + self.leaf7.count()
             + self.buflen as u64
+            - key_bytes
     }
 }
 
-- 
2.43.0


From b42f15252f966bdf529a76d348ef69c26fb527d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 3/3] fix: don't ignore the key in hash4_exact and hash8_exact

With AVX2 available, both functions dropped the key block and returned
wrong hashes. Use the portable implementations for keyed parameters.
---
 src/lib.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 1503ab4..0e16d42 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -792,6 +792,11 @@ pub fn hash4_exact(
         "invalid hash8_exact inputs"
     );
 
+    // The SIMD implementations don't handle the key block.
+    if params.key_length > 0 {
+        return portable::hash4_exact(params, input0, input1, input2, input3);
+    }
+
     let hash4_exact_fn = default_compress_impl().3;
     unsafe { hash4_exact_fn(params, input0, input1, input2, input3) }
 }
@@ -824,6 +829,13 @@ pub fn hash8_exact(
         "invalid hash8_exact inputs"
     );
 
+    // The SIMD implementations don't handle the key block.
+    if params.key_length > 0 {
+        return portable::hash8_exact(
+            params, input0, input1, input2, input3, input4, input5, input6, input7,
+        );
+    }
+
     let hash8_exact_fn = default_compress_impl().2;
     unsafe {
         hash8_exact_fn(
-- 
2.43.0

