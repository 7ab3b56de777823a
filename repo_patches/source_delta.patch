From 07f195ed1d2ceed0d7e679d5940e45a91c753163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:04 +0000
Subject: [PATCH 1/7] fix: resume SHA-512 engines from a midstate

from_midstate split the 64 byte midstate into 4 byte chunks and then tried
to convert each into a [u8; 8], so every call panicked (also for SHA-384,
SHA-512/256 and HMACs built on them).
---
 src/sha512.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sha512.rs b/src/sha512.rs
index 7c73967..36480e1 100644
--- a/src/sha512.rs
+++ b/src/sha512.rs
@@ -124,8 +124,8 @@ impl HashEngine for Engine {
         assert!(length % BLOCK_SIZE == 0, "length is no multiple of the block size");
 
         let mut ret = [0; 8];
-        for (ret_val, midstate_bytes) in ret.iter_mut().zip(midstate[..].chunks_exact(4)) {
-            *ret_val = u64::from_be_bytes(midstate_bytes.try_into().expect("4 byte slice"));
+        for (ret_val, midstate_bytes) in ret.iter_mut().zip(midstate[..].chunks_exact(8)) {
+            *ret_val = u64::from_be_bytes(midstate_bytes.try_into().expect("8 byte slice"));
         }
 
         Engine { buffer: [0; BLOCK_SIZE], h: ret, length }
-- 
2.43.0


From 775d83dafac560481545e2e1acfcc7df4c3683a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:04 +0000
Subject: [PATCH 2/7] fix: decode the RIPEMD-160 midstate in the byte order it
 is encoded in

midstate() writes the state words little endian, from_midstate read them
back big endian, so a resumed engine produced a wrong digest.
---
 src/ripemd160.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ripemd160.rs b/src/ripemd160.rs
index e064084..2794c4f 100644
--- a/src/ripemd160.rs
+++ b/src/ripemd160.rs
@@ -92,7 +92,7 @@ impl HashEngine for Engine {
 
         let mut ret = [0; 5];
         for (ret_val, midstate_bytes) in ret.iter_mut().zip(midstate[..].chunks_exact(4)) {
-            *ret_val = u32::from_be_bytes(midstate_bytes.try_into().expect("4 byte slice"));
+            *ret_val = u32::from_le_bytes(midstate_bytes.try_into().expect("4 byte slice"));
         }
 
         Engine { buffer: [0; BLOCK_SIZE], h: ret, length }
-- 
2.43.0


From 0da95a60d830c59a9eefdc26c3280c8ce1a067ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:04 +0000
Subject: [PATCH 3/7] fix: resume the outer HMAC engine at the length it has
 hashed

from_midstate gave the outer engine the inner engine's length, so resuming
an HMAC that had hashed at least one block of data produced a wrong MAC.
---
 src/hmac.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hmac.rs b/src/hmac.rs
index 8aa4470..39a13c9 100644
--- a/src/hmac.rs
+++ b/src/hmac.rs
@@ -266,7 +266,8 @@ impl<E: HashEngine> HashEngine for Engine<E> {
     fn from_midstate(midstate: Midstate<E>, length: usize) -> Self {
         Engine {
             iengine: E::from_midstate(midstate.inner, length),
-            oengine: E::from_midstate(midstate.outer, length),
+            // The outer engine has only ever been fed the padded key.
+            oengine: E::from_midstate(midstate.outer, E::BLOCK_SIZE),
         }
     }
 }
-- 
2.43.0


From 84fa28894a9ea927ee74737a9357d45b27736cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:04 +0000
Subject: [PATCH 4/7] fix: keep the length when resuming a SipHash engine from
 a midstate

The length is part of the final block, ignoring it made every resumed
engine (other than one resumed at a multiple of 256) return a wrong hash.
---
 src/siphash24.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/siphash24.rs b/src/siphash24.rs
index 2f93fe8..64164d0 100644
--- a/src/siphash24.rs
+++ b/src/siphash24.rs
@@ -199,8 +199,8 @@ impl HashEngine for Engine {
     fn midstate(&self) -> State { self.state.clone() }
 
     #[inline]
-    fn from_midstate(midstate: Self::Midstate, _length: usize) -> Engine {
-        Engine { state: midstate, ..Default::default() }
+    fn from_midstate(midstate: Self::Midstate, length: usize) -> Engine {
+        Engine { state: midstate, length, ..Default::default() }
     }
 }
 
-- 
2.43.0


From 6591d988a4d7e8b7252e4c5142b308809bfbdeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:50 +0000
Subject: [PATCH 5/7] hooks: seams for deterministic simulation behind --cfg
 chf_sim

Off by default: the macros expand to nothing. With the cfg on, the simulator
can mask CPU features, sees when feature specific code runs, and can switch
threads inside the compression functions.
---
 src/hmac.rs      |  1 +
 src/lib.rs       |  3 ++
 src/ripemd160.rs |  2 ++
 src/sha1.rs      |  3 ++
 src/sha256.rs    |  8 +++++
 src/sha512.rs    |  3 ++
 src/sim_hooks.rs | 90 ++++++++++++++++++++++++++++++++++++++++++++++++
 src/siphash24.rs |  1 +
 8 files changed, 111 insertions(+)
 create mode 100644 src/sim_hooks.rs

diff --git a/src/hmac.rs b/src/hmac.rs
index 39a13c9..fd29cb5 100644
--- a/src/hmac.rs
+++ b/src/hmac.rs
@@ -233,6 +233,7 @@ impl<E: HashEngine> Engine<E> {
             }
         };
 
+        sim_point!();
         ret.iengine.input(&ipad[..E::BLOCK_SIZE]);
         ret.oengine.input(&opad[..E::BLOCK_SIZE]);
         ret
diff --git a/src/lib.rs b/src/lib.rs
index 4caa767..a9466d8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -111,6 +111,9 @@ pub mod _export {
 #[cfg(feature = "schemars")]
 extern crate schemars;
 
+#[macro_use]
+#[doc(hidden)]
+pub mod sim_hooks;
 mod internal_macros;
 #[macro_use]
 pub mod serde_macros;
diff --git a/src/ripemd160.rs b/src/ripemd160.rs
index 2794c4f..ff46e2a 100644
--- a/src/ripemd160.rs
+++ b/src/ripemd160.rs
@@ -227,12 +227,14 @@ macro_rules! process_block(
 impl Engine {
     fn process_block(&mut self) {
         debug_assert_eq!(self.buffer.len(), BLOCK_SIZE);
+        sim_point!();
 
         let mut w = [0u32; 16];
         for (w_val, buff_bytes) in w.iter_mut().zip(self.buffer.chunks_exact(4)) {
             *w_val = u32::from_le_bytes(buff_bytes.try_into().expect("4 byte slice"))
         }
 
+        sim_point!();
         process_block!(self.h, w,
             // Round 1
             round1: h_ordering 0, 1, 2, 3, 4; data_index  0; roll_shift 11;
diff --git a/src/sha1.rs b/src/sha1.rs
index bf2ec8a..38c946f 100644
--- a/src/sha1.rs
+++ b/src/sha1.rs
@@ -95,6 +95,7 @@ impl Engine {
     // Basic unoptimized algorithm from Wikipedia
     fn process_block(&mut self) {
         debug_assert_eq!(self.buffer.len(), BLOCK_SIZE);
+        sim_point!();
 
         let mut w = [0u32; 80];
         for (w_val, buff_bytes) in w.iter_mut().zip(self.buffer.chunks_exact(4)) {
@@ -104,6 +105,7 @@ impl Engine {
             w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1);
         }
 
+        sim_point!();
         let mut a = self.h[0];
         let mut b = self.h[1];
         let mut c = self.h[2];
@@ -128,6 +130,7 @@ impl Engine {
             a = new_a;
         }
 
+        sim_point!();
         self.h[0] = self.h[0].wrapping_add(a);
         self.h[1] = self.h[1].wrapping_add(b);
         self.h[2] = self.h[2].wrapping_add(c);
diff --git a/src/sha256.rs b/src/sha256.rs
index b089486..058a9c7 100644
--- a/src/sha256.rs
+++ b/src/sha256.rs
@@ -469,6 +469,9 @@ impl Engine {
         /*   Based on code from Intel, and by Sean Gulley for      */
         /*   the miTLS project.                                    */
 
+        sim_requires_cpu!("sha", "sse2", "ssse3", "sse4.1");
+        sim_point!();
+
         // Variable names are also kept the same as in the original C code for easier comparison.
         let (mut state0, mut state1);
         let (mut msg, mut tmp);
@@ -710,6 +713,8 @@ impl Engine {
         state0 = _mm_blend_epi16(tmp, state1, 0xF0); // DCBA
         state1 = _mm_alignr_epi8(state1, tmp, 8); // ABEF
 
+        sim_point!();
+
         // Save state
         // CAST SAFETY: storeu_si128 documentation states that mem_addr does not
         // need to be aligned on any particular boundary.
@@ -720,12 +725,14 @@ impl Engine {
     // Algorithm copied from libsecp256k1
     fn software_process_block(&mut self) {
         debug_assert_eq!(self.buffer.len(), BLOCK_SIZE);
+        sim_point!();
 
         let mut w = [0u32; 16];
         for (w_val, buff_bytes) in w.iter_mut().zip(self.buffer.chunks_exact(4)) {
             *w_val = u32::from_be_bytes(buff_bytes.try_into().expect("4 byte slice"));
         }
 
+        sim_point!();
         let mut a = self.h[0];
         let mut b = self.h[1];
         let mut c = self.h[2];
@@ -803,6 +810,7 @@ impl Engine {
         round!(c, d, e, f, g, h, a, b, 0xbef9a3f7, w[14], w[12], w[7], w[15]);
         round!(b, c, d, e, f, g, h, a, 0xc67178f2, w[15], w[13], w[8], w[0]);
 
+        sim_point!();
         self.h[0] = self.h[0].wrapping_add(a);
         self.h[1] = self.h[1].wrapping_add(b);
         self.h[2] = self.h[2].wrapping_add(c);
diff --git a/src/sha512.rs b/src/sha512.rs
index 36480e1..57f0035 100644
--- a/src/sha512.rs
+++ b/src/sha512.rs
@@ -203,12 +203,14 @@ impl Engine {
     // Algorithm copied from libsecp256k1
     pub(crate) fn process_block(&mut self) {
         debug_assert_eq!(self.buffer.len(), BLOCK_SIZE);
+        sim_point!();
 
         let mut w = [0u64; 16];
         for (w_val, buff_bytes) in w.iter_mut().zip(self.buffer.chunks_exact(8)) {
             *w_val = u64::from_be_bytes(buff_bytes.try_into().expect("8 byte slice"));
         }
 
+        sim_point!();
         let mut a = self.h[0];
         let mut b = self.h[1];
         let mut c = self.h[2];
@@ -303,6 +305,7 @@ impl Engine {
         round!(c, d, e, f, g, h, a, b, 0x5fcb6fab3ad6faec, w[14], w[12], w[7], w[15]);
         round!(b, c, d, e, f, g, h, a, 0x6c44198c4a475817, w[15], w[13], w[8], w[0]);
 
+        sim_point!();
         self.h[0] = self.h[0].wrapping_add(a);
         self.h[1] = self.h[1].wrapping_add(b);
         self.h[2] = self.h[2].wrapping_add(c);
diff --git a/src/sim_hooks.rs b/src/sim_hooks.rs
new file mode 100644
index 0000000..63599ff
--- /dev/null
+++ b/src/sim_hooks.rs
@@ -0,0 +1,90 @@
+// SPDX-License-Identifier: CC0-1.0
+
+//! Seams for deterministic simulation, compiled in only with `--cfg chf_sim`.
+//!
+//! Without that cfg this module defines nothing but macros that expand to nothing, the shipped
+//! behaviour is unchanged.
+
+#![allow(unexpected_cfgs)] // `chf_sim` is not a cfg users should know about.
+
+/// Marks a place where the simulator may switch to another thread.
+#[cfg(chf_sim)]
+macro_rules! sim_point {
+    () => {
+        $crate::sim_hooks::hooks::point();
+    };
+}
+#[cfg(not(chf_sim))]
+macro_rules! sim_point {
+    () => {};
+}
+
+/// Marks the entry to code that executes instructions the listed CPU features provide.
+#[cfg(chf_sim)]
+#[allow(unused_macros)]
+macro_rules! sim_requires_cpu {
+    ($($feature:tt),*) => {
+        $( $crate::sim_hooks::hooks::require($feature); )*
+    };
+}
+#[cfg(not(chf_sim))]
+#[allow(unused_macros)]
+macro_rules! sim_requires_cpu {
+    ($($feature:tt),*) => {};
+}
+
+/// Shadows the standard library's macro: features the simulated CPU lacks are not detected.
+#[cfg(all(chf_sim, feature = "std"))]
+#[allow(unused_macros)]
+macro_rules! is_x86_feature_detected {
+    ($feature:tt) => {
+        ($crate::sim_hooks::hooks::cpu_has($feature) && std::is_x86_feature_detected!($feature))
+    };
+}
+
+#[cfg(chf_sim)]
+#[allow(missing_docs)]
+pub mod hooks {
+    use core::sync::atomic::{AtomicUsize, Ordering::SeqCst};
+
+    /// Features masked out of the simulated CPU, see [`bit`].
+    pub static CPU_MASKED: AtomicUsize = AtomicUsize::new(0);
+    /// Number of times code that requires a masked feature was entered.
+    pub static ILLEGAL: AtomicUsize = AtomicUsize::new(0);
+    /// Number of times feature specific code was entered.
+    pub static SPECIAL: AtomicUsize = AtomicUsize::new(0);
+    /// Number of simulation points passed.
+    pub static POINTS: AtomicUsize = AtomicUsize::new(0);
+    /// Address of an `extern "C" fn()` to call at each point, or zero.
+    pub static CALLBACK: AtomicUsize = AtomicUsize::new(0);
+
+    pub fn bit(feature: &str) -> usize {
+        match feature {
+            "sha" => 1,
+            "ssse3" => 2,
+            "sse4.1" => 4,
+            "avx" => 8,
+            "avx2" => 16,
+            _ => 0,
+        }
+    }
+
+    pub fn cpu_has(feature: &str) -> bool { CPU_MASKED.load(SeqCst) & bit(feature) == 0 }
+
+    pub fn require(feature: &str) {
+        SPECIAL.fetch_add(1, SeqCst);
+        if !cpu_has(feature) {
+            ILLEGAL.fetch_add(1, SeqCst);
+        }
+    }
+
+    #[inline(never)]
+    pub fn point() {
+        let f = CALLBACK.load(SeqCst);
+        if f != 0 {
+            POINTS.fetch_add(1, SeqCst);
+            let f: extern "C" fn() = unsafe { core::mem::transmute(f) };
+            f()
+        }
+    }
+}
diff --git a/src/siphash24.rs b/src/siphash24.rs
index 64164d0..4e58186 100644
--- a/src/siphash24.rs
+++ b/src/siphash24.rs
@@ -151,6 +151,7 @@ impl HashEngine for Engine {
             }
         }
 
+        sim_point!();
         // Buffered tail is now flushed, process new input.
         let len = length - needed;
         let left = len & 0x7;
-- 
2.43.0


From b2f35d9ecbbb3ed175d12d14c88b5b699c414f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:35 +0000
Subject: [PATCH 6/7] fix: keep the JSON schemas of the hash types apart

All hash types publish their schema under the name "Hash". A generator that
is asked for several of them treats them as one type and hands out the schema
of the first for all, so a document with a sha1 and a sha256 field gets a
schema that rejects what serde writes. Have them inlined instead.
---
 src/hmac.rs            | 3 +++
 src/internal_macros.rs | 3 +++
 src/sha256t.rs         | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/hmac.rs b/src/hmac.rs
index fd29cb5..78177e7 100644
--- a/src/hmac.rs
+++ b/src/hmac.rs
@@ -91,6 +91,9 @@ impl<const N: usize> Hash<N> {
 impl<const N: usize> schemars::JsonSchema for Hash<N> {
     fn schema_name() -> std::string::String { "Hash".to_owned() }
 
+    // The hash types share a name but not a schema.
+    fn is_referenceable() -> bool { false }
+
     fn json_schema(gen: &mut schemars::gen::SchemaGenerator) -> schemars::schema::Schema {
         let mut schema: schemars::schema::SchemaObject = <String>::json_schema(gen).into();
         schema.string = Some(Box::new(schemars::schema::StringValidation {
diff --git a/src/internal_macros.rs b/src/internal_macros.rs
index cc36cc2..4d68476 100644
--- a/src/internal_macros.rs
+++ b/src/internal_macros.rs
@@ -227,6 +227,9 @@ macro_rules! hash_type {
         impl schemars::JsonSchema for Hash {
             fn schema_name() -> String { "Hash".to_owned() }
 
+            // The hash types share a name but not a schema.
+            fn is_referenceable() -> bool { false }
+
             fn json_schema(gen: &mut schemars::gen::SchemaGenerator) -> schemars::schema::Schema {
                 let len = $bits / 8;
                 let mut schema: schemars::schema::SchemaObject = <String>::json_schema(gen).into();
diff --git a/src/sha256t.rs b/src/sha256t.rs
index 798c111..9866e29 100644
--- a/src/sha256t.rs
+++ b/src/sha256t.rs
@@ -132,6 +132,9 @@ impl<T: Tag> Hash<T> {
 impl<T: Tag> schemars::JsonSchema for Hash<T> {
     fn schema_name() -> String { "Hash".to_owned() }
 
+    // The hash types share a name but not a schema.
+    fn is_referenceable() -> bool { false }
+
     fn json_schema(gen: &mut schemars::gen::SchemaGenerator) -> schemars::schema::Schema {
         let mut schema: schemars::schema::SchemaObject = <String>::json_schema(gen).into();
         schema.string = Some(Box::new(schemars::schema::StringValidation {
-- 
2.43.0


From 6146255635a7547d3d4b7487372c53dbd5e10fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:26 +0000
Subject: [PATCH 7/7] fix: resume the outer HMAC engine of tagged hashes at its
 length

A tagged hash engine starts with the 64 bytes of its tag behind it, so the
outer engine of an HMAC over it has hashed two blocks, not one, when it is
resumed; the MAC of a resumed computation was wrong.
---
 src/hmac.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hmac.rs b/src/hmac.rs
index 78177e7..091c305 100644
--- a/src/hmac.rs
+++ b/src/hmac.rs
@@ -268,10 +268,11 @@ impl<E: HashEngine> HashEngine for Engine<E> {
 
     #[inline]
     fn from_midstate(midstate: Midstate<E>, length: usize) -> Self {
+        // The outer engine has only ever been fed the padded key.
+        let outer_length = E::default().n_bytes_hashed() + E::BLOCK_SIZE;
         Engine {
             iengine: E::from_midstate(midstate.inner, length),
-            // The outer engine has only ever been fed the padded key.
-            oengine: E::from_midstate(midstate.outer, E::BLOCK_SIZE),
+            oengine: E::from_midstate(midstate.outer, outer_length),
         }
     }
 }
-- 
2.43.0

