From 9e008b7596e439e6933308557baeb9972a557ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:27 +0000
Subject: [PATCH 01/15] fix: gear: incremental boundary follows the byte that
 triggers it

GearIncr32::push returned the index of the triggering byte with the state
already reset, so that byte was fed again (forever, for a byte that
triggers on its own) and boundaries disagreed with find_chunk_edge.
---
 src/gear.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gear.rs b/src/gear.rs
index 184b405..84a3247 100644
--- a/src/gear.rs
+++ b/src/gear.rs
@@ -111,7 +111,7 @@ impl<'a> ChunkIncr for GearIncr32<'a> {
         for (i, v) in data.iter().enumerate() {
             if self.state.push(&self.params, *v) {
                 self.state.reset();
-                return Some(i);
+                return Some(i + 1);
             }
         }
 
-- 
2.43.0


From f115255ed2124b9bfb4d794354c046f9fba7787a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:27 +0000
Subject: [PATCH 02/15] fix: ram: incremental boundary agrees with
 find_chunk_edge

RamIncr::push returned the index of the triggering byte instead of the
index after it.
---
 src/ram.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ram.rs b/src/ram.rs
index c2b53a4..d706a2a 100644
--- a/src/ram.rs
+++ b/src/ram.rs
@@ -106,6 +106,7 @@ pub struct RamIncr {
 
 impl ChunkIncr for RamIncr {
     fn push(&mut self, data: &[u8]) -> Option<usize> {
-        self.state.push(&self.params, data)
+        // the split follows the byte that triggers it
+        self.state.push(&self.params, data).map(|i| i + 1)
     }
 }
-- 
2.43.0


From 494e5789876639ce0fa296a698a6ea0635a1622c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:27 +0000
Subject: [PATCH 03/15] fix: zstd: incremental boundary follows the byte that
 triggers it

The triggering byte is already in the window (which is kept), so returning
its own index makes the caller feed it a second time.
---
 src/zstd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zstd.rs b/src/zstd.rs
index 04fafd4..80e6909 100644
--- a/src/zstd.rs
+++ b/src/zstd.rs
@@ -256,7 +256,7 @@ impl ChunkIncr for ZstdIncr {
 
             if self.state.at_split(&self.params) {
                 // NOTE: don't clear window
-                return Some(i + use_len);
+                return Some(i + use_len + 1);
             }
         }
 
-- 
2.43.0


From 6adc6b23d086ffa7ffc7498eddc0b215c9ee4f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:27 +0000
Subject: [PATCH 04/15] fix: zstd: find_chunk_edge keeps unexamined data after
 an edge

On an edge all but the last 32 bytes of the buffer were discarded, examined
or not, and the search offset was left behind, so later edges were lost or
misplaced depending on how much data the caller had buffered.
---
 src/zstd.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zstd.rs b/src/zstd.rs
index 80e6909..6ec4185 100644
--- a/src/zstd.rs
+++ b/src/zstd.rs
@@ -211,7 +211,9 @@ impl Chunk for Zstd {
             let to_add = data[i];
             state.rotate(to_remove, to_add, self.prime_power);
             if state.at_split(self) {
-                let discard_ct = data.len().saturating_sub(RSYNC_LENGTH);
+                // keep only the window that ends at the edge: what follows is not examined yet
+                let discard_ct = i + 1 - RSYNC_LENGTH;
+                state.offset = RSYNC_LENGTH;
                 return (Some(i + 1), discard_ct);
             }
         }
-- 
2.43.0


From 7362c7c9dffe2deba3bb2a16588650af9e18145e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:27 +0000
Subject: [PATCH 05/15] fix: mii: incremental chunker starts afresh after a
 boundary

prev was set to 0 after a split, so the first byte of the next chunk could
count as an increment; a new chunker and find_chunk_edge start from 0xff.
---
 src/mii.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mii.rs b/src/mii.rs
index 718cb70..fb822d5 100644
--- a/src/mii.rs
+++ b/src/mii.rs
@@ -126,8 +126,7 @@ impl ChunkIncr for MiiIncr {
                 self.increment += 1;
                 if self.increment == self.w {
                     // this is a split
-                    self.increment = 0;
-                    self.prev = 0;
+                    self.reset();
                     return Some(i + 1);
                 }
             } else {
-- 
2.43.0


From 92ccd00c06cdd54aa216947ab016e5f3ea4c0af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:27 +0000
Subject: [PATCH 06/15] fix: zpaq: keep chunk lengths inside the configured
 range

find_chunk_edge tested the length plus one against the range, allowing
chunks below the minimum and disagreeing with ZpaqIncr, which in turn cut
one byte past the maximum. The default maximum was 8128 << 16 rather than
the documented 508 KiB (8128 << 6).
---
 src/zpaq.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/zpaq.rs b/src/zpaq.rs
index bbd199a..c71d5d8 100644
--- a/src/zpaq.rs
+++ b/src/zpaq.rs
@@ -83,11 +83,11 @@ impl Zpaq {
     fn range_from_fragment_ave(fragment_ave: u8) -> impl RangeBounds<u64> {
         assert!(fragment_ave <= 32);
         assert!(fragment_ave >= 10);
-        64 << (fragment_ave - 10)..8128 << fragment_ave
+        64 << (fragment_ave - 10)..=8128 << (fragment_ave - 10)
     }
 
     fn range_from_max(max: u64) -> impl RangeBounds<u64> {
-        max / 64..max
+        max / 64..=max
     }
 
     fn max_hash_from_fragment_ave(fragment_ave: u8) -> u32 {
@@ -152,8 +152,9 @@ impl Zpaq {
     }
     */
 
-    fn split_here(&self, hash: u32, index: u64) -> bool {
-        (hash < self.max_hash && !self.range.under_min(&index)) || self.range.exceeds_max(&index)
+    /// `len` is the length of the chunk if it were to end here
+    fn split_here(&self, hash: u32, len: u64) -> bool {
+        (hash < self.max_hash && !self.range.under_min(&len)) || self.range.exceeds_max(&(len + 1))
     }
 }
 
@@ -207,7 +208,7 @@ impl Chunk for Zpaq {
     ) -> (Option<usize>, usize) {
         for (i, v) in data.iter().enumerate() {
             let h = state.feed(*v);
-            if self.split_here(h, (state.idx + 1) as u64) {
+            if self.split_here(h, state.idx) {
                 *state = self.to_search_state();
                 return (Some(i + 1), i + 1);
             }
-- 
2.43.0


From e263bd9207e5aa9736554c353d252321873fddd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:27 +0000
Subject: [PATCH 07/15] fix: bup: incremental chunker starts afresh after a
 boundary

find_chunk_edge (and bup) reset the rollsum at each split, RollSumIncr::push
did not, so the two disagreed on splits within a window of the previous one.
---
 src/bup.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/bup.rs b/src/bup.rs
index c888096..b68d6d9 100644
--- a/src/bup.rs
+++ b/src/bup.rs
@@ -190,6 +190,15 @@ impl RollSumIncr {
         self.state.digest()
     }
 
+    /// Start over, as at the begining of a new chunk
+    fn reset(&mut self) {
+        self.state.reset(&RollSum::with_window(self.window.len()));
+        self.wofs = Wrapping(0);
+        for b in self.window.iter_mut() {
+            *b = 0;
+        }
+    }
+
     fn add(&mut self, drop: u8, add: u8) {
         self.state.add(self.window.len(), drop, add);
     }
@@ -226,6 +235,7 @@ impl ChunkIncr for RollSumIncr {
         for (i, &v) in data.iter().enumerate() {
             self.roll_byte(v);
             if self.at_split() {
+                self.reset();
                 return Some(i + 1);
             }
         }
-- 
2.43.0


From b82c9a15b3b1e2b7b250d9d6b53cd0723c72d2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:27 +0000
Subject: [PATCH 08/15] fix: bup: incremental window of a length that is not a
 power of 2

---
 src/bup.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bup.rs b/src/bup.rs
index b68d6d9..17eadda 100644
--- a/src/bup.rs
+++ b/src/bup.rs
@@ -207,7 +207,7 @@ impl RollSumIncr {
         let w = self.window[self.wofs.0];
         self.add(w, ch);
         self.window[self.wofs.0] = ch;
-        self.wofs = Wrapping((self.wofs + Wrapping(1)).0 & (self.window.len() - 1));
+        self.wofs = Wrapping((self.wofs + Wrapping(1)).0 % self.window.len());
     }
 
     #[cfg(test)]
-- 
2.43.0


From 388a2a78aff7efd5c35a85f23c7b976aeb3171b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:27 +0000
Subject: [PATCH 09/15] fix: buzhash: remove bytes from the hash for every k

A byte leaving the window has been rotated k times in a 32 bit word;
reducing k modulo 8 only cancels it when k % 32 < 8.
---
 src/buzhash.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzhash.rs b/src/buzhash.rs
index e54789c..da5ed19 100644
--- a/src/buzhash.rs
+++ b/src/buzhash.rs
@@ -214,7 +214,7 @@ impl BuzHashState {
     fn add_overflow<H: BuzHashHash>(&mut self, params: &BuzHash<H>, add_v: u8, remove_v: u8) {
         let h = self.h.rotate_left(1);
         // need to find and "remove" a entry
-        let drop = params.h.hash(remove_v).rotate_left((params.k % 8) as u32);
+        let drop = params.h.hash(remove_v).rotate_left((params.k % 32) as u32);
         self.h = h ^ drop ^ params.h.hash(add_v);
     }
 }
-- 
2.43.0


From a7c7b4bee9f2da174f3cfe5a0d6767e56eda4a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:27 +0000
Subject: [PATCH 10/15] fix: buzhash: find_chunk_edge honours max_chunk_size

The limit was only applied by BuzHashIncr: the search did not know how long
the current chunk is. Count its bytes in the search state.
---
 src/buzhash.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/buzhash.rs b/src/buzhash.rs
index da5ed19..f4d8edf 100644
--- a/src/buzhash.rs
+++ b/src/buzhash.rs
@@ -133,20 +133,12 @@ impl<H: BuzHashHash + Clone> Chunk for BuzHash<H> {
         for i in state.offset..data.len() {
             state.state.add_buf(data, self, i);
 
-            if (state.state.h & self.mask) == self.mask {
-                state.reset();
-                return (Some(i + 1), i + 1);
-            }
+            state.chunk_len += 1;
 
-            /*
-             * broken: `i` is not the number of bytes since prev chunk.
-             * need to track internal last chunk
-            if i as u64 > self.max_chunk_size {
+            if (state.state.h & self.mask) == self.mask || state.chunk_len > self.max_chunk_size {
                 state.reset();
-                println!(" <- CHUNK: {}", i + 1);
                 return (Some(i + 1), i + 1);
             }
-            */
         }
 
         // keep k elements = discard all but k
@@ -172,12 +164,15 @@ impl<H: BuzHashHash + Clone> ToChunkIncr for BuzHash<H> {
 #[derive(Debug, Clone, PartialEq, Eq, Default)]
 pub struct BuzHashSearchState {
     offset: usize,
+    /// number of bytes examined since the previous chunk edge
+    chunk_len: u64,
     state: BuzHashState,
 }
 
 impl BuzHashSearchState {
     fn reset(&mut self) {
         self.offset = 0;
+        self.chunk_len = 0;
         self.state.reset();
     }
 }
-- 
2.43.0


From 14b29c53de3a5e46fd1aba3c76ce9559954b0967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:27 +0000
Subject: [PATCH 11/15] fix: fastcdc: find_chunk_edge splits at max_size, not
 one past it

find_chunk_edge turned the index of every split into the one after it. That
is right where a byte completed a match, but at max_size no byte is consumed:
the chunk was one byte too long and the index could be past the end of data.
---
 src/fastcdc.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/fastcdc.rs b/src/fastcdc.rs
index 1a8b430..cd1184b 100644
--- a/src/fastcdc.rs
+++ b/src/fastcdc.rs
@@ -76,7 +76,7 @@ impl<'a> Chunk for FastCdc<'a> {
         data: &[u8],
     ) -> (Option<usize>, usize) {
         match state.push(self, data) {
-            Some(i) => (Some(i + 1), i + 1),
+            Some((_, i)) => (Some(i), i),
             None => (None, data.len()),
         }
     }
@@ -140,7 +140,10 @@ impl FastCdcState {
         self.fp = Wrapping(0);
     }
 
-    fn push(&mut self, params: &FastCdc<'_>, data: &[u8]) -> Option<usize> {
+    /// Returns the split as seen by [`FastCdcIncr`] and by [`FastCdc::find_chunk_edge`]: the former
+    /// splits before a byte that completes a match, the latter after it. Both split at `max_size`
+    /// if there is no match.
+    fn push(&mut self, params: &FastCdc<'_>, data: &[u8]) -> Option<(usize, usize)> {
         // global start/index
         let mut gi = self.l;
         // global end
@@ -177,7 +180,7 @@ impl FastCdcState {
             fp = (fp << 1) + Wrapping(params.gear[v as usize]);
             if (fp.0 & MASK_S) == 0 {
                 self.reset();
-                return Some(i);
+                return Some((i, i + 1));
             }
 
             gi += 1;
@@ -188,7 +191,7 @@ impl FastCdcState {
             if gi >= params.max_size {
                 // no match found, emit fixed match at MAX_SIZE
                 self.reset();
-                return Some(i);
+                return Some((i, i));
             }
             if i >= data.len() {
                 break;
@@ -198,7 +201,7 @@ impl FastCdcState {
             fp = (fp << 1) + Wrapping(params.gear[v as usize]);
             if (fp.0 & MASK_L) == 0 {
                 self.reset();
-                return Some(i);
+                return Some((i, i + 1));
             }
 
             gi += 1;
@@ -215,6 +218,6 @@ impl FastCdcState {
 
 impl<'a> ChunkIncr for FastCdcIncr<'a> {
     fn push(&mut self, src: &[u8]) -> Option<usize> {
-        self.state.push(&self.params, src)
+        self.state.push(&self.params, src).map(|(i, _)| i)
     }
 }
-- 
2.43.0


From 41488b5e44f2f8e08796168ad8e128b33f95e733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:27 +0000
Subject: [PATCH 12/15] fix: fastcdc: make progress with min_size 0

A match on the first byte of a chunk made FastCdcIncr return Some(0), an
empty chunk, with the state reset: callers that continue from there get the
same answer forever.
---
 src/fastcdc.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/fastcdc.rs b/src/fastcdc.rs
index cd1184b..fef2023 100644
--- a/src/fastcdc.rs
+++ b/src/fastcdc.rs
@@ -144,12 +144,15 @@ impl FastCdcState {
     /// splits before a byte that completes a match, the latter after it. Both split at `max_size`
     /// if there is no match.
     fn push(&mut self, params: &FastCdc<'_>, data: &[u8]) -> Option<(usize, usize)> {
+        // the first byte never ends a chunk: a chunk is not empty
+        let min_size = std::cmp::max(params.min_size, 1);
+
         // global start/index
         let mut gi = self.l;
         // global end
         let ge = data.len() as u64 + gi;
 
-        if ge <= params.min_size {
+        if ge <= min_size {
             // No split, no processing of data, but we've "consumed" the bytes.
             self.l = ge;
             return None;
@@ -157,8 +160,8 @@ impl FastCdcState {
 
         // skip elements prior to MIN_SIZE and track offset of new `data` in argument `data` for
         // return value
-        let mut i = if gi <= params.min_size {
-            let skip = params.min_size - gi;
+        let mut i = if gi <= min_size {
+            let skip = min_size - gi;
             gi += skip;
             skip
         } else {
-- 
2.43.0


From b63ec59ef055ad96b5a044ffcd135b2cf2ab53b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:33 +0000
Subject: [PATCH 13/15] fix: fastcdc: report the boundary at max_size when it
 equals min_size

---
 src/fastcdc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastcdc.rs b/src/fastcdc.rs
index fef2023..6b69024 100644
--- a/src/fastcdc.rs
+++ b/src/fastcdc.rs
@@ -152,7 +152,7 @@ impl FastCdcState {
         // global end
         let ge = data.len() as u64 + gi;
 
-        if ge <= min_size {
+        if ge < min_size || (ge == min_size && ge < params.max_size) {
             // No split, no processing of data, but we've "consumed" the bytes.
             self.l = ge;
             return None;
-- 
2.43.0


From d8564ff77d97d75fcddf7bbe1945dd9499c59252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:03 +0000
Subject: [PATCH 14/15] fix: zpaq: average size derived from a range or maximum
 is max / 4, as documented

fragment_ave_from_max() computed go-dedup's fragment, which is in KiB, but it
was used as the power of 2 of the average in bytes. Chunks were 1024 times too
small (as far as the minimum allowed), and maximums below 8 KiB overflowed the
shift in max_hash_from_fragment_ave().
---
 src/zpaq.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/zpaq.rs b/src/zpaq.rs
index c71d5d8..e18c286 100644
--- a/src/zpaq.rs
+++ b/src/zpaq.rs
@@ -52,10 +52,11 @@ pub struct Zpaq {
 }
 
 impl Zpaq {
-    /* this is taken from go-dedup */
+    /* this is taken from go-dedup. Note that go-dedup's `fragment` is in KiB (it's hash limit is
+     * `2**(22 - fragment)`), while the value here is in bytes. The average is a quarter of `max` */
     fn fragment_ave_from_max(max: u64) -> u8 {
         /* TODO: convert this to pure integer math */
-        (max as f64 / (64f64 * 64f64)).log2() as u8
+        (max as f64 / 4f64).log2() as u8
     }
 
     /* these are based on the zpaq (not go-dedup) calculations */
@@ -95,9 +96,10 @@ impl Zpaq {
         1 << (32 - fragment_ave)
         /*
          * go-dedup does this:
-         * (22f64 - fragment_ave).exp2() as u32
+         * (22f64 - fragment).exp2() as u32
          *
-         * Which should be equivalent to the integer math above (which is used by zpaq).
+         * Which is equivalent to the integer math above (which is used by zpaq), as `fragment` is
+         * the average in KiB there, and `fragment_ave` is the average in bytes here.
          */
     }
 
-- 
2.43.0


From 8952c2577545f683ebbf4a2f227701c5966efa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:02 +0000
Subject: [PATCH 15/15] fix: iter_slices_strict: do not feed the remainder
 again when asked for more after the end

---
 src/lib.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index cd8df68..9a40780 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -173,6 +173,7 @@ pub trait ChunkIncr {
         IterSlicesStrict {
             rem: data,
             chunker: self,
+            done: false,
         }
     }
 }
@@ -184,6 +185,8 @@ pub trait ChunkIncr {
 pub struct IterSlicesStrict<'a, C: ChunkIncr> {
     rem: &'a [u8],
     chunker: C,
+    /// `chunker` has examined all of `rem`, and must not be given it again
+    done: bool,
 }
 
 impl<'a, C: ChunkIncr> IterSlicesStrict<'a, C> {
@@ -206,8 +209,15 @@ impl<'a, C: ChunkIncr> Iterator for IterSlicesStrict<'a, C> {
     type Item = &'a [u8];
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.done {
+            return None;
+        }
+
         match self.chunker.push(self.rem) {
-            None => None,
+            None => {
+                self.done = true;
+                None
+            }
             Some(l) => {
                 let (v, rn) = self.rem.split_at(l);
                 self.rem = rn;
-- 
2.43.0

