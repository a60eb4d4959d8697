From 2e78b4d5a959d0ca288f27d93ae45a6c80541994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 01/16] fix: bup: RollSumIncr uses its whole window when the
 length is not a power of two

The ring index was advanced with `& (len - 1)`, so e.g. a window of 15
never left slot 0..: RollSumIncr and RollSum::find_chunk_edge disagreed.
---
 src/bup.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bup.rs b/src/bup.rs
index c888096..a525cbb 100644
--- a/src/bup.rs
+++ b/src/bup.rs
@@ -198,7 +198,7 @@ impl RollSumIncr {
         let w = self.window[self.wofs.0];
         self.add(w, ch);
         self.window[self.wofs.0] = ch;
-        self.wofs = Wrapping((self.wofs + Wrapping(1)).0 & (self.window.len() - 1));
+        self.wofs = Wrapping((self.wofs + Wrapping(1)).0 % self.window.len());
     }
 
     #[cfg(test)]
-- 
2.43.0


From 0e93abfc483f226031d3db90210e9c5657a38b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 02/16] fix: bup: RollSumIncr::push starts afresh after an edge

RollSum::find_chunk_edge, bup and the rollsum crate all reset the sum and
the window at an edge; the incremental interface kept them, so edges up to
one window after an edge differed.
---
 src/bup.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/bup.rs b/src/bup.rs
index a525cbb..3a7c47c 100644
--- a/src/bup.rs
+++ b/src/bup.rs
@@ -201,6 +201,14 @@ impl RollSumIncr {
         self.wofs = Wrapping((self.wofs + Wrapping(1)).0 % self.window.len());
     }
 
+    fn reset(&mut self) {
+        self.state = (&RollSum::with_window(self.window.len())).into();
+        self.wofs = Wrapping(0);
+        for b in self.window.iter_mut() {
+            *b = 0;
+        }
+    }
+
     #[cfg(test)]
     pub(crate) fn roll(&mut self, data: &[u8]) {
         for &i in data.iter() {
@@ -226,6 +234,7 @@ impl ChunkIncr for RollSumIncr {
         for (i, &v) in data.iter().enumerate() {
             self.roll_byte(v);
             if self.at_split() {
+                self.reset();
                 return Some(i + 1);
             }
         }
-- 
2.43.0


From c74a92cee9a1674be8e429e23fee17f22450f071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 03/16] fix: mii: the first byte of every chunk does not count
 as an increment

MiiIncr::push set `prev` to 0 after an edge, so any non-zero byte following
it counted as an increment; a new instance and find_chunk_edge use 0xff.
---
 src/mii.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mii.rs b/src/mii.rs
index 718cb70..fb822d5 100644
--- a/src/mii.rs
+++ b/src/mii.rs
@@ -126,8 +126,7 @@ impl ChunkIncr for MiiIncr {
                 self.increment += 1;
                 if self.increment == self.w {
                     // this is a split
-                    self.increment = 0;
-                    self.prev = 0;
+                    self.reset();
                     return Some(i + 1);
                 }
             } else {
-- 
2.43.0


From da6b7ba3e64c821968b5e40c1a0c40ab67a90664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 04/16] fix: gear: GearIncr32::push returns the index after the
 matching byte

It returned the index of the matching byte, disagreeing with
find_chunk_edge, and Some(0) without progress when the first byte matched
(iter_slices then never ended).
---
 src/gear.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gear.rs b/src/gear.rs
index 184b405..84a3247 100644
--- a/src/gear.rs
+++ b/src/gear.rs
@@ -111,7 +111,7 @@ impl<'a> ChunkIncr for GearIncr32<'a> {
         for (i, v) in data.iter().enumerate() {
             if self.state.push(&self.params, *v) {
                 self.state.reset();
-                return Some(i);
+                return Some(i + 1);
             }
         }
 
-- 
2.43.0


From 7bc08973160bb8c68577591fdc008fee8d031b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 05/16] fix: ram: RamIncr::push returns the index after the
 maximum

It returned the index of the maximum itself, disagreeing with
find_chunk_edge on the position of every edge.
---
 src/ram.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ram.rs b/src/ram.rs
index c2b53a4..dfb3964 100644
--- a/src/ram.rs
+++ b/src/ram.rs
@@ -106,6 +106,6 @@ pub struct RamIncr {
 
 impl ChunkIncr for RamIncr {
     fn push(&mut self, data: &[u8]) -> Option<usize> {
-        self.state.push(&self.params, data)
+        self.state.push(&self.params, data).map(|i| i + 1)
     }
 }
-- 
2.43.0


From 6ffc95e13d604bea1e4667ffa3664c0f75b5d3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 06/16] fix: zpaq: find_chunk_edge judges chunks by their size

It used the size plus one, so chunks one byte below the minimum were
accepted and it disagreed with ZpaqIncr at both size limits.
---
 src/zpaq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zpaq.rs b/src/zpaq.rs
index bbd199a..7fa1f28 100644
--- a/src/zpaq.rs
+++ b/src/zpaq.rs
@@ -207,7 +207,7 @@ impl Chunk for Zpaq {
     ) -> (Option<usize>, usize) {
         for (i, v) in data.iter().enumerate() {
             let h = state.feed(*v);
-            if self.split_here(h, (state.idx + 1) as u64) {
+            if self.split_here(h, state.idx) {
                 *state = self.to_search_state();
                 return (Some(i + 1), i + 1);
             }
-- 
2.43.0


From aa5d1103353a9d9f4b303631fc42f8a1077bccc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 07/16] fix: zpaq: never emit a chunk larger than the
 configured range allows

A chunk was only ended once its size had left the range: ..=10 gave chunks
of 11 bytes, ..10 chunks of 10. End it when it cannot grow any further.
The constructors that name a maximum size mean an inclusive one (as zpaq
and go-dedup do), so their chunks stay as they were.
---
 src/zpaq.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/zpaq.rs b/src/zpaq.rs
index 7fa1f28..a41cbbb 100644
--- a/src/zpaq.rs
+++ b/src/zpaq.rs
@@ -83,11 +83,11 @@ impl Zpaq {
     fn range_from_fragment_ave(fragment_ave: u8) -> impl RangeBounds<u64> {
         assert!(fragment_ave <= 32);
         assert!(fragment_ave >= 10);
-        64 << (fragment_ave - 10)..8128 << fragment_ave
+        64 << (fragment_ave - 10)..=8128 << fragment_ave
     }
 
     fn range_from_max(max: u64) -> impl RangeBounds<u64> {
-        max / 64..max
+        max / 64..=max
     }
 
     fn max_hash_from_fragment_ave(fragment_ave: u8) -> u32 {
@@ -153,7 +153,8 @@ impl Zpaq {
     */
 
     fn split_here(&self, hash: u32, index: u64) -> bool {
-        (hash < self.max_hash && !self.range.under_min(&index)) || self.range.exceeds_max(&index)
+        (hash < self.max_hash && !self.range.under_min(&index))
+            || self.range.exceeds_max(&(index + 1))
     }
 }
 
-- 
2.43.0


From d814fcf42779f8ef05e6aafff892af88bd880685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 08/16] fix: zpaq: maximum size derived from the fragment size
 as zpaq does

The maximum was 8128 << 16 (508 MiB) rather than the documented 508 KiB:
fragment_ave includes the factor 1024, as the minimum already assumed.
---
 src/zpaq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zpaq.rs b/src/zpaq.rs
index a41cbbb..736c1a8 100644
--- a/src/zpaq.rs
+++ b/src/zpaq.rs
@@ -83,7 +83,7 @@ impl Zpaq {
     fn range_from_fragment_ave(fragment_ave: u8) -> impl RangeBounds<u64> {
         assert!(fragment_ave <= 32);
         assert!(fragment_ave >= 10);
-        64 << (fragment_ave - 10)..=8128 << fragment_ave
+        64 << (fragment_ave - 10)..=8128 << (fragment_ave - 10)
     }
 
     fn range_from_max(max: u64) -> impl RangeBounds<u64> {
-- 
2.43.0


From a4f708d470baba7d16c10d994757b65099984474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 09/16] fix: zpaq: average derived from a maximum size is a
 quarter of it

go-dedup's fragment counts KiB, ours bytes: log2(max / 4096) made the
average 1024 times too small (2^4 for a maximum of 64 KiB), and maxima
below 8 KiB overflow the shift in max_hash_from_fragment_ave.
---
 src/zpaq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zpaq.rs b/src/zpaq.rs
index 736c1a8..0123cc6 100644
--- a/src/zpaq.rs
+++ b/src/zpaq.rs
@@ -55,7 +55,7 @@ impl Zpaq {
     /* this is taken from go-dedup */
     fn fragment_ave_from_max(max: u64) -> u8 {
         /* TODO: convert this to pure integer math */
-        (max as f64 / (64f64 * 64f64)).log2() as u8
+        ((max as f64 / 4f64).log2() as u8).max(1).min(32)
     }
 
     /* these are based on the zpaq (not go-dedup) calculations */
-- 
2.43.0


From 77356aac4b06d717d9bac45ba9fbe70ba2f51f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 10/16] fix: buzhash: cancel the byte leaving the window for
 every window size

A byte is rotated once per byte since it was added, modulo the 32 bits of
the hash, not modulo 8: with e.g. a window of 16 the hash depended on all
previous bytes of the chunk.
---
 src/buzhash.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzhash.rs b/src/buzhash.rs
index e54789c..da5ed19 100644
--- a/src/buzhash.rs
+++ b/src/buzhash.rs
@@ -214,7 +214,7 @@ impl BuzHashState {
     fn add_overflow<H: BuzHashHash>(&mut self, params: &BuzHash<H>, add_v: u8, remove_v: u8) {
         let h = self.h.rotate_left(1);
         // need to find and "remove" a entry
-        let drop = params.h.hash(remove_v).rotate_left((params.k % 8) as u32);
+        let drop = params.h.hash(remove_v).rotate_left((params.k % 32) as u32);
         self.h = h ^ drop ^ params.h.hash(add_v);
     }
 }
-- 
2.43.0


From e1e1daea14d06e46c6207616e014843eaef462f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 11/16] fix: buzhash: find_chunk_edge honours the maximum chunk
 size

The limit was only enforced by BuzHashIncr (it was commented out here, for
lack of a count of bytes since the previous edge).
---
 src/buzhash.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/buzhash.rs b/src/buzhash.rs
index da5ed19..38c21df 100644
--- a/src/buzhash.rs
+++ b/src/buzhash.rs
@@ -132,21 +132,17 @@ impl<H: BuzHashHash + Clone> Chunk for BuzHash<H> {
     ) -> (Option<usize>, usize) {
         for i in state.offset..data.len() {
             state.state.add_buf(data, self, i);
+            state.input_idx += 1;
 
             if (state.state.h & self.mask) == self.mask {
                 state.reset();
                 return (Some(i + 1), i + 1);
             }
 
-            /*
-             * broken: `i` is not the number of bytes since prev chunk.
-             * need to track internal last chunk
-            if i as u64 > self.max_chunk_size {
+            if state.input_idx > self.max_chunk_size {
                 state.reset();
-                println!(" <- CHUNK: {}", i + 1);
                 return (Some(i + 1), i + 1);
             }
-            */
         }
 
         // keep k elements = discard all but k
@@ -173,11 +169,15 @@ impl<H: BuzHashHash + Clone> ToChunkIncr for BuzHash<H> {
 pub struct BuzHashSearchState {
     offset: usize,
     state: BuzHashState,
+
+    /// number of bytes examined since the previous chunk edge
+    input_idx: u64,
 }
 
 impl BuzHashSearchState {
     fn reset(&mut self) {
         self.offset = 0;
+        self.input_idx = 0;
         self.state.reset();
     }
 }
-- 
2.43.0


From 5976905980de380a0a88bc6cc9c945f2495b29b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 12/16] fix: zstd: ZstdIncr::push returns the index after the
 matching byte

It returned the index of a byte it had already rotated in: callers resuming
there fed that byte twice, and positions disagreed with find_chunk_edge.
---
 src/zstd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zstd.rs b/src/zstd.rs
index 04fafd4..80e6909 100644
--- a/src/zstd.rs
+++ b/src/zstd.rs
@@ -256,7 +256,7 @@ impl ChunkIncr for ZstdIncr {
 
             if self.state.at_split(&self.params) {
                 // NOTE: don't clear window
-                return Some(i + use_len);
+                return Some(i + use_len + 1);
             }
         }
 
-- 
2.43.0


From 7fe857ba7fbf188a5cb4ffc3a9e367e564eccf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 13/16] fix: zstd: find_chunk_edge resumes right after an edge

At an edge it had all but the last 32 bytes of the buffer discarded,
examined or not, and did not record where to resume: every later edge in
the buffer was lost and the hash no longer matched the data.
---
 src/zstd.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zstd.rs b/src/zstd.rs
index 80e6909..f5265f6 100644
--- a/src/zstd.rs
+++ b/src/zstd.rs
@@ -211,7 +211,9 @@ impl Chunk for Zstd {
             let to_add = data[i];
             state.rotate(to_remove, to_add, self.prime_power);
             if state.at_split(self) {
-                let discard_ct = data.len().saturating_sub(RSYNC_LENGTH);
+                // only bytes already examined may be discarded, the search resumes after `i`
+                state.offset = RSYNC_LENGTH;
+                let discard_ct = i + 1 - RSYNC_LENGTH;
                 return (Some(i + 1), discard_ct);
             }
         }
-- 
2.43.0


From 2bf5c6f510d53d030c5301fcb706ae5bb726af25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 14/16] fix: fastcdc: find_chunk_edge does not exceed the
 maximum size or the data

An edge forced by the maximum size was reported one byte late, beyond the
end of the data when that ended there: callers slicing at it panic.
---
 src/fastcdc.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fastcdc.rs b/src/fastcdc.rs
index 1a8b430..1433566 100644
--- a/src/fastcdc.rs
+++ b/src/fastcdc.rs
@@ -75,7 +75,10 @@ impl<'a> Chunk for FastCdc<'a> {
         state: &mut Self::SearchState,
         data: &[u8],
     ) -> (Option<usize>, usize) {
+        let start = state.l;
         match state.push(self, data) {
+            // forced by the maximum size: `i` is past the chunk, not a matching byte
+            Some(i) if start + i as u64 >= self.max_size => (Some(i), i),
             Some(i) => (Some(i + 1), i + 1),
             None => (None, data.len()),
         }
-- 
2.43.0


From f29bfec05e1b6e37b43924c1b23f43dfbeec2ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 15/16] fix: fastcdc: never emit an empty chunk

With min_size 0 a match on the first byte of a chunk was an edge before
that byte, again and again: push made no progress and iter_slices never
ended.
---
 src/fastcdc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fastcdc.rs b/src/fastcdc.rs
index 1433566..45da424 100644
--- a/src/fastcdc.rs
+++ b/src/fastcdc.rs
@@ -178,7 +178,7 @@ impl FastCdcState {
 
             let v = data[i];
             fp = (fp << 1) + Wrapping(params.gear[v as usize]);
-            if (fp.0 & MASK_S) == 0 {
+            if gi > 0 && (fp.0 & MASK_S) == 0 {
                 self.reset();
                 return Some(i);
             }
@@ -199,7 +199,7 @@ impl FastCdcState {
 
             let v = data[i];
             fp = (fp << 1) + Wrapping(params.gear[v as usize]);
-            if (fp.0 & MASK_L) == 0 {
+            if gi > 0 && (fp.0 & MASK_L) == 0 {
                 self.reset();
                 return Some(i);
             }
-- 
2.43.0


From fc864749f253582f6721953f925c69b8150f56fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:29 +0000
Subject: [PATCH 16/16] fix: zpaq: average for a range unbounded above does not
 overflow

---
 src/zpaq.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/zpaq.rs b/src/zpaq.rs
index 0123cc6..e2ff042 100644
--- a/src/zpaq.rs
+++ b/src/zpaq.rs
@@ -65,14 +65,15 @@ impl Zpaq {
             Bound::Excluded(i) => *i - 1,
             Bound::Unbounded => {
                 /* try to guess based on first */
-                64 * match range.start_bound() {
+                let min = match range.start_bound() {
                     Bound::Included(i) => *i,
-                    Bound::Excluded(i) => *i + 1,
+                    Bound::Excluded(i) => i.saturating_add(1),
                     Bound::Unbounded => {
                         /* welp, lets use the default */
                         return 16;
                     }
-                }
+                };
+                min.saturating_mul(64)
             }
         };
 
-- 
2.43.0

