From 6a0eec9103cde976b6bd4911c0580fb45e67bc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 01/50] Hook: channel capacity can be set in simulation builds
 (cfg wimbd_sim)

---
 src/cmd/botk.rs   |  6 ++++--
 src/cmd/search.rs |  4 ++--
 src/cmd/topk.rs   |  6 ++++--
 src/cmd/util.rs   | 16 ++++++++++++++++
 4 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/cmd/botk.rs b/src/cmd/botk.rs
index bdcf1c1..b87f999 100644
--- a/src/cmd/botk.rs
+++ b/src/cmd/botk.rs
@@ -15,7 +15,9 @@ use rand::{random, rngs::StdRng, seq::SliceRandom, SeedableRng};
 use serde_json::json;
 use structopt::StructOpt;
 
-use super::util::{expand_dirs, parse_size_default_to_gb, DataExecutor, DataInstance};
+use super::util::{
+    channel_capacity, expand_dirs, parse_size_default_to_gb, DataExecutor, DataInstance,
+};
 use crate::ngrams::{NgramCounter, TopKNgrams};
 use crate::tokens::{tokenize, PretrainedTokenizer};
 use crate::util;
@@ -215,7 +217,7 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
         opt.quiet,
     )?;
     let mut topk: TopKNgrams<String, AtomicU32> = TopKNgrams::new(opt.k);
-    let (tx, rx) = sync_channel(512_000);
+    let (tx, rx) = sync_channel(channel_capacity());
 
     // Second pass through the data: collect ngrams and add to the top-k (bottom-k)
     // if their "inverse count" is high enough.
diff --git a/src/cmd/search.rs b/src/cmd/search.rs
index e8cf0e2..27e6e65 100644
--- a/src/cmd/search.rs
+++ b/src/cmd/search.rs
@@ -15,7 +15,7 @@ use serde::Serialize;
 use serde_json::json;
 use structopt::StructOpt;
 
-use super::util::{expand_dirs, DataExecutor, DataInstance};
+use super::util::{channel_capacity, expand_dirs, DataExecutor, DataInstance};
 use crate::util;
 
 #[derive(Debug, StructOpt, Clone)]
@@ -98,7 +98,7 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
     let mut tx: Option<SyncSender<(String, PathBuf, Vec<MatchLocation>)>> = None;
     let mut rx: Option<Receiver<(String, PathBuf, Vec<MatchLocation>)>> = None;
     if opt.with_locations {
-        let (tx_, rx_) = sync_channel::<(String, PathBuf, Vec<MatchLocation>)>(512_000);
+        let (tx_, rx_) = sync_channel::<(String, PathBuf, Vec<MatchLocation>)>(channel_capacity());
         tx = Some(tx_);
         rx = Some(rx_);
         match_locations = Some(HashMap::with_capacity_and_hasher(
diff --git a/src/cmd/topk.rs b/src/cmd/topk.rs
index 6ad1d44..ec2901b 100644
--- a/src/cmd/topk.rs
+++ b/src/cmd/topk.rs
@@ -15,7 +15,9 @@ use num_traits::{Bounded, NumCast, One, SaturatingSub, Zero};
 use serde_json::json;
 use structopt::StructOpt;
 
-use super::util::{expand_dirs, parse_size_default_to_gb, DataExecutor, DataInstance};
+use super::util::{
+    channel_capacity, expand_dirs, parse_size_default_to_gb, DataExecutor, DataInstance,
+};
 use crate::ngrams::{NgramCounter, TopKNgrams};
 use crate::tokens::{tokenize, PretrainedTokenizer};
 use crate::util;
@@ -148,7 +150,7 @@ where
         + serde::Serialize,
 {
     let mut topk: TopKNgrams<String, A> = TopKNgrams::new(opt.topk);
-    let (tx, rx) = sync_channel::<(Vec<String>, <A as Atomic>::Type)>(512_000);
+    let (tx, rx) = sync_channel::<(Vec<String>, <A as Atomic>::Type)>(channel_capacity());
 
     let tokenizer: Option<PretrainedTokenizer> = if &opt.tokenizer == "unicode" {
         None
diff --git a/src/cmd/util.rs b/src/cmd/util.rs
index 0f209fb..0639e60 100644
--- a/src/cmd/util.rs
+++ b/src/cmd/util.rs
@@ -315,6 +315,22 @@ pub(crate) fn parse_size_default_to_gb(src: &str) -> Result<u64, parse_size::Err
     }
 }
 
+/// Capacity of the channels that carry results from the workers to the collecting thread.
+///
+/// Simulation builds (`--cfg wimbd_sim`) may shrink it, so that a full channel is reached with
+/// small inputs.
+#[allow(unexpected_cfgs)]
+pub(crate) fn channel_capacity() -> usize {
+    #[cfg(wimbd_sim)]
+    if let Some(capacity) = std::env::var("WIMBD_SIM_CHANNEL_CAPACITY")
+        .ok()
+        .and_then(|value| value.parse().ok())
+    {
+        return capacity;
+    }
+    512_000
+}
+
 pub(crate) fn expand_dirs(paths: &[PathBuf]) -> Result<Vec<PathBuf>> {
     let mut files = vec![];
     for path in paths {
-- 
2.43.0


From 910d275b31da423ba183bf8f48919a6a10269fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 02/50] fix: botk --threshold is compared with inverse counts
 when merging a file's results

The per-file callback compared inverse counts (u32::MAX - count) with the plain
threshold, so the default threshold of u32::MAX dropped every n-gram.
---
 src/cmd/botk.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cmd/botk.rs b/src/cmd/botk.rs
index b87f999..06bf702 100644
--- a/src/cmd/botk.rs
+++ b/src/cmd/botk.rs
@@ -10,7 +10,7 @@ use std::time::Duration;
 use anyhow::{bail, Result};
 use atomic_traits::Atomic;
 use console::style;
-use num_traits::{NumCast, One};
+use num_traits::One;
 use rand::{random, rngs::StdRng, seq::SliceRandom, SeedableRng};
 use serde_json::json;
 use structopt::StructOpt;
@@ -274,7 +274,7 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
         // global top-k.
         let sync_local_topk = {
             let min_count = topk.min_count();
-            let threshold = <<AtomicU32 as Atomic>::Type as NumCast>::from(opt.threshold).unwrap();
+            let threshold = u32::MAX - opt.threshold;
             let tx = tx.clone();
 
             move |mut local_topk: TopKNgrams<String, AtomicU32>| -> Result<()> {
-- 
2.43.0


From a8a2220cd65d761d7cdb399125639779e81f7254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:24 +0000
Subject: [PATCH 03/50] fix: topk, botk and search wait for every result the
 workers send

The collecting loop stopped when the pool looked idle (or nothing arrived for a
second while it looked idle), which could leave results in the channel: a fast
worker finishing before the first check made the output empty or incomplete.
---
 src/cmd/botk.rs   | 13 ++++---------
 src/cmd/search.rs | 20 ++++++++------------
 src/cmd/topk.rs   | 13 ++++---------
 src/cmd/util.rs   | 10 ----------
 4 files changed, 16 insertions(+), 40 deletions(-)

diff --git a/src/cmd/botk.rs b/src/cmd/botk.rs
index 06bf702..ac2976f 100644
--- a/src/cmd/botk.rs
+++ b/src/cmd/botk.rs
@@ -5,7 +5,6 @@ use std::path::{Path, PathBuf};
 use std::sync::atomic::{AtomicU32, Ordering};
 use std::sync::mpsc::sync_channel;
 use std::sync::Arc;
-use std::time::Duration;
 
 use anyhow::{bail, Result};
 use atomic_traits::Atomic;
@@ -305,14 +304,10 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
 
     drop(tx);
 
-    // Collect ngrams and counts from channel until all jobs are done.
-    while !executor.done() {
-        while let Ok((ngram, count)) = rx.recv_timeout(Duration::from_secs(1)) {
-            topk.insert(ngram, count);
-            if executor.has_errors() {
-                break;
-            }
-        }
+    // Collect ngrams and counts from the channel. Each job owns a sender, so this ends once all jobs
+    // are done and everything they sent has been received.
+    for (ngram, count) in rx {
+        topk.insert(ngram, count);
     }
 
     executor.join()?;
diff --git a/src/cmd/search.rs b/src/cmd/search.rs
index 27e6e65..abd87d8 100644
--- a/src/cmd/search.rs
+++ b/src/cmd/search.rs
@@ -5,7 +5,6 @@ use std::path::{Path, PathBuf};
 use std::sync::atomic::{AtomicUsize, Ordering};
 use std::sync::mpsc::{sync_channel, Receiver, SyncSender};
 use std::sync::Arc;
-use std::time::Duration;
 
 use ahash::RandomState;
 use anyhow::{bail, Result};
@@ -225,20 +224,17 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
 
     drop(tx);
 
-    while !executor.done() {
-        if let Some(ref rx) = rx {
-            while let Ok((pattern, path, matches)) = rx.recv_timeout(Duration::from_secs(1)) {
-                let matches_for_pattern: &mut HashMap<
-                    PathBuf,
-                    Vec<MatchLocation>,
-                    ahash::RandomState,
-                > = match_locations
+    // Each job owns a sender, so this ends once all jobs are done and everything they sent has
+    // been received.
+    if let Some(rx) = rx {
+        for (pattern, path, matches) in rx {
+            let matches_for_pattern: &mut HashMap<PathBuf, Vec<MatchLocation>, ahash::RandomState> =
+                match_locations
                     .as_mut()
                     .map(|m| m.get_mut(&pattern).unwrap())
                     .unwrap();
-                if !matches.is_empty() {
-                    matches_for_pattern.insert(path.clone(), matches);
-                }
+            if !matches.is_empty() {
+                matches_for_pattern.insert(path.clone(), matches);
             }
         }
     }
diff --git a/src/cmd/topk.rs b/src/cmd/topk.rs
index ec2901b..0613004 100644
--- a/src/cmd/topk.rs
+++ b/src/cmd/topk.rs
@@ -6,7 +6,6 @@ use std::path::{Path, PathBuf};
 use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
 use std::sync::mpsc::sync_channel;
 use std::sync::Arc;
-use std::time::Duration;
 
 use anyhow::{bail, Result};
 use atomic_traits::{Atomic, NumOps};
@@ -276,14 +275,10 @@ where
 
     drop(tx);
 
-    // Collect ngrams and counts from channel until all jobs are done.
-    while !executor.done() {
-        while let Ok((ngram, count)) = rx.recv_timeout(Duration::from_secs(1)) {
-            topk.insert(ngram, count);
-            if executor.has_errors() {
-                break;
-            }
-        }
+    // Collect ngrams and counts from the channel. Each job owns a sender, so this ends once all jobs
+    // are done and everything they sent has been received.
+    for (ngram, count) in rx {
+        topk.insert(ngram, count);
     }
 
     executor.join()?;
diff --git a/src/cmd/util.rs b/src/cmd/util.rs
index 0639e60..3fec79a 100644
--- a/src/cmd/util.rs
+++ b/src/cmd/util.rs
@@ -250,16 +250,6 @@ impl DataExecutor {
         Ok(())
     }
 
-    pub(crate) fn done(&self) -> bool {
-        (self.pool.active_count() == 0 && self.pool.queued_count() == 0)
-            || self.pool.panic_count() > 0
-            || self.early_exit.load(Ordering::Relaxed)
-    }
-
-    pub(crate) fn has_errors(&self) -> bool {
-        self.early_exit.load(Ordering::Relaxed)
-    }
-
     pub(crate) fn join(&self) -> Result<()> {
         self.pool.join();
 
-- 
2.43.0


From 881e9d6da8075930ade25f2cfc54a7f02054f9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:24 +0000
Subject: [PATCH 04/50] fix: --force truncates the output file it overwrites

Output shorter than the previous file left the end of the old content behind.
---
 src/util.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 2203fe0..1d41046 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -15,7 +15,10 @@ pub(crate) fn get_output_file(path: impl AsRef<Path>, force: bool) -> Result<(Fi
                 path
             );
         }
-        Ok((File::options().write(true).open(path)?, path.into()))
+        Ok((
+            File::options().write(true).truncate(true).open(path)?,
+            path.into(),
+        ))
     } else {
         if let Some(parent) = path.parent() {
             fs::create_dir_all(parent)?;
-- 
2.43.0


From 14cb57288df4798106f07b376236acefe73931da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:26 +0000
Subject: [PATCH 05/50] fix: stats prunes every outdated longest/shortest
 document pointer

Pruning stopped at the first pointer that was still current, but workers append
their pointers in any order, so outdated ones could be reported behind it.
---
 src/cmd/stats.rs | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/cmd/stats.rs b/src/cmd/stats.rs
index bf2344a..2c19e5a 100644
--- a/src/cmd/stats.rs
+++ b/src/cmd/stats.rs
@@ -322,26 +322,14 @@ impl Stats<Arc<AtomicUsize>> {
             .max_token_documents
             .lock()
             .map_err(|_| anyhow!("Failed to acquire lock"))?;
-        while let Some(doc_pointer) = (*max_token_documents).front() {
-            if doc_pointer.num_tokens < current_max {
-                (*max_token_documents).pop_front();
-            } else {
-                break;
-            }
-        }
+        max_token_documents.retain(|doc_pointer| doc_pointer.num_tokens >= current_max);
 
         let current_min = self.document_min_tokens.load(Ordering::Relaxed);
         let mut min_token_documents = self
             .min_token_documents
             .lock()
             .map_err(|_| anyhow!("Failed to acquire lock"))?;
-        while let Some(doc_pointer) = (*min_token_documents).front() {
-            if doc_pointer.num_tokens > current_min {
-                (*min_token_documents).pop_front();
-            } else {
-                break;
-            }
-        }
+        min_token_documents.retain(|doc_pointer| doc_pointer.num_tokens <= current_min);
 
         Ok(())
     }
-- 
2.43.0


From 106975b1d44f1c1657d6f69fec28927b2a4328ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:36 +0000
Subject: [PATCH 06/50] fix: concurrent updates of one n-gram are never missed
 by all of them

NgramCounter::increment read each cell as it incremented it, so two threads
counting the same n-gram at once could each miss part of the other's work and
topk reported too small a count. Overflow handling could also wrap a saturated
cell for a moment. Saturate atomically, and look at the cells once all of them
have been updated.
---
 src/ngrams/counter.rs | 66 +++++++++++++++++++++++++++++++------------
 1 file changed, 48 insertions(+), 18 deletions(-)

diff --git a/src/ngrams/counter.rs b/src/ngrams/counter.rs
index f2b22ed..2d8304f 100644
--- a/src/ngrams/counter.rs
+++ b/src/ngrams/counter.rs
@@ -114,19 +114,26 @@ where
         I: Iterator<Item = &'a T>,
         T: 'a + Hash,
     {
-        let mut min_count = <A as Atomic>::Type::max_value();
+        let mut indices = Vec::with_capacity(self.num_hash_functions);
         for i in 0..self.num_hash_functions {
             let hash = self.hash(&mut ngram.as_iter(), i);
             let index = self.index_for_hash(hash);
-            let old_count = self.count_array[index].fetch_add(by.clone(), Ordering::Relaxed);
-            let count = if old_count > <A as Atomic>::Type::max_value() - by.clone() {
+            self.update(index, |count| {
                 // Catch overflows and just keep as MAX.
-                self.count_array[index].store(<A as Atomic>::Type::max_value(), Ordering::Relaxed);
-                <A as Atomic>::Type::max_value()
-            } else {
-                old_count + by.clone()
-            };
-            min_count = std::cmp::min(min_count, count);
+                if count > <A as Atomic>::Type::max_value() - by.clone() {
+                    <A as Atomic>::Type::max_value()
+                } else {
+                    count + by.clone()
+                }
+            });
+            indices.push(index);
+        }
+
+        // Only look at the counts after all of them have been incremented. Otherwise threads
+        // incrementing the same ngram at the same time could all miss part of the others' work.
+        let mut min_count = <A as Atomic>::Type::max_value();
+        for index in indices {
+            min_count = std::cmp::min(min_count, self.count_array[index].load(Ordering::Acquire));
         }
         min_count
     }
@@ -142,19 +149,25 @@ where
         I: Iterator<Item = &'a T>,
         T: 'a + Hash,
     {
-        let mut max_count = <A as Atomic>::Type::zero();
+        let mut indices = Vec::with_capacity(self.num_hash_functions);
         for i in 0..self.num_hash_functions {
             let hash = self.hash(&mut ngram.as_iter(), i);
             let index = self.index_for_hash(hash);
-            let old_count = self.count_array[index].fetch_sub(by.clone(), Ordering::Relaxed);
-            let count = if old_count < by {
+            self.update(index, |count| {
                 // Catch underflows and just keep as 0.
-                self.count_array[index].store(<A as Atomic>::Type::zero(), Ordering::Relaxed);
-                <A as Atomic>::Type::zero()
-            } else {
-                old_count - by.clone()
-            };
-            max_count = std::cmp::max(max_count, count);
+                if count < by {
+                    <A as Atomic>::Type::zero()
+                } else {
+                    count - by.clone()
+                }
+            });
+            indices.push(index);
+        }
+
+        // See the comment in `increment`.
+        let mut max_count = <A as Atomic>::Type::zero();
+        for index in indices {
+            max_count = std::cmp::max(max_count, self.count_array[index].load(Ordering::Acquire));
         }
         max_count
     }
@@ -176,6 +189,23 @@ where
         max_count
     }
 
+    /// Atomically replace the count at `index` by `f` of it.
+    fn update<F>(&self, index: usize, f: F)
+    where
+        F: Fn(<A as Atomic>::Type) -> <A as Atomic>::Type,
+    {
+        let cell = &self.count_array[index];
+        let mut current = cell.load(Ordering::Relaxed);
+        while let Err(actual) = cell.compare_exchange_weak(
+            current.clone(),
+            f(current),
+            Ordering::AcqRel,
+            Ordering::Relaxed,
+        ) {
+            current = actual;
+        }
+    }
+
     fn hash<I, T>(&self, ngram: &mut I, hasher: usize) -> usize
     where
         I: Iterator<Item = T> + ?Sized,
-- 
2.43.0


From ec077766f678e001f0b1a9a6ca6a0d042db65067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:36 +0000
Subject: [PATCH 07/50] fix: directories with glob characters in their name can
 be given as input

---
 src/cmd/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cmd/util.rs b/src/cmd/util.rs
index 3fec79a..f3bbe91 100644
--- a/src/cmd/util.rs
+++ b/src/cmd/util.rs
@@ -5,7 +5,7 @@ use std::sync::{Arc, Mutex};
 use std::time::{Duration, Instant};
 
 use anyhow::{anyhow, bail, Context, Result};
-use glob::glob;
+use glob::{glob, Pattern};
 use humantime::format_duration;
 use parse_size::parse_size;
 use serde::Deserialize;
@@ -329,7 +329,7 @@ pub(crate) fn expand_dirs(paths: &[PathBuf]) -> Result<Vec<PathBuf>> {
                 .to_str()
                 .ok_or_else(|| anyhow!("invalid path '{}'", path.to_string_lossy()))?;
             let mut num_hits = 0;
-            for entry in glob(&format!("{}/**/*.json*.gz", path_str))? {
+            for entry in glob(&format!("{}/**/*.json*.gz", Pattern::escape(path_str)))? {
                 files.push(entry?.to_path_buf());
                 num_hits += 1;
             }
-- 
2.43.0


From ffd93b905293d43c4b7ef20afcc73726614799f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:53 +0000
Subject: [PATCH 08/50] fix: unique estimates the number of ngrams, not the
 number of table elements in use

Every n-gram uses one element per hash function (5 by default), so the reported
number was several times too large.
---
 src/cmd/unique.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/cmd/unique.rs b/src/cmd/unique.rs
index 806c444..48664ca 100644
--- a/src/cmd/unique.rs
+++ b/src/cmd/unique.rs
@@ -145,7 +145,7 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
     executor.join()?;
 
     log::info!("Counting unique ngrams...");
-    let unique_count = ngram_counts.nonzero();
+    let unique_count = estimate_unique(ngram_counts.nonzero(), opt.size, opt.hashes);
 
     if opt.json {
         let json_out = &json!({
@@ -159,3 +159,16 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
 
     Ok(())
 }
+
+/// Estimate how many distinct ngrams were added to a table with `size` elements, of which `nonzero`
+/// are in use, by `hashes` hash functions.
+///
+/// Each ngram uses up to `hashes` elements and elements can be shared, so the number of elements in use
+/// is not itself an estimate. See "Approximating the number of items in a Bloom filter",
+/// https://en.wikipedia.org/wiki/Bloom_filter.
+fn estimate_unique(nonzero: u64, size: u64, hashes: u8) -> u64 {
+    // With no element left there is no telling, so treat that like a single one being left.
+    let size = size as f64;
+    let in_use = (nonzero as f64).min(size - 1.0);
+    (-(size / hashes as f64) * (-in_use / size).ln_1p()).round() as u64
+}
-- 
2.43.0


From 309194aeef37345c49a38d5937c98eebc0eb75ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:12 +0000
Subject: [PATCH 09/50] fix: a read interrupted by a signal no longer ends a
 file early

flate2's MultiGzDecoder takes any error as the end of the stream, and read_line
retries interrupted reads, so EINTR while reading a gzip header or trailer
silently dropped the rest of the file.
---
 src/io.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index ade2e2a..b49727e 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -9,9 +9,26 @@ use std::{
 use anyhow::Result;
 use flate2::read::MultiGzDecoder;
 
+/// A reader that resumes reads interrupted by a signal.
+///
+/// `MultiGzDecoder` takes any error for the end of the stream: after an `Interrupted` error, which
+/// callers are meant to retry, it would pass off the rest of the file as empty.
+struct Uninterrupted<R>(R);
+
+impl<R: Read> Read for Uninterrupted<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        loop {
+            match self.0.read(buf) {
+                Err(err) if err.kind() == io::ErrorKind::Interrupted => continue,
+                result => return result,
+            }
+        }
+    }
+}
+
 /// A buffered reader for gzip files.
 pub struct GzBufReader {
-    reader: io::BufReader<MultiGzDecoder<File>>,
+    reader: io::BufReader<MultiGzDecoder<Uninterrupted<File>>>,
     buf: Rc<String>,
 }
 
@@ -21,7 +38,7 @@ fn new_buf() -> Rc<String> {
 
 impl GzBufReader {
     pub fn open(path: impl AsRef<std::path::Path>) -> Result<Self> {
-        let reader = io::BufReader::new(MultiGzDecoder::new(File::open(path)?));
+        let reader = io::BufReader::new(MultiGzDecoder::new(Uninterrupted(File::open(path)?)));
         let buf = new_buf();
 
         Ok(Self { reader, buf })
-- 
2.43.0


From c08f7ae8365c8e2e11cf5ad529aefa28a1b35535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:45 +0000
Subject: [PATCH 10/50] fix: --seed fixes the hash functions across runs

ahash's RandomState::with_seed mixes the seed with keys that are random in each
process, so runs with the same --seed still used different hash functions.
---
 src/ngrams/counter.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ngrams/counter.rs b/src/ngrams/counter.rs
index 2d8304f..d6cc270 100644
--- a/src/ngrams/counter.rs
+++ b/src/ngrams/counter.rs
@@ -5,6 +5,7 @@ use ahash::RandomState;
 use anyhow::{Context, Result};
 use atomic_traits::{Atomic, NumOps};
 use num_traits::{Bounded, NumCast, One, SaturatingSub, Zero};
+use rand::{rngs::StdRng, Rng, SeedableRng};
 
 pub trait AsIterator<'a, T: 'a> {
     type Iterator: Iterator<Item = &'a T>;
@@ -75,9 +76,14 @@ where
 
         // Initialize hash builders
         let mut hash_builders = Vec::with_capacity(num_hash_functions);
-        for i in 0..num_hash_functions {
-            let hash_builder = match seed {
-                Some(seed) => RandomState::with_seed((seed as usize) + i),
+        let mut rng = seed.map(StdRng::seed_from_u64);
+        for _ in 0..num_hash_functions {
+            let hash_builder = match rng {
+                // NOTE: `RandomState::with_seed` is not an option, it mixes in random keys that are
+                // different in every process.
+                Some(ref mut rng) => {
+                    RandomState::with_seeds(rng.gen(), rng.gen(), rng.gen(), rng.gen())
+                }
                 None => RandomState::new(),
             };
             hash_builders.push(hash_builder);
-- 
2.43.0


From a2ee424dea20f6669ccd43c62cf9af78344b6d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:10 +0000
Subject: [PATCH 11/50] fix: deduplicate_by_hash accepts blocklists that repeat
 a hash

---
 .../helper_scripts/deduplicate_by_hash.py                     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py b/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
index 093c347..cd8a7e5 100644
--- a/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
+++ b/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
@@ -86,8 +86,8 @@ def main(args):
 
     # Add the hashes to the blocklist
     with open(args.blocklist, 'rt') as fin:
-        for i, hash in tqdm(enumerate(fin), desc="Loading blocklist"):
-            blocklist[hash.strip()] = i
+        for hash in tqdm(fin, desc="Loading blocklist"):
+            blocklist.setdefault(hash.strip(), len(blocklist))
     
     seen_array = np.memmap(args.blocklist+".seen.dat", dtype=bool, mode='w+', shape=len(blocklist))
 
-- 
2.43.0


From f5748b7730929fc79724bbc0fa56580307bd8ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:55 +0000
Subject: [PATCH 12/50] fix: searching for all hits no longer loses hits with
 equal sort values

---
 wimbd/es/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/wimbd/es/__init__.py b/wimbd/es/__init__.py
index a69a435..cbb9955 100644
--- a/wimbd/es/__init__.py
+++ b/wimbd/es/__init__.py
@@ -239,16 +239,16 @@ def get_documents_containing_phrases(
     if return_all_hits:
         sort = [{sort_field: "asc"}]
         pit = es.open_point_in_time(index=index, keep_alive="1m")
-        # pit_search = {"id": pit["id"], "keep_alive": "1m"}
-        # all_results = []
-        results = es.search(index=index, query=query, size=num_documents, sort=sort)[
+        # Searching the point in time (rather than the index) adds a tiebreaker to the sort
+        # values, so documents with equal values are not lost between two pages.
+        pit_search = {"id": pit["id"], "keep_alive": "1m"}
+        results = es.search(pit=pit_search, query=query, size=num_documents, sort=sort)[
             "hits"
         ]["hits"]
         yield from results
         while len(results) > 0:
-            # todo: perhaps we need to refresh pit?
             results = es.search(
-                index=index,
+                pit=pit_search,
                 query=query,
                 size=num_documents,
                 sort=sort,
-- 
2.43.0


From bb667ff223c16374633815c1fdbc3a366387de33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:55 +0000
Subject: [PATCH 13/50] fix: counting and searching in c4 no longer changes the
 caller's subset_filter

---
 wimbd/es/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wimbd/es/__init__.py b/wimbd/es/__init__.py
index cbb9955..7603202 100644
--- a/wimbd/es/__init__.py
+++ b/wimbd/es/__init__.py
@@ -171,7 +171,7 @@ def count_documents_containing_phrases(
         if not subset_filter:
             subset_filter = [{"subset": "en"}]
         else:
-            subset_filter.append({"subset": "en"})
+            subset_filter = subset_filter + [{"subset": "en"}]
 
     if subset_filter:
         if "filter" not in query["bool"]:
@@ -228,7 +228,7 @@ def get_documents_containing_phrases(
         if not subset_filter:
             subset_filter = [{"subset": "en"}]
         else:
-            subset_filter.append({"subset": "en"})
+            subset_filter = subset_filter + [{"subset": "en"}]
 
     if subset_filter:
         if "filter" not in query["bool"]:
@@ -303,7 +303,7 @@ def count_documents_for_each_phrase(
         if not subset_filter:
             subset_filter = [{"subset": "en"}]
         else:
-            subset_filter.append({"subset": "en"})
+            subset_filter = subset_filter + [{"subset": "en"}]
 
     done = False
     generator = iter(phrases)
@@ -380,7 +380,7 @@ def count_total_occurrences_of_unigrams(
         if not subset_filter:
             subset_filter = [{"subset": "en"}]
         else:
-            subset_filter.append({"subset": "en"})
+            subset_filter = subset_filter + [{"subset": "en"}]
 
     term_freq_dict = {}
     for term in unigrams:
-- 
2.43.0


From 1494e3f74571f583be79f35018f9f520b71302d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:55 +0000
Subject: [PATCH 14/50] fix: incomplete Elasticsearch responses raise an error
 instead of giving wrong counts

---
 wimbd/es/__init__.py | 54 ++++++++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 19 deletions(-)

diff --git a/wimbd/es/__init__.py b/wimbd/es/__init__.py
index 7603202..6e71c79 100644
--- a/wimbd/es/__init__.py
+++ b/wimbd/es/__init__.py
@@ -86,6 +86,18 @@ def get_indices(
     return indices
 
 
+def _complete(response):
+    """
+    Raise an error if the response is one, or if it covers only a part of the index because shards
+    failed or the search timed out.
+    """
+    if "error" in response:
+        raise RuntimeError(f"The search failed: {response['error']}")
+    if response.get("timed_out", False) or response["_shards"]["failed"] > 0:
+        raise RuntimeError("The results are incomplete: shards failed or the search timed out.")
+    return response
+
+
 def _query_documents_contain_phrases(
     phrases: Union[str, List[str]],
     all_phrases: bool = False,
@@ -179,7 +191,7 @@ def count_documents_containing_phrases(
         for filter_ in subset_filter:
             query["bool"]["filter"].append({"term": filter_})
 
-    result = es.count(index=index, query=query)
+    result = _complete(es.count(index=index, query=query))
 
     return result["count"]
 
@@ -242,17 +254,19 @@ def get_documents_containing_phrases(
         # Searching the point in time (rather than the index) adds a tiebreaker to the sort
         # values, so documents with equal values are not lost between two pages.
         pit_search = {"id": pit["id"], "keep_alive": "1m"}
-        results = es.search(pit=pit_search, query=query, size=num_documents, sort=sort)[
-            "hits"
-        ]["hits"]
+        results = _complete(
+            es.search(pit=pit_search, query=query, size=num_documents, sort=sort)
+        )["hits"]["hits"]
         yield from results
         while len(results) > 0:
-            results = es.search(
-                pit=pit_search,
-                query=query,
-                size=num_documents,
-                sort=sort,
-                search_after=results[-1]["sort"],
+            results = _complete(
+                es.search(
+                    pit=pit_search,
+                    query=query,
+                    size=num_documents,
+                    sort=sort,
+                    search_after=results[-1]["sort"],
+                )
             )["hits"]["hits"]
             yield from results
         try:
@@ -261,9 +275,9 @@ def get_documents_containing_phrases(
             # Already closed.
             pass
     else:
-        yield from es.search(index=index, query=query, size=num_documents)["hits"][
+        yield from _complete(es.search(index=index, query=query, size=num_documents))[
             "hits"
-        ]
+        ]["hits"]
 
 
 def count_documents_for_each_phrase(
@@ -341,7 +355,7 @@ def count_documents_for_each_phrase(
             search_type="query_then_fetch",
             rest_total_hits_as_int=True,
         )
-        final_counts += [r["hits"]["total"] for r in results["responses"]]
+        final_counts += [_complete(r)["hits"]["total"] for r in results["responses"]]
     return final_counts
 
 
@@ -395,12 +409,14 @@ def count_total_occurrences_of_unigrams(
 
         total_freq = 0
         for i in range(num_shards):
-            documents = es.search(
-                index=index,
-                query=query,
-                preference=f"_shards:{i}",
-                stored_fields=[],
-                track_total_hits=False,
+            documents = _complete(
+                es.search(
+                    index=index,
+                    query=query,
+                    preference=f"_shards:{i}",
+                    stored_fields=[],
+                    track_total_hits=False,
+                )
             )
 
             if len(documents["hits"]["hits"]) > 0:
-- 
2.43.0


From ea63a84908502cd24cb19c9d8f5e905d6fed4657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:25 +0000
Subject: [PATCH 15/50] fix: documents whose text is null no longer end
 indexing

---
 wimbd/indexing/index_json_files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wimbd/indexing/index_json_files.py b/wimbd/indexing/index_json_files.py
index c5e6fbc..e0e4ea6 100644
--- a/wimbd/indexing/index_json_files.py
+++ b/wimbd/indexing/index_json_files.py
@@ -59,7 +59,8 @@ def main():
 
     def make_action(filename, line_number, line):
         doc = json.loads(line)
-        doc["text"] = doc.pop(args.text_field)[: args.max_doc_size]
+        text = doc.pop(args.text_field)
+        doc["text"] = text[: args.max_doc_size] if text is not None else None
         for field in skip_fields:
             doc.pop(field, None)
         if args.id_field is None:
-- 
2.43.0


From 2acf6d67070d74d63e19ff0d26fb22721925f843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:25 +0000
Subject: [PATCH 16/50] fix: saving the ids of a file without documents

---
 wimbd/indexing/index_json_files.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wimbd/indexing/index_json_files.py b/wimbd/indexing/index_json_files.py
index e0e4ea6..c0da250 100644
--- a/wimbd/indexing/index_json_files.py
+++ b/wimbd/indexing/index_json_files.py
@@ -127,9 +127,9 @@ def main():
             if args.save_ids_file:
                 with h5py.File(args.save_ids_file, "a") as f:
                     dset = f["ids"]
-                    new_size = dset.shape[0] + len(result_ids)
-                    dset.resize((new_size,))
-                    dset[-len(result_ids) :] = np.array(result_ids, dtype="S40")
+                    old_size = dset.shape[0]
+                    dset.resize((old_size + len(result_ids),))
+                    dset[old_size:] = np.array(result_ids, dtype="S40")
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 3fb28b38a2e56684efd59940dfa9dafac092aa49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:57 +0000
Subject: [PATCH 17/50] fix: saving a Hugging Face dataset can be continued
 without losing examples

---
 wimbd/indexing/huggingface.py | 52 ++++++++++++-----------------------
 1 file changed, 18 insertions(+), 34 deletions(-)

diff --git a/wimbd/indexing/huggingface.py b/wimbd/indexing/huggingface.py
index 01e9447..5bb54d5 100644
--- a/wimbd/indexing/huggingface.py
+++ b/wimbd/indexing/huggingface.py
@@ -1,6 +1,5 @@
 import argparse
 import concurrent.futures
-import glob
 import gzip
 import itertools
 import json
@@ -13,16 +12,10 @@ import datasets
 logger = logging.getLogger(__name__)
 
 
-def chunks(iterable, start, size):
-    from itertools import chain, islice
-
+def chunks(iterable, size):
     iterator = iter(iterable)
-    for first in iterator:
-        yield list(
-            itertools.chain(
-                [first], itertools.islice(iterator, start, start + size - 1)
-            )
-        )
+    while chunk := list(itertools.islice(iterator, size)):
+        yield chunk
 
 
 def save_dataset_as_jsonl(
@@ -41,38 +34,22 @@ def save_dataset_as_jsonl(
 
     for split in dataset:
         ds = dataset[split]
-        try:
-            start = max(
-                [
-                    int(path.split(".jsonl.gz")[0].split("_")[-1])
-                    for path in glob.glob(
-                        os.path.join(output_dir, split + "_*.jsonl.gz")
-                    )
-                ]
-            )
-        except ValueError:
-            start = 0
-        # Group the streaming examples into batches of batch_size
-        batches = itertools.islice(ds, start, None, batch_size)
-
-        if start != 0:
-            logger.warning(f"Already processed until batch {start-1}. Continuing.")
 
         def _update_example(example: dict):
             example["text"] = example.pop(text_field)
             return example
 
-        def _func(batch_number, batch, split):
+        def _func(batch_number, batch, batch_filename):
             logger.warning(f"Processing batch number {split}-{batch_number}")
             batch_jsonl = "\n".join(
                 json.dumps(_update_example(example)) for example in batch
             )
 
-            batch_filename = os.path.join(
-                output_dir, f"{split}_{batch_number}.jsonl.gz"
-            )
-            with gzip.open(batch_filename, "wt", encoding="utf-8") as f:
+            # A batch file is complete as soon as it exists, so an interrupted run can be continued.
+            tmp_filename = f"{batch_filename}.tmp"
+            with gzip.open(tmp_filename, "wt", encoding="utf-8") as f:
                 f.write(batch_jsonl)
+            os.replace(tmp_filename, batch_filename)
 
         # Loop through the batches and save each batch as a gzipped JSONL file
 
@@ -81,9 +58,16 @@ def save_dataset_as_jsonl(
             thread_name_prefix="save_dataset_as_jsonl-",
         ) as executor:
             futures = []
-            for i, batch in enumerate(chunks(iter(ds), start, batch_size - 1)):
-                batch_number = start + i
-                futures.append(executor.submit(_func, batch_number, batch, split))
+            for batch_number, batch in enumerate(chunks(ds, batch_size)):
+                batch_filename = os.path.join(
+                    output_dir, f"{split}_{batch_number}.jsonl.gz"
+                )
+                if os.path.exists(batch_filename):
+                    logger.warning(f"Already processed batch {batch_number}. Continuing.")
+                    continue
+                futures.append(
+                    executor.submit(_func, batch_number, batch, batch_filename)
+                )
             for future in concurrent.futures.as_completed(futures):
                 future.result()
 
-- 
2.43.0


From 912633aab60e5d187f50a68afe0ce0055cb94351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:57 +0000
Subject: [PATCH 18/50] fix: an interrupted download of a Stack file is
 repeated

---
 preparation/stack/download_url.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/preparation/stack/download_url.py b/preparation/stack/download_url.py
index 4051363..44ca771 100644
--- a/preparation/stack/download_url.py
+++ b/preparation/stack/download_url.py
@@ -66,8 +66,11 @@ def _save_url_as_jsonl(url: str, output_path: str):
         added=datetime.utcnow().isoformat(),
     )
     js = df.to_json(orient="records", lines=True)
-    with gzip.open(output_path, "wt") as f:
+    # An interrupted download must not leave a file that looks complete.
+    tmp_path = f"{output_path}.tmp"
+    with gzip.open(tmp_path, "wt") as f:
         f.write(js)
+    os.replace(tmp_path, output_path)
 
 
 def download(url: str, output_dir: str):
-- 
2.43.0


From 842b2f54d96f609139714e7ecec2e2d671f9ecbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:57 +0000
Subject: [PATCH 19/50] fix: an interrupted listing of Stack urls is continued
 without losing urls

---
 preparation/stack/get_urls.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/preparation/stack/get_urls.py b/preparation/stack/get_urls.py
index ae134d4..69f6685 100644
--- a/preparation/stack/get_urls.py
+++ b/preparation/stack/get_urls.py
@@ -1,5 +1,6 @@
 import argparse
 import json
+import os
 from typing import Dict, List
 
 import tqdm
@@ -88,7 +89,10 @@ if __name__ == "__main__":
         urls = list_stack_files(langs, lang_idx, sum([len(v) for v in lang_urls.values()]), args.version)
         lang_urls.update(urls)
 
-    with open(args.output_file, "w+") as f:
+    # The file counts as complete for every language in it, so it must never hold part of the urls.
+    tmp_file = args.output_file + ".tmp"
+    with open(tmp_file, "w+") as f:
         for _, urls in lang_urls.items():
             for url in urls:
                 f.write(url + "\n")
+    os.replace(tmp_file, args.output_file)
-- 
2.43.0


From d537fb9a5e4dd065e81d5674bbb949565154d91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:52 +0000
Subject: [PATCH 20/50] fix: the dataset name of run_uniq.sh is not an input
 file

---
 wimbd/sentence_lengths/run_uniq.sh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wimbd/sentence_lengths/run_uniq.sh b/wimbd/sentence_lengths/run_uniq.sh
index df5808d..fadeb43 100755
--- a/wimbd/sentence_lengths/run_uniq.sh
+++ b/wimbd/sentence_lengths/run_uniq.sh
@@ -5,6 +5,7 @@ SCRIPT_DIR=$( cd -- "$( dirname -- "${BASH_SOURCE[0]}" )" &> /dev/null && pwd )
 PYTHON=$(which python | head -1)
 
 DATASET=$1
+shift
 
 echo $DATASET
 
-- 
2.43.0


From c37567458de9b87fc1e78190f8d39dea9d252948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:52 +0000
Subject: [PATCH 21/50] fix: failures inside the overlap pipelines are reported
 instead of giving partial results

---
 wimbd/text_and_url_overlaps/decontaminate.py                | 6 +++---
 wimbd/text_and_url_overlaps/deduplicate.py                  | 6 +++---
 .../helper_scripts/get_duplicate_keys.sh                    | 1 +
 wimbd/text_and_url_overlaps/helper_scripts/get_just_keys.sh | 1 +
 .../helper_scripts/merge_and_get_overlap.sh                 | 1 +
 wimbd/text_and_url_overlaps/helper_scripts/remove_count.sh  | 1 +
 .../helper_scripts/run_combinations.py                      | 5 +++--
 .../helper_scripts/run_get_text_hashes.sh                   | 1 +
 wimbd/text_and_url_overlaps/helper_scripts/run_get_urls.sh  | 3 ++-
 9 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/wimbd/text_and_url_overlaps/decontaminate.py b/wimbd/text_and_url_overlaps/decontaminate.py
index 543bbb4..1222ee2 100755
--- a/wimbd/text_and_url_overlaps/decontaminate.py
+++ b/wimbd/text_and_url_overlaps/decontaminate.py
@@ -13,13 +13,13 @@ def main(args):
     else:
         blockfile = os.path.join(args.tmp_dir, 'blocklist.txt')
         # Generate blocklist
-        cmd = f"$TEXT_AND_URL_OVERLAPS/helper_scripts/run_get_text_hashes.sh {' '.join(args.in_files1)} | $TEXT_AND_URL_OVERLAPS/helper_scripts/get_just_keys.sh > {blockfile}"
-        subprocess.run(cmd, shell=True)
+        cmd = f"set -o pipefail; $TEXT_AND_URL_OVERLAPS/helper_scripts/run_get_text_hashes.sh {' '.join(args.in_files1)} | $TEXT_AND_URL_OVERLAPS/helper_scripts/get_just_keys.sh > {blockfile}"
+        subprocess.run(cmd, shell=True, executable="/bin/bash", check=True)
 
     # Decontaminate
     if not args.build_blocklist_only:
         cmd = f"python $TEXT_AND_URL_OVERLAPS/helper_scripts/deduplicate_by_hash.py --shards {' '.join(args.in_files2)} --blocklist {blockfile} --outpath {args.out_dir} --just_write_attributes"
-        subprocess.run(cmd, shell=True)
+        subprocess.run(cmd, shell=True, executable="/bin/bash", check=True)
 
 
 if __name__ in "__main__":
diff --git a/wimbd/text_and_url_overlaps/deduplicate.py b/wimbd/text_and_url_overlaps/deduplicate.py
index 9e7b720..da5bb83 100755
--- a/wimbd/text_and_url_overlaps/deduplicate.py
+++ b/wimbd/text_and_url_overlaps/deduplicate.py
@@ -13,13 +13,13 @@ def main(args):
     else:
         blockfile = os.path.join(args.tmp_dir, 'duplicates_hashes.txt')
         # Generate blocklist
-        cmd = f"$TEXT_AND_URL_OVERLAPS/helper_scripts/run_get_text_hashes.sh {' '.join(args.in_files)} | $TEXT_AND_URL_OVERLAPS/helper_scripts/get_duplicate_keys.sh > {blockfile}"
-        subprocess.run(cmd, shell=True)
+        cmd = f"set -o pipefail; $TEXT_AND_URL_OVERLAPS/helper_scripts/run_get_text_hashes.sh {' '.join(args.in_files)} | $TEXT_AND_URL_OVERLAPS/helper_scripts/get_duplicate_keys.sh > {blockfile}"
+        subprocess.run(cmd, shell=True, executable="/bin/bash", check=True)
 
     # Decontaminate
     if not args.build_blocklist_only:
         cmd = f"python $TEXT_AND_URL_OVERLAPS/helper_scripts/deduplicate_by_hash.py --shards {' '.join(args.in_files)} --blocklist {blockfile} --outpath {args.out_dir} --just_write_attributes --keep_first_occurrence"
-        subprocess.run(cmd, shell=True)
+        subprocess.run(cmd, shell=True, executable="/bin/bash", check=True)
 
 
 if __name__ in "__main__":
diff --git a/wimbd/text_and_url_overlaps/helper_scripts/get_duplicate_keys.sh b/wimbd/text_and_url_overlaps/helper_scripts/get_duplicate_keys.sh
index a17a178..407c95e 100755
--- a/wimbd/text_and_url_overlaps/helper_scripts/get_duplicate_keys.sh
+++ b/wimbd/text_and_url_overlaps/helper_scripts/get_duplicate_keys.sh
@@ -1,4 +1,5 @@
 #!/bin/bash
+set -o pipefail
 # This script is used to get the duplicate keys from the output of the
 # either the text or url overlap script.
 
diff --git a/wimbd/text_and_url_overlaps/helper_scripts/get_just_keys.sh b/wimbd/text_and_url_overlaps/helper_scripts/get_just_keys.sh
index 286f4ff..f343be0 100755
--- a/wimbd/text_and_url_overlaps/helper_scripts/get_just_keys.sh
+++ b/wimbd/text_and_url_overlaps/helper_scripts/get_just_keys.sh
@@ -1,4 +1,5 @@
 #!/bin/bash
+set -o pipefail
 # This script is used to get the all keys from the output of the
 # either the text or url overlap script.
 
diff --git a/wimbd/text_and_url_overlaps/helper_scripts/merge_and_get_overlap.sh b/wimbd/text_and_url_overlaps/helper_scripts/merge_and_get_overlap.sh
index 12911bb..9e42947 100755
--- a/wimbd/text_and_url_overlaps/helper_scripts/merge_and_get_overlap.sh
+++ b/wimbd/text_and_url_overlaps/helper_scripts/merge_and_get_overlap.sh
@@ -1,3 +1,4 @@
 #!/bin/bash
+set -o pipefail
 # merge already sorted files, and find the hashes that appear more than once, these are the overlaps
 sort -m  $1 $2 | uniq -c | sed 's/^[ \t]*//' |  awk -F ' ' '{if($1>1)print}' | cut -d ' ' -f2- 
\ No newline at end of file
diff --git a/wimbd/text_and_url_overlaps/helper_scripts/remove_count.sh b/wimbd/text_and_url_overlaps/helper_scripts/remove_count.sh
index 48d87a8..8a79564 100755
--- a/wimbd/text_and_url_overlaps/helper_scripts/remove_count.sh
+++ b/wimbd/text_and_url_overlaps/helper_scripts/remove_count.sh
@@ -1,2 +1,3 @@
 #!/bin/bash
+set -o pipefail
 sed 's/^[ \t]*//' $1 | cut -d ' ' -f2- 
\ No newline at end of file
diff --git a/wimbd/text_and_url_overlaps/helper_scripts/run_combinations.py b/wimbd/text_and_url_overlaps/helper_scripts/run_combinations.py
index cb876df..aa5266f 100644
--- a/wimbd/text_and_url_overlaps/helper_scripts/run_combinations.py
+++ b/wimbd/text_and_url_overlaps/helper_scripts/run_combinations.py
@@ -1,5 +1,6 @@
 import os
 import argparse
+import subprocess
 
 CONJUNCTION = "_and_"
 FILE_EXTENSION = ".txt"
@@ -36,12 +37,12 @@ def main():
 
         # if either file is empty, output empty file directly
         if os.path.getsize(file1) == 0 or os.path.getsize(file2) == 0:
-            os.system(f"touch {outfile}")
+            subprocess.run(f"touch {outfile}", shell=True, check=True)
             continue
         
         print(f"merging: {file1}, {file2}")
         script_dir = os.path.dirname(os.path.realpath(__file__))
-        os.system(f"{script_dir}/merge_and_get_overlap.sh {file1} {file2} > {outfile}")
+        subprocess.run(f"{script_dir}/merge_and_get_overlap.sh {file1} {file2} > {outfile}", shell=True, check=True)
 
 if __name__ == "__main__":
     main()
\ No newline at end of file
diff --git a/wimbd/text_and_url_overlaps/helper_scripts/run_get_text_hashes.sh b/wimbd/text_and_url_overlaps/helper_scripts/run_get_text_hashes.sh
index e1d2b4f..cf39283 100755
--- a/wimbd/text_and_url_overlaps/helper_scripts/run_get_text_hashes.sh
+++ b/wimbd/text_and_url_overlaps/helper_scripts/run_get_text_hashes.sh
@@ -1,4 +1,5 @@
 #!/bin/bash
+set -o pipefail
 
 # this gets the directory of the script, even if it's called from another directory
 SCRIPT_DIR=$( cd -- "$( dirname -- "${BASH_SOURCE[0]}" )" &> /dev/null && pwd )
diff --git a/wimbd/text_and_url_overlaps/helper_scripts/run_get_urls.sh b/wimbd/text_and_url_overlaps/helper_scripts/run_get_urls.sh
index 2e47d03..284bee9 100755
--- a/wimbd/text_and_url_overlaps/helper_scripts/run_get_urls.sh
+++ b/wimbd/text_and_url_overlaps/helper_scripts/run_get_urls.sh
@@ -1,4 +1,5 @@
 #!/bin/bash
+set -o pipefail
 
 # find the url location
 if [ "$(zcat $1 | head -n 1| jq -r '.url')" != null ]; then
@@ -13,4 +14,4 @@ else
     fi
 fi
 
-parallel --line-buffer "gzip -dc {} | jq -r $url_location " ::: $@ | sort | uniq -c
\ No newline at end of file
+parallel --line-buffer "set -o pipefail; gzip -dc {} | jq -r $url_location " ::: $@ | sort | uniq -c
\ No newline at end of file
-- 
2.43.0


From 336e4d31862ef554a8275f8f3de89f007416b571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:30 +0000
Subject: [PATCH 22/50] fix: the language of mC4 records does not contain the
 file suffix

---
 preparation/mc4/mc4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preparation/mc4/mc4.py b/preparation/mc4/mc4.py
index 1cf816a..a6214dd 100644
--- a/preparation/mc4/mc4.py
+++ b/preparation/mc4/mc4.py
@@ -52,7 +52,7 @@ def main():
     def process_object(o: storage.Blob) -> int:
         input_filename = blob_to_name(o)
         output_filename = input_name_to_output_name(input_filename)
-        language = input_filename.split("-", 2)[1]
+        language = input_filename.split(".", 1)[0].split("-", 2)[1]
         document_count = 0
         with tempfile.NamedTemporaryFile("wb+", prefix="mC4-", suffix=".tfrecords") as f:
             o.download_to_file(f)
-- 
2.43.0


From 68dcccee55777b707deb7eff067a10ce2da75a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:35 +0000
Subject: [PATCH 23/50] fix: splitting files whose path contains a dot no
 longer loses lines

---
 wimbd/utils/file_split.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wimbd/utils/file_split.py b/wimbd/utils/file_split.py
index 99fbee0..0a80555 100644
--- a/wimbd/utils/file_split.py
+++ b/wimbd/utils/file_split.py
@@ -21,12 +21,12 @@ def main():
         n = args.n
         chunks = len(data) // n
         for i in range(n - 1):
-            file_split = file.split(".")[0] + f"_{i}.json.gz"
+            file_split = file[: -len(".jsonl.gz")] + f"_{i}.json.gz"
             print(i*chunks, (i+1)*chunks)
             with gzip.open(file_split, 'wt') as f:
                 f.writelines(data[i*chunks:(i+1)*chunks])
         i = n - 1
-        file_split = file.split(".")[0] + f"_{i}.json.gz"
+        file_split = file[: -len(".jsonl.gz")] + f"_{i}.json.gz"
         print(i*chunks, (i+1)*chunks)
         with gzip.open(file_split, 'wt') as f:
             f.writelines(data[i*chunks:])
-- 
2.43.0


From 828682446e9bf909facbca00a3e4931da7aaa76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:35 +0000
Subject: [PATCH 24/50] fix: split_files.py writes its splits, and several can
 run at once

---
 wimbd/utils/split_files.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/wimbd/utils/split_files.py b/wimbd/utils/split_files.py
index 9e4dec6..d4ba004 100644
--- a/wimbd/utils/split_files.py
+++ b/wimbd/utils/split_files.py
@@ -18,18 +18,17 @@ def main():
     data = read_json_gz_file(args.in_file)
     
     #make dirs if they don't exist
-    if not os.path.exists(os.path.join(args.out_prefix, os.path.dirname(args.in_file))):
-        os.makedirs(os.path.join(args.out_prefix, os.path.dirname(args.in_file)))
+    os.makedirs(os.path.join(args.out_prefix, os.path.dirname(args.in_file)), exist_ok=True)
 
     out_path = os.path.join(args.out_prefix, args.in_file).replace(".jsonl", "").replace(".gz", "")
 
-    test_stream = gzip.open(out_path + ".test.jsonl.gz", "w")
-    valid_stream = gzip.open(out_path + ".valid.jsonl.gz", "w")
-    train_stream = gzip.open(out_path + ".train.jsonl.gz", "w")
+    test_stream = gzip.open(out_path + ".test.jsonl.gz", "wt")
+    valid_stream = gzip.open(out_path + ".valid.jsonl.gz", "wt")
+    train_stream = gzip.open(out_path + ".train.jsonl.gz", "wt")
 
     for row in data:
         text = row['text'] if row['text'] is not None else ""
-        if id in row:
+        if 'id' in row:
             raise ValueError("id already in row")
         row['id'] = hashlib.sha1(text.encode("utf-8")).hexdigest()
 
-- 
2.43.0


From 48d6fe385e52d20b7e9fd886b33ef222bab5cfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:35 +0000
Subject: [PATCH 25/50] fix: random_documents reads from the index it is asked
 for

---
 wimbd/es/random_access.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wimbd/es/random_access.py b/wimbd/es/random_access.py
index 57af2cf..74ba8f0 100644
--- a/wimbd/es/random_access.py
+++ b/wimbd/es/random_access.py
@@ -19,5 +19,5 @@ def random_documents(index_name: str, h5_path: str, n: int):
 
     docs = [ds[x].decode() for x in rand_doc_ids]
 
-    es_docs = es.mget(index="laion2b-en-2", ids=docs)["docs"]
+    es_docs = es.mget(index=index_name, ids=docs)["docs"]
     return es_docs
-- 
2.43.0


From f0367be2efcba1650156cf18ab4e067399df1739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:35 +0000
Subject: [PATCH 26/50] fix: download_url.sh downloads files that do not exist
 yet

---
 preparation/stack/download_url.sh | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/preparation/stack/download_url.sh b/preparation/stack/download_url.sh
index 79034ee..878fa74 100755
--- a/preparation/stack/download_url.sh
+++ b/preparation/stack/download_url.sh
@@ -10,10 +10,7 @@ DOWNLOAD_PATH=$LOCAL_DIR/$LANG/$JSONL_FILENAME
 
 # DEST_EXISTS=$(aws s3 ls $dest_path)
 
-DOWNLOAD_SIZE=$(ls -s $DOWNLOAD_PATH)
-EMPTY_SIZE_STR='0 '$DOWNLOAD_PATH
-
-if [[ "$DOWNLOAD_SIZE" == *"$EMPTY_SIZE_STR"* ]]
+if [[ ! -s $DOWNLOAD_PATH ]]
 # if [[ ! -f $DOWNLOAD_PATH ]]
 then
     # echo $SOURCE_PATH $DEST_PATH
-- 
2.43.0


From 6d72e2741b881e987a76de35e6175533ab44f8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:10 +0000
Subject: [PATCH 27/50] fix: get_indices reports the mapping of an index
 without fields

---
 wimbd/es/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wimbd/es/__init__.py b/wimbd/es/__init__.py
index 6e71c79..dd4c474 100644
--- a/wimbd/es/__init__.py
+++ b/wimbd/es/__init__.py
@@ -80,7 +80,7 @@ def get_indices(
         mappings = es.indices.get_mapping(index=list(indices.keys()))
         for key in mappings:
             indices[key]["properties"] = list(
-                mappings[key]["mappings"]["properties"].keys()
+                mappings[key]["mappings"].get("properties", {}).keys()
             )
 
     return indices
-- 
2.43.0


From 6bd0a502dde174b5a35bc06827725f2893264fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:26 +0000
Subject: [PATCH 28/50] fix: random_access imports the h5py it uses

---
 wimbd/indexing/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wimbd/indexing/__init__.py b/wimbd/indexing/__init__.py
index ed3b3de..4d63766 100644
--- a/wimbd/indexing/__init__.py
+++ b/wimbd/indexing/__init__.py
@@ -1,5 +1,7 @@
 import random
 
+import h5py
+
 from wimbd.es import es_init
 
 
-- 
2.43.0


From 5c494f897e026f1e6744b3fc585723489c14049f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:49 +0000
Subject: [PATCH 29/50] fix: run_get_urls.sh notices when it cannot find out
 where the urls are

When a program of the pipeline that reads the first row failed, or the first
shard was empty, .url was assumed and every url of data that has them in
.metadata.url was counted as null.
---
 .../helper_scripts/run_get_urls.sh                   | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/wimbd/text_and_url_overlaps/helper_scripts/run_get_urls.sh b/wimbd/text_and_url_overlaps/helper_scripts/run_get_urls.sh
index 284bee9..7ae7cec 100755
--- a/wimbd/text_and_url_overlaps/helper_scripts/run_get_urls.sh
+++ b/wimbd/text_and_url_overlaps/helper_scripts/run_get_urls.sh
@@ -2,10 +2,18 @@
 set -o pipefail
 
 # find the url location
-if [ "$(zcat $1 | head -n 1| jq -r '.url')" != null ]; then
+first_row=$(zcat $@ | head -n 1)
+status=$?
+# zcat is stopped (141) when head has seen enough
+if [ $status != 0 ] && [ $status != 141 ]; then
+    exit $status
+fi
+url=$(echo "$first_row" | jq -r '.url') || exit 1
+if [ "$url" != null ]; then
     url_location=".url"
 else
-    if [ "$(zcat $1 | head -n 1| jq -r '.metadata.url')"  != null ]; then
+    url=$(echo "$first_row" | jq -r '.metadata.url') || exit 1
+    if [ "$url" != null ]; then
         url_location=".metadata.url"
     else
         echo $1
-- 
2.43.0


From 15fa8c28c2364bcb3fa6e43be8fbd71ec940eb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:49 +0000
Subject: [PATCH 30/50] fix: run_combinations.py replaces an old overlap file
 when the overlap is empty

---
 wimbd/text_and_url_overlaps/helper_scripts/run_combinations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wimbd/text_and_url_overlaps/helper_scripts/run_combinations.py b/wimbd/text_and_url_overlaps/helper_scripts/run_combinations.py
index aa5266f..304f367 100644
--- a/wimbd/text_and_url_overlaps/helper_scripts/run_combinations.py
+++ b/wimbd/text_and_url_overlaps/helper_scripts/run_combinations.py
@@ -37,7 +37,7 @@ def main():
 
         # if either file is empty, output empty file directly
         if os.path.getsize(file1) == 0 or os.path.getsize(file2) == 0:
-            subprocess.run(f"touch {outfile}", shell=True, check=True)
+            open(outfile, "w").close()
             continue
         
         print(f"merging: {file1}, {file2}")
-- 
2.43.0


From b704117bbc976b657e483c8245915ff6a9c2396e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:49 +0000
Subject: [PATCH 31/50] fix: run_get_examples.sh fails when the top of the
 counts cannot be read

---
 wimbd/text_and_url_overlaps/helper_scripts/run_get_examples.sh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wimbd/text_and_url_overlaps/helper_scripts/run_get_examples.sh b/wimbd/text_and_url_overlaps/helper_scripts/run_get_examples.sh
index 350241e..909d624 100644
--- a/wimbd/text_and_url_overlaps/helper_scripts/run_get_examples.sh
+++ b/wimbd/text_and_url_overlaps/helper_scripts/run_get_examples.sh
@@ -1,4 +1,5 @@
 #!/bin/bash
+set -o pipefail
 
 shards=$1
 outfile=$2
@@ -9,4 +10,4 @@ k=$5
 # this gets the directory of the script, even if it's called from another directory
 SCRIPT_DIR=$( cd -- "$( dirname -- "${BASH_SOURCE[0]}" )" &> /dev/null && pwd )
 
-python $SCRIPT_DIR/get_examples.py --k $k --data_shards $shards  --outfile $outfile $mode_examples <(head -n $k $counts_file)
\ No newline at end of file
+head -n $k $counts_file | python $SCRIPT_DIR/get_examples.py --k $k --data_shards $shards  --outfile $outfile $mode_examples /dev/stdin
\ No newline at end of file
-- 
2.43.0


From 0f30baaf615834a82399d7f40768679d08347df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:49 +0000
Subject: [PATCH 32/50] fix: run_analysis.sh can be repeated and stops when a
 listing fails

overlap_numbers.txt was appended to by every run, and a failing jq or ls in a
command substitution left out datasets or files without an error.
---
 wimbd/text_and_url_overlaps/run_analysis.sh | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/wimbd/text_and_url_overlaps/run_analysis.sh b/wimbd/text_and_url_overlaps/run_analysis.sh
index c7c004a..802d61a 100644
--- a/wimbd/text_and_url_overlaps/run_analysis.sh
+++ b/wimbd/text_and_url_overlaps/run_analysis.sh
@@ -36,6 +36,7 @@ fi
 echo "Datasets to be processed:"
 names_and_shard_paths=$(cat $datasets_json | jq -r 'keys[] as $k | "\($k) \(.[$k])" ')
 echo "$names_and_shard_paths"
+datasets=$(cat $datasets_json | jq -r keys[])
 
 
 # mkdir -p $intermediate_dir/tmp/
@@ -56,26 +57,28 @@ time parallel --colsep ' ' "bash $TEXT_AND_URL_OVERLAPS/helper_scripts/$mode_scr
 
 # First we remove the counts to get the hash lists for each dataset by itself
 mkdir -p $intermediate_dir/$mode_dir/sorted_uniq
-for f in `ls $intermediate_dir/$mode_dir/sorted_uniq_counts`
+count_files=$(ls $intermediate_dir/$mode_dir/sorted_uniq_counts)
+for f in $count_files
 do 
     $TEXT_AND_URL_OVERLAPS/helper_scripts/remove_count.sh $intermediate_dir/$mode_dir/sorted_uniq_counts/$f > $intermediate_dir/$mode_dir/sorted_uniq/$f
 done
 
 # Then we can merge those sorted hash lists to get overlaps as follows:
 echo "Getting overlaps"
-time python $TEXT_AND_URL_OVERLAPS/helper_scripts/run_combinations.py --sorted_uniq_dir $intermediate_dir/$mode_dir/sorted_uniq/ --datasets `cat $datasets_json | jq -r keys[]`
+time python $TEXT_AND_URL_OVERLAPS/helper_scripts/run_combinations.py --sorted_uniq_dir $intermediate_dir/$mode_dir/sorted_uniq/ --datasets $datasets
 
 # 3) count the duplicates
 
 # First get the size of the overlaps:
-for f in `ls $intermediate_dir/$mode_dir/sorted_uniq/`
+uniq_files=$(ls $intermediate_dir/$mode_dir/sorted_uniq/)
+for f in $uniq_files
 do
-    wc -l $intermediate_dir/$mode_dir/sorted_uniq//$f >> $intermediate_dir/$mode_dir/overlap_numbers.txt
-done
+    wc -l $intermediate_dir/$mode_dir/sorted_uniq//$f
+done > $intermediate_dir/$mode_dir/overlap_numbers.txt
 
 # count the duplicates
 echo "Counting duplicates"
-time python $TEXT_AND_URL_OVERLAPS/helper_scripts/get_duplicate_counts.py --sorted_uniq_count_dir $intermediate_dir/$mode_dir/sorted_uniq_counts/ --datasets `cat $datasets_json | jq -r keys[]` --out_file $intermediate_dir/$mode_dir/duplicate_counts.json
+time python $TEXT_AND_URL_OVERLAPS/helper_scripts/get_duplicate_counts.py --sorted_uniq_count_dir $intermediate_dir/$mode_dir/sorted_uniq_counts/ --datasets $datasets --out_file $intermediate_dir/$mode_dir/duplicate_counts.json
 
 
 # 4) get top duplicate examples
-- 
2.43.0


From 72591624dd670405b12ab49f04b9266fbc3ae76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:20 +0000
Subject: [PATCH 33/50] fix: promptsource_parse.py reads the templates below
 --path

It read them from a folder of its author and expected --path at a fixed depth.
---
 wimbd/contamination/promptsource_parse.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/wimbd/contamination/promptsource_parse.py b/wimbd/contamination/promptsource_parse.py
index ac6592e..1f23c38 100644
--- a/wimbd/contamination/promptsource_parse.py
+++ b/wimbd/contamination/promptsource_parse.py
@@ -1,8 +1,10 @@
 import argparse
 import csv
+import os
 import re
 from glob import glob
 
+from wimbd.contamination import templates
 from wimbd.contamination.templates import INCLUDED_USERS, TemplateCollection
 from wimbd.contamination.utils import get_dataset
 
@@ -15,6 +17,8 @@ def main():
     
     args = parse.parse_args()
 
+    templates.TEMPLATES_FOLDER_PATH = args.path
+
     datasets = []
     for path in glob(args.path + '/**/templates.yaml', recursive=True):
         datasets.append(path)
@@ -23,9 +27,10 @@ def main():
     with open(args.out_file, 'w', newline='') as f:
         writer = csv.writer(f, delimiter='\t', lineterminator='\n')
         for dataset in datasets:
-            path = dataset.split('/')
-            dataset_name = path[8]
-            subset_name = path[9] if len(path) == 11 else ''
+            # DATASET/templates.yaml or DATASET/SUBSET/templates.yaml
+            path = os.path.relpath(dataset, args.path).split('/')
+            dataset_name = path[0]
+            subset_name = path[1] if len(path) == 3 else ''
             
             template_collection = TemplateCollection()
             dataset_templates = template_collection.get_dataset(dataset_name, subset_name)
-- 
2.43.0


From a6bd2b736626d8458e28517237baa3bec9eeccc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:37 +0000
Subject: [PATCH 34/50] fix: a failing write no longer destroys the prompt
 templates of a dataset

---
 wimbd/contamination/templates.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wimbd/contamination/templates.py b/wimbd/contamination/templates.py
index 0347909..cc20490 100644
--- a/wimbd/contamination/templates.py
+++ b/wimbd/contamination/templates.py
@@ -616,7 +616,11 @@ class DatasetTemplates:
         # We only create the folder if a template is written
         if not os.path.exists(self.folder_path):
             os.makedirs(self.folder_path)
-        yaml.dump(self.format_for_dump(), open(self.yaml_path, "w"))
+        # A failure must not damage the existing file. Hidden files are not taken for datasets.
+        tmp_path = os.path.join(TEMPLATES_FOLDER_PATH, f".{uuid.uuid4()}.tmp")
+        with open(tmp_path, "w") as f:
+            yaml.dump(self.format_for_dump(), f)
+        os.replace(tmp_path, self.yaml_path)
 
     def add_template(self, template: "Template") -> None:
         """
-- 
2.43.0


From 375e7b416531c0cf21b53812b02cc14b58d7a3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:13 +0000
Subject: [PATCH 35/50] fix: removing the last template of a dataset keeps
 those of its subsets

---
 wimbd/contamination/templates.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wimbd/contamination/templates.py b/wimbd/contamination/templates.py
index cc20490..fde4c1e 100644
--- a/wimbd/contamination/templates.py
+++ b/wimbd/contamination/templates.py
@@ -686,7 +686,10 @@ class DatasetTemplates:
         """
         self.sync_mapping()
 
-        rmtree(self.folder_path)
+        # The folder may also hold the templates of subsets
+        os.remove(self.yaml_path)
+        if len(os.listdir(self.folder_path)) == 0:
+            rmtree(self.folder_path)
 
         # If it is a subset, we have to check whether to remove the dataset folder
         if self.subset_name:
-- 
2.43.0


From ccff227486990b3714d0fe70c06256506aa9e9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:32 +0000
Subject: [PATCH 36/50] fix: only tags 'en' and 'en-US' make a dataset English

A single language given without a list was searched for 'en' as a
string, so that 'ben' was taken for English, and a null card was an
error.
---
 wimbd/contamination/utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/wimbd/contamination/utils.py b/wimbd/contamination/utils.py
index 7b35c07..70fdce3 100644
--- a/wimbd/contamination/utils.py
+++ b/wimbd/contamination/utils.py
@@ -129,13 +129,13 @@ def filter_english_datasets():
         #         english_datasets.append(dataset_name)
         #     continue
 
-        if "cardData" not in dataset:
-            continue
-        metadata = dataset["cardData"]
+        # The card, and the language in it, may be missing or null
+        metadata = dataset.get("cardData") or {}
 
-        if "language" not in metadata:
-            continue
-        languages = metadata["language"]
+        # A single language may be given without a list
+        languages = metadata.get("language") or []
+        if not isinstance(languages, list):
+            languages = [languages]
 
         if "en" in languages or "en-US" in languages:
             english_datasets.append(dataset_name)
-- 
2.43.0


From ad30a27a9ebddb48c054de50aab62f0ab29defd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 37/50] fix: get_dataset returns the same templates for every
 call

The keys are pairs of dataset and subset, so that the dataset name alone
was never found and every call replaced the templates with newly read
ones; edits through two of them lost updates.
---
 wimbd/contamination/templates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wimbd/contamination/templates.py b/wimbd/contamination/templates.py
index fde4c1e..71df5b3 100644
--- a/wimbd/contamination/templates.py
+++ b/wimbd/contamination/templates.py
@@ -516,7 +516,7 @@ class TemplateCollection:
         :param subset_name: name of the subset
         """
         # if the dataset does not exist, we add it
-        if dataset_name not in self.keys:
+        if (dataset_name, subset_name) not in self.keys:
             self.datasets_templates[(dataset_name, subset_name)] = DatasetTemplates(dataset_name, subset_name)
 
         return self.datasets_templates[(dataset_name, subset_name)]
-- 
2.43.0


From 06ec98583c77ef4c45dd09823d6a129bc099498b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:43 +0000
Subject: [PATCH 38/50] fix: the summaries of sentence lengths in tokens and
 characters were swapped

---
 wimbd/sentence_lengths/summarize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wimbd/sentence_lengths/summarize.py b/wimbd/sentence_lengths/summarize.py
index 3fd888e..7994a04 100644
--- a/wimbd/sentence_lengths/summarize.py
+++ b/wimbd/sentence_lengths/summarize.py
@@ -23,9 +23,9 @@ for filename in os.listdir(lengths_data_path):
             count_type, value = key.split(' ')
             length = int(value)
             if count_type.lower() == 'tokens':
-                chars_data[length] = count
-            elif count_type.lower() == 'chars':
                 toks_data[length] = count
+            elif count_type.lower() == 'chars':
+                chars_data[length] = count
 
     count_sum = sum(toks_data.values())
     dist = {length: count / count_sum for length, count in toks_data.items()}
-- 
2.43.0


From 499f3c71aefec15e0b00ad9a901b1cebf29b31f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:05 +0000
Subject: [PATCH 39/50] fix: name the top-k outputs and the mode of the overlap
 analysis

runs/run_analysis.sh used the unset variable n_ in the names of the top-k
outputs, so it broke off there, and called the overlap analysis without its
mode.
---
 runs/run_analysis.sh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/runs/run_analysis.sh b/runs/run_analysis.sh
index 7844dfc..35a08e3 100644
--- a/runs/run_analysis.sh
+++ b/runs/run_analysis.sh
@@ -12,12 +12,12 @@ OUT_DIR="/mnt/tank3/results/"
 # Top-k
 for n in 1 2
 do
-    ./bin/wimbd topk $DATASET -n $n -k 10000 -j 200 --threshold 300000 --size 200GiB --out $OUT_DIR/top$n_$DATA_NAME.jsonl
+    ./bin/wimbd topk $DATASET -n $n -k 10000 -j 200 --threshold 300000 --size 200GiB --out $OUT_DIR/top${n}_$DATA_NAME.jsonl
 done
 
 for n in 3 5 10
 do
-    ./bin/wimbd topk $DATASET -n $n -k 10000 -j 200 --threshold 10000 --size 200GiB --out $OUT_DIR/top$n_$DATA_NAME.jsonl
+    ./bin/wimbd topk $DATASET -n $n -k 10000 -j 200 --threshold 10000 --size 200GiB --out $OUT_DIR/top${n}_$DATA_NAME.jsonl
 done
 
 ./bin/wimbd topk $DATASET -n 100 -k 10000 -j 200 --threshold 1000 --size 200GiB --out $OUT_DIR/top100_$DATA_NAME.jsonl
@@ -32,7 +32,7 @@ done
 
 
 # Duplicates
-bash $TEXT_AND_URL_OVERLAPS/run_analysis.sh text_datasets.json data/benchmark
+bash $TEXT_AND_URL_OVERLAPS/run_analysis.sh text_datasets.json data/benchmark text
 
 
 # Length dist
-- 
2.43.0


From fb9a66628c66f250f208e8be506cd836779bb210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:55 +0000
Subject: [PATCH 40/50] fix: the last word of every category of the profanity
 taxonomy is found

---
 wimbd/profanity/map_count.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wimbd/profanity/map_count.py b/wimbd/profanity/map_count.py
index c4a589f..a14923a 100644
--- a/wimbd/profanity/map_count.py
+++ b/wimbd/profanity/map_count.py
@@ -77,9 +77,9 @@ def load_taxonomy():
     offensive_min = df[df['categorization'] == 'offensive-minority-reference'].word.tolist()
     offensive_not_min = df[df['categorization'] == 'offensive-not-minority'].word.tolist()
     global harmless_re, offensive_min_re, offensive_not_min_re
-    harmless_re = re.compile(r"\b"+r"\b|\b".join(harmless_min)+"\b",re.IGNORECASE)
-    offensive_min_re = re.compile(r"\b"+r"\b|\b".join(offensive_min)+"\b",re.IGNORECASE)
-    offensive_not_min_re = re.compile(r"\b"+r"\b|\b".join(offensive_not_min)+"\b",re.IGNORECASE)
+    harmless_re = re.compile(r"\b"+r"\b|\b".join(harmless_min)+r"\b",re.IGNORECASE)
+    offensive_min_re = re.compile(r"\b"+r"\b|\b".join(offensive_min)+r"\b",re.IGNORECASE)
+    offensive_not_min_re = re.compile(r"\b"+r"\b|\b".join(offensive_not_min)+r"\b",re.IGNORECASE)
     
     # df = df.replace({'body': {0: 'not-body', 1: 'body'},
     #             'minorityWord': {0: 'not-minority-word', 1: 'minority-word'},
-- 
2.43.0


From d7a0c5e55e9be988f2fb71dbf694a4eb69461764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:57 +0000
Subject: [PATCH 41/50] fix: the rules for phone numbers and IP addresses look
 at the text around the match

---
 wimbd/pii/map_count.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/wimbd/pii/map_count.py b/wimbd/pii/map_count.py
index 292a6cd..3716773 100644
--- a/wimbd/pii/map_count.py
+++ b/wimbd/pii/map_count.py
@@ -66,10 +66,8 @@ def postprocess_ip_addresses(text_input, match, pii_start, pii_end):
     return True
     
 
-def postprocess_pass(text_input, match, pii_type):
+def postprocess_pass(text_input, match, pii_type, pii_start, pii_end):
     match = str("".join(match))
-    pii_start = text_input.find(match)
-    pii_end = pii_start + len(match)
 
     if pii_type=="email":
         return postprocess_email(text_input, match, pii_start, pii_end)
@@ -87,15 +85,15 @@ def extract_pii_regex(text_input: str,
     for pii_type in pattern_dict:
         pattern = pattern_dict[pii_type]
         # search for the pattern in the string
-        matches = pattern.findall(text_input.lower())
+        text_lower = text_input.lower()
         # loop through the matches and print corresponding values from the dictionary
-        for match in matches:
-            
-            match = str("".join(match))
-            pii_start = text_input.find(match)
-            pii_end = pii_start + len(match)
+        for found in pattern.finditer(text_lower):
 
-            if postprocess_pass(text_input, match, pii_type):
+            match = found.groups() or found.group()
+            pii_start = found.start(min(1, pattern.groups))
+            pii_end = found.end(pattern.groups)
+
+            if postprocess_pass(text_lower, match, pii_type, pii_start, pii_end):
                 pii.append(pii_type)
 
     return pii
-- 
2.43.0


From ab308c69d9111442c04c7e4347094c4aefa68aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:49 +0000
Subject: [PATCH 42/50] fix: run_uniq.sh counts texts with carriage returns as
 one

---
 wimbd/sentence_lengths/reduce_count.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wimbd/sentence_lengths/reduce_count.py b/wimbd/sentence_lengths/reduce_count.py
index 7c32b30..df92162 100644
--- a/wimbd/sentence_lengths/reduce_count.py
+++ b/wimbd/sentence_lengths/reduce_count.py
@@ -7,6 +7,8 @@ def main():
 
     data = defaultdict(int)
 
+    # the texts in the lines may contain carriage returns
+    sys.stdin.reconfigure(newline="\n")
     for line in sys.stdin:
         data[line.strip()] += 1
     
-- 
2.43.0


From 347bd2e7e0713e1441cb1e40d88f4e759a614cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:53 +0000
Subject: [PATCH 43/50] fix: the tokens of urls without a host, or with spaces
 in it, are counted

---
 wimbd/url_per_tok_counts/reduce_count.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/wimbd/url_per_tok_counts/reduce_count.py b/wimbd/url_per_tok_counts/reduce_count.py
index 9e3320e..337f301 100644
--- a/wimbd/url_per_tok_counts/reduce_count.py
+++ b/wimbd/url_per_tok_counts/reduce_count.py
@@ -8,11 +8,9 @@ def main():
     data = defaultdict(int)
 
     for line in sys.stdin:
-        try:
-            url, count = line.strip().split()
-            data[url] += int(count)
-        except:
-            pass
+        # the host may be empty or contain spaces
+        url, count = line.rstrip().rsplit(" ", 1)
+        data[url.strip()] += int(count)
 
     
     for k, v in data.items():
-- 
2.43.0


From ff3f273da4caa7ffc113cd01549d63af5980b316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:04 +0000
Subject: [PATCH 44/50] fix: deduplication refuses shards that would overwrite
 each other or themselves

---
 .../helper_scripts/deduplicate_by_hash.py          | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py b/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
index cd8a7e5..e714722 100644
--- a/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
+++ b/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
@@ -78,7 +78,21 @@ def worker_initializer(l, block, seen):
     seen_array = seen
 
 
+def check_outputs(args):
+    # every shard is written to a file with its name in outpath
+    written = {}
+    for shard in args.shards:
+        out = os.path.join(args.outpath, os.path.basename(shard))
+        if out in written:
+            raise ValueError(f"{written[out]} and {shard} would both be written to {out}")
+        if os.path.realpath(out) == os.path.realpath(shard):
+            raise ValueError(f"{shard} would be overwritten while it is read")
+        written[out] = shard
+
+
 def main(args):
+    check_outputs(args)
+
     # Create global objects
     
     blocklist = dict()
-- 
2.43.0


From 47f25278cf082c59be410a3f0390fbc028f64862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:27 +0000
Subject: [PATCH 45/50] fix: examples of urls that are empty or have spaces

---
 wimbd/text_and_url_overlaps/helper_scripts/get_examples.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wimbd/text_and_url_overlaps/helper_scripts/get_examples.py b/wimbd/text_and_url_overlaps/helper_scripts/get_examples.py
index 51f27d3..041a286 100755
--- a/wimbd/text_and_url_overlaps/helper_scripts/get_examples.py
+++ b/wimbd/text_and_url_overlaps/helper_scripts/get_examples.py
@@ -53,7 +53,8 @@ def main():
         with open(args.count_url_file) as fin:
             output_data = []
             for l in fin:
-                count, text = l.strip().split()
+                # the counts are padded on the left; a url can be empty or have spaces
+                count, _, text = l.lstrip().rstrip("\n").partition(" ")
                 output_data.append({"text":text, "count":count})
         
         # sort by count descending
-- 
2.43.0


From b1eea3421b0751d4585a7243588bfd70ee086512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:29 +0000
Subject: [PATCH 46/50] fix: file_split.py keeps carriage returns and splits
 folders whose names have brackets

---
 wimbd/utils/file_split.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/wimbd/utils/file_split.py b/wimbd/utils/file_split.py
index 0a80555..8f09972 100644
--- a/wimbd/utils/file_split.py
+++ b/wimbd/utils/file_split.py
@@ -1,5 +1,5 @@
 import argparse
-from glob import glob
+from glob import escape, glob
 import gzip
 from tqdm import tqdm
 
@@ -14,8 +14,9 @@ def main():
     args = parse.parse_args()
 
     # iterate over files in the folder, and split each file (json.gz) into n files while adding a suffix at the end of the name based on the index
-    for file in tqdm(glob(args.in_folder + "/*.jsonl.gz")):
-        with gzip.open(file, 'rt') as f:
+    for file in tqdm(glob(escape(args.in_folder) + "/*.jsonl.gz")):
+        # a line ends with a line feed only, whatever carriage returns it holds
+        with gzip.open(file, 'rt', newline='\n') as f:
             data = f.readlines()
 
         n = args.n
@@ -23,12 +24,12 @@ def main():
         for i in range(n - 1):
             file_split = file[: -len(".jsonl.gz")] + f"_{i}.json.gz"
             print(i*chunks, (i+1)*chunks)
-            with gzip.open(file_split, 'wt') as f:
+            with gzip.open(file_split, 'wt', newline='\n') as f:
                 f.writelines(data[i*chunks:(i+1)*chunks])
         i = n - 1
         file_split = file[: -len(".jsonl.gz")] + f"_{i}.json.gz"
         print(i*chunks, (i+1)*chunks)
-        with gzip.open(file_split, 'wt') as f:
+        with gzip.open(file_split, 'wt', newline='\n') as f:
             f.writelines(data[i*chunks:])
 
 if __name__ == "__main__":
-- 
2.43.0


From 0f8708112def3f76e72e09c6db386667acb63903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:45 +0000
Subject: [PATCH 47/50] fix: the top examples of the overlap analysis are those
 with the largest counts

---
 wimbd/text_and_url_overlaps/run_analysis.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wimbd/text_and_url_overlaps/run_analysis.sh b/wimbd/text_and_url_overlaps/run_analysis.sh
index 802d61a..10bef39 100644
--- a/wimbd/text_and_url_overlaps/run_analysis.sh
+++ b/wimbd/text_and_url_overlaps/run_analysis.sh
@@ -86,7 +86,7 @@ time python $TEXT_AND_URL_OVERLAPS/helper_scripts/get_duplicate_counts.py --sort
 # get top occurring duplicates
 echo "Getting top duplicate examples"
 mkdir -p $intermediate_dir/$mode_dir/sorted_sorted_uniq_counts
-time parallel --eta --bar "sort -r {} > $intermediate_dir/$mode_dir/sorted_sorted_uniq_counts/{/}" ::: $intermediate_dir/$mode_dir/sorted_uniq_counts/*
+time parallel --eta --bar "sort -nr {} > $intermediate_dir/$mode_dir/sorted_sorted_uniq_counts/{/}" ::: $intermediate_dir/$mode_dir/sorted_uniq_counts/*
 
 # get top duplicate examples
 mkdir -p $intermediate_dir/$mode_dir/top_examples
-- 
2.43.0


From 686ecbddc67f7ea3ae1ef667288d66446924c44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:32 +0000
Subject: [PATCH 48/50] fix: the contamination of many datasets runs from any
 folder and reports failures

---
 runs/p3_contamination.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runs/p3_contamination.py b/runs/p3_contamination.py
index 21c8bd7..03bac77 100644
--- a/runs/p3_contamination.py
+++ b/runs/p3_contamination.py
@@ -45,9 +45,9 @@ def main():
                     try:
                         # server
                         if row.sub_dataset:
-                            subprocess.run(["python", f"/home/yanaie/wimbd/wimbd/es/corpus_contamination.py",  "--corpus", row.dataset, "--sub_corpus", row.sub_dataset, "--index", corpus, "--split", key, "--fields", fields])
+                            subprocess.run(["python", "wimbd/es/corpus_contamination.py", "--corpus", row.dataset, "--sub_corpus", row.sub_dataset, "--index", corpus, "--split", key, "--fields", fields], check=True)
                         else:
-                            subprocess.run(["python", f"/home/yanaie/wimbd/wimbd/es/corpus_contamination.py",  "--corpus", row.dataset, "--index", corpus, "--split", key, "--fields", fields])
+                            subprocess.run(["python", "wimbd/es/corpus_contamination.py", "--corpus", row.dataset, "--index", corpus, "--split", key, "--fields", fields], check=True)
                     except:
                         print("failed running this scipt")
                         continue
-- 
2.43.0


From 5cc68a14d2604cbe2d60136af4179d88a34f7b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:07 +0000
Subject: [PATCH 49/50] fix: run_uniq.sh fails for datasets without unique
 lengths

---
 wimbd/sentence_lengths/map_unique_lengths.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/wimbd/sentence_lengths/map_unique_lengths.py b/wimbd/sentence_lengths/map_unique_lengths.py
index 452a6bf..bbbc125 100644
--- a/wimbd/sentence_lengths/map_unique_lengths.py
+++ b/wimbd/sentence_lengths/map_unique_lengths.py
@@ -30,8 +30,7 @@ def main():
     args = parse.parse_args()
 
     if args.dataset not in CHAR_LENGTHS and args.dataset not in TOK_LENGTHS:
-        print(f'Error: dataset {args.dataset} does not have unique lengths')
-        exit()
+        raise SystemExit(f'Error: dataset {args.dataset} does not have unique lengths')
 
     data = read_json_gz_file(args.in_file)
 
-- 
2.43.0


From a736397fbd306826eec42dd29f078933ed2463b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:41 +0000
Subject: [PATCH 50/50] fix: download.sh fails without a token or a readable
 list of urls

---
 preparation/stack/download.sh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/preparation/stack/download.sh b/preparation/stack/download.sh
index f06ba09..3d7cddc 100755
--- a/preparation/stack/download.sh
+++ b/preparation/stack/download.sh
@@ -1,11 +1,13 @@
 # This script downloads The Stack from HuggingFace.
 # GNU-parallel used for downloading in parallel.
 # Reference: O. Tange (2018): GNU Parallel 2018, March 2018, https://doi.org/10.5281/zenodo.1146014.
+set -o pipefail
 URL_LIST_FILE=$1
 DOWNLOAD_DIR=$2
 if [[ -z "${HF_TOKEN}" ]]; then
 	echo "Please set Huggingface API token as environment variable HF_TOKEN."
 	echo "Also note that you may need to login to huggingface.co and accept the terms on the dataset page."
+	exit 1
 else
 	echo $(wc -l $URL_LIST_FILE)
 	cat $URL_LIST_FILE| parallel -j 20 --bar --max-args=1 ./download_url.sh {1} $DOWNLOAD_DIR
-- 
2.43.0

