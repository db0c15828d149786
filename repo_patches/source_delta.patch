From 67ddc4b843fd5f159dc96929ad55876a66f627b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:05 +0000
Subject: [PATCH 01/19] fix: load special tokens whose JSON form contains
 escapes

Deserialising into &str only works for strings without escape sequences, so a
tokenizer with a special token such as "\n" or "\"" could not be loaded back.
---
 src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 198eee8..81a576e 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -393,7 +393,7 @@ impl<'de> Visitor<'de> for TokenizerVisitor {
         A: serde::de::MapAccess<'de>,
     {
         let mut version: Option<String> = None;
-        let mut special_tokens: Vec<&str> = Vec::new();
+        let mut special_tokens: Vec<String> = Vec::new();
         let mut vocab: Vec<ScoredToken> = Vec::new();
         let mut processors: Vec<ProcessorWrapper> = Vec::new();
 
-- 
2.43.0


From c8836b94f31c4e4503bc76309d9e4977c99065b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:05 +0000
Subject: [PATCH 02/19] fix: never match an empty special token

An empty special token matched everywhere without advancing, so encoding
looped forever.
---
 src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 81a576e..d20799d 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -326,7 +326,7 @@ impl<'a> Iterator for SpecialTokenSplitter<'a> {
             let suffix = &input[i..];
 
             for special_token in self.special_tokens {
-                if suffix.starts_with(special_token) {
+                if !special_token.is_empty() && suffix.starts_with(special_token) {
                     if i > 0 {
                         self.cursor += i;
                         return Some((&input[..i], false));
-- 
2.43.0


From 4805375da8016a784de21cf502cf64766f84638a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:05 +0000
Subject: [PATCH 03/19] fix: stop merging when a short last round finds nothing
 to merge

The last round may allow fewer merges than `step`; when none was possible the
loop never noticed and ran forever.
---
 src/merge.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/merge.rs b/src/merge.rs
index 22ebcaa..9bbf7a1 100644
--- a/src/merge.rs
+++ b/src/merge.rs
@@ -83,10 +83,11 @@ impl ModelVocabularyMerger {
 
             pairs.sort_unstable_by(|a, b| b.1.cmp(&a.1));
 
-            let mut merges = std::cmp::min(
+            let max_merges = std::cmp::min(
                 self.step,
                 self.num_merges - (model.vocab_size() - start_vocab_size),
             );
+            let mut merges = max_merges;
             for ((a, b), freq) in pairs.iter().copied() {
                 if merges == 0 {
                     break;
@@ -125,7 +126,7 @@ impl ModelVocabularyMerger {
                 log::info!("Merged a={} b={} freq={} into={}", a, b, freq, token);
             }
 
-            if merges == self.step {
+            if merges == max_merges {
                 log::warn!(
                     "No more merges possible after {} merges, consider increasing the number of merges",
                     model.vocab_size() - start_vocab_size
-- 
2.43.0


From 238b279095f2d4f82e9850215f472e7256d6b751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:05 +0000
Subject: [PATCH 04/19] fix: do not merge into a token the vocabulary already
 contains

Two pairs can concatenate to the same bytes; the vocabulary then ended up with
the same token under several ids.
---
 src/merge.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/merge.rs b/src/merge.rs
index 9bbf7a1..0aae820 100644
--- a/src/merge.rs
+++ b/src/merge.rs
@@ -104,6 +104,7 @@ impl ModelVocabularyMerger {
                 let token = ScoredToken::new(value, score, false);
 
                 if token.len() > self.max_token_length
+                    || model.token_to_id(&token.value).is_some()
                     || !self.allow.is_match(&String::from_utf8_lossy(&token.value))
                 {
                     if !ignore.contains(&pair) {
-- 
2.43.0


From 3e76bc6affc013743be1c0a240963cb8f2f35454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:05 +0000
Subject: [PATCH 05/19] fix: filter only removes tokens whose score is below
 the minimum

The documentation says that tokens with a score lower than the minimum are
removed, but a token scoring exactly the minimum was removed too.
---
 src/filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter.rs b/src/filter.rs
index 2e7d487..a8548c6 100644
--- a/src/filter.rs
+++ b/src/filter.rs
@@ -33,7 +33,7 @@ impl VocabularyFilter {
         for token in vocab.iter() {
             let should_keep = num_tokens_removed >= num_tokens_to_remove
                 || (token.keep && !self.force)
-                || token.score > self.min_score.unwrap_or(f64::NEG_INFINITY);
+                || token.score >= self.min_score.unwrap_or(f64::NEG_INFINITY);
 
             if should_keep {
                 new_vocab.push(token.clone());
-- 
2.43.0


From 8bb8a684f542a8b9469fd2fa07b6da71e7181859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:05 +0000
Subject: [PATCH 06/19] fix: compute the pruning loss from the token's own
 alternative

Removing a token replaces each of its occurrences by the pieces of its
alternative segmentation, so the total grows by freq * (pieces - 1); the code
used the size of the whole vocabulary instead.
---
 src/prune.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prune.rs b/src/prune.rs
index 4013caf..0d28372 100644
--- a/src/prune.rs
+++ b/src/prune.rs
@@ -276,7 +276,7 @@ impl ModelVocabularyPruner {
                 // After removing token `i`, its frequency is re-assigned
                 // to its alternatives.
                 let alt_logsum =
-                    (sum_token_frequencies + freq * (alternatives.len() - 1) as f64).ln();
+                    (sum_token_frequencies + freq * (alternatives[id].len() - 1) as f64).ln();
 
                 // The frequencies of alternatives are increased by the
                 // frequency of the removed token.
-- 
2.43.0


From 0e5dfe5b206ba47bc8227a6948a5f99f8eae9563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:05 +0000
Subject: [PATCH 07/19] fix: accept a zero loss and a zero log-likelihood when
 pruning

0.0 is a legitimate value for both, but is_normal() rejects it and pruning
panicked.
---
 src/prune.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/prune.rs b/src/prune.rs
index 0d28372..303bfe3 100644
--- a/src/prune.rs
+++ b/src/prune.rs
@@ -87,7 +87,7 @@ impl ModelVocabularyPruner {
                     model.populate_nodes(&mut lattice, self.dropout);
 
                     let z = lattice.populate_marginal(&mut expected_frequencies);
-                    if !z.is_normal() {
+                    if !z.is_finite() {
                         panic!(
                             "normalization constant is f64::NaN (z={}, len={})",
                             z,
@@ -288,7 +288,7 @@ impl ModelVocabularyPruner {
 
                 // The difference in likelihood after removing the token.
                 let loss = (freq / samples.len() as f64) * (logprob - alt_logprob);
-                if !loss.is_normal() {
+                if !loss.is_finite() {
                     panic!(
                         "loss is f64::NaN (loss={}, freq={}, logprob={}, alt_logprob={})",
                         loss, freq, logprob, alt_logprob
-- 
2.43.0


From 7011df727343b556a4c9e5017295aa41769ca74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:05 +0000
Subject: [PATCH 08/19] fix: pruning terminates when no token can be removed

When the tokens that must be kept exceed the target, or the shrink factor asks
for no reduction, every iteration left the vocabulary unchanged and the loop
ran forever. Once the mandatory tokens alone exceed the size of a round, all
optional tokens were kept as well, instead of none.
---
 src/prune.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/prune.rs b/src/prune.rs
index 303bfe3..3b3b621 100644
--- a/src/prune.rs
+++ b/src/prune.rs
@@ -22,6 +22,8 @@ impl ModelVocabularyPruner {
 
     pub fn prune(&self, model: &mut Model, samples: &[&str]) -> Result<()> {
         while model.vocab_size() > self.vocab_size {
+            let vocab_size = model.vocab_size();
+
             for subiter in 0..self.em_subiters {
                 log::info!("EM subiter {}/{}", subiter + 1, self.em_subiters);
 
@@ -51,6 +53,15 @@ impl ModelVocabularyPruner {
             // Prune the vocabulary.
             let vocab = self.prune_vocab(model, samples)?;
             *model = Model::from(vocab);
+
+            if model.vocab_size() >= vocab_size {
+                log::warn!(
+                    "Cannot prune any further, stopping at vocab_size={} target={}",
+                    model.vocab_size(),
+                    self.vocab_size
+                );
+                break;
+            }
         }
 
         Ok(())
@@ -172,7 +183,9 @@ impl ModelVocabularyPruner {
     /// Prunes the vocabulary by removing the least useful tokens.
     fn prune_vocab(&self, model: &Model, samples: &[&str]) -> Result<Vec<ScoredToken>> {
         let pruned_size: usize = ((model.vocab_size() as f64) * self.shrink_factor) as usize;
-        let pruned_size = pruned_size.max(self.vocab_size);
+        let pruned_size = pruned_size
+            .min(model.vocab_size().saturating_sub(1))
+            .max(self.vocab_size);
 
         // Segment each token in the vocabulary to understand how it would be
         // resegmented if it was removed from the vocabulary.
@@ -307,7 +320,7 @@ impl ModelVocabularyPruner {
 
         candidates.sort_unstable_by(|(_, a), (_, b)| b.partial_cmp(a).unwrap());
         for (id, _) in candidates {
-            if pruned_vocab.len() == pruned_size {
+            if pruned_vocab.len() >= pruned_size {
                 break;
             }
             pruned_vocab.push(model.vocab()[id].clone());
-- 
2.43.0


From 7a0b84664d9138cd9b5a29af2a0852d38901346f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:36 +0000
Subject: [PATCH 09/19] fix: reject processors without a known type when
 loading a tokenizer

A processor entry without a type was read as the crlf processor, and any entry
with a form as a Unicode processor whatever its type said, so a damaged or
foreign file silently loaded as a different tokenizer.
---
 src/processor.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/processor.rs b/src/processor.rs
index 997c27b..97de948 100644
--- a/src/processor.rs
+++ b/src/processor.rs
@@ -84,6 +84,8 @@ impl<'de> serde::Deserialize<'de> for CrlfProcessor {
             where
                 A: serde::de::MapAccess<'de>,
             {
+                let mut has_type = false;
+
                 while let Some(key) = map.next_key::<&str>()? {
                     match key {
                         "type" => {
@@ -91,6 +93,7 @@ impl<'de> serde::Deserialize<'de> for CrlfProcessor {
                             if value != "crlf" {
                                 return Err(serde::de::Error::unknown_variant(&value, &["crlf"]));
                             }
+                            has_type = true;
                         }
                         _ => {
                             let _: serde::de::IgnoredAny = map.next_value()?;
@@ -98,6 +101,10 @@ impl<'de> serde::Deserialize<'de> for CrlfProcessor {
                     }
                 }
 
+                if !has_type {
+                    return Err(serde::de::Error::missing_field("type"));
+                }
+
                 Ok(CrlfProcessor)
             }
         }
@@ -176,10 +183,21 @@ impl<'de> serde::Deserialize<'de> for UnicodeProcessor {
             where
                 A: serde::de::MapAccess<'de>,
             {
+                let mut has_type = false;
                 let mut form = None;
 
                 while let Some(key) = map.next_key::<&str>()? {
                     match key {
+                        "type" => {
+                            let value = map.next_value::<String>()?;
+                            if value != "unicode" {
+                                return Err(serde::de::Error::unknown_variant(
+                                    &value,
+                                    &["unicode"],
+                                ));
+                            }
+                            has_type = true;
+                        }
                         "form" => {
                             form = Some(map.next_value::<String>()?);
                         }
@@ -189,6 +207,10 @@ impl<'de> serde::Deserialize<'de> for UnicodeProcessor {
                     }
                 }
 
+                if !has_type {
+                    return Err(serde::de::Error::missing_field("type"));
+                }
+
                 let form = form.ok_or_else(|| serde::de::Error::missing_field("form"))?;
 
                 Ok(match form.as_str() {
-- 
2.43.0


From 6fb873b92b6848dad58bb8585e279c0512e58a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:36 +0000
Subject: [PATCH 10/19] fix: raise an error when saving from Python fails

The IOError was created and then dropped, so a failed save looked like a
successful one.
---
 bindings/python/src/lib.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/bindings/python/src/lib.rs b/bindings/python/src/lib.rs
index 6c38d90..de145a9 100644
--- a/bindings/python/src/lib.rs
+++ b/bindings/python/src/lib.rs
@@ -148,17 +148,10 @@ impl PyTokenizer {
         self.tokenizer.special_vocab_size()
     }
 
-    fn save(&self, filename: &str) {
-        match self.tokenizer.save(filename) {
-            Ok(_) => {}
-            Err(e) => {
-                Python::with_gil(|py| {
-                    PyIOError::new_err(e.to_string()).restore(py);
-                    assert!(PyErr::occurred(py));
-                    drop(PyErr::fetch(py));
-                });
-            }
-        }
+    fn save(&self, filename: &str) -> PyResult<()> {
+        self.tokenizer
+            .save(filename)
+            .map_err(|e| PyIOError::new_err(e.to_string()))
     }
 
     fn common_prefix_search(&self, text: &str) -> Vec<TokenID> {
-- 
2.43.0


From 4d0b506ead226e7723ed7960cfd6de224f2af15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:36 +0000
Subject: [PATCH 11/19] fix: export TokenGeeXError from the Python module

The stub documents the class but it could not be imported or caught.
---
 bindings/python/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bindings/python/src/lib.rs b/bindings/python/src/lib.rs
index de145a9..b80bac1 100644
--- a/bindings/python/src/lib.rs
+++ b/bindings/python/src/lib.rs
@@ -218,9 +218,10 @@ impl PyTokenizer {
 
 #[pymodule]
 #[pyo3(name = "tokengeex")]
-fn tokengeex_module(_: Python, m: &PyModule) -> PyResult<()> {
+fn tokengeex_module(py: Python, m: &PyModule) -> PyResult<()> {
     // Module: TokenGeeX
     m.add_class::<PyTokenizer>()?;
+    m.add("TokenGeeXError", py.get_type::<TokenGeeXError>())?;
 
     Ok(())
 }
-- 
2.43.0


From 5bd0fa970e707bff846708c87ef019b4be4a498b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:28 +0000
Subject: [PATCH 12/19] fix: make pickled tokenizers loadable

The class could be pickled but never unpickled, because Python had no way to
create the instance on which __setstate__ is called.
---
 bindings/python/src/lib.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/bindings/python/src/lib.rs b/bindings/python/src/lib.rs
index b80bac1..159f79e 100644
--- a/bindings/python/src/lib.rs
+++ b/bindings/python/src/lib.rs
@@ -186,6 +186,19 @@ impl PyTokenizer {
         self.tokenizer.to_string()
     }
 
+    /// Used to unpickle and copy the Tokenizer: an instance has to be created
+    /// before `__setstate__` can be called on it.
+    #[new]
+    fn new(json: &str) -> Result<PyTokenizer, PyTokenGeeXError> {
+        tokengeex::Tokenizer::from_str(json)
+            .map(PyTokenizer::from)
+            .map_err(|e| e.into())
+    }
+
+    fn __getnewargs__(&self) -> (String,) {
+        (self.tokenizer.to_string(),)
+    }
+
     /// Used to pickle the Tokenizer. Useful for sharing a tokenizer between
     /// Python processes.
     fn __getstate__(&self, py: Python) -> PyResult<PyObject> {
-- 
2.43.0


From ffcbd71d38eb33fbae71d851e21274dcf008e4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:57 +0000
Subject: [PATCH 13/19] fix: keep enough hypotheses when shrinking the n-best
 agenda

---
 src/lattice.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lattice.rs b/src/lattice.rs
index 4252a66..370aa2a 100644
--- a/src/lattice.rs
+++ b/src/lattice.rs
@@ -2,7 +2,7 @@
 // License: https://github.com/huggingface/tokenizers/blob/4a8105c36671ef46738d6e2799c55198139b87b2/LICENSE
 
 use std::cell::RefCell;
-use std::cmp::{min, Ordering};
+use std::cmp::{max, min, Ordering};
 use std::collections::BinaryHeap;
 use std::rc::Rc;
 
@@ -220,7 +220,9 @@ impl<'a> Lattice<'a> {
                         let k_min_agenda_size = 512;
                         if agenda.len() > k_max_agenda_size {
                             let mut new_agenda = BinaryHeap::new();
-                            let len = min(k_min_agenda_size, n * 10);
+                            // Every hypothesis leads to at least one distinct
+                            // path, so the `n` best ones must all be kept.
+                            let len = max(n, min(k_min_agenda_size, n * 10)).min(agenda.len());
                             for _i in 0..len {
                                 new_agenda.push(agenda.pop().unwrap());
                             }
-- 
2.43.0


From d77034e2354af8039d74d4eed6b90bd65c459c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:19 +0000
Subject: [PATCH 14/19] fix: ignore dead ends when walking the lattice

---
 src/lattice.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/lattice.rs b/src/lattice.rs
index 370aa2a..19a9b0f 100644
--- a/src/lattice.rs
+++ b/src/lattice.rs
@@ -120,6 +120,11 @@ impl<'a> Lattice<'a> {
                 let mut best_node = None;
 
                 for &lnode_idx in &self.end_nodes[pos] {
+                    // No path leads from the start to this node.
+                    if !self.is_reachable(lnode_idx) {
+                        continue;
+                    }
+
                     let score = self.nodes[lnode_idx].backtrack_score + self.nodes[rnode_idx].score;
 
                     if best_node.is_none() || score > best_score {
@@ -128,10 +133,6 @@ impl<'a> Lattice<'a> {
                     }
                 }
 
-                if best_node.is_none() {
-                    return vec![];
-                }
-
                 self.nodes[rnode_idx].prev = best_node;
                 self.nodes[rnode_idx].backtrack_score = best_score;
             }
@@ -149,6 +150,11 @@ impl<'a> Lattice<'a> {
         results
     }
 
+    /// Whether `viterbi` found a path from the start to the end of this node.
+    fn is_reachable(&self, node_idx: usize) -> bool {
+        node_idx == self.bos_idx || self.nodes[node_idx].prev.is_some()
+    }
+
     pub fn nbest(&mut self, n: usize) -> Vec<Vec<Node>> {
         fn collect_nodes_from_indices(indices: &[usize], nodes: &[Node]) -> Vec<Node> {
             let mut result = Vec::with_capacity(indices.len());
@@ -207,6 +213,10 @@ impl<'a> Lattice<'a> {
                         }
                     } else {
                         for &lnode in &self.end_nodes[node_pos] {
+                            if !self.is_reachable(lnode) {
+                                continue;
+                            }
+
                             let top_gx = top.borrow().gx;
                             let fx = self.nodes[lnode].backtrack_score + top_gx;
                             let gx = self.nodes[lnode].score + top_gx;
@@ -254,8 +264,10 @@ impl<'a> Lattice<'a> {
         // (beta) of the lattice.
         // - alpha[i] is the log probability of reaching node i from the bos
         // - beta[i] is the log probability of reaching the eos from node i
-        let mut alpha = vec![0.0; num_nodes];
-        let mut beta = vec![0.0; num_nodes];
+        let mut alpha = vec![f64::NEG_INFINITY; num_nodes];
+        let mut beta = vec![f64::NEG_INFINITY; num_nodes];
+        alpha[self.bos_idx] = 0.0;
+        beta[self.eos_idx] = 0.0;
 
         // Calculate forward probabilities (alpha)
         for pos in 0..=len {
@@ -326,7 +338,7 @@ fn log_sum_exp(x: f64, y: f64, init_mode: bool) -> f64 {
     } else {
         let (vmin, vmax) = if x > y { (y, x) } else { (x, y) };
         let k_minus_log_epsilon = 50.0;
-        if vmax > vmin + k_minus_log_epsilon {
+        if vmin == f64::NEG_INFINITY || vmax > vmin + k_minus_log_epsilon {
             vmax
         } else {
             vmax + ((vmin - vmax).exp() + 1.0).ln()
-- 
2.43.0


From 7e6a3115c873b2870a7249018874d20d6f41fc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:19 +0000
Subject: [PATCH 15/19] fix: let tokens tied with their own segmentation be
 pruned

---
 src/prune.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/prune.rs b/src/prune.rs
index 3b3b621..e57ca89 100644
--- a/src/prune.rs
+++ b/src/prune.rs
@@ -207,8 +207,15 @@ impl ModelVocabularyPruner {
                 always_keep[id] = false;
             }
 
-            if nbests.len() > 1 && nbests[0].len() == 1 {
-                for node in &nbests[1] {
+            // When several paths are equally good, the token itself may come
+            // second.
+            if nbests.len() > 1 {
+                let alternative = if nbests[0].len() == 1 {
+                    &nbests[1]
+                } else {
+                    &nbests[0]
+                };
+                for node in alternative {
                     let alt_id = node.token_id;
                     alternatives[id].push(alt_id);
                 }
-- 
2.43.0


From 63dd012700551f95f91a4b9d52f330c1811da86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:00 +0000
Subject: [PATCH 16/19] fix: end the progress report when counting frequencies
 fails

---
 src/prune.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/prune.rs b/src/prune.rs
index e57ca89..80de2c9 100644
--- a/src/prune.rs
+++ b/src/prune.rs
@@ -228,7 +228,7 @@ impl ModelVocabularyPruner {
 
         task.start();
 
-        samples
+        let result = samples
             .par_chunks(chunk_size)
             .map(|chunk| -> Result<()> {
                 let mut ltask = task.local(chunk.len());
@@ -259,9 +259,10 @@ impl ModelVocabularyPruner {
 
                 Ok(())
             })
-            .collect::<Result<()>>()?;
+            .collect::<Result<()>>();
 
         task.finish();
+        result?;
 
         let token_frequencies = acc_frequencies.into_inner().unwrap();
         let sum_token_frequencies = token_frequencies.iter().sum::<usize>() as f64;
-- 
2.43.0


From 2737b05d1b25afeae411fc9426005db0816106f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:04 +0000
Subject: [PATCH 17/19] fix: a long token does not overflow the stack when its
 trie is cloned or dropped

The trie was a tree of nested maps, so cloning or dropping it recursed once
per byte of its longest token: a model with a token of some 100 kB aborted
the process (a stack overflow) as soon as it was cloned or dropped.
---
 src/trie.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/trie.rs b/src/trie.rs
index c68ac71..78bc071 100644
--- a/src/trie.rs
+++ b/src/trie.rs
@@ -3,20 +3,28 @@
 
 use std::collections::HashMap;
 
+/// The nodes are stored in a flat list, the root first, and refer to their
+/// children by index. That way neither cloning nor dropping a trie recurses,
+/// however long its elements are.
 #[derive(Clone)]
 pub struct Trie<Data> {
-    root: Node<Data>,
+    nodes: Vec<Node<Data>>,
 }
 
 impl<Data: Clone> Trie<Data> {
     pub fn push(&mut self, element: &[u8], data: Data) {
-        let mut node = &mut self.root;
+        let mut node = 0;
 
         for b in element.iter() {
-            node = node.children.entry(*b).or_default();
+            let next = self.nodes.len();
+            node = *self.nodes[node].children.entry(*b).or_insert(next);
+
+            if node == next {
+                self.nodes.push(Node::default());
+            }
         }
 
-        node.data = Some(data);
+        self.nodes[node].data = Some(data);
     }
 
     pub fn common_prefix_search<'a, T>(
@@ -28,7 +36,8 @@ impl<Data: Clone> Trie<Data> {
         T: Iterator<Item = u8>,
     {
         TrieIterator {
-            node: &self.root,
+            nodes: &self.nodes,
+            node: &self.nodes[0],
             prefix,
             iterator,
         }
@@ -36,6 +45,7 @@ impl<Data: Clone> Trie<Data> {
 }
 
 pub struct TrieIterator<'a, 'b, Data, T> {
+    nodes: &'a [Node<Data>],
     node: &'a Node<Data>,
     prefix: &'b mut Vec<u8>,
     iterator: T,
@@ -53,7 +63,7 @@ where
             let b = self.iterator.next()?;
             self.prefix.push(b);
             self.node = match self.node.children.get(&b) {
-                Some(child) => child,
+                Some(&child) => &self.nodes[child],
                 None => return None,
             };
             if let Some(data) = &self.node.data {
@@ -66,7 +76,7 @@ where
 impl<Data> Default for Trie<Data> {
     fn default() -> Self {
         Self {
-            root: Node::default(),
+            nodes: vec![Node::default()],
         }
     }
 }
@@ -74,7 +84,7 @@ impl<Data> Default for Trie<Data> {
 #[derive(Clone)]
 struct Node<Data> {
     data: Option<Data>,
-    children: HashMap<u8, Node<Data>, fnv::FnvBuildHasher>,
+    children: HashMap<u8, usize, fnv::FnvBuildHasher>,
 }
 
 impl<Data> Default for Node<Data> {
-- 
2.43.0


From c2b8df307aefbd0ff7274a9876cf6dd6e1248298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:17 +0000
Subject: [PATCH 18/19] fix: nbest does not overflow the stack on a long
 sentence

Dropping a hypothesis dropped the one it continues, and so on: one level of
recursion per token of the sentence.
---
 src/lattice.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/lattice.rs b/src/lattice.rs
index 19a9b0f..5391fa6 100644
--- a/src/lattice.rs
+++ b/src/lattice.rs
@@ -367,6 +367,18 @@ impl Hypothesis {
     }
 }
 
+impl Drop for Hypothesis {
+    /// Drops the hypotheses this one continues one by one: the chain is as
+    /// long as the sentence, too long to recurse.
+    fn drop(&mut self) {
+        let mut next = self.next.take();
+
+        while let Some(Ok(hypothesis)) = next.map(Rc::try_unwrap) {
+            next = hypothesis.borrow_mut().next.take();
+        }
+    }
+}
+
 impl PartialEq for Hypothesis {
     fn eq(&self, other: &Self) -> bool {
         self.fx == other.fx
-- 
2.43.0


From bf9bde873aea70eb83ebfacf3862c62ea864e167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 19/19] fix: the Python arguments of save and from_str have
 their documented names

---
 bindings/python/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bindings/python/src/lib.rs b/bindings/python/src/lib.rs
index 159f79e..4cd9d91 100644
--- a/bindings/python/src/lib.rs
+++ b/bindings/python/src/lib.rs
@@ -148,9 +148,9 @@ impl PyTokenizer {
         self.tokenizer.special_vocab_size()
     }
 
-    fn save(&self, filename: &str) -> PyResult<()> {
+    fn save(&self, filepath: &str) -> PyResult<()> {
         self.tokenizer
-            .save(filename)
+            .save(filepath)
             .map_err(|e| PyIOError::new_err(e.to_string()))
     }
 
@@ -168,8 +168,8 @@ impl PyTokenizer {
     }
 
     #[staticmethod]
-    fn from_str(_py: Python, json: &str) -> Result<PyTokenizer, PyTokenGeeXError> {
-        tokengeex::Tokenizer::from_str(json)
+    fn from_str(_py: Python, s: &str) -> Result<PyTokenizer, PyTokenGeeXError> {
+        tokengeex::Tokenizer::from_str(s)
             .map(PyTokenizer::from)
             .map_err(|e| e.into())
     }
-- 
2.43.0

