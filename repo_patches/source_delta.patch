From 73965a6670de3fb91b38284faf8a3ad48ce90519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:24 +0000
Subject: [PATCH 01/17] fix: GetEditDistance overwrites the maps it is given
 instead of keeping stale entries

---
 src/fast-d.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/fast-d.cpp b/src/fast-d.cpp
index 128d927..8a3cace 100644
--- a/src/fast-d.cpp
+++ b/src/fast-d.cpp
@@ -53,10 +53,8 @@ int GetEditDistance(std::vector<int> &seqA, std::vector<int> &mapA, std::vector<
     return GetEditDistance(seqB, mapB, seqA, mapA);
   }
 
-  mapA.reserve(seqA.size());
-  mapA.resize(seqA.size(), -1);  // resize() sets all position to the given value, -1
-  mapB.reserve(seqB.size());
-  mapB.resize(seqB.size(), -1);
+  mapA.assign(seqA.size(), -1);  // assign() sets all position to the given value, -1
+  mapB.assign(seqB.size(), -1);
 
   if (seqA.size() == 0) {
     return seqB.size();
-- 
2.43.0


From 63d68890903c9199bb088c6d13acf1c55aa9a4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:24 +0000
Subject: [PATCH 02/17] fix: edit distance backtracking keeps its row after a
 deletion so the maps follow a minimal path

---
 src/fast-d.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fast-d.cpp b/src/fast-d.cpp
index 8a3cace..894c419 100644
--- a/src/fast-d.cpp
+++ b/src/fast-d.cpp
@@ -197,6 +197,11 @@ int GetEditDistance(std::vector<int> &seqA, std::vector<int> &mapA, std::vector<
     // right will get ignored.  Actually, we only have to compute the two values
     // above
 
+    if (is_del) {
+      // we stayed on the same row: both distance vectors are still the right ones
+      continue;
+    }
+
     for (int x = 0; x <= lengthA; x++) {
       distance[x] = distancePrev[x];
     }
-- 
2.43.0


From 4e3fc418e938d69c125f0735d6d157c95f444e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:24 +0000
Subject: [PATCH 03/17] fix: MapContainsErrorStreaks also reports a streak that
 reaches the end of the map

---
 src/fast-d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fast-d.cpp b/src/fast-d.cpp
index 894c419..76ac709 100644
--- a/src/fast-d.cpp
+++ b/src/fast-d.cpp
@@ -299,5 +299,5 @@ bool MapContainsErrorStreaks(std::vector<int> map, int streak_cutoff) {
       bad_match_seq_cnt = 0;
     }
   }
-  return false;
+  return bad_match_seq_cnt > streak_cutoff;
 }
-- 
2.43.0


From 2bc46e9f7f24c53d88a83a2f2e51913c24db8160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 04/17] fix: keep insertions after the last sentence in the
 per-sentence breakdown

---
 src/wer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wer.cpp b/src/wer.cpp
index 1b2f066..b67cc64 100644
--- a/src/wer.cpp
+++ b/src/wer.cpp
@@ -86,7 +86,7 @@ void RecordSentenceWer(const vector<Stitching> &stitches) {
       }
   }
   // Add last one if its empty case
-  if (curr_wer.numWordsInReference > 0) {
+  if (curr_wer.numWordsInReference > 0 || curr_wer.NumErrors() > 0) {
     sentence_wers.push_back(curr_wer);
   }
 
-- 
2.43.0


From e1c10e575e71af78cd188a2828c54c273e729ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 05/17] fix: count every reference word, and only those, in the
 per-speaker breakdown

---
 src/wer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wer.cpp b/src/wer.cpp
index b67cc64..79f3794 100644
--- a/src/wer.cpp
+++ b/src/wer.cpp
@@ -134,7 +134,7 @@ void RecordSpeakerWer(const vector<Stitching> &stitches) {
     insertions += stitch.comment.rfind("ins", 0) == 0;
     deletions += stitch.comment.rfind("del", 0) == 0;
     substitutions += stitch.comment.rfind("sub", 0) == 0;
-    num_words_in_reference += speaker_id.empty() ? 0 : 1;
+    num_words_in_reference += stitch.comment.rfind("ins", 0) != 0;
   }
 
   if (speaker_wers.find(last_speaker) == speaker_wers.end()) {
-- 
2.43.0


From bbffc36a8c7a373b56ba6a738f00d4de180a2b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:44 +0000
Subject: [PATCH 06/17] fix: get_bigrams ran past an alignment without tokens

---
 src/utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utilities.cpp b/src/utilities.cpp
index a1ebc31..7615b15 100644
--- a/src/utilities.cpp
+++ b/src/utilities.cpp
@@ -158,7 +158,7 @@ unordered_set<string> get_bigrams(wer_alignment &topAlignment) {
     }
   }
 
-  for (auto it = flattened_tokens.begin(); it != std::prev(flattened_tokens.end()); ++it) {
+  for (auto it = flattened_tokens.begin(); it != flattened_tokens.end() && std::next(it) != flattened_tokens.end(); ++it) {
     bi_words = {it->first, std::next(it)->first};
     bigram_ref = string_join(bi_words, " ");
     // cout << it  - topAlignment->tokens.begin() << " : "<< bigram_ref << " (" << it->first << " " <<
-- 
2.43.0


From 047192a048aed05459fc70288f04a549be9f842c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 07/17] fix: the label of a row with several labels lost its
 last characters

---
 src/Nlp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Nlp.cpp b/src/Nlp.cpp
index 0bf287f..36ba984 100644
--- a/src/Nlp.cpp
+++ b/src/Nlp.cpp
@@ -396,7 +396,7 @@ std::string NlpReader::GetBestLabel(std::string &labels) {
     // chop before the 1st comma, if needed
     auto pos = trimmed.find(",");
     if (pos > 0) {
-      trimmed = trimmed.substr(0, pos - 2);
+      trimmed = trimmed.substr(0, pos);
     }
 
     // remove the leading/ending single-quote
-- 
2.43.0


From d9c5b72507f90f581b4739b0113b2951cb1ebc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:26 +0000
Subject: [PATCH 08/17] fix: the row added for a punctuation token holds the
 punctuation

---
 src/Nlp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Nlp.cpp b/src/Nlp.cpp
index 36ba984..7828e78 100644
--- a/src/Nlp.cpp
+++ b/src/Nlp.cpp
@@ -89,7 +89,7 @@ NlpFstLoader::NlpFstLoader(std::vector<RawNlpRecord> &records, Json::Value norma
       mToken.push_back(punctuation);
       mSpeakers.push_back(speaker);
       RawNlpRecord punc_row;
-      punc_row.token = punc_row.punctuation;
+      punc_row.token = punctuation;
       punc_row.speakerId = speaker;
       punc_row.punctuation = "";
       mNlpRows.push_back(punc_row);
-- 
2.43.0


From ebb77db597a043873c3fe674082d01955b6f912b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:00 +0000
Subject: [PATCH 09/17] fix: skip synonym lines without an expression to match

---
 src/SynonymEngine.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SynonymEngine.cpp b/src/SynonymEngine.cpp
index ff5acb3..39e0c9a 100644
--- a/src/SynonymEngine.cpp
+++ b/src/SynonymEngine.cpp
@@ -86,6 +86,11 @@ void SynonymEngine::ParseStrings(vector<string> lines) {
     // parts.erase(parts.begin());
 
     trim(lhs);
+    if (lhs.empty()) {
+      logger_->warn("no expression to match, skipping: {}", line);
+      continue;
+    }
+
     auto key = GetKeyFromString(lhs);
 
     if (synonyms.find(key) == synonyms.end()) {
-- 
2.43.0


From 836026fb1cf2d52262e2eab93f422eaab01bf359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:40 +0000
Subject: [PATCH 10/17] fix: look up the composed state that was asked for

---
 src/AdaptedComposition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AdaptedComposition.cpp b/src/AdaptedComposition.cpp
index f444974..b8c114f 100644
--- a/src/AdaptedComposition.cpp
+++ b/src/AdaptedComposition.cpp
@@ -81,7 +81,7 @@ bool AdaptedCompositionFst::DoesComposedStateExist(StateId a) {
                    reversed_composed_states.size(), a);
   }
 
-  auto itr = reversed_composed_states.find(0);
+  auto itr = reversed_composed_states.find(a);
   if (itr == reversed_composed_states.end()) {
     return false;
   } else {
-- 
2.43.0


From 30b6b219e76ccfda885f5467e16e3ca1f0fabaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:40 +0000
Subject: [PATCH 11/17] fix: a match on one reference arc no longer forbids
 deleting the others

---
 src/AdaptedComposition.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/AdaptedComposition.cpp b/src/AdaptedComposition.cpp
index b8c114f..9791fa2 100644
--- a/src/AdaptedComposition.cpp
+++ b/src/AdaptedComposition.cpp
@@ -240,7 +240,6 @@ bool AdaptedCompositionFst::TryGetArcsAtState(StateId fromStateId, vector<fst::S
   std::time_t here_snap = std::chrono::system_clock::to_time_t(here_time);
   dbg_count++;
 
-  int num_match = 0;
   int num_entity = 0;
 
   int arc_added = 0;
@@ -284,7 +283,6 @@ bool AdaptedCompositionFst::TryGetArcsAtState(StateId fromStateId, vector<fst::S
       if (is_exit_state || !is_synonym || IsEntityReacheable(arcA.olabel, arcA.nextstate, refB)) {
         // we have an arc like __SYN-1__ or __MONEY-1__
         num_entity++;
-        num_match++;
         // let's keep the weight to 0, this isn't an error
         StateId del_state_ref_id = GetOrCreateComposedState(arcA.nextstate, refB);
         out_vector->push_back(StdArc(arcA.ilabel, del_label_id_, 0.0, del_state_ref_id));
@@ -302,6 +300,7 @@ bool AdaptedCompositionFst::TryGetArcsAtState(StateId fromStateId, vector<fst::S
     }
 
     float weightA = arcA.weight.Value();
+    int num_match = 0;
 
     for (ArcIterator<StdFst> aiterB(fstB_, refB); !aiterB.Done(); aiterB.Next()) {
       const fst::StdArc &arcB = aiterB.Value();
-- 
2.43.0


From 54c3f85ce611dd53de89d82c5c53d5ba56d70e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:44 +0000
Subject: [PATCH 12/17] fix: a class row whose empty reading was chosen is no
 reference word of a breakdown

---
 src/wer.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/wer.cpp b/src/wer.cpp
index 79f3794..0a49127 100644
--- a/src/wer.cpp
+++ b/src/wer.cpp
@@ -69,6 +69,11 @@ void RecordWer(wer_alignment &topAlignment) {
   }
 }
 
+// insertions have no reference word, and neither have the rows of a class whose empty reading was chosen
+static bool HasReferenceWord(const Stitching &stitch) {
+  return stitch.comment.rfind("ins", 0) != 0 && stitch.reftk != NOOP;
+}
+
 void RecordSentenceWer(const vector<Stitching> &stitches) {
   std::set<std::string> eos_punc{".", "?", "!"};
   vector<WerResult> sentence_wers;
@@ -77,7 +82,7 @@ void RecordSentenceWer(const vector<Stitching> &stitches) {
       curr_wer.deletions += stitch.comment.rfind("del", 0) == 0;
       curr_wer.insertions += stitch.comment.rfind("ins", 0) == 0;
       curr_wer.substitutions += stitch.comment.rfind("sub", 0) == 0;
-      curr_wer.numWordsInReference += stitch.comment.rfind("ins", 0) != 0;
+      curr_wer.numWordsInReference += HasReferenceWord(stitch);
 
       // Check if we hit EOS
       if (eos_punc.find(stitch.nlpRow.punctuation) != eos_punc.end()) {
@@ -134,7 +139,7 @@ void RecordSpeakerWer(const vector<Stitching> &stitches) {
     insertions += stitch.comment.rfind("ins", 0) == 0;
     deletions += stitch.comment.rfind("del", 0) == 0;
     substitutions += stitch.comment.rfind("sub", 0) == 0;
-    num_words_in_reference += stitch.comment.rfind("ins", 0) != 0;
+    num_words_in_reference += HasReferenceWord(stitch);
   }
 
   if (speaker_wers.find(last_speaker) == speaker_wers.end()) {
@@ -219,7 +224,7 @@ void RecordSpeakerSwitchWer(const vector<Stitching> &stitches, int speaker_switc
       bool sub = stitch.comment.rfind("sub", 0) == 0;
       if (nlpRowIndex >= switch_indices[switchNum] - speaker_switch_context_size &&
           nlpRowIndex < switch_indices[switchNum] + speaker_switch_context_size) {
-        if (!ins) {
+        if (HasReferenceWord(stitch)) {
           wer.numWordsInReference++;
         }
 
@@ -266,7 +271,7 @@ void RecordCaseWer(const vector<Stitching> &aligned_stitches) {
     const string &hyptk = stitch.hyptk;
     const string &ref_casing = stitch.nlpRow.casing;
 
-    if (hyptk == DEL || reftk == INS) {
+    if (hyptk == DEL || reftk == INS || reftk == NOOP) {
       continue;
     }
 
@@ -358,7 +363,7 @@ void RecordTagWer(const vector<Stitching>& stitches) {
         wer_results[wer_tag.tag_id].insertions += ins;
         wer_results[wer_tag.tag_id].deletions += del;
         wer_results[wer_tag.tag_id].substitutions += sub;
-        if (!ins) {
+        if (HasReferenceWord(stitch)) {
           wer_results[wer_tag.tag_id].numWordsInReference += 1;
         }
       }
-- 
2.43.0


From d7d9824c4fe61080642842fd6026b65277afa7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:37 +0000
Subject: [PATCH 13/17] fix: two speaker switches at one word do not hide a
 later one

---
 src/wer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wer.cpp b/src/wer.cpp
index 0a49127..9b0db19 100644
--- a/src/wer.cpp
+++ b/src/wer.cpp
@@ -240,7 +240,9 @@ void RecordSpeakerSwitchWer(const vector<Stitching> &stitches, int speaker_switc
       if (!ins) {
         nlpRowIndex++;
       }
-      if (nlpRowIndex >= switch_indices[switchNum] + speaker_switch_context_size) {
+      // two switches may be at the same word
+      while (switchNum < switch_indices.size() &&
+             nlpRowIndex >= switch_indices[switchNum] + speaker_switch_context_size) {
         switchNum++;
       }
     } else {
-- 
2.43.0


From 139aa2dcb75bcc5e32826a697732d8e9c46574c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:41 +0000
Subject: [PATCH 14/17] fix: a word inserted next to a noise code is not
 written as a second noise code

---
 src/fstalign.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fstalign.cpp b/src/fstalign.cpp
index 37ee686..db47f15 100644
--- a/src/fstalign.cpp
+++ b/src/fstalign.cpp
@@ -593,7 +593,7 @@ void write_stitches_to_nlp(vector<Stitching>& stitches, ofstream &output_nlp_fil
       if (norm_json[curr_label_id]["candidates"].size() > 0) {
         logger->warn("an unnormalized token was found: {}", ref_tk);
       }
-    } else if (IsNoisecodeToken(original_nlp_token)) {
+    } else if (IsNoisecodeToken(original_nlp_token) && stitch.comment.find("ins") != 0) {
       ref_tk = original_nlp_token;
     } else if (stitch.comment.find("ins") == 0) {
       assert(add_inserts);
-- 
2.43.0


From f57ba6d4b6888ae8c2589f16944b6dd8d3a1554a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:32 +0000
Subject: [PATCH 15/17] fix: a class whose reading without words was chosen
 keeps its place in the walk

---
 src/AlignmentTraversor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/AlignmentTraversor.cpp b/src/AlignmentTraversor.cpp
index 96ab1a8..cc92316 100644
--- a/src/AlignmentTraversor.cpp
+++ b/src/AlignmentTraversor.cpp
@@ -48,8 +48,8 @@ bool AlignmentTraversor::NextTriple(triple &triple) {
     return true;
   } else {
     currentPosInSubclass++;
-    if (currentPosInSubclass == 0 && currentSubclass->tokens.size() == 0 &&
-        currentSubclass->classLabel.find("FALLBACK") != std::string::npos) {
+    if (currentPosInSubclass == 0 && currentSubclass->tokens.size() == 0) {
+      // a reading without words was chosen, the rows of the class still have their place
       triple.classLabel = currentSubclass->classLabel;
       triple.ref = NOOP;
       triple.hyp = NOOP;
-- 
2.43.0


From f879b0bbe903f2728cd9cad3de8290029abbe7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:52 +0000
Subject: [PATCH 16/17] fix: the version flag is off unless given

---
 src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index d87ddbc..ea84278 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -26,7 +26,7 @@ int main(int argc, char **argv) {
   string output_json_log;
   string symbols_filename = "";
   int pr_threshold = 0;
-  bool version;
+  bool version = false;
   string composition_approach = "adapted";
   int speaker_switch_context_size = 5;
   int numBests = 100;
-- 
2.43.0


From 9c046e2f71dbf7c5ed775e513fab68d7ddcc9c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:11 +0000
Subject: [PATCH 17/17] fix: standard composition accepts a hypothesis graph
 whose arcs are not sorted

---
 src/StandardComposition.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/StandardComposition.cpp b/src/StandardComposition.cpp
index 63b6fc5..d917a28 100644
--- a/src/StandardComposition.cpp
+++ b/src/StandardComposition.cpp
@@ -91,7 +91,10 @@ StandardCompositionFst::StandardCompositionFst(const fst::StdFst &fstA, const fs
   StdVectorFst halfCompose2;
   logger_->info("compose halfEdit2 o input2");
   // fstB is assumed to be the hypothesis fst
-  Compose(halfEdit2, fstB, &halfCompose2);
+  // composing needs the arcs of one of the two sorted, and a graph given as input may not be
+  StdVectorFst sortedHypFst(fstB);
+  ArcSort(&sortedHypFst, StdILabelCompare());
+  Compose(halfEdit2, sortedHypFst, &halfCompose2);
   logger_->info("halfCompose2 has {} states", halfCompose2.NumStates());
   if (halfCompose2.NumStates() == 0) {
     logger_->warn("halfCompose2 (hyp o edits) produced an FST with 0 state");
-- 
2.43.0

