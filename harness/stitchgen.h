#pragma once
#include "hutil.h"
#include "fstalign.h"
static inline std::string lower_ascii(const std::string &s) {
  std::string r(s.size(), ' ');
  for (size_t i = 0; i < s.size(); i++) { unsigned char c = s[i]; r[i] = (char)((unsigned)(c - 'A') < 26u ? c + 32 : c); }
  return r;
}
static inline bool same_row(const RawNlpRecord &a, const RawNlpRecord &b) {
  bool r = (int)same(a.token, b.token) & (int)same(a.speakerId, b.speakerId) & (int)same(a.punctuation, b.punctuation) & (int)same(a.prepunctuation, b.prepunctuation) & (int)same(a.ts, b.ts) & (int)same(a.endTs, b.endTs) &
           (int)same(a.casing, b.casing) & (int)same(a.labels, b.labels) & (int)same(a.best_label, b.best_label) & (int)same(a.best_label_id, b.best_label_id) & (int)same(a.confidence, b.confidence);
  if (a.wer_tags.size() != b.wer_tags.size()) return false;
  for (size_t i = 0; i < a.wer_tags.size(); i++) r = (int)r & (int)same(a.wer_tags[i].tag_id, b.wer_tags[i].tag_id) & (int)same(a.wer_tags[i].entity_type, b.wer_tags[i].entity_type);
  return r;
}
static inline void observe_row(const RawNlpRecord &a) {
  observe(a.token); observe(a.speakerId); observe(a.punctuation); observe(a.casing); observe(a.labels); observe(a.best_label);
}
