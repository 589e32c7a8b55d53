// C14: unigram and bigram statistics are what the aligned tokens show.
#include "wer.cpp"
#include "hutil.h"
#include <map>
void harness_init(void) {}
typedef std::pair<std::string, std::string> Tok;
struct Gram { int c = 0, d = 0, fp = 0, fn = 0, i = 0; int sum() const { return c + d + fp + fn + i; } };
static wer_alignment *top;
static int nsym;
static std::string word() { if (nsym == 0) return std::string(1, (char)sym_range("w", 'a', 'z')); return std::string(1, "abc"[sym_choose("w", 0, nsym - 1)]); }
static Tok token(wer_alignment *seg) {
  wer_alignment *two[] = {top, seg};
  Tok t;
  int kind = sym_choose("kind", 0, 3);
  std::string w = word();
  if (kind == 0) t = Tok(w, w);
  if (kind == 1) t = Tok(INS, w);
  if (kind == 2) t = Tok(w, DEL);
  if (kind == 3) { std::string v = word(); sym_assume(v != w); t = Tok(w, v); }
  for (wer_alignment *a : two) {
    if (!a) continue;
    if (kind != 1) a->numWordsInReference++;
    if (kind != 2) a->numWordsInHypothesis++;
    if (kind == 1) a->insertions++, a->ins_words.push_back(w);
    if (kind == 2) a->deletions++, a->del_words.push_back(w);
    if (kind == 3) a->substitutions++, a->sub_words.push_back(t);
    a->ref_words.push_back(t.first); a->hyp_words.push_back(t.second);
  }
  (seg ? seg : top)->tokens.push_back(t);
  return t;
}
static void check(const std::vector<std::pair<std::string, gram_error_counter>> &got, std::map<std::string, Gram> &want, int threshold, bool bi) {
  size_t expect = 0;
  for (auto &g : want) expect += g.second.sum() >= threshold;
  sym_assert(got.size() == expect, "every bigram listed / every word listed");
  static Json::Value none;
  Json::Value &root = !nsym ? none : jsonLogger::JsonLogger::getLogger().root["wer"][bi ? "bigrams" : "unigrams"];
  if (nsym) sym_assert(root.size() == expect, "every n-gram logged");
  for (size_t k = 0; k < got.size(); k++) {
    const gram_error_counter &u = got[k].second;
    auto it = want.find(got[k].first);
    sym_assert(it != want.end(), "bigram of the alignment / word of the alignment");
    const Gram &g = it->second;
    sym_assert(u.correct == g.c, "bigram: correct / word: correct");
    sym_assert(u.del == g.d, "bigram: deleted / word: deleted");
    sym_assert(u.ins == g.i, "bigram: inserted / word: inserted");
    sym_assert(u.subst_fp == g.fp && u.subst_fn == g.fn, "bigram: substituted / word: substituted");
    float p = g.c + g.i + g.fp ? ((float)g.c / (float)(g.c + g.i + g.fp)) * 100 : 0, r = g.c + g.d + g.fn ? ((float)g.c / (float)(g.c + g.d + g.fn)) * 100 : 0;
    sym_assert(u.precision == p && u.recall == r, "bigram: rates / word: rates");
    if (k) {
      const gram_error_counter &v = got[k - 1].second;
      sym_assert(v.precision < p || (v.precision == p && (v.recall < r || (v.recall == r && got[k - 1].first < got[k].first))), "worst first");
    }
    if (!nsym) continue;
    Json::Value &j = root[got[k].first];
    sym_assert(j["correct"].asInt() == g.c && j["insertions"].asInt() == g.i && j["deletions"].asInt() == g.d && j["substitutions_fp"].asInt() == g.fp && j["substitutions_fn"].asInt() == g.fn, "logged counts");
    sym_assert(j["precision"].asFloat() == p && j["recall"].asFloat() == r, "logged rates");
    sym_observe(u.correct); observe(got[k].first);
  }
}
void harness_main(void) {
  int N = sym_param("n", 3), M = sym_param("m", 2), threshold = sym_choose("threshold", 0, sym_param("threshold", 0)) * 2;
  nsym = sym_param("words", 2);
  wer_alignment a; top = &a;
  int n = sym_choose("n", 0, N), at = M ? sym_choose("segment", 0, n) : n;  // at == n: no labelled segment
  std::vector<Tok> flat;
  for (int i = 0; i < n; i++) {
    if (i != at) { flat.push_back(token(nullptr)); continue; }
    int m = sym_choose("m", 0, M);
    wer_alignment seg; seg.classLabel = i & 1 ? "___100000_SYN_1-1___" : "___3_CARDINAL___";
    a.tokens.push_back(Tok(seg.classLabel, DEL));
    for (int k = 0; k < m; k++) flat.push_back(token(&seg));
    if (m == 0) sym_cover("empty-segment");
    a.label_alignments.push_back(seg);
    sym_cover("segment");
  }
  if (flat.empty()) sym_cover("empty");
  int ins = a.insertions, del = a.deletions, sub = a.substitutions, c = a.numWordsInReference - del - sub;
  CalculatePrecisionRecall(a, threshold);
  if (nsym) JsonLogUnigramBigramStats(a);
  if (c + ins + sub) sym_assert(a.precision == (float)c / (c + ins + sub), "precision");
  if (c + sub + del) sym_assert(a.recall == (float)c / (c + sub + del), "recall");
  std::map<std::string, Gram> uni, bi;
  for (auto &t : flat) {
    if (t.first == t.second) uni[t.first].c++;
    else if (t.first == INS) uni[t.second].i++;
    else if (t.second == DEL) uni[t.first].d++;
    else uni[t.first].fn++, uni[t.second].fp++;
  }
  for (size_t i = 0; i + 1 < flat.size(); i++) {
    bool rok = flat[i].first != INS && flat[i + 1].first != INS, hok = flat[i].second != DEL && flat[i + 1].second != DEL;
    std::string r = flat[i].first + " " + flat[i + 1].first, h = flat[i].second + " " + flat[i + 1].second;
    if (rok) bi[r];
    if (hok) bi[h];
    if (rok && hok) { if (r == h) bi[r].c++, sym_cover("correct-bigram"); else bi[r].fn++, bi[h].fp++, sym_cover("substituted-bigram"); }
    if (rok && !hok) bi[r].d++, sym_cover("deleted-bigram");
    if (hok && !rok) bi[h].i++, sym_cover("inserted-bigram");
  }
  check(a.unigram_stats, uni, threshold, false);
  check(a.bigrams_stats, bi, threshold, true);
}
