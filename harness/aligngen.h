#pragma once
// Whole alignments: references of any kind, a hypothesis, and what an alignment of the two has to look like.
#include "fstalign.h"
#include "OneBestFstLoader.h"
#include "hutil.h"
#include <set>
wer_alignment Fstalign(FstLoader &refLoader, FstLoader &hypLoader, SynonymEngine &engine, const AlignerOptions &alignerOptions);
typedef std::vector<std::string> Words;
// the readings of a reference: arcs with a word, a label (kind 1: exact name; kind 2: a synonym's, by its word counts) or nothing
struct NArc { int from, to, kind; std::string w; int open; };  // kind 0 word, 1 class label, 2 synonym label, 3 nothing; open: 1 opens, -1 closes
struct Readings { int states = 1, end = 0; std::vector<NArc> arcs; void word(const std::string &w) { arcs.push_back({end, states, 0, w, 0}); end = states++; } };
struct Event { int kind; std::string w; };
static Readings g_read;
static bool accepts(const std::vector<Event> &ev, size_t at, int st, int inside, int depth) {
  // inside: 0 outside, 1 in a class span, 2 in a synonym
  if (depth > 64) return false;
  if (at == ev.size() && st == g_read.end) return true;
  for (auto &a : g_read.arcs) {
    if (a.from != st) continue;
    if (a.kind == 3) { if (accepts(ev, at, a.to, inside, depth + 1)) return true; continue; }
    if (a.kind == 0) { if (at < ev.size() && ev[at].kind == 0 && same(ev[at].w, a.w) && accepts(ev, at + 1, a.to, inside, depth + 1)) return true; continue; }
    if (a.kind == 2 && inside == 1) { if (accepts(ev, at, a.to, inside, depth + 1)) return true; continue; }  // a synonym within a class span does not show
    if (at < ev.size() && ev[at].kind == 1) {
      const std::string &l = ev[at].w;
      bool ok = a.kind == 1 ? l == a.w : l.size() > a.w.size() && l.compare(l.size() - a.w.size(), a.w.size(), a.w) == 0;
      if (ok && accepts(ev, at + 1, a.to, a.open > 0 ? a.kind : 0, depth + 1)) return true;
    }
  }
  return false;
}
struct Tally { int ins = 0, del = 0, sub = 0, ref = 0, hyp = 0; Words rw, hw, iw, dw; std::vector<std::pair<std::string, std::string>> sw; };
static inline void count(Tally &t, const std::string &r, const std::string &h) {
  bool i = r == "<ins>", d = h == "<del>";
  sym_assert(!(i && d), "a row has a word");
  if (!i) t.ref++; if (!d) t.hyp++;
  t.rw.push_back(r); t.hw.push_back(h);
  if (i) { t.ins++; t.iw.push_back(h); } else if (d) { t.del++; t.dw.push_back(r); } else if (!same(r, h)) { t.sub++; t.sw.push_back({r, h}); }
}
static inline void tally_matches(const Tally &t, wer_alignment &r) {
  sym_assert(r.insertions == t.ins && r.deletions == t.del && r.substitutions == t.sub, "errors are those of the rows");
  sym_assert(r.numWordsInReference == t.ref && r.numWordsInHypothesis == t.hyp, "words are those of the rows");
  sym_assert(r.NumErrors() == t.ins + t.del + t.sub, "number of errors");
  sym_assert(r.ref_words == t.rw && r.hyp_words == t.hw, "rows in reading order");
  sym_assert(r.ins_words == t.iw && r.del_words == t.dw && r.sub_words == t.sw, "words of the errors");
}
// an alignment is one reading of the reference against the hypothesis, and its counts are those of its rows
static inline Tally faithful(wer_alignment &r, const Words &hyp) {
  std::vector<Event> ev; Tally all; Words h; std::set<std::string> labels; size_t segments = 0;
  for (auto &t : r.tokens) {
    if (!isEntityLabel(t.first)) {
      count(all, t.first, t.second);
      if (t.first != "<ins>") ev.push_back({0, t.first});
      if (t.second != "<del>") h.push_back(t.second);
      continue;
    }
    sym_assert(labels.insert(t.first).second, "a label stands for one place"); segments++;
    wer_alignment *seg = nullptr; int found = 0;
    for (auto &l : r.label_alignments) if (l.classLabel == t.first) { seg = &l; found++; }
    sym_assert(found == 1, "one segment per label");
    ev.push_back({1, t.first});
    Tally own;
    for (auto &x : seg->tokens) {
      sym_assert(!isEntityLabel(x.first), "no label within a segment");
      count(own, x.first, x.second); count(all, x.first, x.second);
      if (x.first != "<ins>") ev.push_back({0, x.first});
      if (x.second != "<del>") h.push_back(x.second);
    }
    tally_matches(own, *seg);
    ev.push_back({1, t.first});
    sym_cover(isSynonymLabel(t.first) ? "synonym-used" : "class-used");
  }
  sym_assert(segments == r.label_alignments.size(), "every segment has its place");
  tally_matches(all, r);
  sym_assert(h.size() == hyp.size(), "the hypothesis, word by word");
  for (size_t i = 0; i < h.size(); i++) sym_assert(same(h[i], hyp[i]), "the hypothesis, word by word");
  sym_assert(accepts(ev, 0, 0, 0, 0), "one reading of the reference");
  if (all.ins) sym_cover("insertion"); if (all.del) sym_cover("deletion"); if (all.sub) sym_cover("substitution"); if (all.ref > all.del + all.sub) sym_cover("match");
  return all;
}
// an alternative way from `from` to each of `to`
static inline void detour(Readings &g, int from, const std::set<int> &to, int kind, const std::string &label, const Words &words) {
  int s = g.states++;
  g.arcs.push_back({from, s, kind, label, 1});
  for (auto &w : words) { g.arcs.push_back({s, g.states, 0, w, 0}); s = g.states++; }
  for (int t : to) g.arcs.push_back({s, t, kind, label, -1});
}
static inline void add_synonym(Readings &g, const std::vector<NArc> &text, const Words &phrase, const Words &alt) {
  int states = g.states;
  for (int s = 0; s < states; s++) {
    std::set<int> at{s};
    for (auto &w : phrase) { std::set<int> next; for (int z : at) for (auto &a : text) if (a.from == z && a.kind == 0 && same(a.w, w)) next.insert(a.to); at = next; }
    if (!at.empty()) { detour(g, s, at, 2, "_SYN_" + std::to_string(phrase.size()) + "-" + std::to_string(alt.size()) + "___", alt); }
  }
}
static std::string text_of(const Words &w) { std::string s; for (size_t i = 0; i < w.size(); i++) s += (i ? " " : "") + w[i]; return s; }
static inline std::string letter(const char *name, const char *alpha) { return sym_string(name, alpha, 1); }
// fixed words both sides start or end with
static Words g_before, g_after;
// a loader, watched; without the empty step that closes the transducer if `bare`
struct Watched : FstLoader {
  FstLoader &l; bool bare; mutable std::vector<int> map; mutable int converted = 0;
  Watched(FstLoader &x, bool b) : l(x), bare(b) {}
  void addToSymbolTable(fst::SymbolTable &t) const override { l.addToSymbolTable(t); }
  std::vector<int> convertToIntVector(fst::SymbolTable &t) const override { return l.convertToIntVector(t); }
  fst::StdVectorFst convertToFst(const fst::SymbolTable &t, std::vector<int> m) const override {
    map = m; converted++;
    fst::StdVectorFst f = l.convertToFst(t, m), g;
    if (!bare) return f;
    int n = f.NumStates() - 1;
    for (int s = 0; s < n; s++) g.AddState();
    g.SetStart(0);
    for (int s = 0; s < n; s++) for (fst::ArcIterator<fst::StdVectorFst> i(f, s); !i.Done(); i.Next()) if (i.Value().nextstate < n) g.AddArc(s, i.Value());
    g.SetFinal(n - 1, fst::TropicalWeight::One());
    return g;
  }
};
static int levenshtein(const Words &a, const Words &b) {
  std::vector<std::vector<int>> d(a.size() + 1, std::vector<int>(b.size() + 1));
  for (size_t i = 0; i <= a.size(); i++) for (size_t j = 0; j <= b.size(); j++) {
    if (!i || !j) { d[i][j] = i + j; continue; }
    d[i][j] = std::min(std::min(d[i - 1][j], d[i][j - 1]) + 1, d[i - 1][j - 1] + (same(a[i - 1], b[j - 1]) ? 0 : 1));
  }
  return d[a.size()][b.size()];
}
static inline void number_rows(std::vector<RawNlpRecord> &rows) { int k = 0; for (auto &r : rows) r.ts = std::to_string(++k); }
struct Scene { std::unique_ptr<FstLoader> ref, hyp; SynonymEngine engine{SynonymOptions()}; Words refwords, hypwords; };
// kind 0 text, 1 text with synonyms, 2 transcript with a class span, 3 the same with a synonym
static inline void make_scene(Scene &s, int kind, int N, int M, int V) {
  static const char *const ALPHA = "abcdef";
  std::string va(ALPHA, V), vh(ALPHA, V + 1);
  Readings &g = g_read; g = Readings();
  int n = sym_choose("n", 0, N), m = sym_choose("m", 0, M);
  if (kind < 2) {
    for (auto &w : g_before) { s.refwords.push_back(w); g.word(w); }
    for (int i = 0; i < n; i++) { s.refwords.push_back(letter("ref", va.c_str())); g.word(s.refwords.back()); }
    for (auto &w : g_after) { s.refwords.push_back(w); g.word(w); }
    auto l = std::make_unique<OneBestFstLoader>(); l->BuildFromString(text_of(s.refwords)); s.ref = std::move(l);
  } else {
    std::vector<RawNlpRecord> rows; Json::Value norm(Json::objectValue);
    int at = sym_choose("at", 0, n);
    auto plain = [&](const std::string &w) { RawNlpRecord r; r.speakerId = "1"; r.labels = "[]"; r.token = w; rows.push_back(r); g.word(w); };
    for (auto &w : g_before) plain(w);
    for (int i = 0; i <= n; i++) {
      RawNlpRecord r; r.speakerId = "1"; r.labels = "[]";
      if (i != at) { r.token = letter("ref", va.c_str()); rows.push_back(r); g.word(r.token); continue; }
      int from = g.end, s0 = g.states++, s1 = g.states++, to = g.states++;
      std::string label = "___0_DATE___";
      g.arcs.push_back({from, s0, 1, label, 1}); g.arcs.push_back({s1, to, 1, label, -1});
      auto way = [&](const Words &w) { int q = s0; for (size_t k = 0; k < w.size(); k++) { int z = k + 1 < w.size() ? g.states++ : s1; g.arcs.push_back({q, z, 0, w[k], 0}); q = z; } if (w.empty()) g.arcs.push_back({s0, s1, 3, "", 0}); };
      int k = sym_choose("rows", 1, sym_param("rows", 2)); Words written;
      r.best_label = "0:DATE"; r.best_label_id = "0"; r.labels = "['0:DATE']";
      for (int q = 0; q < k; q++) { r.token = q ? "z" : letter("row", va.c_str()); rows.push_back(r); written.push_back(r.token); }
      way(written);
      int c = sym_choose("candidates", 0, sym_param("cands", 2));
      for (int q = 0; q < c; q++) {
        int len = q ? 1 : sym_choose("candidate-words", 0, sym_param("candlen", 2)); Words w; Json::Value verb(Json::arrayValue);
        for (int x = 0; x < len; x++) { int ch = sym_split(sym_oneof("cand", vh.c_str())); w.push_back(std::string(1, (char)ch)); verb.append(w.back()); }
        Json::Value cand; cand["verbalization"] = verb; norm["0"]["candidates"].append(cand); way(w);
      }
      norm["0"]["class"] = "DATE";
      g.end = to;
    }
    for (auto &w : g_after) plain(w);
    Json::Value side(Json::objectValue);
    s.ref = std::make_unique<NlpFstLoader>((number_rows(rows), rows), norm, side, true, false, false);
  }
  if (kind == 1 || kind == 3) {
    int count = sym_choose("synonyms", 1, sym_param("synonyms", 1)); std::vector<std::string> lines; std::vector<NArc> text = g.arcs; std::vector<Words> seen;
    for (int q = 0; q < count; q++) {
      int pl = sym_choose("phrase", 1, kind == 1 && q == 0 ? 2 : 1), al = sym_choose("alternative", 1, q == 0 ? 2 : 1);
      Words p, a; for (int x = 0; x < pl; x++) p.push_back(letter("phrase", va.c_str())); for (int x = 0; x < al; x++) a.push_back(letter("alt", vh.c_str()));
      for (auto &x : seen) sym_assume(!(x == p));
      seen.push_back(p);
      lines.push_back(text_of(p) + " | " + text_of(a));
      add_synonym(g, text, p, a);
    }
    s.engine.ParseStrings(lines);
  }
  s.hypwords = g_before;
  for (int j = 0; j < m; j++) s.hypwords.push_back(letter("hyp", vh.c_str()));
  for (auto &w : g_after) s.hypwords.push_back(w);
  auto l = std::make_unique<OneBestFstLoader>(); l->BuildFromString(text_of(s.hypwords)); s.hyp = std::move(l);
}
// does the hypothesis spell a reading of the reference?
static bool spelled_by(const Words &h, size_t at, int st, int depth) {
  if (depth > 64) return false;
  if (at == h.size() && st == g_read.end) return true;
  for (auto &a : g_read.arcs) {
    if (a.from != st) continue;
    if (a.kind != 0) { if (spelled_by(h, at, a.to, depth + 1)) return true; }
    else if (at < h.size() && same(h[at], a.w) && spelled_by(h, at + 1, a.to, depth + 1)) return true;
  }
  return false;
}
