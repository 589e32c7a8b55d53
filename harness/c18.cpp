// C18: the paths of an NLP transcript's graph are the transcript with every labelled span spelled in each of its ways.
#include "Nlp.h"
#include "stitchgen.h"
#include "hfile.h"
#include <set>
void harness_init(void) {}
typedef std::vector<std::string> Words;
struct Item { bool span; std::string label; std::vector<Words> ways; std::string word; };
static fst::StdVectorFst *g;
static std::vector<std::vector<int>> paths;
static int total;
static bool overflow;
static void walk(int st, std::vector<int> &p, int depth, int eps) {
  if (depth > total) { overflow = true; return; }
  if (g->Final(st) != fst::StdArc::Weight::Zero()) { sym_assert(g->Final(st) == fst::StdArc::Weight::One(), "final weight"); paths.push_back(p); }
  for (fst::ArcIterator<fst::StdVectorFst> it(*g, st); !it.Done(); it.Next()) {
    fst::StdArc a = it.Value();
    sym_assert(a.ilabel == a.olabel, "an acceptor"); sym_assert(a.weight == fst::StdArc::Weight::One(), "no anchors without a map");
    if (a.ilabel != eps) p.push_back(a.ilabel);
    walk(a.nextstate, p, depth + 1, eps);
    if (a.ilabel != eps) p.pop_back();
  }
}
void harness_main(void) {
  int N = sym_param("n", 2), R = sym_param("r", 2), C = sym_param("cand", 2);
  bool use_case = sym_choose("keepcase", 0, 1), punct = sym_choose("punctuation-words", 0, 1), labels = sym_param("labels", 1);
  Json::Value norm(Json::objectValue), side(Json::objectValue);
  side["7"]["entity_type"] = "MONEY";
  std::vector<RawNlpRecord> rows, want_rows;
  std::vector<Item> items;
  int n = sym_choose("n", 0, N), focus = n ? sym_choose("focus", 0, n - 1) : 0;
  static const char *const NAMES[2][3] = {{"DATE", "MONEY_X", "CARDINAL"}, {"DATE", "DATE", "DATE"}};
  auto &NAME = NAMES[labels && n > 1 ? sym_choose("same-class", 0, 1) : 0];
  for (int i = 0; i < n; i++) {
    bool f = i == focus;
    bool span = sym_choose("span", 0, 1);
    int r = span ? f ? sym_choose("rows", 1, R) : 1 + (i & 1) : 1;
    Item it; it.span = span && labels;
    std::string id = std::to_string(i < 2 ? i : 10 * i), lab = span ? id + ":" + NAME[i % 3] : "";
    if (it.span) it.label = "___" + id + "_" + NAME[i % 3] + "___";
    Words written;
    std::string mark = f && sym_choose("mark", 0, 1) ? "," : "";
    for (int k = 0; k < r; k++) {
      RawNlpRecord row;
      row.token = it.span ? std::string("1B") + (char)('a' + k) : sym_string("w", "aAb", f ? sym_choose("len", 1, 2) : 1);
      row.speakerId = "1"; row.best_label = lab; row.best_label_id = span ? id : ""; row.labels = span ? "['" + lab + "']" : "[]";
      if (k == r - 1) row.punctuation = mark;
      if (k == 0 && i == 0) { WerTagEntry t; t.tag_id = "7"; row.wer_tags.push_back(t); t.tag_id = "8"; row.wer_tags.push_back(t); }
      rows.push_back(row); written.push_back(row.token);
      RawNlpRecord w = row;
      if (w.wer_tags.size()) w.wer_tags[0].entity_type = "MONEY";
      want_rows.push_back(w);
      if (!it.span) { it.word = row.token; items.push_back(it); }
    }
    if (it.span) {
      it.ways.push_back(written);
      int c = f ? sym_choose("candidates", 0, C) : 1;
      for (int k = 0; k < c; k++) {
        Words v; Json::Value verb(Json::arrayValue);
        int len = f && k == 0 ? sym_choose("candlen", 0, 2) : 1 + (k & 1);
        for (int q = 0; q < len; q++) { std::string w = std::string(q ? "One" : "twenty") + (char)('a' + k); v.push_back(w); verb.append(w); }
        Json::Value cand; cand["verbalization"] = verb; cand["probability"] = 0.5; norm[id]["candidates"].append(cand);
        it.ways.push_back(v); sym_cover("candidate");
      }
      norm[id]["class"] = NAME[i % 3];
      items.push_back(it);
      sym_cover(r > 1 ? "long-span" : "span");
    }
    if (punct && !mark.empty()) { Item p; p.span = false; p.word = mark; items.push_back(p); RawNlpRecord w; w.token = mark; w.speakerId = "1"; want_rows.push_back(w); sym_cover("punctuation"); }
  }
  NlpFstLoader loader(rows, norm, side, labels, punct, use_case);
  sym_assert(loader.mNlpRows.size() == want_rows.size(), "rows kept");
  for (size_t i = 0; i < want_rows.size(); i++) sym_assert(same_row(loader.mNlpRows[i], want_rows[i]), "row");
  fst::SymbolTable symbol("s");
  FstAlignOption options; options.RegisterSymbols(symbol);
  loader.addToSymbolTable(symbol);
  std::vector<int> ids = loader.convertToIntVector(symbol);
  auto id_of = [&](const std::string &w) {
    std::string t = use_case || w.compare(0, 3, "___") == 0 ? w : lower_ascii(w);
    int id = symbol.Find(t);
    sym_assert(id >= 0, "word registered");
    return id;
  };
  sym_assert(ids.size() == items.size(), "one token per word, span or mark");
  for (size_t i = 0; i < items.size(); i++) sym_assert(ids[i] == id_of(items[i].span ? items[i].label : items[i].word), "token sequence");
  std::vector<std::vector<int>> want(1);
  total = 4;
  for (auto &it : items) {
    std::vector<std::vector<int>> next;
    int longest = 1;
    for (auto &p : want) {
      if (!it.span) { next.push_back(p); next.back().push_back(id_of(it.word)); continue; }
      for (auto &way : it.ways) {
        next.push_back(p); next.back().push_back(id_of(it.label));
        for (auto &w : way) next.back().push_back(id_of(w));
        next.back().push_back(id_of(it.label));
        if ((int)way.size() + 4 > longest) longest = way.size() + 4;
      }
    }
    total += longest + 1;
    want = next;
  }
  fst::StdVectorFst graph = loader.convertToFst(symbol, std::vector<int>());
  g = &graph;
  std::vector<int> p;
  sym_assert(graph.Start() >= 0, "a start state");
  walk(graph.Start(), p, 0, options.eps_idx);
  sym_assert(!overflow, "no longer path");
  std::set<std::vector<int>> a(want.begin(), want.end()), b(paths.begin(), paths.end());
  sym_assert(a == b, "exactly the transcript and its alternatives");
  sym_observe(b.size()); for (int x : ids) sym_observe(x);
  // anchors: the arc of a word is anchored exactly when the map says it matched
  std::vector<int> map(items.size());
  for (size_t i = 0; i < map.size(); i++) map[i] = items[i].span ? -1 : sym_choose("matched", 0, 1) * 2 - 1;
  fst::StdVectorFst anchored = loader.convertToFst(symbol, map);
  sym_assert(anchored.NumStates() == graph.NumStates(), "same graph with a map");
  int st = anchored.Start();
  for (size_t i = 0; i < items.size(); i++) {
    fst::ArcIterator<fst::StdVectorFst> it(anchored, st);
    fst::StdArc arc = it.Value();
    sym_assert(arc.ilabel == ids[i] && arc.weight.Value() == (map[i] > 0 ? 1.0f : 0.0f), "anchored exactly where matched");
    if (map[i] > 0) sym_cover("anchored");
    st = arc.nextstate;
    if (items[i].span) {  // to the closing label
      for (int k = 0; k < 20 && !(anchored.NumArcs(st) == 1 && fst::ArcIterator<fst::StdVectorFst>(anchored, st).Value().ilabel == ids[i]); k++) st = fst::ArcIterator<fst::StdVectorFst>(anchored, st).Value().nextstate;
      st = fst::ArcIterator<fst::StdVectorFst>(anchored, st).Value().nextstate;
    }
  }
}
