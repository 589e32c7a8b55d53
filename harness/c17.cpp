// C17: a loaded text is one path that spells the words; the token sequence spells the same words; anchors follow the map.
#include "Ctm.h"
#include "Nlp.h"
#include "OneBestFstLoader.h"
#include "stitchgen.h"
#include "hfile.h"
void harness_init(void) {}
void harness_main(void) {
  int N = sym_param("n", 3), L = sym_param("len", 2), n = sym_choose("n", 0, N), focus = n ? sym_choose("focus", 0, n - 1) : 0;
  int kind = sym_param("kind", 0);  // 0 text in memory, 1 text file, 2 CTM rows, 3 NLP rows without labels
  bool use_case = sym_choose("keepcase", 0, 1);
  static const char *const SEP[] = {" ", "\n", "  \t", "\r\n "};
  int sep = kind < 2 && n > 1 ? sym_choose("separator", 0, 3) : 0, salt = sym_choose("around", 0, 1);
  std::vector<std::string> words;
  std::string text = kind < 2 && salt ? "\n " : "";
  for (int i = 0; i < n; i++) {
    words.push_back(sym_string("word", sym_param("alpha", 0) ? "ab" : "aAb<", i == focus ? sym_choose("len", 1, L) : 1));
    text += (i ? SEP[(sep + i) & 3] : "") + words[i];
  }
  if (salt) text += "\n";
  std::vector<std::string> want = words;
  if (!use_case) for (auto &w : want) w = lower_ascii(w);
  std::unique_ptr<FstLoader> loader;
  std::vector<RawCtmRecord> ctm; std::vector<RawNlpRecord> nlp;
  for (int i = 0; i < n; i++) {
    RawCtmRecord c{}; c.word = words[i]; ctm.push_back(c);
    RawNlpRecord r; r.token = words[i]; r.speakerId = "1"; r.punctuation = ","; r.labels = "[]"; if (i == 1) { r.best_label = "0:DATE"; r.best_label_id = "0"; } nlp.push_back(r);
  }
  if (kind < 2) {
    auto l = std::make_unique<OneBestFstLoader>(use_case);
    if (kind == 0) l->BuildFromString(text); else { put_file("in.txt", text); l->LoadTextFile(hfile("in.txt")); }
    loader = std::move(l);
  } else if (kind == 2) loader = std::make_unique<CtmFstLoader>(ctm, use_case);
  else loader = std::make_unique<NlpFstLoader>(nlp, Json::Value(Json::objectValue), Json::Value(), false, false, use_case);
  fst::SymbolTable symbol("s");
  FstAlignOption options; options.RegisterSymbols(symbol);
  int pre = sym_choose("known", 0, 2);  // nothing, a word under the next number, a word under a number far off
  if (pre) symbol.AddSymbol("b", pre == 1 ? 8 : 50);
  loader->addToSymbolTable(symbol);
  std::vector<int> ids = loader->convertToIntVector(symbol);
  sym_assert(ids.size() == (size_t)n, "one token per word");
  for (int i = 0; i < n; i++) sym_assert(ids[i] >= 0 && same(symbol.Find(ids[i]), want[i]), "token spells its word");
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) sym_assert((ids[i] == ids[j]) == same(want[i], want[j]), "one symbol per word");
  if (kind >= 2) for (int i = 0; i < n; i++) { const std::string &t = kind == 2 ? static_cast<CtmFstLoader &>(*loader).getToken(i) : static_cast<NlpFstLoader &>(*loader).getToken(i); sym_assert(same(t, want[i]), "getToken"); }
  // no map, one for each word, one that is too short
  int m = sym_choose("map", 0, 2); std::vector<int> map(m == 0 ? 0 : m == 1 ? n : n / 2); std::vector<long> anchored(n);
  for (size_t i = 0; i < map.size(); i++) { map[i] = sym_oneof("matched", "\001\002") * 2 - 3; anchored[i] = map[i]; }
  fst::StdVectorFst g = loader->convertToFst(symbol, map);
  int st = g.Start(), seen = 0, steps = 0;
  sym_assert(st >= 0, "a start state");
  while (g.NumArcs(st) > 0) {
    sym_assert(g.NumArcs(st) == 1, "one path"); sym_assert(g.Final(st) == fst::StdArc::Weight::Zero(), "no early end"); sym_assert(++steps <= 2 * n + 4, "no cycle");
    fst::ArcIterator<fst::StdVectorFst> it(g, st); fst::StdArc a = it.Value();
    sym_assert(a.ilabel == a.olabel, "an acceptor");
    if (a.ilabel != options.eps_idx) {
      sym_assert(seen < n && a.ilabel == ids[seen], "the words in order");
      float w = a.weight.Value();
      sym_assert((w > 0) == (anchored[seen] > 0), "anchored exactly where the map says matched"); sym_assert(w == 0.0f || w == 1.0f, "no other weight");
      if (w > 0) sym_cover("anchored");
      seen++;
    } else sym_assert(a.weight == fst::StdArc::Weight::One(), "epsilon is free");
    st = a.nextstate;
  }
  sym_assert(seen == n, "all words"); sym_assert(g.Final(st) == fst::StdArc::Weight::One(), "ends in a final state");
  for (int i = 0; i < n; i++) sym_observe(ids[i]);
  if (n == 0) sym_cover("empty");
}
