// C20: synonyms generated from the words of a text follow the options.
#include "SynonymEngine.cpp"
#include "hutil.h"
void harness_init(void) {}
struct Engine : SynonymEngine { Engine(SynonymOptions o) : SynonymEngine(o) {} map<SynKey, SynVals> &all() { return synonyms; } };
typedef std::vector<std::string> Words;
static bool same_words(const Words &a, const Words &b) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); i++) r = (int)r & (int)same(a[i], b[i]);
  return r;
}
static bool same_vals(const SynVals &a, const SynVals &b) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); i++) r = (int)r & (int)same_words(a[i], b[i]);
  return r;
}
struct Rule { Words key; SynVals vals; };
static Rule *find(std::vector<Rule> &v, const Words &k) { for (auto &r : v) if (same_words(r.key, k)) return &r; return nullptr; }
void harness_main(void) {
  int N = sym_param("n", 2), L = sym_param("len", 4), n = sym_choose("n", 0, N), focus = n ? sym_choose("focus", 0, n - 1) : 0;
  SynonymOptions o; o.disable_cutoffs = sym_choose("disable-cutoffs", 0, 1); o.disable_hyphen_ignore = sym_choose("disable-hyphen-ignore", 0, 1);
  fst::SymbolTable symbol("s");
  FstAlignOption options; options.RegisterSymbols(symbol);
  // the words of the text: cut off (b-), compound (a-b, a-b-a) or without a hyphen
  std::vector<std::string> words; std::vector<Words> parts; std::vector<int> kind;
  for (int i = 0; i < n; i++) {
    bool f = i == focus;
    int k = sym_choose("kind", 0, f ? 3 : 2);  // 0 plain, 1 cut off, 2 compound, 3 compound of three
    Words p; int c = k < 2 ? 1 : k;
    std::string w;
    for (int q = 0; q < c; q++) { p.push_back(sym_string("part", f ? "abB" : "ab", f && q == 0 ? sym_choose("len", 1, L) : 1)); w += (q ? "-" : "") + p.back(); }
    if (k == 1) w += "-";
    words.push_back(w); parts.push_back(p); kind.push_back(k);
  }
  std::vector<long> ids;
  for (auto &w : words) ids.push_back(symbol.AddSymbol(w));
  size_t before = symbol.NumSymbols();
  // what the user defined already
  Engine e(o);
  std::vector<Rule> want;
  int user = n ? sym_choose("user", 0, 2) : 0;
  if (user) {
    Words k = user == 1 ? Words{words[focus]} : parts[focus];
    want.push_back({k, SynVals{{"own"}, {"two", "own"}}}); e.all()[k] = want[0].vals; sym_cover("user-defined");
  }
  e.GenerateSynFromSymbolTable(symbol);
  for (int i = 0; i < n; i++) {
    Words w{words[i]};
    if (kind[i] == 1 && !o.disable_cutoffs) { sym_cover("cut-off"); if (!find(want, w)) want.push_back({w, SynVals{parts[i]}}); }
    if (kind[i] >= 2 && !o.disable_hyphen_ignore) {
      sym_cover("compound");
      if (!find(want, w)) want.push_back({w, SynVals{parts[i]}});
      if (!find(want, parts[i])) want.push_back({parts[i], SynVals{w}});
    }
  }
  sym_assert(e.all().size() == want.size(), "synonyms for these words and no others");
  for (auto &r : want) {
    int found = 0;
    for (auto &x : e.all()) if (same_words(x.first, r.key)) { found++; sym_assert(same_vals(x.second, r.vals), "the other spelling"); }
    sym_assert(found == 1, "the expression has its synonyms");
    // both spellings are words of the table, so that they can be matched
    if (&r != &want[0] || !user) for (auto &v : r.vals) for (auto &w : v) sym_assert(symbol.Find(w) >= 0, "spelling registered");
    for (auto &w : r.key) sym_assert(symbol.Find(w) >= 0 || (user && &r == &want[0]), "spelling registered");
  }
  for (int i = 0; i < n; i++) sym_assert(symbol.Find(words[i]) == ids[i], "words keep their ids");
  for (size_t i = before; i < symbol.NumSymbols(); i++) {
    std::string s = symbol.Find((long)i); bool part = false;
    for (int j = 0; j < n; j++) for (auto &p : parts[j]) part = (int)part | (int)same(p, s);
    sym_assert(part, "only parts of words are added");
  }
  sym_observe(e.all().size()); sym_observe(symbol.NumSymbols());
}
