// C19: synonym lines are parsed as written; applied to a graph they add one labelled detour per alternative and occurrence, and change nothing else.
#include "SynonymEngine.cpp"
#include "hutil.h"
#include "hfile.h"
#include <set>
void harness_init(void) {}
struct Engine : SynonymEngine { Engine() : SynonymEngine(SynonymOptions()) {} map<SynKey, SynVals> &all() { return synonyms; } };
typedef std::vector<std::string> Words;
static bool same_words(const Words &a, const Words &b) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); i++) r = (int)r & (int)same(a[i], b[i]);
  return r;
}
static const std::string sp(bool two) { return two ? "  " : " "; }
static std::string join(const Words &w, bool two) { std::string s; for (size_t i = 0; i < w.size(); i++) s += (i ? sp(two) : "") + w[i]; return s; }
static Words phrase(const char *alpha, int len, int wl) { Words w; for (int i = 0; i < len; i++) w.push_back(sym_string("w", alpha, i == 0 ? wl : 1)); return w; }
static void parsing() {
  int N = sym_param("n", 2), n = sym_choose("n", 0, N), focus = n ? sym_choose("focus", 0, n - 1) : 0, wide = sym_choose("wide", 0, 1);
  std::vector<std::string> lines;
  std::vector<std::pair<Words, SynVals>> want;
  for (int i = 0; i < n; i++) {
    bool f = i == focus;
    int kind = sym_choose("kind", 0, f ? 5 : 0);
    if (kind == 1) { lines.push_back(sym_choose("indent", 0, 1) ? "  # a | b" : "#a|b"); sym_cover("comment"); }
    if (kind == 2) { lines.push_back(sym_choose("blank", 0, 1) ? " \t" : ""); sym_cover("blank"); }
    if (kind == 3) { lines.push_back("a b"); sym_cover("malformed"); }
    if (kind == 4) { lines.push_back("a | b | c"); sym_cover("malformed"); }
    if (kind == 5) { lines.push_back(sym_choose("indent", 0, 1) ? " | b" : "|b"); sym_cover("no-left-side"); }
    if (kind) continue;
    int ll = f ? sym_choose("lhs", 1, 2) : 1, wl = f ? sym_choose("wl", 1, 2) : 1;
    Words lhs = phrase(f ? "ab#<" : "ab", ll, wl);
    sym_assume(lhs[0][0] != '#');
    SynVals vals; int c = f ? sym_choose("alternatives", 1, 2) : 1 + (i & 1);
    std::string rhs;
    for (int k = 0; k < c; k++) { int rl = f && k == 0 ? sym_choose("rhs", 1, 3) : 1 + k; Words v = phrase("ab#", rl, 1); vals.push_back(v); rhs += (k ? (wide ? " ; " : ";") : "") + join(v, wide); }
    lines.push_back((wide ? "  " : "") + join(lhs, wide) + (wide ? "  | " : "|") + rhs + (wide ? " \t" : ""));
    bool again = false;
    for (auto &w : want) if (same_words(w.first, lhs)) again = true;
    if (again) sym_cover("again"); else want.push_back({lhs, vals});
  }
  Engine e;
  if (sym_choose("from-file", 0, 1)) {
    std::string text; for (auto &l : lines) text += l + "\n";
    put_file("syn.txt", text); e.LoadFile(hfile("syn.txt"));
  } else e.ParseStrings(lines);
  sym_assert(e.all().size() == want.size(), "one entry per phrase");
  for (auto &w : want) {
    int found = 0;
    for (auto &x : e.all()) if (same_words(x.first, w.first)) {
      found++;
      sym_assert(x.second.size() == w.second.size(), "every alternative");
      for (size_t k = 0; k < w.second.size(); k++) sym_assert(same_words(x.second[k], w.second[k]), "the alternative's words");
    }
    sym_assert(found == 1, "the phrase is known");
  }
  sym_observe(e.all().size());
}
typedef std::vector<long> Det;  // start, end, words
static void applying() {
  int N = sym_param("n", 4), V = sym_param("vocab", 2), K = sym_param("keys", 2), n = sym_choose("n", 0, N);
  fst::SymbolTable symbol("s");
  FstAlignOption options; options.RegisterSymbols(symbol);
  std::vector<long> id(V + 2);
  for (int v = 0; v < V; v++) id[v] = symbol.AddSymbol(std::string(1, 'a' + v));
  // words of the text are symbolic labels
  fst::StdVectorFst g;
  int st = g.AddState(); g.SetStart(st);
  std::vector<std::pair<int, fst::StdArc>> arcs;
  auto add = [&](int from, long label, float w, int to) { fst::StdArc a(label, label, w, to); g.AddArc(from, a); arcs.push_back({from, a}); };
  int branch = n > 1 ? sym_choose("branch", 0, 2) : 0;  // 0 one path; 1 a second first word; 2 a way around the second word
  int second = -1;
  for (int i = 0; i < n; i++) {
    int to = g.AddState();
    add(st, id[sym_choose("word", 0, V - 1)], i == 1 ? 1.0f : 0.0f, to);
    if (i == 0 && branch == 1) { long b = id[sym_choose("branch-word", 0, V - 1)]; add(st, b, 0, to); sym_cover("branch"); }
    if (i == 0 && branch == 2) second = st;
    if (i == 1 && branch == 2) { long b = id[sym_choose("branch-word", 0, V - 1)]; add(second, b, 0, to); sym_cover("branch"); }
    st = to;
  }
  int fin = g.AddState(); add(st, options.eps_idx, 0, fin); g.SetFinal(fin, fst::StdArc::Weight::One());
  int states = g.NumStates();
  // synonyms: different phrases over the vocabulary (and one unknown word)
  Engine e;
  int k = sym_choose("keys", 0, K);
  std::vector<std::pair<std::vector<int>, std::vector<Words>>> syn;
  for (int i = 0; i < k; i++) {
    int len = sym_choose("lhs", 1, 2);
    std::vector<int> key; Words kw;
    for (int q = 0; q < len; q++) { int v = sym_choose("lhsword", 0, i == 0 && q ? V : V - 1); key.push_back(v); kw.push_back(std::string(1, 'a' + v)); }
    for (auto &s : syn) sym_assume(s.first != key);
    int alts = i == 0 ? sym_choose("alternatives", 1, 2) : 1;
    std::vector<Words> vals;
    for (int q = 0; q < alts; q++) vals.push_back(q == 0 ? i == 0 && sym_choose("none", 0, 1) ? Words{"<eps>"} : Words{"x" + std::to_string(i), "b"} : Words{"a"});
    syn.push_back({key, vals}); e.all()[kw] = vals;
  }
  e.ApplyToFst(g, symbol);
  // the graph itself is still there
  size_t seen = 0;
  std::set<Det> got, want;
  std::set<long> labels; int detours = 0;
  sym_assert(g.Start() == 0 && g.Final(fin) == fst::StdArc::Weight::One(), "start and end");
  for (int s = 0; s < states; s++) {
    if (s != fin) sym_assert(g.Final(s) == fst::StdArc::Weight::Zero(), "no other end");
    int left = 0; for (auto &a : arcs) left += a.first == s;
    int pos = 0;
    for (fst::ArcIterator<fst::StdVectorFst> it(g, s); !it.Done(); it.Next(), pos++) {
      fst::StdArc a = it.Value();
      bool original = false;
      for (size_t q = 0, idx = 0; q < arcs.size(); q++) if (arcs[q].first == s) { if ((int)idx == pos) original = arcs[q].second.ilabel == a.ilabel && arcs[q].second.olabel == a.olabel && arcs[q].second.nextstate == a.nextstate && arcs[q].second.weight == a.weight; idx++; }
      if (pos < left) { sym_assert(original, "every arc of the text is kept"); seen++; continue; }
      // a detour
      std::string name = symbol.Find(a.ilabel);
      sym_assert(a.ilabel == a.olabel && isSynonymLabel(name) && a.nextstate >= states && a.weight == fst::StdArc::Weight::One(), "a labelled detour");
      sym_assert(labels.insert(a.ilabel).second, "a label of its own"); detours++;
      std::vector<long> words; int at = a.nextstate, len = 0; std::vector<long> ends;
      for (;;) {
        sym_assert(g.NumArcs(at) >= 1 && ++len < 20, "detour goes on");
        fst::StdArc b = fst::ArcIterator<fst::StdVectorFst>(g, at).Value();
        if (b.ilabel == a.ilabel) { for (fst::ArcIterator<fst::StdVectorFst> z(g, at); !z.Done(); z.Next()) { sym_assert(z.Value().ilabel == a.ilabel && z.Value().olabel == a.ilabel && z.Value().weight == fst::StdArc::Weight::One(), "closed by its label"); ends.push_back(z.Value().nextstate); } break; }
        sym_assert(g.NumArcs(at) == 1 && b.ilabel == b.olabel && b.weight == fst::StdArc::Weight::One(), "one way through"); words.push_back(b.ilabel); at = b.nextstate;
      }
      // the label tells how many words were replaced by how many
      int from = 0, to = 0, q = 0; long num = 0;
      const std::string &t = name;
      size_t p = t.find("_SYN_"); sym_assert(p != std::string::npos, "label form");
      sym_assert(sscanf(t.c_str() + p + 5, "%d-%d", &from, &to) == 2, "label form");
      sym_assert(to == (int)words.size(), "label counts the words of the detour");
      for (long x : ends) {
        sym_assert(x < states, "back to the text");
        Det d{s, x, from}; d.insert(d.end(), words.begin(), words.end()); got.insert(d);
      }
    }
  }
  sym_assert(seen == arcs.size(), "every arc of the text is kept");
  for (int s = 0; s < states; s++)
    for (auto &y : syn) {
      std::vector<int> at{s};
      for (int v : y.first) { std::vector<int> next; for (int z : at) for (auto &a : arcs) if (a.first == z && v < V && a.second.ilabel == id[v]) next.push_back(a.second.nextstate); at = next; }
      for (int z : at) for (auto &v : y.second) { Det d{s, z, (long)y.first.size()}; for (auto &w : v) { long x = symbol.Find(w); sym_assert(x >= 0, "word registered"); d.push_back(x); } want.insert(d); }
    }
  sym_assert(got == want, "exactly one way per occurrence and alternative");
  if (want.size() > 1) sym_cover("several"); if (want.empty() && k) sym_cover("no-occurrence");
  sym_observe(got.size()); sym_observe(g.NumStates());
}
void harness_main(void) { if (sym_param("what", 0)) applying(); else parsing(); }
