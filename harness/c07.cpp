// C07: every alignment the walker returns is a path of the graph, row by row.
#include "Walker.h"
#include "hutil.h"
#include <set>
typedef std::pair<std::string, std::string> Row;
static fst::SymbolTable *g_sym; static FstAlignOption *g_opt;
static std::vector<int> g_words, g_labels;
struct Graph : IComposition {
  std::vector<std::vector<fst::StdArc>> arcs; std::vector<char> last;
  int state() { arcs.emplace_back(); last.push_back(0); return (int)arcs.size() - 1; }
  void add(int from, int i, int o, float c, int to) { arcs[from].push_back(fst::StdArc(i, o, c, to)); }
  StateId Start() override { return 0; }
  fst::StdArc::Weight Final(StateId s) const override { return last[s] ? fst::TropicalWeight::One() : fst::TropicalWeight::Zero(); }
  fst::StdArc::Weight Final(StateId s) override { return last[s] ? fst::TropicalWeight::One() : fst::TropicalWeight::Zero(); }
  bool TryGetArcsAtState(StateId s, std::vector<fst::StdArc> *out) override { *out = arcs[s]; return true; }
};
struct Part { int ins = 0, del = 0, sub = 0, ref = 0, hyp = 0; std::string label; std::vector<Row> rows; };
struct Expected : Part { std::vector<Part> parts; float cost = 0; std::vector<std::string> rw, hw, iw, dw; std::vector<Row> sw; std::vector<Row> tokens; };
static void row(Part &p, const std::string &i, const std::string &o, int kind) {
  if (kind == 1) { p.ins++; p.hyp++; p.rows.push_back({"<ins>", o}); }
  else if (kind == 2) { p.del++; p.ref++; p.rows.push_back({i, "<del>"}); }
  else { p.ref++; p.hyp++; if (kind == 3) p.sub++; p.rows.push_back({i, o}); }
}
static Expected expected(const std::vector<fst::StdArc> &path) {
  Expected e; int open = -1;
  for (auto &a : path) {
    e.cost += a.weight.Value();
    std::string i = g_sym->Find(a.ilabel), o = g_sym->Find(a.olabel);
    bool label = false;
    for (int l : g_labels) if (a.ilabel == l) label = true;
    if (label) {
      if (open < 0) { open = a.ilabel; e.parts.emplace_back(); e.parts.back().label = i; e.tokens.push_back({i, o}); }
      else if (open == a.ilabel) open = -1;
      continue;
    }
    if (a.ilabel == a.olabel && (a.ilabel == g_opt->eps_idx || a.ilabel == g_opt->ins_idx || a.ilabel == g_opt->del_idx || a.ilabel == g_opt->sub_idx || a.ilabel == g_opt->oov_idx)) continue;
    int kind = a.ilabel == a.olabel ? 0 : a.ilabel == 0 ? 1 : a.olabel == 0 ? 2 : 3;
    row(e, i, o, kind);
    if (open >= 0) row(e.parts.back(), i, o, kind); else e.tokens.push_back(e.rows.back());
    Row &r = e.rows.back();
    e.rw.push_back(r.first); e.hw.push_back(r.second);
    if (kind == 1) e.iw.push_back(r.second); if (kind == 2) e.dw.push_back(r.first); if (kind == 3) e.sw.push_back(r);
  }
  return e;
}
static void paths(Graph &g, int s, std::vector<fst::StdArc> &at, std::vector<Expected> &out) {
  if (g.last[s]) out.push_back(expected(at));
  for (auto &a : g.arcs[s]) { if (a.nextstate == s) continue; at.push_back(a); paths(g, a.nextstate, at, out); at.pop_back(); }
}
static bool counts(const Part &p, const wer_alignment &w) { return p.ins == w.insertions && p.del == w.deletions && p.sub == w.substitutions && p.ref == w.numWordsInReference && p.hyp == w.numWordsInHypothesis; }
static bool is(const Expected &e, const wer_alignment &w) {
  if (!counts(e, w) || e.tokens != w.tokens || e.rw != w.ref_words || e.hw != w.hyp_words || e.iw != w.ins_words || e.dw != w.del_words || e.sw != w.sub_words || e.parts.size() != w.label_alignments.size()) return false;
  std::vector<char> used(e.parts.size(), 0);
  for (auto &l : w.label_alignments) {
    bool ok = false;
    for (size_t k = 0; k < e.parts.size() && !ok; k++) {
      const Part &p = e.parts[k];
      if (used[k] || p.label != l.classLabel || !counts(p, l) || p.rows != l.tokens) continue;
      std::vector<std::string> rw, hw; for (auto &r : p.rows) { rw.push_back(r.first); hw.push_back(r.second); }
      if (rw == l.ref_words && hw == l.hyp_words) { ok = true; used[k] = 1; }
    }
    if (!ok) return false;
  }
  return true;
}
static float cost_of(int kind) { return kind == 0 || kind == 4 || kind == 5 ? 0 : kind == 3 ? 1.5f : 1; }
// kind 0 match, 1 insertion, 2 deletion, 3 substitution, 4 nothing, 5 a special symbol, each with the words of its place
static void step(Graph &g, int from, int to, int kind, int place) {
  int x = g_words[(2 * place) % g_words.size()], y = g_words[(2 * place + 1) % g_words.size()];
  int i = kind == 1 || kind == 4 ? 0 : kind == 5 ? g_opt->oov_idx : x, o = kind == 2 || kind == 4 ? 0 : kind == 5 ? g_opt->oov_idx : kind == 3 || kind == 1 ? y : x;
  g.add(from, i, o, cost_of(kind), to);
}
void harness_init(void) {}
void harness_main(void) {
  fst::SymbolTable sym("symbols"); FstAlignOption opt; opt.RegisterSymbols(sym);
  g_words.clear(); g_labels.clear();
  for (const char *w : {"a", "b", "c", "d", "e", "f"}) g_words.push_back((int)sym.AddSymbol(w));
  for (const char *w : {"___0_DATE___", "___100000_SYN_1-1___", "___2_MONEY___"}) g_labels.push_back((int)sym.AddSymbol(w));
  g_sym = &sym; g_opt = &opt;
  int mode = sym_param("mode", 0), N = sym_param("n", 3), kinds = sym_param("kinds", 4);
  Graph g; g.state();
  int end = 0, place = 0;
  if (mode == 0) {  // steps in a row, each with a second way, a way around, a loop or a dead end; one arc with any labels and cost
    int n = sym_choose("n", 0, N), any = sym_param("any", 0) ? sym_choose("any", 0, std::max(n - 1, 0)) : -1, left = sym_param("places", 2);
    int ids[] = {opt.eps_idx, opt.ins_idx, opt.oov_idx, opt.inaud_idx, g_words[0], g_words[1]};
    for (int k = 0; k < n; k++) {
      int to = g.state();
      if (k == any) {
        int i = ids[sym_choose("ilabel", 0, 5)], o = ids[sym_choose("olabel", 0, 5)]; float c = 0.5f * sym_choose("cost", 0, 3);
        g.add(end, i, o, c, to);
      } else step(g, end, to, sym_choose("step", 0, kinds - 1), place);
      place++;
      int extra = left > 0 ? sym_choose("extra", 0, 4) : 0;
      if (extra) left--;
      switch (extra) {
        case 1: step(g, end, to, sym_choose("second", 0, kinds - 1), place++); break;
        case 2: step(g, end, g.state(), sym_choose("dead", 0, 1), place); sym_cover("dead-end"); break;
        case 3: step(g, end, end, 1, place); sym_cover("loop"); break;
        case 4: { int mid = g.state(); step(g, end, mid, sym_choose("around", 0, kinds - 1), place); step(g, mid, to, sym_choose("around", 0, kinds - 1), place + 1); place++; sym_cover("way-around"); } break;
      }
      g.last[to] = k + 1 < n ? sym_choose("final", 0, 1) : 1;
      end = to;
    }
    if (n == 0 || sym_choose("no-end", 0, 1)) g.last[end] = 0;
    if (sym_choose("start-final", 0, 1)) g.last[0] = 1;
  } else {  // labelled stretches, some within others, with alternatives inside
    int n = sym_choose("n", 1, N);
    for (int k = 0; k < n; k++) {
      if (sym_choose("label", 0, 1)) {
        bool deleted = sym_choose("deleted", 0, 1); int label = g_labels[k % g_labels.size()], inner = sym_choose("nested", 0, 1) ? g_labels[(k + 1) % g_labels.size()] : -1;
        auto mark = [&](int l) { int to = g.state(); g.add(end, l, deleted ? 0 : l, 0, to); end = to; };
        mark(label);
        int m = sym_choose("inside", 0, sym_param("m", 2)), at = inner >= 0 ? sym_choose("at", 0, m) : -1;
        for (int q = 0; q <= m; q++) {
          if (q == at) mark(inner);
          if (q == m) break;
          int to = g.state(); step(g, end, to, sym_choose("step", 0, kinds - 1), place++);
          if (q == 0 && sym_choose("second", 0, 1)) step(g, end, to, sym_choose("second-step", 0, kinds - 1), place++);
          end = to;
        }
        if (inner >= 0) { int to = g.state(); step(g, end, to, 0, place++); end = to; mark(inner); sym_cover("nested"); }
        mark(label);
        sym_cover("label");
      } else { int to = g.state(); step(g, end, to, sym_choose("step", 0, kinds - 1), place++); end = to; }
    }
    g.last[end] = 1;
  }
  std::vector<Expected> all; std::vector<fst::StdArc> at;
  paths(g, 0, at, all);
  int asked = sym_choose("many", 0, 1) ? 100 : sym_choose("asked", 1, 2);
  Walker w;
  std::vector<wer_alignment> got = w.walkComposed(g, sym, opt, asked);
  sym_assert((int)got.size() <= asked, "no more alignments than asked for");
  if (all.empty()) { sym_assert(got.empty(), "no alignment without a path"); sym_cover("no-path"); return; }
  sym_assert(!got.empty(), "an alignment if there is a path");
  float least = all[0].cost; for (auto &e : all) least = std::min(least, e.cost);
  bool cheapest = false;
  for (auto &r : got) {
    bool found = false;
    for (auto &e : all) if (is(e, r)) { found = true; if (e.cost == least) cheapest = true; }
    sym_assert(found, "an alignment is a path of the graph");
    sym_observe(r.NumErrors()); sym_observe(r.numWordsInReference);
  }
  if (asked == 100) sym_assert(cheapest, "a cheapest path is among many");
  if (got.size() > 1) sym_cover("several");
}
