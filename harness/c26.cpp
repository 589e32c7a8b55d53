// C26: a hypothesis given as a graph with its symbol table is aligned along its best path.
#include "aligngen.h"
#include "FstFileLoader.h"
#include "hfile.h"
struct LArc { int from, to; std::string w; };  // no word: an empty step
static std::vector<LArc> g_lat; static std::vector<int> g_fin;
static bool ends_at(int q) { for (int f : g_fin) if (f == q) return true; return false; }
static bool path_of(const Words &h, size_t at, int q) {
  if (at == h.size() && ends_at(q)) return true;
  for (auto &a : g_lat) if (a.from == q) {
    if (a.w.empty()) { if (path_of(h, at, a.to)) return true; }
    else if (at < h.size() && same(h[at], a.w) && path_of(h, at + 1, a.to)) return true;
  }
  return false;
}
struct Best { int cost = 1 << 20; std::set<std::pair<int, int>> er; };
static std::map<std::pair<int, int>, Best> g_best;
static void offer(Best &b, int cost, int e, int r, const Best &rest) {
  if (rest.er.empty() || cost + rest.cost > b.cost) return;
  if (cost + rest.cost < b.cost) { b.cost = cost + rest.cost; b.er.clear(); }
  for (auto &p : rest.er) b.er.insert({p.first + e, p.second + r});
}
static const Best &best(int st, int q) {
  auto f = g_best.find({st, q});
  if (f != g_best.end()) return f->second;
  Best b;
  if (st == g_read.end && ends_at(q)) { b.cost = 0; b.er.insert({0, 0}); }
  for (size_t k = 0; k < g_lat.size(); k++) if (g_lat[k].from == q) { LArc l = g_lat[k]; if (l.w.empty()) offer(b, 0, 0, 0, best(st, l.to)); else offer(b, 2, 1, 0, best(st, l.to)); }
  for (size_t i = 0; i < g_read.arcs.size(); i++) {
    NArc a = g_read.arcs[i];
    if (a.from != st) continue;
    if (a.kind != 0) { offer(b, 0, 0, 0, best(a.to, q)); continue; }
    offer(b, 2, 1, 1, best(a.to, q));
    for (size_t k = 0; k < g_lat.size(); k++) if (g_lat[k].from == q && !g_lat[k].w.empty()) {
      LArc l = g_lat[k];
      if (same(l.w, a.w)) offer(b, 0, 0, 1, best(a.to, l.to)); else offer(b, 3, 1, 1, best(a.to, l.to));
    }
  }
  return g_best[{st, q}] = b;
}
static std::string split_letter(const char *name, const char *alpha) { int c = sym_split(sym_oneof(name, alpha)); return std::string(1, (char)c); }
void harness_init(void) {}
void harness_main(void) {
  int V = sym_param("vocab", 2), M = sym_param("m", 2), kind = sym_param("ref", 0), adapted = sym_param("adapted", 0);
  Scene s; g_best.clear(); g_lat.clear(); g_fin.clear();
  make_scene(s, kind, sym_param("n", 2), 0, V);
  std::string vh(std::string("abcdef"), 0, V + 1);
  int m = sym_choose("steps", 0, M), states = m + 1;
  for (int i = 0; i < m; i++) g_lat.push_back({i, i + 1, split_letter("hyp", vh.c_str())});
  g_fin.push_back(m);
  if (m) for (int k = 0; k < sym_param("additions", 1); k++) {
    int at = sym_choose("at", 0, m - 1);
    switch (sym_choose("addition", 0, 5)) {
      case 0: break;
      case 1: g_lat.push_back({at, at + 1, split_letter("alt", vh.c_str())}); sym_assume(!same(g_lat[at].w, g_lat.back().w)); sym_cover("alternative"); break;
      case 2: g_lat.push_back({at, at + 1, ""}); sym_cover("empty-step"); break;
      case 3: g_lat.push_back({at, states, split_letter("alt", vh.c_str())}); g_lat.push_back({states, at + 1, split_letter("alt2", vh.c_str())}); states++; sym_cover("detour"); break;
      case 4: g_fin.push_back(at); sym_cover("two-ends"); break;
      case 5: { int to = states++; g_lat.push_back({m, to, ""}); g_fin.clear(); g_fin.push_back(to); break; }
    }
  }
  // the table: the special symbols in it or not, words in any order
  static const char *const TABLE[] = {"<eps> 0\n<oov> 1\n<ins> 2\n<del> 3\n<sub> 4\na 5\nb 6\nc 7\nd 8\n", "<eps>\t0\nd 1\nc 3\nb 9\na 4\n", "a 3\nb 2\nc 1\n<eps> 0\n<sub> 12\nd 11\n"};
  static const int ID[3][4] = {{5, 6, 7, 8}, {4, 9, 3, 1}, {3, 2, 1, 11}};
  int t = sym_choose("table", 0, sym_param("tables", 3) - 1);
  put_file("sym.txt", TABLE[t]);
  fst::StdVectorFst f;
  for (int i = 0; i < states; i++) f.AddState();
  f.SetStart(0);
  for (auto &a : g_lat) { int id = a.w.empty() ? 0 : ID[t][a.w[0] - 'a']; f.AddArc(a.from, fst::StdArc(id, id, fst::TropicalWeight::One(), a.to)); }
  for (int q : g_fin) f.SetFinal(q, fst::TropicalWeight::One());
  sym_assert(f.Write(hfile("hyp.fst")), "written");
  FstFileLoader hyp(hfile("hyp.fst"));
  AlignerOptions o; o.composition_approach = adapted ? "adapted" : "standard"; o.symbols_filename = hfile("sym.txt"); o.numBests = 100; o.levenstein_first_pass = t == 1;
  wer_alignment r = Fstalign(*s.ref, hyp, s.engine, o);
  Words h;
  auto hyp_of = [&](const std::string &x) { if (x != "<del>") h.push_back(x); };
  for (auto &x : r.tokens) {
    if (!isEntityLabel(x.first)) { hyp_of(x.second); continue; }
    for (auto &l : r.label_alignments) if (l.classLabel == x.first) for (auto &y : l.tokens) hyp_of(y.second);
  }
  sym_assert(path_of(h, 0, 0), "one path of the graph");
  Tally tl = faithful(r, h);
  int e = r.NumErrors(), R = r.numWordsInReference;
  if (!adapted) {
    const Best &b = best(0, 0); bool ok = false;
    for (auto &p : b.er) if (R == 0 ? p.second == 0 || h.empty() : p.second == 0 ? !h.empty() || e == 0 : e * p.second <= p.first * R) ok = true;
    sym_assert(ok, "the most accurate path");
  }
  if (e == 0) sym_cover("no-errors"); else sym_cover("errors");
  sym_observe(e); sym_observe(R); sym_observe(tl.hyp);
}
