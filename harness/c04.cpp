// C04: from every reachable state the composed graph offers exactly the legal alignment steps.
#include "AdaptedComposition.h"
#include "hutil.h"
#include <set>
void harness_init(void) {}
struct Arc { int from, to; long label; bool anchored; };
struct Graph { int states = 0; std::vector<Arc> arcs; std::vector<bool> final_; };
static fst::StdVectorFst build(const Graph &g) {
  fst::StdVectorFst f;
  for (int i = 0; i < g.states; i++) f.AddState();
  f.SetStart(0);
  for (auto &a : g.arcs) f.AddArc(a.from, fst::StdArc(a.label, a.label, a.anchored ? 1.0f : 0.0f, a.to));
  for (int i = 0; i < g.states; i++) if (g.final_[i]) f.SetFinal(i, fst::StdArc::Weight::One());
  return f;
}
static Graph A, B;
static std::set<long> entity, synonym;
// can the hypothesis spell the rest of the detour from here, up to its closing label?
static bool spelled(long label, int a, int b, int depth) {
  if (depth > 12) return false;
  for (auto &x : A.arcs) {
    if (x.from != a) continue;
    if (x.label == label) return true;
    if (x.label == 0) { if (spelled(label, x.to, b, depth + 1)) return true; continue; }
    for (auto &y : B.arcs) if (y.from == b && y.label == x.label && spelled(label, x.to, y.to, depth + 1)) return true;
  }
  return false;
}
struct Step { long il, ol; int cost2, a, b; bool must, any_ol; int seen; };
void harness_main(void) {
  int N = sym_param("n", 2), M = sym_param("m", 2), V = sym_param("vocab", 2), shape = sym_param("shape", 0);
  A = Graph(); B = Graph(); entity.clear(); synonym.clear();
  fst::SymbolTable symbol("s");
  FstAlignOption options; options.RegisterSymbols(symbol);
  long first = 0; for (int v = 0; v < V; v++) { long x = symbol.AddSymbol(std::string(1, 'a' + v)); if (v == 0) first = x; }
  int n = sym_choose("n", 0, N), m = sym_choose("m", 0, M);
  std::vector<long> open;
  auto label = [&](const char *name) { return first + sym_range(name, 0, V - 1); };
  A.states = n + 2;
  for (int i = 0; i < n; i++) {
    long l = label("word"); bool w = (sym_param("anchors", 1) && sym_range("anchored", 0, 1) == 1);
    A.arcs.push_back({i, i + 1, l, w});
  }
  A.arcs.push_back({n, n + 1, 0, false});
  int last = n + 1;
  if (sym_choose("no-empty-end", 0, 1)) { A.arcs.pop_back(); A.states--; last = n; }
  // something more: 1 an alternative word, 2 a way past two words, 3 an empty step, 4 a loop, 5 a class span, 6 a synonym, 7 a synonym with two ends, 8 a way past two words that comes first
  int extra = n ? sym_choose("extra", shape ? 6 : 0, shape ? 8 : 5) : 0, at = extra ? sym_choose("at", 0, n - 1) : 0;
  if (extra == 1) { long l = label("other"); sym_assume(l != A.arcs[at].label); A.arcs.insert(sym_choose("before", 0, 1) ? A.arcs.begin() + at : A.arcs.begin() + at + 1, {at, at + 1, l, false}); sym_cover("alternative"); }
  if (extra == 2 || extra == 8) { sym_assume(at + 2 <= n); long l = label("other"); sym_assume(l != A.arcs[at].label); A.arcs.insert(extra == 8 ? A.arcs.begin() : A.arcs.end(), {at, at + 2, l, false}); sym_cover("alternative"); }
  if (extra == 3) { A.arcs.push_back({at, at + 1, 0, false}); sym_cover("empty-step"); }
  if (extra == 4) { long l = label("other"); sym_assume(l != A.arcs[at].label); A.arcs.push_back({at, at, l, false}); sym_cover("loop"); }
  if (extra == 5) {
    long c = symbol.AddSymbol("___0_X___"); entity.insert(c);
    int s = A.states++, t = A.states++;
    long l = label("inside");
    A.arcs.push_back({at, s, c, false}); A.arcs.push_back({s, t, l, false});
    if (sym_choose("empty-class", 0, 1)) A.arcs.push_back({s, t, 0, false});
    A.arcs.push_back({t, at + 1, c, false}); sym_cover("class");
  }
  if (extra == 6 || extra == 7) {
    long c = symbol.AddSymbol("___100000_SYN_1-1___"); synonym.insert(c);
    int s = A.states++, len = sym_choose("synonym-words", 0, 2); int front = sym_choose("synonym-first", 0, 1);
    Arc o{at, s, c, false}; if (front) A.arcs.insert(A.arcs.begin(), o); else A.arcs.push_back(o);
    for (int q = 0; q < len; q++) { int t = A.states++; long l = sym_choose("empty", 0, q == 0) ? 0 : label("inside"); A.arcs.push_back({s, t, l, false}); s = t; }
    A.arcs.push_back({s, at + 1, c, false});
    if (extra == 7) { sym_assume(at + 2 <= n); A.arcs.push_back({s, at + 2, c, false}); }
  }
  A.final_.assign(A.states, false); A.final_[last] = true;
  B.states = m + 1;
  for (int j = 0; j < m; j++) { long l = label("hyp"); bool w = (sym_param("anchors", 1) && sym_range("hyp-anchored", 0, 1) == 1); B.arcs.push_back({j, j + 1, l, w}); }
  if (sym_choose("hyp-empty-end", 0, 1)) { B.arcs.push_back({m, m + 1, 0, false}); B.states++; }
  B.final_.assign(B.states, false); B.final_[B.states - 1] = true;
  fst::StdVectorFst fa = build(A), fb = build(B);
  AdaptedCompositionFst c(fa, fb, symbol);
  typedef std::pair<int, int> P;
  std::map<P, long> id; std::map<long, P> pos;
  long start = c.Start();
  id[P(0, 0)] = start; pos[start] = P(0, 0);
  std::vector<long> todo{start}, done;
  std::vector<std::vector<fst::StdArc>> answers;
  int order = extra == 0 || extra > 4 ? sym_choose("order", 0, 1) : 0;
  while (!todo.empty()) {
    long s;
    if (order) { s = todo.back(); todo.pop_back(); } else { s = todo[0]; todo.erase(todo.begin()); }
    P p = pos[s]; int a = p.first, b = p.second;
    bool fin = c.Final(s) != fst::StdArc::Weight::Zero();
    sym_assert(fin == (A.final_[a] && B.final_[b]), "final exactly when both texts are used up");
    std::vector<Step> steps;
    auto step = [&](long il, long ol, int cost2, int x, int y, bool must, bool any_ol = false) {
      for (auto &t : steps) if (t.il == il && t.ol == ol && t.cost2 == cost2 && t.a == x && t.b == y) { t.must = t.must || must; return; }
      steps.push_back({il, ol, cost2, x, y, must, any_ol, 0});
    };
    bool out = false;
    for (auto &x : A.arcs) {
      if (x.from != a) continue;
      out = true;
      if (x.to == a) continue;
      if (x.label == 0) { step(0, 0, 0, x.to, b, true); continue; }
      if (entity.count(x.label)) { step(x.label, 0, 0, x.to, b, true, true); continue; }
      if (synonym.count(x.label)) {
        bool closing = a > last; bool can = closing || spelled(x.label, x.to, b, 0);
        if (can) { step(x.label, 0, 0, x.to, b, true, true); sym_cover("synonym"); } else sym_cover("synonym-not-spelled");
        continue;
      }
      bool matched = false;
      for (auto &y : B.arcs) {
        if (y.from != b) continue;
        bool eq = x.label == y.label, word = y.label != 0;
        if (eq) { step(x.label, y.label, 0, x.to, y.to, true); matched = true; }
        if (!y.anchored) step(0, y.label, 2, a, y.to, word);
        if (!y.anchored && !x.anchored) step(x.label, y.label, 3, x.to, y.to, word && !eq);
        if (!word) step(0, 0, 0, a, y.to, false);
      }
      step(x.label, 0, 2, x.to, b, !matched);
    }
    if (!out) for (auto &y : B.arcs) if (y.from == b && !y.anchored) { step(0, y.label, 2, a, y.to, y.label != 0); if (!y.label) step(0, 0, 0, a, y.to, false); }
    std::vector<fst::StdArc> arcs;
    sym_assert(c.TryGetArcsAtState(s, &arcs), "a state that was handed out has an answer");
    for (auto &r : arcs) {
      Step *f = nullptr; int cost2 = (int)(r.weight.Value() * 2);
      sym_assert(cost2 == r.weight.Value() * 2, "costs");
      auto known = pos.find(r.nextstate);
      for (auto &t : steps) if (t.il == r.ilabel && (t.any_ol || t.ol == r.olabel) && t.cost2 == cost2 && (known == pos.end() ? !id.count(P(t.a, t.b)) : known->second == P(t.a, t.b))) f = f && f->must ? f : &t;
      sym_assert(f != nullptr, "only legal steps, each to its own state");
      f->seen++;
      if (known == pos.end()) { id[P(f->a, f->b)] = r.nextstate; pos[r.nextstate] = P(f->a, f->b); todo.push_back(r.nextstate); }
    }
    for (auto &t : steps) if (t.must) sym_assert(t.seen > 0, "every legal step is offered");
    done.push_back(s); answers.push_back(arcs);
    sym_assert(done.size() <= (size_t)(A.states * B.states), "no more states than pairs");
  }
  // asking again
  for (size_t i = 0; i < done.size(); i++) {
    std::vector<fst::StdArc> again;
    sym_assert(c.TryGetArcsAtState(done[i], &again) && again.size() == answers[i].size(), "the same answer again");
    for (size_t k = 0; k < again.size(); k++) sym_assert(again[k].ilabel == answers[i][k].ilabel && again[k].olabel == answers[i][k].olabel && again[k].weight == answers[i][k].weight && again[k].nextstate == answers[i][k].nextstate, "the same answer again");
    sym_assert(c.DoesComposedStateExist(done[i]) && c.DoesComposedStateExist(pos[done[i]].first, pos[done[i]].second), "the state exists");
  }
  sym_assert(c.Start() == start, "one start");
  long none = 0; while (pos.count(none)) none++;
  std::vector<fst::StdArc> arcs;
  sym_assert(!c.TryGetArcsAtState(none, &arcs) && arcs.empty(), "no answer for a state never handed out");
  sym_assert(!c.DoesComposedStateExist(none), "no such state");
  sym_observe(done.size());
}
