// C08: PathHeap keeps candidates ordered by (words, errors, cost, state) and prunes only hopeless ones.
#include "PathHeap.h"
#include "sym.h"
#include <vector>
// any value the comparison looks at; the candidate's identity is kept in whereTo / numInsert / local_arc
struct Rec { int w, e; float c; int s; int id; };
static bool keyless(const Rec &a, const Rec &b) {
  bool r = a.s < b.s;
  r = a.c == b.c ? r : a.c < b.c;
  r = a.e == b.e ? r : a.e < b.e;
  return a.w == b.w ? r : a.w < b.w;
}
static bool keyeq(const Rec &a, const Rec &b) { return (int)(a.w == b.w) & (int)(a.e == b.e) & (int)(a.c == b.c) & (int)(a.s == b.s); }
static std::vector<Rec> all;      // every candidate ever created
static int W0, W1, E0, E1, NC, S1;
static spSLE mk() {
  spSLE p = std::make_shared<ShortlistEntry>();
  Rec r;
  r.w = sym_range("w", W0, W1);
  r.e = sym_range("e", E0, E1);
  r.c = NC > 1 ? 0.5f * sym_choose("c", 0, NC - 1) : 1.0f;
  r.s = S1 ? sym_range("s", 0, S1) : 0;
  r.id = all.size();
  p->numWords = r.w; p->numErrors = r.e; p->costSoFar = r.c; p->currentState = r.s;
  p->whereTo = 1000 + r.id; p->numInsert = r.id; p->costToGoThere = 0.25 * r.id; p->local_arc.ilabel = 7 * r.id;
  all.push_back(r);
  return p;
}
// the entry still is the candidate it was created as
static int ident(const spSLE &p) {
  sym_assert(p != nullptr, "a candidate is returned");
  int id = p->whereTo - 1000;
  sym_assert(id >= 0 && id < (int)all.size(), "candidate was inserted before");
  const Rec &r = all[id];
  sym_assert((int)(p->numWords == r.w) & (int)(p->numErrors == r.e) & (int)(p->currentState == r.s), "candidate unaltered (words, errors, state)");
  sym_assert(p->costSoFar == r.c && p->numInsert == id && p->costToGoThere == 0.25 * id && p->local_arc.ilabel == 7 * id, "candidate unaltered (cost and details)");
  return id;
}
void harness_init(void) {}
void harness_main(void) {
  int mode = sym_param("mode", 0), N = sym_param("n", 3);
  W0 = sym_param("w0", 0); W1 = sym_param("w1", 3); E0 = sym_param("e0", 0); E1 = sym_param("e1", 3); NC = sym_param("nc", 2); S1 = sym_param("s1", 1);
  PathHeap h;
  std::vector<Rec> model;  // what the heap must hold
  auto insert = [&]() {
    spSLE p = mk();
    h.insert(p);
    bool dup = false;
    for (auto &m : model) dup = (int)dup | (int)keyeq(m, all.back());
    if (dup) sym_cover("equal-candidates"); else model.push_back(all.back());
    sym_assert(h.size() == (int)model.size(), "size is the number of different candidates held");
  };
  auto take = [&]() {
    spSLE p = h.removeFirst();
    int id = ident(p);
    int at = -1;
    for (size_t i = 0; i < model.size(); i++) {
      sym_assert(!keyless(model[i], all[id]), "first candidate has the smallest (words, errors, cost)");
      at = keyeq(model[i], all[id]) ? (int)i : at;
    }
    at = sym_split(at);
    sym_assert(at >= 0, "removed candidate was in the heap");
    model.erase(model.begin() + at);
    sym_assert(h.size() == (int)model.size(), "size after removal");
    sym_observe(id);
  };
  if (mode == 0) {
    // any history of insertions and removals
    for (int i = 0; i < N; i++) {
      if (model.empty() || sym_choose("op", 0, 1) == 0) insert(); else { take(); sym_cover("remove"); }
    }
    while (!model.empty()) take();
    sym_cover("drained");
  } else if (mode == 1) {
    for (int i = 0; i < N; i++) insert();
    int target = sym_choose("target", 1, N + 1);
    int before = model.size();
    int pruned = h.prune(target);
    sym_assert(h.size() == before - pruned, "prune reports how many it removed");
    // drain what is left, in order
    std::vector<int> kept;
    while (h.size() > 0) { kept.push_back(ident(h.removeFirst())); }
    for (size_t i = 1; i < kept.size(); i++) sym_assert(keyless(all[kept[i - 1]], all[kept[i]]), "order kept, nothing duplicated");
    // rank of every candidate among those held before pruning
    for (auto &m : model) {
      int rank = 0;
      for (auto &o : model) rank += keyless(o, m) ? 1 : 0;
      bool still = false;
      for (int k : kept) still = (int)still | (int)keyeq(all[k], m);
      if (still) continue;
      sym_assert(rank >= target, "the requested number of best candidates survives");
      // errors of the last kept of the first `target`
      int last = -1;
      for (auto &o : model) {
        int r2 = 0;
        for (auto &q : model) r2 += keyless(q, o) ? 1 : 0;
        last = r2 == (target < before ? target : before) - 1 ? o.e : last;
      }
      sym_assert(m.e > last + 20, "only candidates more than the margin worse than the last kept one are removed");
      sym_cover("pruned");
    }
    sym_observe(pruned);
    sym_cover("kept");
  } else {
    for (int i = 0; i < N; i++) insert();
    spSLE b = h.GetBestWerCandidate();
    int id = ident(b);
    for (auto &m : model) sym_assert(m.e * all[id].w >= all[id].e * m.w, "no candidate has fewer errors per word");
    sym_assert(h.size() == (int)model.size(), "asking does not change the heap");
    sym_observe(all[id].e); sym_observe(all[id].w);
    sym_cover("best");
  }
}
