// C21: the first pass anchors only what a minimal alignment matches, and the result is what it would be without it.
#include "aligngen.h"
#include "fast-d.h"
void harness_init(void) {}
void harness_main(void) {
  int kind = sym_param("ref", 0), std_ = sym_param("std", 0), bare = sym_param("bare", 0), fixed = sym_param("fixed", 9);
  int before = sym_choose("before", 0, sym_param("places", 2)) * fixed / std::max(1, (int)sym_param("places", 2));
  g_before.clear(); g_after.clear();
  for (int i = 0; i < fixed; i++) (i < before ? g_before : g_after).push_back("w" + std::to_string(i));
  Scene s;
  make_scene(s, kind, sym_param("n", 3), sym_param("m", 3), sym_param("vocab", 2));
  Watched ref(*s.ref, false), hyp(*s.hyp, bare);
  AlignerOptions o;
  o.composition_approach = std_ ? "standard" : "adapted";
  o.numBests = 100; o.levenstein_first_pass = true;
  if (sym_param("streak", 3)) o.levenstein_maximum_error_streak = sym_choose("streak", 0, sym_param("streak", 3));
  wer_alignment r = Fstalign(ref, hyp, s.engine, o);
  faithful(r, s.hypwords);
  // what was anchored
  fst::SymbolTable t; std::vector<int> a = s.ref->convertToIntVector(t), b = s.hyp->convertToIntVector(t), ma, mb;
  sym_assert(ref.converted == 1 && hyp.converted == 1, "both sides are used once");
  if (a.size() <= 10 || b.size() <= 10) { sym_assert(ref.map.empty() && hyp.map.empty(), "no first pass for short texts"); sym_cover("short"); }
  else {
    GetEditDistance(a, ma, b, mb);
    auto run = [](const std::vector<int> &m) { int most = 0, now = 0; for (int x : m) { if (x > 0) now = 0; else if (++now > most) most = now; } return most; };
    if (ref.map.empty()) {
      sym_assert(hyp.map.empty(), "both sides are anchored or none");
      for (size_t x = 1; x + 1 < mb.size(); x++) if (mb[x - 1] <= 0 && mb[x + 1] <= 0) mb[x] = -1;
      sym_assert(run(mb) > o.levenstein_maximum_error_streak, "the first pass is left out only for a long error streak");
      sym_cover("streak");
    } else {
      sym_assert(ref.map.size() == a.size() && hyp.map.size() == b.size(), "an anchor per word");
      sym_assert(run(hyp.map) <= o.levenstein_maximum_error_streak, "no anchors beside a long error streak");
      auto released = [](const std::vector<int> &m, const std::vector<int> &now) {
        for (size_t x = 0; x < m.size(); x++) {
          if (m[x] <= 0) sym_assert(now[x] <= 0, "only what matches is anchored");
          else if (now[x] <= 0) sym_assert(x > 0 && x + 1 < m.size() && now[x - 1] <= 0 && now[x + 1] <= 0, "only matches between errors are released");
        }
      };
      released(ma, ref.map); released(mb, hyp.map);
      sym_cover("anchored");
    }
  }
  if (kind == 0) {
    int lev = levenshtein(s.refwords, s.hypwords), e = r.NumErrors();
    sym_assert(e >= lev, "no fewer errors than the minimum");
    if (std_ || bare) sym_assert(e == lev, "as many errors as without the first pass");
    else sym_assert(e <= lev + 1, "as many errors as without the first pass");
  }
  if (spelled_by(s.hypwords, 0, 0, 0)) { sym_assert(r.NumErrors() == 0, "a text that spells the reference has no errors"); sym_cover("no-errors"); }
  sym_observe(r.NumErrors()); sym_observe(r.numWordsInReference);
}
