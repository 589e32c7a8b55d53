// C09: NextTriple visits every aligned token once, in order, labelled segments expanded in place, then stays exhausted.
#include "AlignmentTraversor.h"
#include "hutil.h"
typedef ::triple Tri;
void harness_init(void) {}
void harness_main(void) {
  int N = sym_param("n", 3), M = sym_param("m", 2), L = sym_param("len", 3);
  wer_alignment top;
  std::vector<Tri> want;
  int n = sym_choose("n", 0, N), nl = 0;
  std::vector<wer_alignment> segs;
  bool used[5] = {};
  for (int i = 0; i < n; i++) {
    if (sym_choose("kind", 0, 1) == 0) {
      std::string r = sym_string("r", "_a", sym_choose("rl", 0, L)), h = sym_string("h", "_a", i == 0 ? L : 1);
      sym_assume(!(r.size() >= 3 && (int)(r[0] == '_') & (int)(r[1] == '_') & (int)(r[2] == '_')));
      top.tokens.push_back({r, h});
      Tri t; t.ref = r; t.hyp = h; t.classLabel = "global"; want.push_back(t);
    } else {
      // one the beginning of another, one the end of another
      static const char *const LABS[] = {"___1_X___", "___11_X___", "___1_X_Y___", "___1_FALLBACK___", "___2_FALLBACK___"};
      int li = sym_choose("label", 0, 4);
      sym_assume(!used[li]); used[li] = true;
      std::string lab = LABS[li];
      nl++;
      wer_alignment s; s.classLabel = lab;
      int m = sym_choose("m", 0, M);
      if (m == 0) { Tri t; t.ref = t.hyp = "!!noop-token!!"; t.classLabel = lab; want.push_back(t); sym_cover("noop"); }
      for (int k = 0; k < m; k++) {
        std::string r = sym_string("sr", "_a", 1), h = sym_string("sh", "_a", 1);
        s.tokens.push_back({r, h});
        Tri t; t.ref = r; t.hyp = h; t.classLabel = lab; want.push_back(t);
      }
      top.tokens.push_back({lab, lab});
      segs.push_back(s);
      sym_cover("segment");
    }
  }
  // segments may be listed in either order
  bool rev = nl > 1 ? sym_choose("rev", 0, 1) : 0;
  for (int i = 0; i < nl; i++) top.label_alignments.push_back(segs[rev ? nl - 1 - i : i]);
  AlignmentTraversor t(top);
  Tri tr;
  // stop anywhere, restart, walk completely
  int stop = sym_choose("stop", 0, (int)want.size() + 1);
  for (int i = 0; i < stop; i++) sym_assert(t.NextTriple(tr) == (i < (int)want.size()), "exhaustion");
  t.Restart();
  for (size_t i = 0; i < want.size(); i++) {
    sym_assert(t.NextTriple(tr), "an aligned pair is left");
    sym_assert(same(tr.ref, want[i].ref), "reference side");
    sym_assert(same(tr.hyp, want[i].hyp), "hypothesis side");
    sym_assert(same(tr.classLabel, want[i].classLabel), "class label");
    observe(tr.ref); observe(tr.hyp); observe(tr.classLabel);
  }
  for (int i = 0; i < 3; i++) sym_assert(!t.NextTriple(tr), "exhausted for ever");
  sym_assert(top.tokens.size() == (size_t)n && (int)top.label_alignments.size() == nl, "the alignment is not changed");
  if (stop > (int)want.size()) sym_cover("restart-after-end");
}
