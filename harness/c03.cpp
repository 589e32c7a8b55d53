// C03: MapContainsErrorStreaks is true exactly when a run of more than cutoff non-matching positions exists.
#include "fast-d.h"
#include "sym.h"
#include <vector>
void harness_init(void) {}
void harness_main(void) {
  int N = sym_param("n", 6), C = sym_param("c", 7);
  int n = sym_choose("n", 0, N);
  int cutoff = sym_range("cutoff", 0, C);
  std::vector<int> map;
  for (int i = 0; i < n; i++) map.push_back(sym_range("m", 0, 1) * 2 - 1);
  // oracle: longest run, computed from window ends, without branches
  int longest = 0, run = 0;
  for (int i = 0; i < n; i++) { run = map[i] <= 0 ? run + 1 : 0; longest = run > longest ? run : longest; }
  bool want = longest > cutoff;
  bool got = MapContainsErrorStreaks(map, cutoff);
  sym_assert(got == want, "error streak answered exactly");
  if (got) sym_cover("yes"); else sym_cover("no");
  sym_observe(got);
}
