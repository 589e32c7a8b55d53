// C02: the maps describe a monotone alignment whose cost is the returned distance, whatever they held before.
#include "fast-d.h"
#include "fdgen.h"
void harness_init(void) {}
void harness_main(void) {
  int N = sym_param("n", 3), M = sym_param("m", 3), K = sym_param("k", 3), PA = sym_param("pa", 0), PB = sym_param("pb", 0), STALE = sym_param("stale", 0), L = sym_param("shift", 0);
  int n = L ? 0 : sym_choose("n", 0, N), m = L ? 0 : sym_choose("m", 0, M);
  std::vector<int> A, B, mA, mB;
  // concrete, mutually different tokens in front: long inputs and large distances
  for (int i = 0; i < PA; i++) A.push_back(100000 + i);
  for (int i = 0; i < PB; i++) B.push_back(200000 + i);
  for (int i = 0; i < n; i++) A.push_back(tok("a", K));
  for (int i = 0; i < m; i++) B.push_back(tok("b", K));
  if (L) { shifted(A, B, L, sym_param("block", 4), sym_param("s", 1)); }
  n = A.size(); m = B.size();
  if (STALE) {
    // leftovers of an earlier call: any length, any of the values a map can hold
    int la = sym_choose("la", 0, N + 1), lb = sym_choose("lb", 0, M + 1);
    for (int i = 0; i < la; i++) mA.push_back(sym_range("sa", 0, 1) * 2 - 1);
    for (int i = 0; i < lb; i++) mB.push_back(sym_range("sb", 0, 1) * 2 - 1);
  }
  int d = GetEditDistance(A, mA, B, mB);
  sym_assert((int)mA.size() == n && (int)mB.size() == m, "maps have the lengths of their sequences");
  for (int i = 0; i < n; i++) sym_assert(mA[i] == 1 || mA[i] == -1, "map A holds +1/-1");
  for (int i = 0; i < m; i++) sym_assert(mB[i] == 1 || mB[i] == -1, "map B holds +1/-1");
  int i = 0, j = 0, cost = 0;
  bool any = false;
  for (;;) {
    int x = 0, y = 0;
    while (i < n && mA[i] != 1) { i++; x++; }
    while (j < m && mB[j] != 1) { j++; y++; }
    cost += x > y ? x : y;
    if (i == n || j == m) break;
    any = true;
    sym_assert(A[i] == B[j], "k-th matched tokens are equal");
    i++; j++;
  }
  sym_assert(i == n && j == m, "both sequences have the same number of matched tokens");
  sym_assert(cost == d, "stretches between matches account for the returned distance");
  if (any && cost > 0) sym_cover("partial-match");
  if (any && cost == 0) sym_cover("full-match");
  sym_observe(d);
  for (int v : mA) sym_observe(v);
  for (int v : mB) sym_observe(v);
}
