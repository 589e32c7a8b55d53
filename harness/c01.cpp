// C01: all edit distance entry points compute the Levenshtein distance.
#include "fast-d.h"
#include "fdgen.h"
static int ref_lev(const std::vector<int> &a, const std::vector<int> &b) {
  // textbook full-matrix recurrence, written with selects
  int n = a.size(), m = b.size();
  std::vector<std::vector<int>> d(n + 1, std::vector<int>(m + 1));
  for (int i = 0; i <= n; i++) d[i][0] = i;
  for (int j = 0; j <= m; j++) d[0][j] = j;
  for (int i = 1; i <= n; i++)
    for (int j = 1; j <= m; j++) {
      int s = d[i - 1][j - 1] + (a[i - 1] == b[j - 1] ? 0 : 1);
      int x = d[i - 1][j] + 1, y = d[i][j - 1] + 1;
      int t = x < y ? x : y;
      d[i][j] = s < t ? s : t;
    }
  return d[n][m];
}
void harness_init(void) {}
void harness_main(void) {
  int N = sym_param("n", 3), M = sym_param("m", 3), K = sym_param("k", 3), PA = sym_param("pa", 0), PB = sym_param("pb", 0), L = sym_param("shift", 0);
  int n = L ? 0 : sym_choose("n", 0, N), m = L ? 0 : sym_choose("m", 0, M);
  std::vector<int> A, B;
  // concrete, mutually different tokens in front: long inputs and large distances
  for (int i = 0; i < PA; i++) A.push_back(100000 + i);
  for (int i = 0; i < PB; i++) B.push_back(200000 + i);
  for (int i = 0; i < n; i++) A.push_back(tok("a", K));
  for (int i = 0; i < m; i++) B.push_back(tok("b", K));
  if (L) shifted(A, B, L, sym_param("block", 4), sym_param("s", 1));
  int want = ref_lev(A, B);
  int d0 = GetEditDistanceOnly(A, B);
  sym_assert(d0 == want, "distance-only is the Levenshtein distance");
  int d1 = GetEditDistance(A, B);
  sym_assert(d1 == want, "distance is the Levenshtein distance");
  std::vector<int> mA, mB;
  int d2 = GetEditDistance(A, mA, B, mB);
  sym_assert(d2 == want, "distance with maps is the Levenshtein distance");
  sym_observe(d2);
  sym_cover("done");
}
