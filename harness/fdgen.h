#pragma once
#include "sym.h"
#include <vector>
// token value: one of k values, or (k = 0) any int
static int tok(const char *n, int k) { return k ? sym_range(n, 0, k - 1) : sym_range(n, -2147483647L - 1, 2147483647L); }
// two long sequences: B is A (all tokens different) with one stretch removed and one stretch of new tokens put in anywhere,
// and a symbolic token in A
static void shifted(std::vector<int> &A, std::vector<int> &B, int L, int BL, int S) {
  int d = sym_choose("removed", 0, BL), p = sym_choose("at", 0, L - d);
  int e = sym_choose("added", 0, BL), q = sym_choose("before", 0, L - d);
  std::vector<int> r;
  for (int i = 0; i < L; i++) A.push_back(i);
  for (int i = 0; i < L; i++) if (i < p || i >= p + d) r.push_back(i);
  for (int i = 0; i <= (int)r.size(); i++) {
    if (i == q) for (int k = 0; k < e; k++) B.push_back(100 + k);
    if (i < (int)r.size()) B.push_back(r[i]);
  }
  for (int i = 0; i < S; i++) A[i * (L / 2)] = sym_range("sym", 0, L + 100);
}
