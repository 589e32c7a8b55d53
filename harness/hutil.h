#pragma once
#include "sym.h"
#include <string>
#include <vector>
// string of exactly n bytes, each one of the characters of `alpha`
static inline char sym_char(const char *name, const char *alpha) { return (char)sym_oneof(name, alpha); }
static inline std::string sym_string(const char *name, const char *alpha, int len) {
  std::string s(len, ' ');
  for (int i = 0; i < len; i++) s[i] = sym_char(name, alpha);
  return s;
}
static inline bool same(const std::string &a, const std::string &b) {
  // data-branch-free equality (lengths are concrete)
  if (a.size() != b.size()) return false;
  unsigned d = 0;
  for (size_t i = 0; i < a.size(); i++) d |= (unsigned char)(a[i] ^ b[i]);
  return d == 0;
}
static inline void observe(const std::string &s) { sym_observe_str(s.data(), s.size()); sym_observe((long)s.size()); }
