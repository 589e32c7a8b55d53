// Stand-in for ICU in the symbolic build: exact for ASCII text (the claims that pass through it are stated for ASCII).
#pragma once
#include <cstdint>
#include <string>
namespace icu {
class Locale { public: static Locale getUS() { return {}; } static Locale getRoot() { return {}; } static Locale getEnglish() { return {}; } static Locale getDefault() { return {}; } };
class StringPiece { const char *p; int n; public: StringPiece(const std::string &s) : p(s.data()), n((int)s.size()) {} StringPiece(const char *s) : p(s), n((int)std::string(s).size()) {} StringPiece(const char *s, int l) : p(s), n(l) {} const char *data() const { return p; } int size() const { return n; } };
class UnicodeString {
  std::string s;
 public:
  UnicodeString() {}
  UnicodeString(const char *c) : s(c) {}
  static UnicodeString fromUTF8(const StringPiece &p) { UnicodeString u; u.s.assign(p.data(), p.size()); return u; }
  UnicodeString &toLower() { for (char &c : s) c = (unsigned)(c - 'A') < 26u ? c + 32 : c; return *this; }
  UnicodeString &toLower(const Locale &) { return toLower(); }
  UnicodeString &toUpper() { for (char &c : s) c = (unsigned)(c - 'a') < 26u ? c - 32 : c; return *this; }
  UnicodeString &toUpper(const Locale &) { return toUpper(); }
  UnicodeString &foldCase() { return toLower(); }
  template <class S> S &toUTF8String(S &out) const { out.append(s.data(), s.size()); return out; }
  int32_t length() const { return (int32_t)s.size(); }
  bool isEmpty() const { return s.empty(); }
  bool operator==(const UnicodeString &o) const { return s == o.s; }
  bool operator!=(const UnicodeString &o) const { return s != o.s; }
};
}
using icu::UnicodeString;
typedef uint16_t UChar_;
