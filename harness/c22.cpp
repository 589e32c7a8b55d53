// C22: token classification and text helpers, against their definitions, for every string within the bounds.
#include "utilities.h"
#include "hutil.h"
using std::string;
static bool at(const string &s, size_t p, const char *lit) {
  // does lit occur at p?  no branching on the data
  unsigned d = 0; size_t k = 0;
  for (; lit[k]; k++) { if (p + k >= s.size()) return false; d |= (unsigned char)(s[p + k] ^ lit[k]); }
  return d == 0;
}
static bool has(const string &s, const char *lit) { int r = 0; for (size_t p = 0; p < s.size(); p++) r |= (int)at(s, p, lit); return r; }
static int up(int c) { return (unsigned)(c - 'a') < 26u ? c - 32 : c; }
static bool sp(char c) { return (int)(c == ' ') | (int)((unsigned char)(c - 9) < 5); }
static string anybytes(const char *n, int len, int lo, int hi) { string s(len, 'x'); for (int i = 0; i < len; i++) s[i] = (char)sym_range(n, lo, hi); return s; }
void harness_init(void) {}
void harness_main(void) {
  int L = sym_param("len", 7), what = sym_param("what", 0);
  if (what == 0) {  // classification
    string s = sym_string("s", "_SYN1", sym_choose("len", 0, L));
    bool lab = at(s, 0, "___");
    sym_assert(isEntityLabel(s) == lab, "isEntityLabel: exactly the tokens starting with ___");
    bool syn = (int)lab & (int)has(s, "_SYN_");
    sym_assert(isSynonymLabel(s) == syn, "isSynonymLabel: labels containing _SYN_");
    if (syn) sym_cover("synonym"); else if (lab) sym_cover("label"); else sym_cover("word");
  } else if (what == 1) {  // noise codes
    string s = sym_string("s", "<>ab", sym_choose("len", 0, L));
    int n = s.size(), inner = 0;
    for (int i = 0; i + 1 < n; i++) inner |= (int)(s[i] == '>');
    bool noise = n >= 2 && ((int)(s[0] == '<') & (int)(s[n > 0 ? n - 1 : 0] == '>') & (int)!inner);
    sym_assert(IsNoisecodeToken(s) == noise, "IsNoisecodeToken: <...> with the only > at the end");
    if (noise) sym_cover("noise"); else sym_cover("word");
  } else if (what == 2) {  // isValidNgram
    string s = sym_string("s", "<inso>_", sym_choose("len", 0, L));
    string t = string(1, 'x') + s;
    bool bad = (int)has(t, "<ins>") | (int)has(t, "___");
    sym_assert(isValidNgram(t) == !bad, "isValidNgram: no marker inside");
    int k = sym_choose("marker", 0, 3);
    static const char *mk[] = {"<ins>", "<del>", "<eps>", "___"};
    sym_assert(!isValidNgram(s + mk[k]) && !isValidNgram(mk[k] + s), "isValidNgram: a marker anywhere makes it invalid");
    if (bad) sym_cover("bad"); else sym_cover("good");
  } else if (what == 3) {  // labels: id and name survive the way through the class label
    int a = sym_choose("idlen", 1, 3), b = sym_choose("namelen", 1, L);
    string id(a, '0'), name(b, 'A');
    for (int i = 0; i < a; i++) id[i] = (char)sym_range("d", '0', '9');
    for (int i = 0; i < b; i++) name[i] = sym_char("c", "AZ_-9");
    string cl = GetClassLabel(id + ":" + name);
    sym_assert(same(cl, "___" + id + "_" + name + "___"), "GetClassLabel wraps and joins id and name");
    sym_assert(isEntityLabel(cl), "a class label is an entity label");
    sym_assert(same(getLabelIdFromToken(cl), id), "getLabelIdFromToken returns the id");
    sym_assert(same(GetLabelNameFromClassLabel(cl), name), "GetLabelNameFromClassLabel returns the name");
    string plain = "___" + id + "___";
    sym_assert(same(getLabelIdFromToken(plain), id), "an id without a name");
    sym_assert(GetClassLabel("") == "", "no label stays no label");
    string w = sym_string("w", "_a1", sym_choose("wlen", 0, 5));
    if (!at(w, 0, "___")) { sym_assert(getLabelIdFromToken(w) == "", "a word has no label id"); sym_cover("word"); }
    observe(cl);
    sym_cover("label");
  } else if (what == 4) {  // case-insensitive comparison and suffix
    int n = sym_choose("n", 0, L), m = sym_choose("m", 0, L);
    string s = anybytes("s", n, -128, 127), t = anybytes("t", m, -128, 127);
    int eq = n == m;
    if (eq) for (int i = 0; i < n; i++) eq &= (int)(up(s[i]) == up(t[i]));
    bool r = iequals(s, t);
    sym_assert(r == (bool)eq, "iequals: same length and letters equal up to case");
    int suf = m <= n;
    if (suf) for (int i = 0; i < m; i++) suf &= (int)(up(s[n - m + i]) == up(t[i]));
    bool q = EndsWithCaseInsensitive(s, t);
    sym_assert(q == (bool)suf, "EndsWithCaseInsensitive");
    if (r) sym_cover("equal"); if (q && !r) sym_cover("suffix"); if (!q) sym_cover("neither");
  } else if (what == 5) {  // trimming
    int n = sym_choose("n", 0, L);
    string s = anybytes("s", n, -128, 127);
    string c = trim_copy(s), l = s, r = s, b = s;
    ltrim(l); rtrim(r); trim(b);
    int i = 0, j = n;
    while (i < n && sp(s[i])) i++;
    while (j > i && sp(s[j - 1])) j--;
    sym_assert(same(c, s.substr(i, j - i)), "trim_copy removes the white space at both ends and nothing else");
    sym_assert(same(b, c), "trim");
    sym_assert(same(l, s.substr(i)), "ltrim");
    sym_assert(same(r, j > i || i == n ? s.substr(0, i == n ? 0 : j) : s), "rtrim");
    observe(c);
    if (j - i < n) sym_cover("trimmed"); else sym_cover("untouched");
  } else if (what == 6) {  // joining
    int n = sym_choose("n", 0, 3);
    std::vector<string> v; string want;
    int sl = sym_choose("sep", 0, 2);
    string sep = sym_string("sp", ",; ", sl);
    for (int i = 0; i < n; i++) { v.push_back(sym_string("e", "a, ", sym_choose("el", 0, 2))); if (i) want += sep; want += v.back(); }
    sym_assert(same(string_join(v, sep.c_str()), want), "string_join");
    if (n > 1) sym_cover("joined"); if (n == 0) sym_cover("empty");
  } else {  // lower-casing (ASCII)
    string s = anybytes("s", sym_choose("n", 0, L), 1, 127), want = s;
    for (char &c : want) c = (unsigned)(c - 'A') < 26u ? c + 32 : c;
    sym_assert(same(UnicodeLowercase(s), want), "UnicodeLowercase on ASCII");
    sym_cover("lower");
  }
}
