// Instrumented models of C library functions whose native versions would force symbolic bytes to single values.
// They agree with the C library on every input (C locale); comparisons are written without branches on the data.
#include <cstdarg>
#include <cstddef>
#include <cstdint>
extern "C" {
int memcmp(const void *a, const void *b, size_t n) {
  const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b;
  int r = 0;
  for (size_t i = n; i-- > 0;) { int d = (int)x[i] - (int)y[i]; r = d != 0 ? d : r; }
  return r;
}
int bcmp(const void *a, const void *b, size_t n) {
  const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b;
  unsigned r = 0;
  for (size_t i = 0; i < n; i++) r |= (unsigned)(x[i] ^ y[i]);
  return r != 0;
}
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) {
  size_t i = 0;
  for (;; i++) { if (a[i] != b[i]) return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; if (!a[i]) return 0; }
}
int strncmp(const char *a, const char *b, size_t n) {
  for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; if (!a[i]) return 0; }
  return 0;
}
char *strncpy(char *d, const char *s, size_t n) {
  size_t i = 0;
  for (; i < n && s[i]; i++) d[i] = s[i];
  for (; i < n; i++) d[i] = 0;
  return d;
}
void *memchr(const void *s, int c, size_t n) {
  const unsigned char *x = (const unsigned char *)s;
  for (size_t i = 0; i < n; i++) if (x[i] == (unsigned char)c) return (void *)(x + i);
  return nullptr;
}
const char *strchr_(const char *s, int c) { for (;; s++) { if (*s == (char)c) return s; if (!*s) return nullptr; } }
int tolower(int c) { return (unsigned)(c - 'A') < 26u ? c + 32 : c; }
int toupper(int c) { return (unsigned)(c - 'a') < 26u ? c - 32 : c; }
int isspace(int c) { return c == ' ' || (unsigned)(c - 9) < 5u; }
int isdigit(int c) { return (unsigned)(c - '0') < 10u; }
int isupper(int c) { return (unsigned)(c - 'A') < 26u; }
int islower(int c) { return (unsigned)(c - 'a') < 26u; }
int isalpha(int c) { return (unsigned)((c | 32) - 'a') < 26u; }
int isalnum(int c) { return (unsigned)((c | 32) - 'a') < 26u || (unsigned)(c - '0') < 10u; }
int ispunct(int c) { return c > 32 && c < 127 && !((unsigned)((c | 32) - 'a') < 26u || (unsigned)(c - '0') < 10u); }
int isprint(int c) { return c >= 32 && c < 127; }
static bool spc(int c) { return c == ' ' || (unsigned)(c - 9) < 5u; }
long strtol(const char *s, char **end, int base) {
  const char *p = s;
  while (spc((unsigned char)*p)) p++;
  bool neg = false;
  if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
  if (base == 0) { base = 10; if (*p == '0') { base = 8; if ((p[1] | 32) == 'x') { base = 16; p += 2; } } }
  long v = 0; bool any = false;
  for (;;) {
    int c = (unsigned char)*p, d;
    if ((unsigned)(c - '0') < 10u) d = c - '0'; else if ((unsigned)((c | 32) - 'a') < 26u) d = (c | 32) - 'a' + 10; else break;
    if (d >= base) break;
    v = v * base + d; any = true; p++;
  }
  if (end) *end = (char *)(any ? p : s);
  return neg ? -v : v;
}
int atoi(const char *s) { return (int)strtol(s, nullptr, 10); }
// decimal numbers without exponent, up to 15 digits: exact in double
double strtod(const char *s, char **end) {
  const char *p = s;
  while (spc((unsigned char)*p)) p++;
  bool neg = false, any = false;
  if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
  double v = 0, scale = 1;
  while ((unsigned)(*p - '0') < 10u) { v = v * 10 + (*p - '0'); p++; any = true; }
  if (*p == '.') {
    p++;
    while ((unsigned)(*p - '0') < 10u) { v = v * 10 + (*p - '0'); scale *= 10; p++; any = true; }
  }
  if (end) *end = (char *)(any ? p : s);
  v = any ? v / scale : 0;
  return neg ? -v : v;
}
float strtof(const char *s, char **end) { return (float)strtod(s, end); }
double atof(const char *s) { return strtod(s, nullptr); }
// literals and %d
static int scan(const char *s, const char *f, va_list ap) {
  int n = 0;
  while (*f) {
    if (*f == '%' && f[1] == 'd') {
      char *e; long v = strtol(s, &e, 10);
      if (e == s) return n == 0 && !*s ? -1 : n;
      *va_arg(ap, int *) = (int)v; n++; s = e; f += 2;
    } else if (*f == ' ') { while (spc((unsigned char)*s)) s++; f++; }
    else { if (*s != *f) return n; s++; f++; }
  }
  return n;
}
int sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = scan(s, f, ap); va_end(ap); return r; }
int __isoc23_sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = scan(s, f, ap); va_end(ap); return r; }
long __isoc23_strtol(const char *s, char **end, int base) { return strtol(s, end, base); }
long long strtoll(const char *s, char **end, int base) { return strtol(s, end, base); }
long long __isoc23_strtoll(const char *s, char **end, int base) { return strtol(s, end, base); }
}
namespace std {
// every key of one length falls into one bucket: lookups compare keys instead of splitting on a symbolic hash value
size_t _Hash_bytes(const void *, size_t len, size_t) { return len; }
}
