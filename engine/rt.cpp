// Runtime of the symx engine: expression DAG, shadow memory, path exploration, solver.
#include <z3.h>
#include <initializer_list>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <cstddef>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

typedef uint64_t u64;
typedef unsigned u32;
#define EXPORT extern "C" __attribute__((visibility("default")))

EXPORT void *__libc_malloc(size_t);
EXPORT void __libc_free(void *);
EXPORT void *__libc_realloc(void *, size_t);
EXPORT void *__libc_calloc(size_t, size_t);
EXPORT void *__libc_memalign(size_t, size_t);

static int in_rt = 0;
struct RtGuard { RtGuard() { in_rt++; } ~RtGuard() { in_rt--; } };

// ------------------------------------------------------------------ program heap
static const u64 ARENA = 0x100000000000ull, ARENA_SZ = 1ull << 34;  // 16 GB of address space
static const u64 ASH = 0x200000000000ull;                           // one byte per 8
static u64 arena_top = 0;
static bool arena_ok = false;
static void die(const char *fmt, ...);
static void arena_init() {
  if (arena_ok) return;
  void *p = mmap((void *)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void *q = mmap((void *)ASH, ARENA_SZ / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *)ARENA || q != (void *)ASH) { const char m[] = "cannot map arena\n"; (void)!write(2, m, sizeof m); _exit(99); }
  arena_top = ARENA + 64;
  arena_ok = true;
}
static inline bool in_arena(u64 a) { return a - ARENA < ARENA_SZ; }
// shadow byte: 0 = unaddressable, 1..8 = that many leading bytes addressable, 0x80 = freed
static inline unsigned char &ash(u64 a) { return *(unsigned char *)(ASH + ((a - ARENA) >> 3)); }
static void shadow_clear(u64 a, u64 n);
static void *arena_alloc(size_t n, size_t align = 16) {
  arena_init();
  if (n > (1ull << 31)) { errno = ENOMEM; return nullptr; }
  u64 a = (arena_top + 32 + align - 1) / align * align;
  *(u64 *)(a - 8) = n;
  for (u64 i = 0; i < n; i += 8) ash(a + i) = (n - i >= 8) ? 8 : (unsigned char)(n - i);
  if (n == 0) ash(a) = 0;
  arena_top = a + n + 16;
  arena_top = (arena_top + 15) & ~15ull;
  if (arena_top > ARENA + ARENA_SZ - (1 << 20)) { const char m[] = "arena full\n"; (void)!write(2, m, sizeof m); _exit(98); }
  return (void *)a;
}
static void violation(const char *fmt, ...);
static void arena_free(void *p) {
  u64 a = (u64)p;
  u64 n = *(u64 *)(a - 8);
  if (n && ash(a) == 0x80) { violation("double free"); return; }
  for (u64 i = 0; i < n; i += 8) ash(a + i) = 0x80;
  shadow_clear(a, n);
}
EXPORT void *malloc(size_t n) { return in_rt ? __libc_malloc(n) : arena_alloc(n); }
EXPORT void free(void *p) { if (!p) return; if (in_arena((u64)p)) arena_free(p); else __libc_free(p); }
EXPORT void *calloc(size_t a, size_t b) { if (in_rt) return __libc_calloc(a, b); size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; return arena_alloc(n); }
EXPORT void *realloc(void *p, size_t n) {
  if (!p) return malloc(n);
  if (!in_arena((u64)p)) return __libc_realloc(p, n);
  void *q = arena_alloc(n); u64 o = *(u64 *)((u64)p - 8);
  memcpy(q, p, o < n ? o : n); arena_free(p); return q;
}
EXPORT void *memalign(size_t al, size_t n) { return in_rt ? __libc_memalign(al, n) : arena_alloc(n, al < 16 ? 16 : al); }
EXPORT void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
EXPORT int posix_memalign(void **p, size_t al, size_t n) { *p = memalign(al, n); return *p ? 0 : ENOMEM; }

// ------------------------------------------------------------------ expressions
enum Op : unsigned char { OConst, OVar, OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OAnd, OOr, OXor, OShl, OLShr, OAShr, OEq, OUlt, OUle, OSlt, OSle, OConcat, OExtract, OZExt, OSExt, OIte };
static const unsigned MAXV = 512;
struct Expr {
  Op op; unsigned char w; bool mark; unsigned short lo; u32 id;
  Expr *a, *b, *c;
  u64 val;   // value under the current assignment
  u64 h;     // structural hash
  Z3_ast zbv, zbool;
  Expr *next;
  u32 ser;   // index in the serialized trace + 1
  u32 maxv;  // 1 + largest variable inside (0: none)
  u64 vs[MAXV / 64];
};
static unsigned HT = 1 << 12;  // solver processes switch to a larger table
static Expr *htab0[1 << 12]; static Expr **htab = htab0;
static u32 nexpr = 0;
static char *epool = nullptr; static size_t epool_left = 0; static void *pools[1 << 16]; static u32 npool = 0;
static inline u64 mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(u64 v, unsigned w) { if (w >= 64) return (int64_t)v; u64 m = 1ull << (w - 1); return (int64_t)(((v & mask(w)) ^ m) - m); }
static u64 mix(u64 h, u64 x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h; }
static u64 evalop(Op op, unsigned w, unsigned wa, u64 a, u64 b, u64 c, unsigned wb, unsigned lo) {
  u64 m = mask(w);
  switch (op) {
  case OAdd: return (a + b) & m;
  case OSub: return (a - b) & m;
  case OMul: return (a * b) & m;
  case OUDiv: return b ? (a / b) & m : m;
  case OURem: return b ? (a % b) & m : a;
  case OSDiv: { int64_t x = sx(a, w), y = sx(b, w); if (y == 0) return (x < 0 ? 1 : m) & m; if (y == -1) return (-(u64)x) & m; return (u64)(x / y) & m; }
  case OSRem: { int64_t x = sx(a, w), y = sx(b, w); if (y == 0) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
  case OAnd: return a & b;
  case OOr: return a | b;
  case OXor: return a ^ b;
  case OShl: return b >= w ? 0 : (a << b) & m;
  case OLShr: return b >= w ? 0 : (a >> b);
  case OAShr: { int64_t x = sx(a, w); return (u64)(b >= w ? (x < 0 ? -1 : 0) : (x >> b)) & m; }
  case OEq: return a == b;
  case OUlt: return a < b;
  case OUle: return a <= b;
  case OSlt: return sx(a, wa) < sx(b, wa);
  case OSle: return sx(a, wa) <= sx(b, wa);
  case OConcat: return ((a << wb) | b) & m;
  case OExtract: return (a >> lo) & m;
  case OZExt: return a;
  case OSExt: return (u64)sx(a, wa) & m;
  case OIte: return a ? b : c;
  default: return 0;
  }
}
static Expr *mkraw(Op op, unsigned w, Expr *a, Expr *b, Expr *c, unsigned lo, u64 val) {
  u64 h = mix(mix(mix(mix(mix(op * 131 + w, a ? a->h : 7), b ? b->h : 9), c ? c->h : 11), lo), op == OConst || op == OVar ? (op == OVar ? lo : val) : 0);
  unsigned k = h & (HT - 1);
  for (Expr *e = htab[k]; e; e = e->next)
    if (e->h == h && e->op == op && e->w == w && e->a == a && e->b == b && e->c == c && e->lo == lo && (op != OConst || e->val == val)) return e;
  RtGuard g;
  if (epool_left < sizeof(Expr)) { epool_left = sizeof(Expr) * 1024; epool = (char *)__libc_malloc(epool_left); if (npool < (1 << 16)) pools[npool++] = epool; }
  Expr *e = (Expr *)epool; epool += sizeof(Expr); epool_left -= sizeof(Expr);
  memset((void *)e, 0, sizeof *e);
  e->op = op; e->w = w; e->a = a; e->b = b; e->c = c; e->lo = lo; e->h = h; e->id = nexpr++;
  for (Expr *x : {a, b, c}) if (x) { if (x->maxv > e->maxv) e->maxv = x->maxv; }
  for (unsigned i = 0; i < (e->maxv + 63) / 64; i++) e->vs[i] = (a ? a->vs[i] : 0) | (b ? b->vs[i] : 0) | (c ? c->vs[i] : 0);
  if (op == OVar) { e->maxv = lo + 1; e->vs[lo / 64] |= 1ull << (lo % 64); }
  if (op == OConst || op == OVar) e->val = val;
  else e->val = evalop(op, w, a->w, a->val, b ? b->val : 0, c ? c->val : 0, b ? b->w : 0, lo);
  e->next = htab[k]; htab[k] = e;
  return e;
}
static Expr *K(u64 v, unsigned w) { return mkraw(OConst, w, 0, 0, 0, 0, v & mask(w)); }
static inline bool isK(Expr *e) { return e->op == OConst; }
static Expr *mkExtract(Expr *a, unsigned lo, unsigned w);
static Expr *mkConcat(Expr *a, Expr *b);
static Expr *mkIte(Expr *c, Expr *t, Expr *e);
static Expr *mkZExt(Expr *a, unsigned w) {
  if (a->w == w) return a;
  if (isK(a)) return K(a->val, w);
  if (a->op == OZExt) return mkZExt(a->a, w);
  if (a->op == OIte && isK(a->b) && isK(a->c)) return mkIte(a->a, K(a->b->val, w), K(a->c->val, w));
  return mkraw(OZExt, w, a, 0, 0, 0, 0);
}
static Expr *mkSExt(Expr *a, unsigned w) {
  if (a->w == w) return a;
  if (isK(a)) return K((u64)sx(a->val, a->w), w);
  if (a->op == OZExt && a->w > a->a->w) return mkZExt(a->a, w);
  if (a->op == OSExt) return mkSExt(a->a, w);
  if (a->op == OIte && isK(a->b) && isK(a->c)) return mkIte(a->a, K((u64)sx(a->b->val, a->w), w), K((u64)sx(a->c->val, a->w), w));
  return mkraw(OSExt, w, a, 0, 0, 0, 0);
}
static u64 maxval(Expr *e) {  // unsigned upper bound
  switch (e->op) {
  case OConst: return e->val;
  case OZExt: return maxval(e->a);
  case OIte: { u64 x = maxval(e->b), y = maxval(e->c); return x > y ? x : y; }
  case OAnd: { u64 x = maxval(e->a), y = maxval(e->b); return x < y ? x : y; }
  case OAdd: { if (e->w > 62) { } u64 x = maxval(e->a), y = maxval(e->b); u64 s; if (!__builtin_add_overflow(x, y, &s) && s <= mask(e->w)) return s; return mask(e->w); }
  default: return mask(e->w);
  }
}
static Expr *mkBin(Op op, Expr *a, Expr *b);
static Expr *mkNot(Expr *a) { return mkBin(OXor, a, K(1, 1)); }
static Expr *mkEq(Expr *a, Expr *b);
static Expr *mkCmp(Op op, Expr *a, Expr *b) {  // OUlt OUle OSlt OSle
  if (isK(a) && isK(b)) return K(evalop(op, 1, a->w, a->val, b->val, 0, 0, 0), 1);
  if (a == b) return K(op == OUle || op == OSle, 1);
  unsigned w = a->w;
  if (op == OUlt) {
    if (isK(b) && b->val == 0) return K(0, 1);
    if (isK(b) && b->val == 1) return mkEq(a, K(0, w));
    if (isK(a) && a->val == 0) return mkNot(mkEq(b, K(0, w)));
    if (isK(b) && maxval(a) < b->val) return K(1, 1);
    if (isK(a) && maxval(b) <= a->val) return K(0, 1);
  }
  if (op == OUle) {
    if (isK(a) && a->val == 0) return K(1, 1);
    if (isK(b) && b->val == mask(w)) return K(1, 1);
    if (isK(b) && b->val == 0) return mkEq(a, K(0, w));
    if (isK(b) && maxval(a) <= b->val) return K(1, 1);
    if (isK(a) && maxval(b) < a->val) return K(0, 1);
  }
  if (op == OSlt || op == OSle) {
    u64 half = 1ull << (w - 1);
    bool an = maxval(a) < half, bn = maxval(b) < half;
    if (an && bn) return mkCmp(op == OSlt ? OUlt : OUle, a, b);
    if (an && isK(b) && b->val >= half) return K(0, 1);
    if (bn && isK(a) && a->val >= half) return K(1, 1);
  }
  // compare of zero-extended values
  if ((op == OUlt || op == OUle) && a->op == OZExt && b->op == OZExt && a->a->w == b->a->w) return mkCmp(op, a->a, b->a);
  if ((op == OUlt || op == OUle) && a->op == OZExt && isK(b) && b->val <= mask(a->a->w)) return mkCmp(op, a->a, K(b->val, a->a->w));
  if ((op == OUlt || op == OUle) && b->op == OZExt && isK(a) && a->val <= mask(b->a->w)) return mkCmp(op, K(a->val, b->a->w), b->a);
  if ((op == OSlt || op == OSle) && a->op == OSExt && b->op == OSExt && a->a->w == b->a->w) return mkCmp(op, a->a, b->a);
  if (a->op == OIte && isK(a->b) && isK(a->c) && isK(b)) return mkIte(a->a, mkCmp(op, a->b, b), mkCmp(op, a->c, b));
  if (b->op == OIte && isK(b->b) && isK(b->c) && isK(a)) return mkIte(b->a, mkCmp(op, a, b->b), mkCmp(op, a, b->c));
  return mkraw(op, 1, a, b, 0, 0, 0);
}
static Expr *mkEq(Expr *a, Expr *b) {
  if (a == b) return K(1, 1);
  if (isK(a) && isK(b)) return K(a->val == b->val, 1);
  if (isK(a)) { Expr *t = a; a = b; b = t; }
  unsigned w = a->w;
  if (w == 1 && isK(b)) return b->val ? a : mkNot(a);
  if (isK(b)) {
    if (a->op == OZExt) { if (b->val > mask(a->a->w)) return K(0, 1); return mkEq(a->a, K(b->val, a->a->w)); }
    if (a->op == OSExt) { u64 t = b->val & mask(a->a->w); if (((u64)sx(t, a->a->w) & mask(w)) != b->val) return K(0, 1); return mkEq(a->a, K(t, a->a->w)); }
    if (a->op == OConcat) { Expr *hi = mkEq(a->a, K(b->val >> a->b->w, a->a->w)), *lo = mkEq(a->b, K(b->val, a->b->w)); return mkBin(OAnd, hi, lo); }
    if (a->op == OIte) {
      bool k1 = isK(a->b), k2 = isK(a->c);
      if (k1 && k2) { bool e1 = a->b->val == b->val, e2 = a->c->val == b->val; if (e1 && e2) return K(1, 1); if (e1) return a->a; if (e2) return mkNot(a->a); return K(0, 1); }
      if (k1) return a->b->val == b->val ? mkBin(OOr, a->a, mkEq(a->c, b)) : mkBin(OAnd, mkNot(a->a), mkEq(a->c, b));
      if (k2) return a->c->val == b->val ? mkBin(OOr, mkNot(a->a), mkEq(a->b, b)) : mkBin(OAnd, a->a, mkEq(a->b, b));
    }
    if (a->op == OAdd && isK(a->b)) return mkEq(a->a, K(b->val - a->b->val, w));
    if (a->op == OSub && isK(a->b)) return mkEq(a->a, K(b->val + a->b->val, w));
    if (a->op == OSub && b->val == 0) return mkEq(a->a, a->b);
    if (a->op == OXor && isK(a->b)) return mkEq(a->a, K(b->val ^ a->b->val, w));
    if (maxval(a) < b->val) return K(0, 1);
  }
  if (a->op == OZExt && b->op == OZExt && a->a->w == b->a->w) return mkEq(a->a, b->a);
  if (a->op == OSExt && b->op == OSExt && a->a->w == b->a->w) return mkEq(a->a, b->a);
  if (a->op == OAdd && b->op == OAdd && isK(a->b) && isK(b->b) && a->b == b->b) return mkEq(a->a, b->a);
  if (!isK(b) && a->h > b->h) { Expr *t = a; a = b; b = t; }
  return mkraw(OEq, 1, a, b, 0, 0, 0);
}
static Expr *mkBin(Op op, Expr *a, Expr *b) {
  if (op == OAnd && a->w == 1) {  // x != K1 and x == K2
    for (int t = 0; t < 2; t++) { Expr *n = t ? b : a, *q = t ? a : b;
      if (n->op == OXor && isK(n->b) && n->a->op == OEq && q->op == OEq && isK(q->b) && isK(n->a->b) && q->a == n->a->a) return q->b->val == n->a->b->val ? K(0, 1) : q; }
  }
  unsigned w = a->w;
  if (isK(a) && isK(b)) return K(evalop(op, w, w, a->val, b->val, 0, 0, 0), w);
  bool comm = op == OAdd || op == OMul || op == OAnd || op == OOr || op == OXor;
  if (comm && isK(a)) { Expr *t = a; a = b; b = t; }
  u64 m = mask(w);
  if (isK(b)) {
    u64 v = b->val;
    switch (op) {
    case OAdd: if (!v) return a; if (a->op == OAdd && isK(a->b)) return mkBin(OAdd, a->a, K(a->b->val + v, w));
      if (a->op == OIte && isK(a->b) && isK(a->c)) return mkIte(a->a, K(a->b->val + v, w), K(a->c->val + v, w)); break;
    case OSub: if (!v) return a; return mkBin(OAdd, a, K(0 - v, w));
    case OMul: if (!v) return b; if (v == 1) return a; if ((v & (v - 1)) == 0) return mkBin(OShl, a, K(__builtin_ctzll(v), w)); break;
    case OUDiv: if (v == 1) return a; if (v && (v & (v - 1)) == 0) return mkBin(OLShr, a, K(__builtin_ctzll(v), w)); break;
    case OURem: if (v == 1) return K(0, w); if (v && (v & (v - 1)) == 0) return mkBin(OAnd, a, K(v - 1, w)); if (maxval(a) < v) return a; break;
    case OSDiv: if (v == 1) return a; break;
    case OAnd: if (!v) return b; if (v == m) return a;
      if (a->op == OZExt && (v & mask(a->a->w)) == mask(a->a->w)) return a;
      if ((v & (v + 1)) == 0 && v) { unsigned k = __builtin_popcountll(v); return mkZExt(mkExtract(a, 0, k), w); }
      if (a->op == OAnd && isK(a->b)) return mkBin(OAnd, a->a, K(a->b->val & v, w));
      if (a->op == OIte && isK(a->b) && isK(a->c)) return mkIte(a->a, K(a->b->val & v, w), K(a->c->val & v, w)); break;
    case OOr: if (!v) return a; if (v == m) return b; break;
    case OXor: if (!v) return a; if (a->op == OXor && isK(a->b)) return mkBin(OXor, a->a, K(a->b->val ^ v, w));
      if (a->op == OIte && isK(a->b) && isK(a->c)) return mkIte(a->a, K(a->b->val ^ v, w), K(a->c->val ^ v, w)); break;
    case OShl: if (!v) return a; if (v >= w) return K(0, w); { Expr *x = mkExtract(a, 0, w - v); return mkConcat(x, K(0, v)); }
    case OLShr: if (!v) return a; if (v >= w) return K(0, w); return mkZExt(mkExtract(a, v, w - v), w);
    case OAShr: if (!v) return a; if (v < w) return mkSExt(mkExtract(a, v, w - v), w); break;
    default: break;
    }
  }
  if (isK(a) && a->val == 0 && (op == OShl || op == OLShr || op == OAShr)) return a;
  if (a == b) {
    if (op == OAnd || op == OOr) return a;
    if (op == OXor || op == OSub) return K(0, w);
  }
  if (w == 1) {
    if (op == OAnd && (mkraw(OXor, 1, a, K(1, 1), 0, 0, 0) == b || (a->op == OXor && isK(a->b) && a->a == b))) return K(0, 1);
    if (op == OOr && (mkraw(OXor, 1, a, K(1, 1), 0, 0, 0) == b || (a->op == OXor && isK(a->b) && a->a == b))) return K(1, 1);
    if (op == OAdd || op == OSub) return mkBin(OXor, a, b);
    if (op == OXor && !isK(b)) return mkNot(mkraw(OEq, 1, a->h < b->h ? a : b, a->h < b->h ? b : a, 0, 0, 0));
  }
  if ((op == OAnd || op == OOr || op == OXor) && a->op == OZExt && b->op == OZExt && a->a->w == b->a->w) return mkZExt(mkBin(op, a->a, b->a), w);
  if (op == OOr && a->op == OConcat && isK(a->b) && a->b->val == 0 && b->op == OZExt && b->a->w <= a->b->w) return mkConcat(a->a, mkZExt(b->a, a->b->w));
  if (op == OOr && b->op == OConcat && isK(b->b) && b->b->val == 0 && a->op == OZExt && a->a->w <= b->b->w) return mkConcat(b->a, mkZExt(a->a, b->b->w));
  if (comm && a->h > b->h && !isK(b)) { Expr *t = a; a = b; b = t; }
  return mkraw(op, w, a, b, 0, 0, 0);
}
static Expr *mkExtract(Expr *a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isK(a)) return K(a->val >> lo, w);
  if (a->op == OExtract) return mkExtract(a->a, a->lo + lo, w);
  if (a->op == OConcat) {
    unsigned lw = a->b->w;
    if (lo >= lw) return mkExtract(a->a, lo - lw, w);
    if (lo + w <= lw) return mkExtract(a->b, lo, w);
    return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
  }
  if (a->op == OZExt) {
    unsigned iw = a->a->w;
    if (lo >= iw) return K(0, w);
    if (lo + w <= iw) return mkExtract(a->a, lo, w);
    return mkZExt(mkExtract(a->a, lo, iw - lo), w);
  }
  if (a->op == OSExt && lo + w <= a->a->w) return mkExtract(a->a, lo, w);
  if (a->op == OSExt && lo == 0) return mkSExt(a->a, w);
  if (lo == 0 && (a->op == OAdd || a->op == OSub || a->op == OMul)) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
  if (a->op == OAnd || a->op == OOr || a->op == OXor) return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
  if (a->op == OIte) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
  return mkraw(OExtract, w, a, 0, 0, lo, 0);
}
static Expr *mkConcat(Expr *a, Expr *b) {
  if (isK(a) && isK(b)) return K((a->val << b->w) | b->val, a->w + b->w);
  if (isK(a) && a->val == 0) return mkZExt(b, a->w + b->w);
  if (a->op == OExtract && b->op == OExtract && a->a == b->a && a->lo == b->lo + b->w) return mkExtract(a->a, b->lo, a->w + b->w);
  if (a->op == OExtract && a->a == b && a->lo == b->w) { /* upper part of something whose lower part is b itself: not possible */ }
  if (b->op == OConcat && a->op == OExtract && b->a->op == OExtract && b->a->a == a->a && a->lo == b->a->lo + b->a->w) return mkConcat(mkExtract(a->a, b->a->lo, a->w + b->a->w), b->b);
  if (a->op == OIte && b->op == OIte && a->a == b->a) return mkIte(a->a, mkConcat(a->b, b->b), mkConcat(a->c, b->c));
  if (a->op == OZExt) return mkZExt(mkConcat(a->a, b), a->w + b->w);
  return mkraw(OConcat, a->w + b->w, a, b, 0, 0, 0);
}
static Expr *mkIte(Expr *c, Expr *t, Expr *e) {
  if (isK(c)) return c->val ? t : e;
  if (t == e) return t;
  if (c->op == OXor && isK(c->b)) return mkIte(c->a, e, t);
  if (t->w == 1) {
    if (isK(t) && isK(e)) return t->val ? c : mkNot(c);
    if (isK(t)) return t->val ? mkBin(OOr, c, e) : mkBin(OAnd, mkNot(c), e);
    if (isK(e)) return e->val ? mkBin(OOr, mkNot(c), t) : mkBin(OAnd, c, t);
  }
  if (t->op == OIte && t->a == c) t = t->b;
  if (e->op == OIte && e->a == c) e = e->c;
  if (t->op == OZExt && isK(e) && e->val <= mask(t->a->w)) return mkZExt(mkIte(c, t->a, K(e->val, t->a->w)), t->w);
  if (e->op == OZExt && isK(t) && t->val <= mask(e->a->w)) return mkZExt(mkIte(c, K(t->val, e->a->w), e->a), e->w);
  if (t->op == OZExt && e->op == OZExt && t->a->w == e->a->w) return mkZExt(mkIte(c, t->a, e->a), t->w);
  return mkraw(OIte, t->w, c, t, e, 0, 0);
}
static void pexpr(FILE *f, Expr *e, int d = 0) {
  static const char *n[] = {"const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "concat", "extract", "zext", "sext", "ite"};
  if (e->op == OConst) { fprintf(f, "%llu:%d", (unsigned long long)e->val, e->w); return; }
  if (e->op == OVar) { fprintf(f, "v%u:%d", e->lo, e->w); return; }
  if (d > 6) { fprintf(f, "..."); return; }
  fprintf(f, "(%s", n[e->op]); if (e->op == OExtract) fprintf(f, "@%d+%d", e->lo, e->w);
  for (Expr *x : {e->a, e->b, e->c}) if (x) { fprintf(f, " "); pexpr(f, x, d + 1); }
  fprintf(f, ")");
}

// ------------------------------------------------------------------ shared state between parent and children
struct Item { u32 bound, nvals; u64 pfx; u64 vals[]; };  // packed
static const unsigned MAXW = 64, MAXTAG = 256, MAXJOBVARS = MAXV;
struct SNode { unsigned char op, w; unsigned short lo; int a, b, c; u64 val; };
enum EvKind : unsigned char { EDom, EBranch, ESplit, EAssume, EAssumeFail, EAssert };
struct SEvent { unsigned char kind, fresh; unsigned short nvars; u32 nev; int e, lit; u64 before; int msg; };
struct Slot {
  volatile int phase;   // 0 free, 1 assigned, 5 path running, 6 path ended, 2 ready for the solver, 3 being solved, 4 solved
  volatile int pid, wstatus; u64 started;
  u32 in_bound, in_n; u64 in_pfx; u64 in_vals[MAXV];
  volatile int status;  // 0 running, 1 done, 2 assume-fail end, 3 violation, 4 engine error / inconclusive, 5 overdue, 6 killed
  char msg[2048];
  u32 nvars; u64 vals[MAXV]; int64_t logical[MAXV]; char names[MAXV][24];
  u64 path_us, path_sys, path_wall, flt, proc_ns; u64 queries, sat, unsat, unknown, cachehits, events, concs, solver_ns, asserts, asserts_symbolic, splits, obs_hash, obs_n;
  u32 nnodes, nevents, nmsgs; bool overflow;
  size_t used; u32 nitems;
  char msgs[64][160];
};
static const u32 MAXNODES = 4u << 20, MAXEVENTS = 1u << 20; static const size_t OUTSZ = 128ull << 20;
static const size_t OFF_NODES = (sizeof(Slot) + 4095) & ~4095ull, OFF_EV = OFF_NODES + sizeof(SNode) * (size_t)MAXNODES, OFF_OUT = OFF_EV + sizeof(SEvent) * (size_t)MAXEVENTS;
static const size_t SLOTSZ = OFF_OUT + OUTSZ;
static inline SNode *s_nodes(Slot *s) { return (SNode *)((char *)s + OFF_NODES); }
static inline SEvent *s_events(Slot *s) { return (SEvent *)((char *)s + OFF_EV); }
static inline char *s_out(Slot *s) { return (char *)s + OFF_OUT; }
static Slot *slot = nullptr;
struct Shared {
  char tags[MAXTAG][48]; volatile u32 ntags; volatile u64 tagcount[MAXTAG];
  char natives[64][64]; volatile u32 nnatives;
};
static Shared *shared = nullptr;
static u64 *ucache = nullptr; static const u64 UC = 1ull << 20;  // 128-bit keys
static bool active = false;  // inside a path
static unsigned char covdummy[1 << 16];
static unsigned char *covbase = covdummy;
EXPORT unsigned char *__sx_cov; unsigned char *__sx_cov = covdummy;
EXPORT void *__sx_args[64]; void *__sx_args[64];
EXPORT void *__sx_callee; void *__sx_callee;
EXPORT void *__sx_ret[16]; void *__sx_ret[16];
EXPORT void *__sx_rettok; void *__sx_rettok;
extern "C" void *const __sx_fntab[]; extern "C" const u64 __sx_nfn; extern "C" const char __sx_covnames[]; extern "C" const u64 __sx_ncov;

static void finish(int st) { if (slot) slot->status = st; _exit(0); }
static void die(const char *fmt, ...) {
  RtGuard g; va_list ap; va_start(ap, fmt);
  if (slot) { vsnprintf(slot->msg, sizeof slot->msg, fmt, ap); finish(4); }
  vfprintf(stderr, fmt, ap); fprintf(stderr, "\n"); _exit(97);
}
static void violation(const char *fmt, ...) {
  RtGuard g; va_list ap; va_start(ap, fmt);
  if (!slot) { vfprintf(stderr, fmt, ap); fprintf(stderr, " (outside a path)\n"); _exit(96); }
  vsnprintf(slot->msg, sizeof slot->msg, fmt, ap);
  finish(3);
}

// ------------------------------------------------------------------ shadow memory
typedef Expr *SPage[4096];
static SPage **sl1[1 << 12];  // indexed by addr>>36 (48 bit addresses): -> 2^12 tables (addr>>24) -> need 3 levels
static SPage *sget(u64 a, bool create) {
  u64 i1 = (a >> 36) & 4095, i2 = (a >> 24) & 4095, i3 = (a >> 12) & 4095;
  SPage **&t1 = sl1[i1];
  if (!t1) { if (!create) return nullptr; RtGuard g; t1 = (SPage **)__libc_calloc(4096, sizeof(SPage *)); }
  SPage **t2 = (SPage **)t1[i2];
  if (!t2) { if (!create) return nullptr; RtGuard g; t2 = (SPage **)__libc_calloc(4096, sizeof(SPage *)); t1[i2] = (SPage *)t2; }
  SPage *p = t2[i3];
  if (!p && create) { RtGuard g; p = (SPage *)__libc_calloc(1, sizeof(SPage)); t2[i3] = p; }
  return p;
}
static u64 shadow_pages = 0;
static void shadow_clear(u64 a, u64 n) {
  if (!active) return;
  u64 e = a + n;
  while (a < e) {
    u64 pe = (a | 4095) + 1; if (pe > e) pe = e;
    SPage *p = sget(a, false);
    if (p) memset(&(*p)[a & 4095], 0, (pe - a) * sizeof(Expr *));
    a = pe;
  }
}
static inline Expr *shadow_byte(u64 a) {
  SPage *p = sget(a, false);
  if (!p) return nullptr;
  Expr *e = (*p)[a & 4095];
  if (e && e->val != *(unsigned char *)a) { (*p)[a & 4095] = nullptr; return nullptr; }  // overwritten by native code
  return e;
}
static inline void shadow_set(u64 a, Expr *e) {
  SPage *p = sget(a, e != nullptr);
  if (p) (*p)[a & 4095] = (e && !isK(e)) ? e : nullptr;
}

// ------------------------------------------------------------------ solver
static Z3_context zc; static Z3_solver zs; static bool zinit = false;
static void zerr(Z3_context c, Z3_error_code e) { die("z3 error %s", Z3_get_error_msg(c, e)); }
static void solver_init() {
  RtGuard g;
  Z3_global_param_set("memory_max_size", "6000");
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  zc = Z3_mk_context(cfg);
  Z3_del_config(cfg);
  Z3_set_error_handler(zc, zerr);
  zs = getenv("SYMX_QFBV") ? Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_BV")) : Z3_mk_simple_solver(zc);
  Z3_solver_inc_ref(zc, zs);
  Z3_params ps = Z3_mk_params(zc); Z3_params_inc_ref(zc, ps);
  Z3_params_set_uint(zc, ps, Z3_mk_string_symbol(zc, "rlimit"), getenv("SYMX_RLIMIT") ? atoi(getenv("SYMX_RLIMIT")) : 200000000u);
  Z3_params_set_uint(zc, ps, Z3_mk_string_symbol(zc, "random_seed"), getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 1);
  Z3_solver_set_params(zc, zs, ps);
  zinit = true;
  // warm up: lets the solver's lazily built tables exist before children are forked
  for (int t = 0; t < 3; t++) {
    Z3_sort b8 = Z3_mk_bv_sort(zc, 8);
    Z3_ast x = Z3_mk_const(zc, Z3_mk_int_symbol(zc, 100000), b8), y = Z3_mk_const(zc, Z3_mk_int_symbol(zc, 100001), b8);
    Z3_solver_reset(zc, zs);
    Z3_solver_assert(zc, zs, Z3_mk_bvult(zc, x, y));
    Z3_solver_assert(zc, zs, Z3_mk_eq(zc, Z3_mk_bvadd(zc, x, y), Z3_mk_unsigned_int64(zc, 7, b8)));
    if (Z3_solver_check(zc, zs) == Z3_L_TRUE) { Z3_model m = Z3_solver_get_model(zc, zs); Z3_model_inc_ref(zc, m); Z3_ast v; Z3_model_eval(zc, m, x, true, &v); Z3_model_dec_ref(zc, m); }
  }
  Z3_solver_reset(zc, zs);
}
static Expr *varexpr[MAXV]; static unsigned nvars = 0;
static Z3_ast zbv(Expr *e);
static Z3_ast zbool(Expr *e) {
  if (e->zbool) return e->zbool;
  Z3_ast r;
  switch (e->op) {
  case OConst: r = e->val ? Z3_mk_true(zc) : Z3_mk_false(zc); break;
  case OEq: if (e->a->w == 1) r = Z3_mk_iff(zc, zbool(e->a), zbool(e->b)); else r = Z3_mk_eq(zc, zbv(e->a), zbv(e->b)); break;
  case OUlt: r = Z3_mk_bvult(zc, zbv(e->a), zbv(e->b)); break;
  case OUle: r = Z3_mk_bvule(zc, zbv(e->a), zbv(e->b)); break;
  case OSlt: r = Z3_mk_bvslt(zc, zbv(e->a), zbv(e->b)); break;
  case OSle: r = Z3_mk_bvsle(zc, zbv(e->a), zbv(e->b)); break;
  case OAnd: { Z3_ast x[2] = {zbool(e->a), zbool(e->b)}; r = Z3_mk_and(zc, 2, x); break; }
  case OOr: { Z3_ast x[2] = {zbool(e->a), zbool(e->b)}; r = Z3_mk_or(zc, 2, x); break; }
  case OXor: if (isK(e->b) && e->b->val) r = Z3_mk_not(zc, zbool(e->a)); else r = Z3_mk_xor(zc, zbool(e->a), zbool(e->b)); break;
  case OIte: r = Z3_mk_ite(zc, zbool(e->a), zbool(e->b), zbool(e->c)); break;
  default: r = Z3_mk_eq(zc, zbv(e), Z3_mk_unsigned_int64(zc, 1, Z3_mk_bv_sort(zc, 1))); break;
  }
  return e->zbool = r;
}
static Z3_ast zbv(Expr *e) {
  if (e->zbv) return e->zbv;
  Z3_ast r = nullptr;
  switch (e->op) {
  case OConst: r = Z3_mk_unsigned_int64(zc, e->val, Z3_mk_bv_sort(zc, e->w)); break;
  case OVar: r = Z3_mk_const(zc, Z3_mk_int_symbol(zc, e->lo), Z3_mk_bv_sort(zc, e->w)); break;
  case OAdd: r = Z3_mk_bvadd(zc, zbv(e->a), zbv(e->b)); break;
  case OSub: r = Z3_mk_bvsub(zc, zbv(e->a), zbv(e->b)); break;
  case OMul: r = Z3_mk_bvmul(zc, zbv(e->a), zbv(e->b)); break;
  case OUDiv: r = Z3_mk_bvudiv(zc, zbv(e->a), zbv(e->b)); break;
  case OSDiv: r = Z3_mk_bvsdiv(zc, zbv(e->a), zbv(e->b)); break;
  case OURem: r = Z3_mk_bvurem(zc, zbv(e->a), zbv(e->b)); break;
  case OSRem: r = Z3_mk_bvsrem(zc, zbv(e->a), zbv(e->b)); break;
  case OShl: r = Z3_mk_bvshl(zc, zbv(e->a), zbv(e->b)); break;
  case OLShr: r = Z3_mk_bvlshr(zc, zbv(e->a), zbv(e->b)); break;
  case OAShr: r = Z3_mk_bvashr(zc, zbv(e->a), zbv(e->b)); break;
  case OConcat: r = Z3_mk_concat(zc, zbv(e->a), zbv(e->b)); break;
  case OExtract: r = Z3_mk_extract(zc, e->lo + e->w - 1, e->lo, zbv(e->a)); break;
  case OZExt: r = Z3_mk_zero_ext(zc, e->w - e->a->w, zbv(e->a)); break;
  case OSExt: r = Z3_mk_sign_ext(zc, e->w - e->a->w, zbv(e->a)); break;
  case OIte: r = Z3_mk_ite(zc, zbool(e->a), zbv(e->b), zbv(e->c)); break;
  case OAnd: if (e->w > 1) r = Z3_mk_bvand(zc, zbv(e->a), zbv(e->b)); break;
  case OOr: if (e->w > 1) r = Z3_mk_bvor(zc, zbv(e->a), zbv(e->b)); break;
  case OXor: if (e->w > 1) r = Z3_mk_bvxor(zc, zbv(e->a), zbv(e->b)); break;
  default: break;
  }
  if (!r) { Z3_sort s = Z3_mk_bv_sort(zc, 1); r = Z3_mk_ite(zc, zbool(e), Z3_mk_unsigned_int64(zc, 1, s), Z3_mk_unsigned_int64(zc, 0, s)); }
  return e->zbv = r;
}
// path condition: literals as expressions known to be true
static Expr **pc; static u32 npc = 0, cappc = 0;
static const u32 KH = 1 << 9;
struct KN { Expr *e; KN *next; }; static KN *known[KH];
static bool isKnown(Expr *e) { for (KN *k = known[e->h & (KH - 1)]; k; k = k->next) if (k->e == e) return true; return false; }
static void addPC(Expr *e) {
  if (isK(e)) return;
  if (isKnown(e)) return;
  RtGuard g;
  if (npc == cappc) { cappc = cappc ? cappc * 2 : 256; pc = (Expr **)__libc_realloc(pc, cappc * sizeof *pc); }
  pc[npc++] = e;
  KN *k = (KN *)__libc_malloc(sizeof(KN)); k->e = e; k->next = known[e->h & (KH - 1)]; known[e->h & (KH - 1)] = k;
  if (e->op == OAnd && e->w == 1) { /* conjunction: both parts known */ 
    for (Expr *x : {e->a, e->b}) if (!isKnown(x)) { KN *q = (KN *)__libc_malloc(sizeof(KN)); q->e = x; q->next = known[x->h & (KH - 1)]; known[x->h & (KH - 1)] = q; }
  }
}
static u64 nowns() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ull + t.tv_nsec; }
// is PC and c satisfiable?  on sat, model in mvals (for all variables)
static u64 mvals[MAXV]; static u32 nasserted = 0; static int incr = 0;
static int query(Expr **extra, unsigned nextra) {
  RtGuard g;
  u64 t0 = nowns();
  // slice
  u64 vs[MAXV / 64]; memset(vs, 0, sizeof vs);
  for (unsigned i = 0; i < nextra; i++) for (unsigned k = 0; k < MAXV / 64; k++) vs[k] |= extra[i]->vs[k];
  static Expr **sl = nullptr; static u32 capsl = 0;
  if (capsl < npc + 8) { capsl = npc * 2 + 64; sl = (Expr **)__libc_realloc(sl, capsl * sizeof *sl); }
  u32 nsl = 0;
  for (u32 i = 0; i < npc; i++) pc[i]->mark = false;
  bool ch = true;
  while (ch) {
    ch = false;
    for (u32 i = 0; i < npc; i++) if (!pc[i]->mark) {
      bool hit = false;
      for (unsigned k = 0; k < MAXV / 64; k++) if (pc[i]->vs[k] & vs[k]) { hit = true; break; }
      if (hit) { pc[i]->mark = true; sl[nsl++] = pc[i]; for (unsigned k = 0; k < MAXV / 64; k++) { if (pc[i]->vs[k] & ~vs[k]) ch = true; vs[k] |= pc[i]->vs[k]; } }
    }
  }
  // order independent key
  u64 k1 = 0, k2 = 0x1234567;
  for (u32 i = 0; i < nsl; i++) { k1 += sl[i]->h * 0x9e3779b97f4a7c15ull; k2 ^= mix(sl[i]->h, 77); k2 += sl[i]->h >> 7; }
  for (u32 i = 0; i < nextra; i++) { k1 += mix(extra[i]->h, 5); k2 += mix(extra[i]->h, 1001); }
  if (!k1) k1 = 1;
  u64 ix = (k1 ^ (k2 >> 11)) & (UC - 1);
  for (int t = 0; t < 4; t++) { u64 *c = ucache + 2 * ((ix + t) & (UC - 1)); if (c[0] == k1 && c[1] == k2) { slot->cachehits++; return 0; } }
  if (incr) {
    if (nasserted == 0) Z3_solver_reset(zc, zs);
    for (; nasserted < npc; nasserted++) Z3_solver_assert(zc, zs, zbool(pc[nasserted]));
    Z3_solver_push(zc, zs);
  } else {
  Z3_solver_reset(zc, zs);
  for (u32 i = 0; i < nsl; i++) Z3_solver_assert(zc, zs, zbool(sl[i]));
  }
  for (unsigned i = 0; i < nextra; i++) Z3_solver_assert(zc, zs, zbool(extra[i]));
  Z3_lbool r = Z3_solver_check(zc, zs);
  slot->queries++;
  int res = -1;
  if (r == Z3_L_TRUE) {
    slot->sat++; res = 1;
    Z3_model m = Z3_solver_get_model(zc, zs); Z3_model_inc_ref(zc, m);
    for (unsigned i = 0; i < nvars; i++) {
      mvals[i] = slot->vals[i];
      if (vs[i / 64] >> (i % 64) & 1) {
        Z3_ast v; uint64_t x = 0;
        if (Z3_model_eval(zc, m, zbv(varexpr[i]), true, &v) && Z3_get_numeral_uint64(zc, v, &x)) mvals[i] = x;
        else die("model value not numeral");
      }
    }
    Z3_model_dec_ref(zc, m);
  } else if (r == Z3_L_FALSE) {
    slot->unsat++; res = 0;
    for (int t = 0; t < 4; t++) { u64 *c = ucache + 2 * ((ix + t) & (UC - 1)); if (!c[0]) { c[1] = k2; __sync_synchronize(); c[0] = k1; break; } }
  } else { slot->unknown++; }
  if (incr) Z3_solver_pop(zc, zs, 1);
  slot->solver_ns += nowns() - t0;
  return res;
}
// ------------------------------------------------------------------ events
static u32 nev = 0, bound = 0; static u64 pfx = 0, want_pfx = 0;
static u64 maxev = 2000000;
static u64 evhash(u64 p, Expr *lit) { return mix(p, lit->h); }
static void emit(u32 nv, u32 bnd, u64 pf) {
  size_t need = sizeof(Item) + nv * 8;
  if (slot->used + need > OUTSZ) die("item buffer full");
  Item *it = (Item *)(s_out(slot) + slot->used);
  it->bound = bnd; it->nvals = nv; it->pfx = pf;
  memcpy(it->vals, mvals, nv * 8);
  slot->used += need; slot->nitems++;
}
// ---- trace written by the path process, read by a solver process
static int ser(Expr *e) {
  if (e->ser) return e->ser - 1;
  int a = e->a ? ser(e->a) : -1, b = e->b ? ser(e->b) : -1, c = e->c ? ser(e->c) : -1;
  if (slot->nnodes >= MAXNODES) die("trace too large (expressions)");
  SNode &n = s_nodes(slot)[slot->nnodes];
  n.op = e->op; n.w = e->w; n.lo = e->lo; n.a = a; n.b = b; n.c = c; n.val = e->op == OConst ? e->val : 0;
  e->ser = ++slot->nnodes;
  return e->ser - 1;
}
static void log_event(EvKind k, bool fresh, Expr *e, Expr *lit, u64 before, const char *msg = nullptr) {
  if (slot->nevents >= MAXEVENTS) die("trace too large (events)");
  SEvent v; v.kind = k; v.fresh = fresh; v.nvars = slot->nvars; v.nev = nev; v.before = before; v.e = e ? ser(e) : -1; v.lit = ser(lit); v.msg = -1;
  if (msg) {
    for (u32 i = 0; i < slot->nmsgs; i++) if (!strncmp(slot->msgs[i], msg, 159)) v.msg = i;
    if (v.msg < 0 && slot->nmsgs < 64) { strncpy(slot->msgs[slot->nmsgs], msg, 159); v.msg = slot->nmsgs++; }
  }
  s_events(slot)[slot->nevents++] = v;
}
static bool step_event(Expr *lit) {  // returns true if this event is new (alternatives must be examined)
  slot->events++;
  if (nev > maxev) die("too many branch events on one path (%u)", nev);
  u64 np = evhash(pfx, lit);
  nev++;
  bool fresh = nev > bound;
  if (nev == bound && np != want_pfx) die("divergence: path prefix differs from the one predicted (event %u)", nev);
  pfx = np;
  return fresh;
}
static void do_branch(Expr *c, bool taken) {
  if (isK(c)) return;
  while (c->op == OXor && isK(c->b)) { c = c->a; taken = !taken; }
  Expr *lit = taken ? c : mkNot(c), *neg = taken ? mkNot(c) : c;
  if (isKnown(lit)) return;
  u64 before = pfx;
  bool fresh = step_event(lit);
  log_event(EBranch, fresh && !isKnown(neg), neg, lit, before);
  addPC(lit);
}
static u32 maxconc = 100000;
static void do_concretize(Expr *e) {
  if (!e || isK(e)) return;
  Expr *lit = mkEq(e, K(e->val, e->w));
  if (isK(lit)) return;
  if (isKnown(lit)) return;
  u64 before = pfx;
  slot->concs++;
  bool fresh = step_event(lit);
  log_event(ESplit, fresh, e, lit, before);
  addPC(lit);
}
struct EvM { u32 id; u64 v; }; static u64 *evv = nullptr; static u32 *evs = nullptr; static u32 evcap = 0, evstamp = 0;
static u64 evrec(Expr *e) {
  if (e->op == OConst) return e->val;
  if (e->op == OVar) return mvals[e->lo];
  if (e->id < evcap && evs[e->id] == evstamp) return evv[e->id];
  u64 a = evrec(e->a), b = e->b ? evrec(e->b) : 0, c = e->c ? evrec(e->c) : 0;
  u64 r = evalop(e->op, e->w, e->a->w, a, b, c, e->b ? e->b->w : 0, e->lo);
  if (e->id < evcap) { evs[e->id] = evstamp; evv[e->id] = r; }
  return r;
}
u64 evalm(Expr *e) {
  RtGuard g;
  if (evcap < nexpr) { evcap = nexpr * 2 + 1024; evv = (u64 *)__libc_realloc(evv, evcap * 8); __libc_free(evs); evs = (u32 *)__libc_calloc(evcap, 4); evstamp = 0; }
  evstamp++;
  return evrec(e);
}

// ------------------------------------------------------------------ instrumentation entry points
#define CHK(e, v) do { if ((e) && (e)->val != ((v) & mask((e)->w))) mismatch(e, v, __func__); } while (0)
static void mismatch(Expr *e, u64 v, const char *where) {
  RtGuard g;
  pexpr(stderr, e); fprintf(stderr, "\n");
  die("engine mismatch in %s: shadow %llx native %llx", where, (unsigned long long)e->val, (unsigned long long)v);
}
static inline Expr *opnd(Expr *s, u64 v, unsigned w) { return s ? s : K(v, w); }
static const Op llop[] = {};
static Op mapop(u32 op) {
  // LLVM 18 Instruction opcodes: Add=13 FAdd=14 Sub=15 FSub=16 Mul=17 FMul=18 UDiv=19 SDiv=20 FDiv=21 URem=22 SRem=23 FRem=24 Shl=25 LShr=26 AShr=27 And=28 Or=29 Xor=30
  switch (op) {
  case 13: return OAdd; case 15: return OSub; case 17: return OMul; case 19: return OUDiv; case 20: return OSDiv; case 22: return OURem; case 23: return OSRem;
  case 25: return OShl; case 26: return OLShr; case 27: return OAShr; case 28: return OAnd; case 29: return OOr; case 30: return OXor;
  }
  die("bad opcode %u", op); return OAdd;
}
EXPORT Expr *__sx_bin(u32 op, u32 w, Expr *sa, Expr *sb, u64 a, u64 b) {
  if (!sa && !sb) return nullptr;
  CHK(sa, a); CHK(sb, b);
  Op o = mapop(op);
  Expr *x = opnd(sa, a, w), *y = opnd(sb, b, w);
  if (o == OUDiv || o == OSDiv || o == OURem || o == OSRem) {
    if (sb) { Expr *nz = mkNot(mkEq(sb, K(0, w))); if (!nz->val) violation("division by zero"); do_branch(nz, true); }
  }
  Expr *r = mkBin(o, x, y);
  return isK(r) ? nullptr : r;
}
EXPORT Expr *__sx_cmp(u32 pred, u32 w, Expr *sa, Expr *sb, u64 a, u64 b) {
  if (!sa && !sb) return nullptr;
  CHK(sa, a); CHK(sb, b);
  Expr *x = opnd(sa, a, w), *y = opnd(sb, b, w), *r;
  switch (pred) {
  case 32: r = mkEq(x, y); break;
  case 33: r = mkNot(mkEq(x, y)); break;
  case 34: r = mkCmp(OUlt, y, x); break;
  case 35: r = mkCmp(OUle, y, x); break;
  case 36: r = mkCmp(OUlt, x, y); break;
  case 37: r = mkCmp(OUle, x, y); break;
  case 38: r = mkCmp(OSlt, y, x); break;
  case 39: r = mkCmp(OSle, y, x); break;
  case 40: r = mkCmp(OSlt, x, y); break;
  case 41: r = mkCmp(OSle, x, y); break;
  default: die("bad predicate"); return nullptr;
  }
  return isK(r) ? nullptr : r;
}
EXPORT Expr *__sx_cast(u32 op, u32 ws, u32 wd, Expr *s) {  // Trunc=38 ZExt=39 SExt=40
  if (!s) return nullptr;
  Expr *r;
  if (op == 38) r = mkExtract(s, 0, wd);
  else if (op == 39) r = mkZExt(s, wd);
  else if (op == 40) r = mkSExt(s, wd);
  else { die("bad cast %u", op); return nullptr; }
  return isK(r) ? nullptr : r;
}
EXPORT void __sx_concretize(Expr *s, u64 v) { if (s) { do_concretize(s); } }
EXPORT Expr *__sx_extract(Expr *s, u32 lo, u32 w, u64 whole) { if (!s) return nullptr; Expr *r = mkExtract(s, lo, w); return isK(r) ? nullptr : r; }
EXPORT Expr *__sx_concat(Expr *hi, Expr *lo, u32 wh, u32 wl, u64 vh, u64 vl) { if (!hi && !lo) return nullptr; Expr *r = mkConcat(opnd(hi, vh, wh), opnd(lo, vl, wl)); return isK(r) ? nullptr : r; }
EXPORT Expr *__sx_gep(Expr *sb, u64 base, Expr *si, u64 idx, u64 scale) {
  if (!sb && !si) return nullptr;
  Expr *b = opnd(sb, base, 64), *i = opnd(si, idx, 64);
  Expr *r = mkBin(OAdd, b, mkBin(OMul, i, K(scale, 64)));
  return isK(r) ? nullptr : r;
}
EXPORT Expr *__sx_select(u32 w, Expr *sc, u64 c, Expr *sa, u64 a, Expr *sb, u64 b) {
  if (!sc) return c ? sa : sb;
  CHK(sc, c & 1);
  Expr *x = opnd(sa, a, w), *y = opnd(sb, b, w);
  Expr *r = mkIte(sc, x, y);
  return isK(r) ? nullptr : r;
}
EXPORT void __sx_branch(Expr *s, u64 v, u32 site) {
  if (!s) return;
  CHK(s, v & 1);
  do_branch(s, v & 1);
}
static void oob(u64 a, u64 n, const char *what) {
  unsigned char s = ash(a);
  violation("%s of %llu bytes at %s heap memory", what, (unsigned long long)n, s == 0x80 ? "freed" : "out-of-bounds");
}
static inline void memchk(u64 a, u64 n, const char *what) {
  if (__builtin_expect(!in_arena(a), 1)) return;
  if (in_rt) return;
  u64 off = a & 7;
  unsigned char s = ash(a);
  if (n <= 8 && off + n <= 8) { if (s == 0x80 || s < off + n) oob(a, n, what); return; }
  if (s == 0x80 || s < 8) oob(a, n, what);
  for (u64 p = (a & ~7ull) + 8; p < a + n; p += 8) { u64 left = a + n - p; s = ash(p); if (s == 0x80 || s < (left < 8 ? left : 8)) oob(p, n, what); }
}
EXPORT Expr *__sx_load(Expr *sa, void *p, u32 n, u32 w) {
  u64 a = (u64)p;
  if (sa) { do_concretize(sa); }
  memchk(a, n, "read");
  SPage *pg = sget(a, false);
  bool cross = (a & 4095) + n > 4096;
  if (!pg && !cross) return nullptr;
  Expr *by[16]; bool any = false;
  if (n > 16) return nullptr;
  if (!cross) {
    Expr **q = &(*pg)[a & 4095];
    bool some = false;
    for (u32 i = 0; i < n; i++) if (q[i]) { some = true; break; }
    if (!some) return nullptr;
  }
  for (u32 i = 0; i < n; i++) { by[i] = shadow_byte(a + i); if (by[i]) any = true; }
  if (!any) return nullptr;
  if (w > 64) { for (u32 i = 0; i < n; i++) if (by[i]) do_concretize(by[i]); return nullptr; }
  Expr *r = nullptr;
  for (u32 i = 0; i < n; i++) { Expr *b = by[i] ? by[i] : K(((unsigned char *)a)[i], 8); r = r ? mkConcat(b, r) : b; }
  if (r->w > w) r = mkExtract(r, 0, w);
  return isK(r) ? nullptr : r;
}
EXPORT void __sx_store(Expr *sa, void *p, Expr *s, u32 n, u64 w) {
  u64 a = (u64)p;
  if (sa) do_concretize(sa);
  memchk(a, n, "write");
  if (!s) {
    SPage *pg = sget(a, false);
    if (!pg && (a & 4095) + n <= 4096) return;
    for (u32 i = 0; i < n; i++) shadow_set(a + i, nullptr);
    return;
  }
  if (w > 64) { do_concretize(s); shadow_clear(a, n); return; }
  if (s->w < n * 8) s = mkZExt(s, n * 8);
  for (u32 i = 0; i < n; i++) shadow_set(a + i, mkExtract(s, i * 8, 8));
}
EXPORT void __sx_clear(void *p, u64 n) { shadow_clear((u64)p, n); }
EXPORT void __sx_memcpy(Expr *sd, void *d, Expr *ss, void *s, Expr *sn, u64 n) {
  if (sd) do_concretize(sd);
  if (ss) do_concretize(ss);
  if (sn) do_concretize(sn);
  if (!n) return;
  memchk((u64)s, n, "read"); memchk((u64)d, n, "write");
  if (!active) return;
  u64 a = (u64)d, b = (u64)s;
  bool any = false;
  for (u64 x = b & ~4095ull; x < b + n; x += 4096) if (sget(x, false)) any = true;
  if (!any) { shadow_clear(a, n); return; }
  RtGuard g;
  Expr **t = (Expr **)__libc_malloc(n * sizeof *t);
  for (u64 i = 0; i < n; i++) t[i] = shadow_byte(b + i);
  for (u64 i = 0; i < n; i++) shadow_set(a + i, t[i]);
  __libc_free(t);
}
EXPORT void __sx_memset(Expr *sd, void *d, Expr *sv, u64 v, Expr *sn, u64 n) {
  if (sd) do_concretize(sd);
  if (sn) do_concretize(sn);
  if (!n) return;
  memchk((u64)d, n, "write");
  if (!active) return;
  if (!sv) { shadow_clear((u64)d, n); return; }
  Expr *b = mkExtract(sv, 0, 8);
  for (u64 i = 0; i < n; i++) shadow_set((u64)d + i, b);
}
EXPORT void __sx_byval(void *d, void *s, u64 n) { if (!s || !active) return; __sx_memcpy(nullptr, d, nullptr, s, nullptr, n); }
EXPORT Expr *__sx_minmax(u32 kind, u32 w, Expr *sa, Expr *sb, u64 a, u64 b) {
  if (!sa && !sb) return nullptr;
  Expr *x = opnd(sa, a, w), *y = opnd(sb, b, w), *r = nullptr;
  switch (kind) {
  case 0: r = mkIte(mkCmp(OUlt, x, y), x, y); break;
  case 1: r = mkIte(mkCmp(OUlt, x, y), y, x); break;
  case 2: r = mkIte(mkCmp(OSlt, x, y), x, y); break;
  case 3: r = mkIte(mkCmp(OSlt, x, y), y, x); break;
  case 4: r = mkIte(mkCmp(OUlt, x, y), K(0, w), mkBin(OSub, x, y)); break;
  case 5: { Expr *s = mkBin(OAdd, x, y); r = mkIte(mkCmp(OUlt, s, x), K(~0ull, w), s); break; }
  case 6: r = mkIte(mkCmp(OSlt, x, K(0, w)), mkBin(OSub, K(0, w), x), x); break;
  }
  return isK(r) ? nullptr : r;
}
EXPORT Expr *__sx_ovf(u32 op, u32 w, Expr *sa, Expr *sb, Expr *r, u64 a, u64 b, u64 sg) {
  if (!sa && !sb) return nullptr;
  Expr *x = opnd(sa, a, w), *y = opnd(sb, b, w), *o;
  if (op == 17) {
    if (w > 32) { do_concretize(x); do_concretize(y); return nullptr; }
    Expr *X = sg ? mkSExt(x, 64) : mkZExt(x, 64), *Y = sg ? mkSExt(y, 64) : mkZExt(y, 64);
    Expr *P = mkBin(OMul, X, Y), *T = mkExtract(P, 0, w);
    o = mkNot(mkEq(P, sg ? mkSExt(T, 64) : mkZExt(T, 64)));
  } else {
    Expr *s = mkBin(op == 13 ? OAdd : OSub, x, y);
    if (!sg) o = op == 13 ? mkCmp(OUlt, s, x) : mkCmp(OUlt, x, y);
    else if (op == 13) o = mkExtract(mkBin(OAnd, mkBin(OXor, x, s), mkBin(OXor, y, s)), w - 1, 1);
    else o = mkExtract(mkBin(OAnd, mkBin(OXor, x, y), mkBin(OXor, x, s)), w - 1, 1);
  }
  return isK(o) ? nullptr : o;
}
// ---- native calls
static void note_native(const char *nm) {
  if (!shared) return;
  for (u32 i = 0; i < shared->nnatives; i++) if (!strncmp(shared->natives[i], nm, 63)) return;
  u32 k = __sync_fetch_and_add(&shared->nnatives, 1);
  if (k < 64) strncpy(shared->natives[k], nm, 63); else shared->nnatives = 64;
}
static u64 conc_range(u64 a, u64 n, const char *nm) {
  u64 c = 0;
  for (u64 i = 0; i < n; i++) { Expr *e = shadow_byte(a + i); if (e) { c++; if (nm) note_native(nm); do_concretize(e); } }
  return c;
}
static bool page_sym(u64 a) { return sget(a, false) != nullptr; }
static void conc_reach(u64 a, int depth, const char *nm) {
  if (a < 4096 || a >= 0x7fffffffffffull) return;
  u64 n = 64;
  if (in_arena(a)) {
    // extent up to the end of the block
    n = 0; while (n < 4096) { unsigned char s = ash(a + n); if (s == 0x80 || s == 0) break; u64 off = (a + n) & 7; if (s <= off) break; n += s - off; if (s < 8) break; }
  } else { if (!page_sym(a) && !page_sym(a + 63)) { if (depth <= 0) return; } }
  conc_range(a, n, nm);
  if (depth > 0) for (u64 i = 0; i + 8 <= n; i += 8) { u64 v = *(u64 *)(a + i); if (in_arena(v) && ash(v) && ash(v) != 0x80) conc_reach(v, depth - 1, nm); }
}
// functions of libjsoncpp and libfmt: only the text handed over is read, not the rest of the objects it lies in
static bool strlike(u64 a) {
  u64 p = *(u64 *)a, n = *(u64 *)(a + 8), cap = *(u64 *)(a + 16);
  if (p == a + 16) return n < 16;
  return in_arena(p) && ash(p) && ash(p) != 0x80 && n <= cap && cap < (1u << 24);
}
static void conc_text(u64 a, bool fmt, const char *nm) {
  if (strlike(a)) { conc_range(a, 16, nm); conc_range(*(u64 *)a, *(u64 *)(a + 8), nm); return; }
  if (!fmt) {
    for (u64 i = 0; i < 256; i++) { if (in_arena(a + i)) { unsigned char t = ash(a + i); if (t == 0 || t == 0x80) break; } conc_range(a + i, 1, nm); if (!*(char *)(a + i)) break; }
    return;
  }
  for (u64 i = 0; i < 16; i++) {
    if (in_arena(a + 8 * i)) { unsigned char t = ash(a + 8 * i); if (t == 0 || t == 0x80) break; }
    conc_range(a + 8 * i, 8, nm);
    u64 p = *(u64 *)(a + 8 * i), n = *(u64 *)(a + 8 * i + 8);
    if ((in_arena(p) || page_sym(p)) && n < 4096) conc_range(p, n, nm);
  }
}
EXPORT void __sx_native_call(const char *nm) {}
EXPORT void __sx_native_ptr(void *p, const char *nm) {
  if (!active || !nvars) return;
  u64 a = (u64)p;
  if (!in_arena(a)) {
    // stack or global object: is the address readable?  only look at pages that carry shadows or point into the heap
    if (a < 4096) return;
    if (!(a >= 0x7f0000000000ull || a < 0x10000000ull || page_sym(a))) { if (!page_sym(a)) return; }
  }
  if (!strncmp(nm, "_ZN4Json", 8) || !strncmp(nm, "_ZNK4Json", 9) || !strncmp(nm, "_ZN3fmt", 7)) { conc_text(a, nm[3] == '3', nm); return; }
  conc_reach(a, 2, nm);
}
static u64 *fnset = nullptr; static u64 fncap = 0;
static bool is_instr(u64 f) { u64 k = (f * 0x9e3779b97f4a7c15ull) & (fncap - 1); while (fnset[k]) { if (fnset[k] == f) return true; k = (k + 1) & (fncap - 1); } return false; }
EXPORT void __sx_indirect(void *f, void *) {}
EXPORT void __sx_icallarg(void *f, Expr *s, u64 v, u32 isptr) {
  if (!active || !nvars || is_instr((u64)f)) return;
  if (s) do_concretize(s);
  else if (isptr) { char nm[64]; { RtGuard g; snprintf(nm, sizeof nm, "indirect:%p", f); } __sx_native_ptr((void *)v, nm); }
}

// ------------------------------------------------------------------ harness API
static Expr *arg(int i) { return (Expr *)__sx_args[i]; }
static void ret(void *fn, Expr *e) { __sx_ret[0] = (e && !isK(e)) ? e : nullptr; __sx_rettok = fn; }
static u64 *initvals = nullptr; static u32 ninit = 0;
EXPORT long sym_range(const char *name, long lo, long hi) {
  if (!active) die("symbolic value requested outside a path");
  if (nvars >= MAXV) die("too many symbolic values");
  if (hi < lo) die("empty range for %s", name);
  if (lo == hi) { ret((void *)&sym_range, nullptr); 
    return lo; }
  u64 span = (u64)hi - (u64)lo; unsigned w = 1; while (w < 64 && mask(w) < span) w++;
  unsigned id = nvars;
  u64 v = id < ninit ? initvals[id] : 0;
  Expr *x = mkraw(OVar, w, 0, 0, 0, id, v);
  varexpr[nvars++] = x;
  slot->nvars = nvars; slot->vals[id] = v; slot->logical[id] = (int64_t)((u64)lo + v); 
  for (int i = 0; i < 23; i++) { slot->names[id][i] = name[i]; if (!name[i]) break; }
  slot->names[id][23] = 0;
  if (mask(w) != span) { Expr *c = mkCmp(OUle, x, K(span, w)); if (!c->val) die("initial value out of range for %s", name); log_event(EDom, false, nullptr, c, 0); addPC(c); }
  Expr *e = mkBin(OAdd, mkZExt(x, 64), K((u64)lo, 64));
  ret((void *)&sym_range, e);
  return (long)((u64)lo + v);
}
EXPORT int sym_oneof(const char *name, const char *alpha) {
  long n = 0; while (alpha[n]) n++;
  long v = sym_range(name, 0, n - 1);
  Expr *x = (Expr *)__sx_ret[0];
  if (x) { Expr *r = K((u64)(long)alpha[0] & 0xffffffffu, 32); for (long k = 1; k < n; k++) r = mkIte(mkEq(x, K((u64)k, 64)), K((u64)(long)alpha[k] & 0xffffffffu, 32), r); ret((void *)&sym_oneof, r); }
  else ret((void *)&sym_oneof, nullptr);
  return alpha[v];
}
EXPORT long sym_split(long x) { Expr *e = arg(0); slot->splits++; if (e) do_concretize(e); ret((void *)&sym_split, nullptr); return x; }
EXPORT long sym_choose(const char *name, long lo, long hi) {
  long v = sym_range(name, lo, hi);
  Expr *e = (Expr *)__sx_ret[0];
  if (e) do_concretize(e);
  ret((void *)&sym_choose, nullptr);
  return v;
}
EXPORT void sym_assume(bool c) {
  Expr *e = arg(0);
  if (!e) { if (!c) finish(2); return; }
  if (c && isKnown(e)) return;
  u64 before = pfx;
  bool fresh = step_event(e);
  if (c) { log_event(EAssume, fresh, nullptr, e, before); addPC(e); return; }
  if (!fresh) die("divergence at an assumption");
  log_event(EAssumeFail, true, nullptr, e, before);
  finish(2);
}
EXPORT void sym_assert_(bool c, const char *msg) {
  Expr *e = arg(0);
  slot->asserts++;
  if (!c) violation("%s", msg);
  if (!e || isKnown(e)) return;
  slot->asserts_symbolic++;
  u64 before = pfx;
  bool fresh = step_event(e);
  log_event(EAssert, fresh, mkNot(e), e, before, msg);
  addPC(e);
}
EXPORT void sym_cover(const char *tag) {
  RtGuard g;
  for (u32 i = 0; i < shared->ntags; i++) if (!strcmp(shared->tags[i], tag)) { __sync_fetch_and_add(&shared->tagcount[i], 1); return; }
  u32 k = __sync_fetch_and_add(&shared->ntags, 1);
  if (k >= MAXTAG) die("too many cover tags");
  strncpy(shared->tags[k], tag, 47); shared->tagcount[k] = 1;
}
EXPORT void sym_observe(long x) { slot->obs_hash = mix(slot->obs_hash, (u64)x); slot->obs_n++; }
EXPORT void sym_observe_str(const char *s, size_t n) { for (size_t i = 0; i < n; i++) slot->obs_hash = mix(slot->obs_hash, (unsigned char)s[i]); slot->obs_n++; }
static char *params[128]; static int nparams = 0; static const char *tmpdir = "/tmp";
EXPORT long sym_param(const char *name, long def) {
  size_t n = strlen(name);
  for (int i = 0; i < nparams; i++) if (!strncmp(params[i], name, n) && params[i][n] == '=') return atol(params[i] + n + 1);
  return def;
}
EXPORT bool sym_is_symbolic(long x) { return arg(0) != nullptr; }
EXPORT const char *sym_tmpdir(void) { return tmpdir; }
EXPORT void sym_note(const char *s) { (void)!write(2, s, strlen(s)); (void)!write(2, "\n", 1); }

// ------------------------------------------------------------------ solver process: decides everything a path left open
static void solver_reset_all() {
  if (htab == htab0) { HT = 1 << 18; htab = (Expr **)__libc_malloc(HT * sizeof *htab); }
  for (unsigned i = 0; i < HT; i++) htab[i] = nullptr;
  for (u32 i = 0; i < npool; i++) __libc_free(pools[i]);
  npool = 0; epool_left = 0; nexpr = 0; evcap = 0; __libc_free(evv); __libc_free(evs); evv = nullptr; evs = nullptr;
  if (zinit) { Z3_solver_dec_ref(zc, zs); Z3_del_context(zc); zinit = false; }
  solver_init();
}
static void process(Slot *s) {
  slot = s;
  s->used = 0; s->nitems = 0;
  for (unsigned i = 0; i < KH; i++) if (known[i]) { KN *k = known[i]; while (k) { KN *n = k->next; __libc_free(k); k = n; } known[i] = nullptr; }
  npc = 0; nasserted = 0; incr = getenv("SYMX_NOINCR") == nullptr;
  nvars = s->nvars;
  if (nexpr > 1500000) solver_reset_all();
  static Expr **tab = nullptr; static u32 captab = 0;
  if (captab < s->nnodes) { captab = s->nnodes * 2 + 1024; tab = (Expr **)__libc_realloc(tab, captab * sizeof *tab); }
  for (u32 i = 0; i < s->nnodes; i++) {
    SNode &n = s_nodes(s)[i];
    tab[i] = mkraw((Op)n.op, n.w, n.a >= 0 ? tab[n.a] : 0, n.b >= 0 ? tab[n.b] : 0, n.c >= 0 ? tab[n.c] : 0, n.lo, n.val);
    if (n.op == OVar) varexpr[n.lo] = tab[i];
  }
  for (u32 k = 0; k < s->nevents; k++) {
    SEvent &v = s_events(s)[k];
    Expr *lit = tab[v.lit];
    nvars = v.nvars;
    if (v.fresh) switch (v.kind) {
    case EBranch: {
      Expr *neg = tab[v.e]; Expr *x[1] = {neg};
      int r = query(x, 1);
      if (r < 0) { s->status = 4; snprintf(s->msg, sizeof s->msg, "solver gave no answer (unknown)"); return; }
      if (r == 1) emit(v.nvars, v.nev, evhash(v.before, neg));
      break;
    }
    case ESplit: {
      Expr *e = tab[v.e];
      static Expr **ex = nullptr; static u32 cap = 0; u32 n = 0;
      if (!cap) { cap = 256; ex = (Expr **)__libc_malloc(cap * sizeof *ex); }
      ex[n++] = mkNot(lit);
      for (;;) {
        int r = query(ex, n);
        if (r < 0) { s->status = 4; snprintf(s->msg, sizeof s->msg, "solver gave no answer (unknown) while splitting a value"); return; }
        if (r == 0) break;
        u64 val = evalm(e);
        Expr *l2 = mkEq(e, K(val, e->w));
        if (isK(l2)) { s->status = 4; snprintf(s->msg, sizeof s->msg, "inconsistent model in value split"); return; }
        emit(v.nvars, v.nev, evhash(v.before, l2));
        if (n == cap) { cap *= 2; ex = (Expr **)__libc_realloc(ex, cap * sizeof *ex); }
        ex[n++] = mkNot(l2);
        if (n > maxconc) { s->status = 4; snprintf(s->msg, sizeof s->msg, "value split too wide (%u values)", n); return; }
      }
      break;
    }
    case EAssumeFail: {
      Expr *x[1] = {lit};
      int r = query(x, 1);
      if (r < 0) { s->status = 4; snprintf(s->msg, sizeof s->msg, "solver gave no answer (unknown) at an assumption"); return; }
      if (r == 1) emit(v.nvars, v.nev, evhash(v.before, lit));
      break;
    }
    case EAssert: {
      Expr *x[1] = {tab[v.e]};
      int r = query(x, 1);
      if (r < 0) { s->status = 4; snprintf(s->msg, sizeof s->msg, "solver gave no answer (unknown) at an assertion"); return; }
      if (r == 1) {
        for (unsigned i = 0; i < v.nvars; i++) { s->logical[i] += (int64_t)(mvals[i] - s->vals[i]); s->vals[i] = mvals[i]; }
        s->nvars = v.nvars;
        snprintf(s->msg, sizeof s->msg, "%s", v.msg >= 0 ? s->msgs[v.msg] : "assertion");
        s->status = 3;
        return;
      }
      break;
    }
    }
    if (v.kind != EAssumeFail) addPC(lit);
  }
}

// ------------------------------------------------------------------ driver
extern "C" void harness_init(void);
extern "C" void harness_main(void);
struct Stats { u64 paths, queries, sat, unsat, unknown, cachehits, events, concs, solver_ns, asserts, asserts_symbolic, splits, assume_end, maxev, pus, psys, pwall, flt, proc, nodes; } st;
static void jstr(FILE *f, const char *s) { fputc('"', f); for (; *s; s++) { if (*s == '"' || *s == '\\') fprintf(f, "\\%c", *s); else if ((unsigned char)*s < 32) fprintf(f, "\\u%04x", *s); else fputc(*s, f); } fputc('"', f); }
struct Ctl { sem_t ready, hub, todo; volatile int stop; };
int main(int argc, char **argv) {
  in_rt = 1;
  int W = 8; double tlimit = 1e9; const char *out = nullptr; double pathlimit = 60; const char *vout = nullptr; const char *sampleout = nullptr; unsigned nsamp = 0; u64 maxpaths = ~0ull; bool randorder = false;
  for (int i = 1; i < argc; i++) {
    auto is = [&](const char *o) { return !strcmp(argv[i], o) && i + 1 < argc; };
    if (is("--workers")) W = atoi(argv[++i]);
    else if (is("--time")) tlimit = atof(argv[++i]);
    else if (is("--path-time")) pathlimit = atof(argv[++i]);
    else if (is("--out")) out = argv[++i];
    else if (is("--violation")) vout = argv[++i];
    else if (is("--samples")) sampleout = argv[++i];
    else if (is("--nsamples")) nsamp = atoi(argv[++i]);
    else if (is("--param")) params[nparams++] = argv[++i];
    else if (is("--order")) randorder = !strcmp(argv[++i], "random");
    else if (is("--tmpdir")) tmpdir = argv[++i];
    else if (is("--max-paths")) maxpaths = strtoull(argv[++i], 0, 10);
    else { fprintf(stderr, "bad argument %s\n", argv[i]); return 2; }
  }
  if (W > (int)MAXW) W = MAXW;
  fncap = 1; while (fncap < __sx_nfn * 2 + 16) fncap *= 2;
  fnset = (u64 *)__libc_calloc(fncap, 8);
  for (u64 i = 0; i < __sx_nfn; i++) { u64 f = (u64)__sx_fntab[i], k = (f * 0x9e3779b97f4a7c15ull) & (fncap - 1); while (fnset[k]) k = (k + 1) & (fncap - 1); fnset[k] = f; }
  auto shm = [&](size_t n) { void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(95); } return p; };
  shared = (Shared *)shm(sizeof(Shared));
  ucache = (u64 *)shm(UC * 16);
  covbase = (unsigned char *)shm(__sx_ncov + 4096);
  if (__sx_ncov > sizeof covdummy) { fprintf(stderr, "coverage table too large\n"); return 2; }
  for (u64 i = 0; i < __sx_ncov; i++) covbase[i] = 0;
  static const int MAXS = 160;
  Slot *slots[MAXS]; int NS = W * 3;
  for (int i = 0; i < NS; i++) { slots[i] = (Slot *)shm(SLOTSZ); slots[i]->phase = 0; }
  Ctl *ctl = (Ctl *)shm(sizeof(Ctl));
  sem_init(&ctl->ready, 1, 0); sem_init(&ctl->todo, 1, 0); sem_init(&ctl->hub, 1, 0);
  pid_t solvers[MAXW];
  for (int i = 0; i < W; i++) {
    pid_t p = fork();
    if (p < 0) { perror("fork"); return 2; }
    if (p == 0) {
      in_rt = 1; prctl(PR_SET_PDEATHSIG, SIGKILL);
      solver_reset_all();
      for (;;) {
        while (sem_wait(&ctl->ready) != 0) {}
        if (ctl->stop) _exit(0);
        for (int k = 0; k < NS; k++) if (slots[k]->phase == 2 && __sync_bool_compare_and_swap(&slots[k]->phase, 2, 3)) { u64 t0 = nowns(); process(slots[k]); slots[k]->proc_ns = nowns() - t0; __sync_synchronize(); slots[k]->phase = 4; sem_post(&ctl->hub); break; }
      }
    }
    solvers[i] = p;
  }
  arena_init();
  in_rt = 0;
  harness_init();
  in_rt = 1;
  __sx_cov = covbase;
  pid_t forkers[MAXW];
  for (int i = 0; i < W; i++) {
    pid_t p = fork();
    if (p < 0) { perror("fork"); return 2; }
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      for (;;) {
        while (sem_wait(&ctl->todo) != 0) {}
        for (int k = 0; k < NS; k++) if (slots[k]->phase == 1 && __sync_bool_compare_and_swap(&slots[k]->phase, 1, 5)) {
          Slot *s = slots[k];
          s->started = nowns();
          pid_t c = fork();
          if (c == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            slot = s; bound = s->in_bound; want_pfx = s->in_pfx; ninit = s->in_n; initvals = s->in_vals;
            active = true; in_rt = 0;
            harness_main();
            in_rt = 1;
            if (nev < bound) die("divergence: path ended after %u events, expected at least %u", nev, bound);
            finish(1);
          }
          int w = 0;
          if (c < 0) { s->status = 4; snprintf(s->msg, sizeof s->msg, "fork failed"); }
          else { s->pid = c; rusage ru; while (wait4(c, &w, 0, &ru) < 0 && errno == EINTR) {} s->path_us = ru.ru_utime.tv_sec * 1000000ull + ru.ru_utime.tv_usec; s->path_sys = ru.ru_stime.tv_sec * 1000000ull + ru.ru_stime.tv_usec; s->path_wall = (nowns() - s->started) / 1000; s->flt = ru.ru_minflt; }
          s->wstatus = w; __sync_synchronize(); s->phase = 6; sem_post(&ctl->hub);
          break;
        }
      }
    }
    forkers[i] = p;
  }
  // work stack
  Item **work = nullptr; u64 nw = 0, capw = 0;
  auto push = [&](Item *it) { if (nw == capw) { capw = capw ? capw * 2 : 1024; work = (Item **)__libc_realloc(work, capw * sizeof *work); } work[nw++] = it; };
  Item *first = (Item *)__libc_calloc(1, sizeof(Item)); push(first);
  u64 t0 = nowns(); int running = 0, solving = 0; int verdict = 0;  // 0 complete, 1 violation, 2 inconclusive, 3 out of time, 4 hang
  char msg[2400] = ""; FILE *sf = sampleout ? fopen(sampleout, "w") : nullptr; u64 seed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), 0, 10) : 1; u64 rng = seed * 0x9e3779b97f4a7c15ull + 12345;
  unsigned sampled = 0; u64 lastcheck = 0;
  auto writeVals = [&](FILE *f, Slot *s) { fprintf(f, "{\"values\":["); for (u32 i = 0; i < s->nvars && i < MAXV; i++) { if (i) fputc(',', f); fputc('[', f); jstr(f, s->names[i]); fprintf(f, ",%lld]", (long long)s->logical[i]); } fprintf(f, "],\"obs\":\"%llx:%llu\"}\n", (unsigned long long)s->obs_hash, (unsigned long long)s->obs_n); };
  auto bad = [&](int k, int stw) {  // a finished path that is not simply done; returns true if it stops the run
    Slot *s = slots[k]; int sst = s->status;
    if (sst == 3 || sst == 0 || sst == 5) {
      if (sst == 0) { if (WIFSIGNALED(stw)) snprintf(msg, sizeof msg, "crash: signal %d (%s)", WTERMSIG(stw), strsignal(WTERMSIG(stw))); else snprintf(msg, sizeof msg, "program exited (status %d) instead of returning", WEXITSTATUS(stw)); }
      else if (sst == 5) snprintf(msg, sizeof msg, "no termination within %.0f s on one path", pathlimit);
      else snprintf(msg, sizeof msg, "%s", s->msg);
      verdict = sst == 5 ? 4 : 1;
      if (sst == 0 && WIFEXITED(stw) && WEXITSTATUS(stw) >= 95 && WEXITSTATUS(stw) <= 99) verdict = 2;
      if (vout) { FILE *f = fopen(vout, "w"); writeVals(f, s); fclose(f); }
      return true;
    }
    if (sst == 4) { verdict = 2; snprintf(msg, sizeof msg, "%s", s->msg); if (vout) { FILE *f = fopen(vout, "w"); writeVals(f, s); fclose(f); } return true; }
    return false;
  };
  while (verdict == 0 && (nw || running || solving)) {
    bool progress = false;
    while (nw && running < W + W / 2) {
      int k = 0; while (k < NS && slots[k]->phase != 0) k++;
      if (k == NS) break;
      if (randorder && nw > 1) { rng = rng * 6364136223846793005ull + 1442695040888963407ull; u64 r = (rng >> 33) % nw; Item *t = work[r]; work[r] = work[nw - 1]; work[nw - 1] = t; }
      Item *it = work[--nw];
      Slot *s = slots[k];
      memset((void *)&s->status, 0, offsetof(Slot, msgs) - offsetof(Slot, status));
      s->in_bound = it->bound; s->in_n = it->nvals; s->in_pfx = it->pfx; memcpy(s->in_vals, it->vals, it->nvals * 8);
      s->pid = 0; s->started = nowns(); __sync_synchronize(); s->phase = 1; sem_post(&ctl->todo);
      __libc_free(it); running++; progress = true;
    }
    for (int k = 0; k < NS && verdict == 0; k++) if (slots[k]->phase == 6) {
      running--; progress = true; int stw = slots[k]->wstatus;
      Slot *s = slots[k];
      st.paths++;
      if (s->events > st.maxev) st.maxev = s->events;
      if (s->status == 2) st.assume_end++;
      // a failing path is reported at once (its trace up to the failure needs no solving)
      if (s->status != 1 && s->status != 2) { bad(k, stw); break; }
      if (sf && s->status == 1) {
        rng = rng * 6364136223846793005ull + 1442695040888963407ull;
        if (sampled < nsamp && (st.paths < nsamp / 2 || (rng >> 33) % (1 + st.paths / 16) == 0)) { writeVals(sf, s); sampled++; }
      }
      s->phase = 2; solving++; sem_post(&ctl->ready);
    }
    for (int k = 0; k < NS && verdict == 0; k++) if (slots[k]->phase == 4) {
      Slot *s = slots[k]; solving--; progress = true;
      st.queries += s->queries; st.sat += s->sat; st.unsat += s->unsat; st.unknown += s->unknown; st.cachehits += s->cachehits; st.events += s->events; st.concs += s->concs;
      st.pus += s->path_us; st.psys += s->path_sys; st.pwall += s->path_wall; st.flt += s->flt; st.proc += s->proc_ns; st.nodes += s->nnodes; st.solver_ns += s->solver_ns; st.asserts += s->asserts; st.asserts_symbolic += s->asserts_symbolic; st.splits += s->splits;
      if (s->status != 1 && s->status != 2) { bad(k, 0); break; }
      char *q = s_out(s);
      for (u32 i = 0; i < s->nitems; i++) { Item *it = (Item *)q; size_t sz = sizeof(Item) + it->nvals * 8; Item *c = (Item *)__libc_malloc(sz); memcpy(c, it, sz); push(c); q += sz; }
      if (s->nnodes > 20000 || s->used > (1 << 20)) madvise((char *)s + OFF_NODES, SLOTSZ - OFF_NODES, MADV_REMOVE);
      s->phase = 0;
      if (st.paths >= maxpaths) { verdict = 3; snprintf(msg, sizeof msg, "path limit"); }
    }
    u64 n = nowns();
    if (n - lastcheck > 20000000) {
      lastcheck = n;
      for (int k = 0; k < NS; k++) if (slots[k]->phase == 5 && n > slots[k]->started && n - slots[k]->started > pathlimit * 1e9 && verdict == 0) { slots[k]->status = 5; bad(k, 0); }
      for (int i = 0; i < W; i++) { int x; if (waitpid(solvers[i], &x, WNOHANG) > 0 || waitpid(forkers[i], &x, WNOHANG) > 0) { verdict = 2; snprintf(msg, sizeof msg, "a helper process ended (status %d)", x); } }
      if (verdict == 0 && (n - t0) > tlimit * 1e9) { verdict = 3; snprintf(msg, sizeof msg, "time limit"); }
    }
    if (!progress && verdict == 0) { timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_nsec += 100000; if (ts.tv_nsec >= 1000000000) { ts.tv_sec++; ts.tv_nsec -= 1000000000; } sem_timedwait(&ctl->hub, &ts); }
  }
  for (int i = 0; i < W; i++) { kill(forkers[i], SIGKILL); waitpid(forkers[i], nullptr, 0); kill(solvers[i], SIGKILL); waitpid(solvers[i], nullptr, 0); }
  for (int k = 0; k < NS; k++) if (slots[k]->phase == 5 && slots[k]->pid > 0) kill(slots[k]->pid, SIGKILL);
  nw += running + solving;
  if (sf) fclose(sf);
  double wall = (nowns() - t0) / 1e9;
  const char *vn[] = {"complete", "violation", "inconclusive", "timeout", "hang"};
  FILE *f = out ? fopen(out, "w") : stdout;
  fprintf(f, "{\"verdict\":\"%s\",\"message\":", vn[verdict]); jstr(f, msg);
  fprintf(f, ",\"paths\":%llu,\"assume_pruned\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"branch_events\":%llu,\"value_splits\":%llu,\"solver_s\":%.3f,\"assertions\":%llu,\"assertions_symbolic\":%llu,\"pending\":%llu,\"max_events\":%llu,\"wall_s\":%.3f",
          (unsigned long long)st.paths, (unsigned long long)st.assume_end, (unsigned long long)st.queries, (unsigned long long)st.sat, (unsigned long long)st.unsat, (unsigned long long)st.unknown, (unsigned long long)st.cachehits, (unsigned long long)st.events,
          (unsigned long long)st.concs, st.solver_ns / 1e9, (unsigned long long)st.asserts, (unsigned long long)st.asserts_symbolic, (unsigned long long)nw, (unsigned long long)st.maxev, wall);
  fprintf(f, ",\"covers\":{"); for (u32 i = 0; i < shared->ntags && i < MAXTAG; i++) { if (i) fputc(',', f); jstr(f, shared->tags[i]); fprintf(f, ":%llu", (unsigned long long)shared->tagcount[i]); }
  fprintf(f, "},\"native_split\":["); for (u32 i = 0; i < shared->nnatives && i < 64; i++) { if (i) fputc(',', f); jstr(f, shared->natives[i]); }
  fprintf(f, "],\"coverage\":["); { const char *c = __sx_covnames; bool fst = true; char line[512]; for (u64 i = 0; i < __sx_ncov; i++) { const char *e = strchr(c, '\n'); size_t n = e - c; if (n > 500) n = 500; memcpy(line, c, n); line[n] = 0; c = e + 1; if (!fst) fputc(',', f); fst = false; char l2[540]; snprintf(l2, sizeof l2, "%d:%s", covbase[i], line); jstr(f, l2); } }
  fprintf(f, "]}\n");
  if (out) fclose(f);
  if (getenv("SYMX_PROF")) fprintf(stderr, "path user %.1fs sys %.1fs wall %.1fs faults %llu; process %.1fs solver %.1fs nodes %llu\n", st.pus / 1e6, st.psys / 1e6, st.pwall / 1e6, (unsigned long long)st.flt, st.proc / 1e9, st.solver_ns / 1e9, (unsigned long long)st.nodes);
  if (out) fprintf(stderr, "%s: paths=%llu queries=%llu solver=%.1fs wall=%.1fs %s\n", vn[verdict], (unsigned long long)st.paths, (unsigned long long)st.queries, st.solver_ns / 1e9, wall, msg);
  return verdict;
}
