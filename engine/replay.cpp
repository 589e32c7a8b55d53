// Native counterpart of the harness interface: values come from a replay file ("name value" per line).
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
static std::vector<std::pair<std::string, long>> vals; static size_t pos = 0;
static std::map<std::string, long> params; static std::string tmpd = "/tmp";
static uint64_t obs_hash = 0, obs_n = 0; static bool inactive = true;
static uint64_t mix(uint64_t h, uint64_t x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h; }
extern "C" {
long sym_range(const char *name, long lo, long hi) {
  if (lo == hi) return lo;
  long v = lo;
  if (pos < vals.size()) {
    if (vals[pos].first != std::string(name).substr(0, 23)) { fprintf(stderr, "REPLAY-DESYNC expected %s got %s\n", vals[pos].first.c_str(), name); _Exit(50); }
    v = vals[pos].second;
  }
  pos++;
  if (v < lo || v > hi) { fprintf(stderr, "REPLAY-RANGE %s\n", name); _Exit(50); }
  return v;
}
int sym_oneof(const char *n, const char *alpha) { return alpha[sym_range(n, 0, (long)strlen(alpha) - 1)]; }
long sym_choose(const char *n, long lo, long hi) { return sym_range(n, lo, hi); }
long sym_split(long x) { return x; }
void sym_assume(bool c) { if (!c) { printf("ASSUME-FALSE\n"); fflush(stdout); _Exit(20); } }
void sym_assert_(bool c, const char *m) { if (!c) { printf("ASSERT-FAILED %s\n", m); fflush(stdout); _Exit(10); } }
void sym_cover(const char *) {}
void sym_observe(long x) { obs_hash = mix(obs_hash, (uint64_t)x); obs_n++; }
void sym_observe_str(const char *s, size_t n) { for (size_t i = 0; i < n; i++) obs_hash = mix(obs_hash, (unsigned char)s[i]); obs_n++; }
long sym_param(const char *n, long d) { auto i = params.find(n); return i == params.end() ? d : i->second; }
bool sym_is_symbolic(long) { return false; }
const char *sym_tmpdir(void) { return tmpd.c_str(); }
void sym_note(const char *s) { fprintf(stderr, "%s\n", s); }
}
int main(int argc, char **argv) {
  for (int i = 1; i < argc; i++) {
    if (!strcmp(argv[i], "--param") && i + 1 < argc) { std::string s = argv[++i]; auto e = s.find('='); params[s.substr(0, e)] = atol(s.c_str() + e + 1); }
    else if (!strcmp(argv[i], "--tmpdir") && i + 1 < argc) tmpd = argv[++i];
    else {
      FILE *f = fopen(argv[i], "r"); if (!f) { perror(argv[i]); return 51; }
      char nm[128]; long v; char line[512];
      while (fgets(line, sizeof line, f)) { if (line[0] == '#') continue; if (!strncmp(line, "param ", 6)) { if (sscanf(line, "param %100s %ld", nm, &v) == 2) params[nm] = v; continue; } if (sscanf(line, "%100s %ld", nm, &v) == 2) vals.push_back({nm, v}); }
      fclose(f);
    }
  }
  harness_init();
  harness_main();
  printf("OK obs=%llx:%llu\n", (unsigned long long)obs_hash, (unsigned long long)obs_n);
  fflush(stdout);
  _Exit(0);
}
