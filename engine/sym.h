// Harness interface.  The same harness is built twice: instrumented (symbolic exploration) and natively (SYM_REPLAY: values come from a replay file).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
// fresh symbolic integer in [lo, hi]
long sym_range(const char *name, long lo, long hi);
// symbolic character, one of those of alpha
int sym_oneof(const char *name, const char *alpha);
// choose: symbolic integer in [lo, hi], immediately split into one path per value
long sym_choose(const char *name, long lo, long hi);
// split on the value of x (one path per feasible value) and return it
long sym_split(long x);
void sym_assume(bool c);
void sym_assert_(bool c, const char *msg);
// vacuity witness: this point must be reached by some path
void sym_cover(const char *tag);
// record an observation (used to validate the engine against the native build); the value on this path, no split
void sym_observe(long x);
void sym_observe_str(const char *s, size_t n);
// bound or option given on the command line (--param name=value), concrete
long sym_param(const char *name, long def);
// is x symbolic on this path?
bool sym_is_symbolic(long x);
// path of a scratch directory (created by the driver)
const char *sym_tmpdir(void);
// the values below must not be split: plain concrete tracing to stderr
void sym_note(const char *s);
// harness entry points
void harness_init(void);
void harness_main(void);
}
#define SYM_STR2(x) #x
#define SYM_STR(x) SYM_STR2(x)
#define sym_assert(c, msg) sym_assert_((c), __FILE__ ":" SYM_STR(__LINE__) ": " msg)
