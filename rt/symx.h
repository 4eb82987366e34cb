// Harness interface.  Under the symbolic engine these functions are built in; natively (replay, trace
// validation) they are implemented by native.cpp, which reads the inputs from a file.
#pragma once
#include <stdint.h>
#include <string>
extern "C" {
uint64_t symx_u64(const char *name, unsigned bits);     // unsigned value of the given width
int64_t symx_s64(const char *name, unsigned bits);      // signed value of the given width
double symx_f64(const char *name);                      // any double (bit pattern)
void symx_bytes(void *p, uint64_t n, const char *name);
void symx_assume(bool c);
void symx_assert(bool c, const char *id);
void symx_cover(const char *id);
void symx_observe(const char *name, uint64_t v);
void symx_observe_f64(const char *name, double v);
void symx_opt(const char *name, long v);
long symx_getopt(const char *name, long dflt);
uint64_t symx_concretize(uint64_t v);                   // one path per feasible value
void symx_end(void);                                    // end of this path
int symx_native(void);
bool symx_and(bool a, bool b);                          // non-forking connectives
bool symx_or(bool a, bool b);
uint64_t symx_ite_u64(bool c, uint64_t a, uint64_t b);
void symx_print(const char *name, uint64_t v);
}
#define ENTRY extern "C" __attribute__((noinline, used)) void
#define ASSUME(c) symx_assume(c)
#define ASSERT(c, id) symx_assert(c, id)
#define COVER(id) symx_cover(id)
static inline uint64_t U(const char *n, unsigned bits) { return symx_u64(n, bits); }
static inline int64_t S(const char *n, unsigned bits) { return symx_s64(n, bits); }
static inline double F(const char *n) { return symx_f64(n); }
// value in [lo,hi]
static inline int64_t R(const char *n, int64_t lo, int64_t hi) {
  uint64_t span = (uint64_t)hi - (uint64_t)lo; unsigned b = 1; while (b < 64 && (span >> b)) b++;
  uint64_t v = symx_u64(n, b); symx_assume(v <= span); return (int64_t)((uint64_t)lo + v);
}
// the statement x must not throw; the statement x must throw T
#define NOTHROW(x, id) do { bool ok_ = true; try { x; } catch (...) { ok_ = false; } symx_assert(ok_, id); if (!ok_) symx_end(); } while (0)
#define MUSTTHROW(T, x, id) do { int ok_ = 0; try { x; } catch (T &) { ok_ = 1; } catch (...) { ok_ = 2; } symx_assert(ok_ == 1, id); } while (0)
