// Native implementation of the harness interface: inputs come from a model file (lines "name hexvalue").
#include "symx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <fstream>
#include <sstream>
#include <iostream>
#include <unistd.h>
#include <dlfcn.h>
static std::map<std::string, unsigned long long> model;
static std::map<std::string, int> names;
static std::map<std::string, long> optv;
static std::string nm(const char *n) { int k = names[n]++; return k ? std::string(n) + "#" + std::to_string(k) : std::string(n); }
static bool endp = false;
static int failed = 0;
extern "C" {
uint64_t symx_u64(const char *n, unsigned bits) { std::string k = nm(n); auto i = model.find(k + "@" + std::to_string(bits)); if (i == model.end()) i = model.find(k); uint64_t v = i == model.end() ? 0 : i->second; return bits >= 64 ? v : v & ((1ull << bits) - 1); }
int64_t symx_s64(const char *n, unsigned bits) { uint64_t v = symx_u64(n, bits); if (bits >= 64) return (int64_t)v; uint64_t m = 1ull << (bits - 1); return (int64_t)((v ^ m) - m); }
double symx_f64(const char *n) { uint64_t v = symx_u64(n, 64); double d; memcpy(&d, &v, 8); return d; }
void symx_bytes(void *p, uint64_t n, const char *name) { std::string b = nm(name); for (uint64_t i = 0; i < n; i++) { auto j = model.find(b + "[" + std::to_string(i) + "]"); ((unsigned char *)p)[i] = j == model.end() ? 0 : (unsigned char)j->second; } }
static void done(int rc) { fflush(stdout); fflush(stderr); _exit(rc); }
void symx_assume(bool c) { if (!c) { printf("ASSUME-FALSE\n"); done(failed ? 1 : 3); } }
void symx_assert(bool c, const char *id) { if (!c) { printf("ASSERT-FAIL %s\n", id); fflush(stdout); failed++; } else if (getenv("SYMX_VERBOSE")) printf("assert-ok %s\n", id); }
void symx_cover(const char *) {}
void symx_observe(const char *n, uint64_t v) { printf("OBS %s 0x%llx\n", n, (unsigned long long)v); }
void symx_observe_f64(const char *n, double v) { uint64_t u; memcpy(&u, &v, 8); printf("OBS %s 0x%llx\n", n, (unsigned long long)u); }
void symx_opt(const char *n, long v) { optv[n] = v; }
long symx_getopt(const char *n, long d) { auto i = optv.find(n); return i == optv.end() ? d : i->second; }
uint64_t symx_concretize(uint64_t v) { return v; }
void symx_end(void) { done(failed ? 1 : 0); }
int symx_native(void) { return 1; }
bool symx_and(bool a, bool b) { return a && b; }
bool symx_or(bool a, bool b) { return a || b; }
uint64_t symx_ite_u64(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
void symx_print(const char *n, uint64_t v) { printf("PRINT %s 0x%llx\n", n, (unsigned long long)v); }
}
int main(int argc, char **argv) {
  if (argc < 3) { fprintf(stderr, "usage: %s entry model [opt=value...]\n", argv[0]); return 2; }
  for (int i = 3; i < argc; i++) { std::string a = argv[i]; size_t p = a.find('='); optv[a.substr(0, p)] = strtol(a.c_str() + p + 1, 0, 0); }
  std::ifstream f(argv[2]); std::string line;
  while (std::getline(f, line)) { size_t p = line.rfind(' '); if (p != std::string::npos) model[line.substr(0, p)] = strtoull(line.c_str() + p + 1, 0, 16); }
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
  try { fn(); } catch (std::exception &e) { printf("UNCAUGHT %s\n", e.what()); done(4); } catch (...) { printf("UNCAUGHT\n"); done(4); }
  done(failed ? 1 : 0);
}
