// Runtime support linked (as bitcode) with the code under test: the parts of libstdc++/libc that live in
// shared libraries and therefore have no IR.  Compiled with -fno-access-control.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <string>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <ios>
#include <ostream>
#include <istream>
#include <sstream>
#include <streambuf>
#include <locale>
#include <list>
#include <map>
#include <stdint.h>
#include <string.h>
#include <stdarg.h>
extern "C" {
long symx_getopt(const char *, long);
int symx_is_sym(uint64_t);
int symx_is_sym_f64(double);
unsigned long symx_fmt_f64(char *buf, const char *spec, double v, int prec);
void symx_unsupported(const char *);
}

// ------------------------------------------------------------------ C library
extern "C" {
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) return 0; } return 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strchr_(const char *s, int c) __asm__("strchr");
char *strchr_(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr_(const char *s, int c) __asm__("strrchr");
char *strrchr_(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
void *memchr_(const void *p, int c, size_t n) __asm__("memchr");
void *memchr_(const void *p, int c, size_t n) { const unsigned char *s = (const unsigned char *)p; for (; n; n--, s++) if (*s == (unsigned char)c) return (void *)s; return 0; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return isupper(c) || islower(c); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isprint(int c) { return c >= 32 && c < 127; }
int ispunct(int c) { return isprint(c) && c != ' ' && !isalnum(c); }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
static unsigned long strtoX(const char *s, char **e, int base, bool sg, unsigned long *err) {
  const char *p = s; while (isspace((unsigned char)*p)) p++;
  bool neg = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0; bool any = false, ovf = false;
  for (;; p++) {
    int c = (unsigned char)*p, d;
    if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break;
    if (d >= base) break;
    unsigned __int128 nv = (unsigned __int128)v * base + d; if (nv >> 64) ovf = true; v = (unsigned long)nv; any = true;
  }
  if (e) *e = (char *)(any ? p : s);
  if (sg) {
    if (ovf || v > (unsigned long)0x7fffffffffffffffl + (neg ? 1 : 0)) return neg ? 0x8000000000000000ul : 0x7fffffffffffffffl;
  } else if (ovf) return ~0ul;
  return neg ? -v : v;
}
long strtol_(const char *s, char **e, int b) __asm__("strtol");
long strtol_(const char *s, char **e, int b) { return (long)strtoX(s, e, b, true, 0); }
unsigned long strtoul_(const char *s, char **e, int b) __asm__("strtoul");
unsigned long strtoul_(const char *s, char **e, int b) { return strtoX(s, e, b, false, 0); }
long long strtoll_(const char *s, char **e, int b) __asm__("strtoll");
long long strtoll_(const char *s, char **e, int b) { return (long)strtoX(s, e, b, true, 0); }
unsigned long long strtoull_(const char *s, char **e, int b) __asm__("strtoull");
unsigned long long strtoull_(const char *s, char **e, int b) { return strtoX(s, e, b, false, 0); }
long __isoc23_strtol(const char *s, char **e, int b) { return (long)strtoX(s, e, b, true, 0); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoX(s, e, b, false, 0); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return (long)strtoX(s, e, b, true, 0); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strtoX(s, e, b, false, 0); }
int atoi_(const char *s) __asm__("atoi");
int atoi_(const char *s) { return (int)strtoX(s, 0, 10, true, 0); }
long atol_(const char *s) __asm__("atol");
long atol_(const char *s) { return (long)strtoX(s, 0, 10, true, 0); }
double modf(double x, double *ip) { double t = __builtin_trunc(x); *ip = t; double r = x - t; return __builtin_isinf(x) || r == 0 ? __builtin_copysign(0.0, x) : r; }
long double modfl(long double x, long double *ip) { long double t = __builtin_truncl(x); *ip = t; long double r = x - t; return __builtin_isinf(x) || r == 0 ? __builtin_copysignl(0.0L, x) : r; }
static int errno_;
int *__errno_location() { return &errno_; }
void qsort(void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
  char *p = (char *)b; char t[256];
  for (size_t i = 1; i < n; i++) { memcpy(t, p + i * sz, sz); size_t j = i; while (j > 0 && cmp(p + (j - 1) * sz, t) > 0) { memcpy(p + j * sz, p + (j - 1) * sz, sz); j--; } memcpy(p + j * sz, t, sz); }
}
}

// ------------------------------------------------------------------ exceptions
namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
__cow_string::__cow_string() { _M_p = nullptr; }
__cow_string::__cow_string(const std::string &s) { char *p = (char *)malloc(s.size() + 1); memcpy(p, s.data(), s.size()); p[s.size()] = 0; _M_p = p; }
__cow_string::__cow_string(const char *s, size_t n) { char *p = (char *)malloc(n + 1); memcpy(p, s, n); p[n] = 0; _M_p = p; }
__cow_string::__cow_string(const __cow_string &o) noexcept { _M_p = o._M_p; }
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string &&o) noexcept { _M_p = o._M_p; }
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { _M_p = o._M_p; return *this; }
logic_error::logic_error(const string &s) : exception(), _M_msg(s) {}
logic_error::logic_error(const char *s) : exception(), _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::logic_error(logic_error &&o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error &logic_error::operator=(const logic_error &o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error &logic_error::operator=(logic_error &&o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string &s) : exception(), _M_msg(s) {}
runtime_error::runtime_error(const char *s) : exception(), _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::runtime_error(runtime_error &&o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error &runtime_error::operator=(const runtime_error &o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error &runtime_error::operator=(runtime_error &&o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return _M_msg._M_p; }
#define LE(n, b) n::n(const string &s) : b(s) {} n::n(const char *s) : b(s) {} n::~n() noexcept {}
LE(domain_error, logic_error) LE(invalid_argument, logic_error) LE(length_error, logic_error) LE(out_of_range, logic_error)
LE(range_error, runtime_error) LE(overflow_error, runtime_error) LE(underflow_error, runtime_error)
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_bad_function_call() { throw runtime_error("bad_function_call"); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
void __throw_ios_failure(const char *s) { throw runtime_error(s); }
void __throw_ios_failure(const char *s, int) { throw runtime_error(s); }
void __throw_bad_exception() { throw bad_exception(); }
type_info::~type_info() {}

// ------------------------------------------------------------------ red-black tree (balancing is irrelevant to semantics,
// but the shape is kept a valid search tree; this is the standard algorithm)
static _Rb_tree_node_base *incr(_Rb_tree_node_base *x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
static _Rb_tree_node_base *decr(_Rb_tree_node_base *x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return incr(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return incr(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return decr(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return decr(const_cast<_Rb_tree_node_base *>(x)); }
static void rotl(_Rb_tree_node_base *x, _Rb_tree_node_base *&root) {
  _Rb_tree_node_base *y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
  y->_M_left = x; x->_M_parent = y;
}
static void rotr(_Rb_tree_node_base *x, _Rb_tree_node_base *&root) {
  _Rb_tree_node_base *y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
  y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
  _Rb_tree_node_base *&root = h._M_parent;
  x->_M_parent = p; x->_M_left = x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    _Rb_tree_node_base *const g = x->_M_parent->_M_parent;
    if (x->_M_parent == g->_M_left) {
      _Rb_tree_node_base *const y = g->_M_right;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; }
      else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotr(g, root); }
    } else {
      _Rb_tree_node_base *const y = g->_M_left;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; }
      else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotl(g, root); }
    }
  }
  root->_M_color = _S_black;
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
  _Rb_tree_node_base *&root = h._M_parent, *&leftmost = h._M_left, *&rightmost = h._M_right;
  _Rb_tree_node_base *y = z, *x = 0, *xp = 0;
  if (y->_M_left == 0) x = y->_M_right;
  else if (y->_M_right == 0) x = y->_M_left;
  else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
    else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z;
  } else {
    xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (leftmost == z) { if (z->_M_right == 0) leftmost = z->_M_parent; else { _Rb_tree_node_base *m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } }
    if (rightmost == z) { if (z->_M_left == 0) rightmost = z->_M_parent; else { _Rb_tree_node_base *m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (x == 0 || x->_M_color == _S_black)) {
      if (x == xp->_M_left) {
        _Rb_tree_node_base *w = xp->_M_right;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
        if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else {
          if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotl(xp, root); break;
        }
      } else {
        _Rb_tree_node_base *w = xp->_M_left;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
        if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else {
          if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotr(xp, root); break;
        }
      }
    }
    if (x) x->_M_color = _S_black;
  }
  return y;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept {
  if (this != l) {
    l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
    _List_node_base *const t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
  }
}
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { _List_node_base *n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
  } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
}

// ------------------------------------------------------------------ locale / ios (C locale only)
locale::locale() noexcept : _M_impl(0) {}
locale::locale(const locale &) noexcept : _M_impl(0) {}
locale::locale(const char *) : _M_impl(0) {}
locale::~locale() noexcept {}
const locale &locale::operator=(const locale &) noexcept { return *this; }
const locale &locale::classic() { static locale l; return l; }
struct CtBuf { ctype_base::mask tab[256]; alignas(16) char raw[sizeof(ctype<char>)]; };
static CtBuf ctb;
static ctype<char> *theCtype() {
  ctype<char> *c = (ctype<char> *)ctb.raw;
  if (!c->_M_widen_ok) {
    for (int i = 0; i < 256; i++) {
      ctype_base::mask m = 0; int ch = i;
      if (isspace(ch)) m |= ctype_base::space; if (isdigit(ch)) m |= ctype_base::digit; if (isupper(ch)) m |= ctype_base::upper; if (islower(ch)) m |= ctype_base::lower;
      if (isalpha(ch)) m |= ctype_base::alpha; if (isxdigit(ch)) m |= ctype_base::xdigit; if (isprint(ch)) m |= ctype_base::print; if (ispunct(ch)) m |= ctype_base::punct; if (iscntrl(ch)) m |= ctype_base::cntrl;
      ctb.tab[i] = m; c->_M_widen[i] = (char)i; c->_M_narrow[i] = (char)i;
    }
    c->_M_table = ctb.tab; c->_M_widen_ok = 1; c->_M_narrow_ok = 1;
  }
  return c;
}
void ctype<char>::_M_widen_init() const {}
void ctype<char>::_M_narrow_init() const {}
template <> const ctype<char> &use_facet<ctype<char> >(const locale &) { return *theCtype(); }
template <> bool has_facet<ctype<char> >(const locale &) throw() { return true; }

ios_base::ios_base() noexcept : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(0), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() noexcept { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; }
void ios_base::_M_call_callbacks(event) noexcept {}
void ios_base::_M_dispose_callbacks() noexcept {}
ios_base::_Words &ios_base::_M_grow_words(int, bool) { return _M_word_zero; }
locale ios_base::imbue(const locale &) noexcept { return locale(); }
void ios_base::register_callback(event_callback, int) {}

template <> void basic_ios<char>::_M_cache_locale(const locale &) { _M_ctype = theCtype(); _M_num_put = 0; _M_num_get = 0; }

// ---- number output
static void emit(ostream &os, const char *body, size_t n, size_t signLen) {
  ios_base::fmtflags f = os.flags(); streamsize w = os.width(); os.width(0);
  streambuf *sb = os.rdbuf(); char fill = os.fill();
  size_t pad = w > (streamsize)n ? w - n : 0;
  ios_base::fmtflags adj = f & ios_base::adjustfield;
  bool ok = true;
  if (adj == ios_base::left) { ok = sb->sputn(body, n) == (streamsize)n; while (pad--) sb->sputc(fill); }
  else if (adj == ios_base::internal) { sb->sputn(body, signLen); while (pad--) sb->sputc(fill); sb->sputn(body + signLen, n - signLen); }
  else { while (pad--) sb->sputc(fill); ok = sb->sputn(body, n) == (streamsize)n; }
  if (!ok) os.setstate(ios_base::badbit);
}
static ostream &putInt(ostream &os, bool neg, unsigned long v, bool sgn, int bits) {
  ostream::sentry sen(os);
  if (!sen) return os;
  ios_base::fmtflags f = os.flags();
  char buf[80]; size_t p = 0, sl = 0;
  if (symx_is_sym(v) && symx_getopt("opaquefmt", 1)) { buf[0] = '?'; emit(os, buf, 1, 0); return os; }
  ios_base::fmtflags bf = f & ios_base::basefield;
  if (bf == ios_base::hex || bf == ios_base::oct) {
    int sh = bf == ios_base::hex ? 4 : 3;
    if (neg) { v = -v; if (bits < 64) v &= (1ul << bits) - 1; }
    int nd = 1; while (nd * sh < 64 && (v >> (nd * sh))) nd++;
    if ((f & ios_base::showbase) && v) { buf[p++] = '0'; if (sh == 4) buf[p++] = (f & ios_base::uppercase) ? 'X' : 'x'; sl = p; if (sh == 3) sl = 0; }
    for (int i = nd - 1; i >= 0; i--) { unsigned d = (v >> (i * sh)) & ((1 << sh) - 1); buf[p++] = (char)(d + (d < 10 ? '0' : ((f & ios_base::uppercase) ? 'A' : 'a') - 10)); }
  } else {
    if (neg) buf[p++] = '-'; else if (sgn && (f & ios_base::showpos)) buf[p++] = '+';
    sl = p;
    static const unsigned long P[] = {1ul, 10ul, 100ul, 1000ul, 10000ul, 100000ul, 1000000ul, 10000000ul, 100000000ul, 1000000000ul, 10000000000ul, 100000000000ul, 1000000000000ul, 10000000000000ul, 100000000000000ul, 1000000000000000ul, 10000000000000000ul, 100000000000000000ul, 1000000000000000000ul, 10000000000000000000ul};
    int nd = 1; while (nd < 20 && v >= P[nd]) nd++;
    for (int i = nd - 1; i >= 0; i--) buf[p++] = (char)('0' + (v / P[i]) % 10);
  }
  emit(os, buf, p, sl);
  return os;
}
template <> template <> ostream &ostream::_M_insert(long v) { return putInt(*this, v < 0, v < 0 ? -(unsigned long)v : v, true, 64); }
template <> template <> ostream &ostream::_M_insert(unsigned long v) { return putInt(*this, false, v, false, 64); }
template <> template <> ostream &ostream::_M_insert(long long v) { return putInt(*this, v < 0, v < 0 ? -(unsigned long)v : v, true, 64); }
template <> template <> ostream &ostream::_M_insert(unsigned long long v) { return putInt(*this, false, v, false, 64); }
template <> template <> ostream &ostream::_M_insert(bool v) { if (flags() & ios_base::boolalpha) { ostream::sentry sen(*this); if (sen) { const char *t = v ? "true" : "false"; emit(*this, t, strlen(t), 0); } return *this; } return putInt(*this, false, v, true, 64); }
template <> template <> ostream &ostream::_M_insert(const void *v) { ios_base::fmtflags f = flags(); flags((f & ~ios_base::basefield) | ios_base::hex | ios_base::showbase); putInt(*this, false, (unsigned long)v, false, 64); flags(f); return *this; }
template <> ostream &ostream::operator<<(int v) { return putInt(*this, v < 0, v < 0 ? -(unsigned long)(long)v : v, true, 32); }
template <> ostream &ostream::operator<<(short v) { return putInt(*this, v < 0, v < 0 ? -(unsigned long)(long)v : v, true, 16); }
static ostream &putD(ostream &os, double v) {
  ostream::sentry sen(os);
  if (!sen) return os;
  ios_base::fmtflags f = os.flags(), ff = f & ios_base::floatfield;
  char buf[512], sp[16]; int q = 0;
  if (symx_is_sym_f64(v) && symx_getopt("opaquefmt", 1)) { buf[0] = '?'; emit(os, buf, 1, 0); return os; }
  sp[q++] = '%'; if (f & ios_base::showpos) sp[q++] = '+'; if (f & ios_base::showpoint) sp[q++] = '#';
  sp[q++] = '.'; sp[q++] = '*';
  bool up = f & ios_base::uppercase;
  sp[q++] = ff == ios_base::fixed ? 'f' : ff == ios_base::scientific ? (up ? 'E' : 'e') : (up ? 'G' : 'g'); sp[q] = 0;
  size_t n = symx_fmt_f64(buf, sp, v, (int)os.precision());
  emit(os, buf, n, (buf[0] == '-' || buf[0] == '+') ? 1 : 0);
  return os;
}
template <> template <> ostream &ostream::_M_insert(double v) { return putD(*this, v); }
template <> template <> ostream &ostream::_M_insert(long double v) { return putD(*this, (double)v); }

// ---- number input
static bool getNum(istream &is, bool &neg, unsigned long &v, bool &ovf) {
  streambuf *sb = is.rdbuf(); ios_base::fmtflags bf = is.flags() & ios_base::basefield;
  int base = bf == ios_base::hex ? 16 : bf == ios_base::oct ? 8 : bf == ios_base::dec ? 10 : 0;
  int c = sb->sgetc(); neg = false; ovf = false; v = 0; bool any = false;
  if (c == '-' || c == '+') { neg = c == '-'; c = sb->snextc(); }
  if ((base == 16 || base == 0) && c == '0') { any = true; c = sb->snextc(); if (c == 'x' || c == 'X') { base = 16; any = false; c = sb->snextc(); } else if (base == 0) base = 8; }
  if (base == 0) base = 10;
  for (;; c = sb->snextc()) {
    int d;
    if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'f') d = c - 'a' + 10; else if (c >= 'A' && c <= 'F') d = c - 'A' + 10; else break;
    if (d >= base) break;
    unsigned __int128 nv = (unsigned __int128)v * base + d; if (nv >> 64) ovf = true; v = (unsigned long)nv; any = true;
  }
  if (c == EOF) is.setstate(ios_base::eofbit);
  return any;
}
template <class T> static istream &exS(istream &is, T &x, long lo, long hi) {
  istream::sentry sen(is, false);
  if (sen) {
    bool neg, ovf; unsigned long v;
    if (!getNum(is, neg, v, ovf)) { x = 0; is.setstate(ios_base::failbit); }
    else if (neg ? (ovf || v > (unsigned long)hi + 1) : (ovf || v > (unsigned long)hi)) { x = neg ? (T)lo : (T)hi; is.setstate(ios_base::failbit); }
    else x = neg ? (T)(-v) : (T)v;
  }
  return is;
}
template <class T> static istream &exU(istream &is, T &x, unsigned long hi) {
  istream::sentry sen(is, false);
  if (sen) {
    bool neg, ovf; unsigned long v;
    if (!getNum(is, neg, v, ovf)) { x = 0; is.setstate(ios_base::failbit); }
    else if (ovf || v > hi) { x = (T)hi; is.setstate(ios_base::failbit); }
    else x = neg ? (T)(-v) : (T)v;
  }
  return is;
}
template <> istream &istream::operator>>(int &n) { return exS(*this, n, -2147483648L, 2147483647L); }
template <> istream &istream::operator>>(short &n) { return exS(*this, n, -32768L, 32767L); }
template <> template <> istream &istream::_M_extract(long &n) { return exS(*this, n, (long)0x8000000000000000ul, 0x7fffffffffffffffl); }
template <> template <> istream &istream::_M_extract(long long &n) { return exS(*this, n, (long)0x8000000000000000ul, 0x7fffffffffffffffl); }
template <> template <> istream &istream::_M_extract(unsigned short &n) { return exU(*this, n, 65535); }
template <> template <> istream &istream::_M_extract(unsigned int &n) { return exU(*this, n, 4294967295ul); }
template <> template <> istream &istream::_M_extract(unsigned long &n) { return exU(*this, n, ~0ul); }
template <> template <> istream &istream::_M_extract(unsigned long long &n) { return exU(*this, n, ~0ul); }
template <> template <> istream &istream::_M_extract(bool &n) { long v; exS(*this, v, 0, 1); n = v; return *this; }
template <> template <> istream &istream::_M_extract(double &x) {
  istream::sentry sen(*this, false);
  if (sen) {
    char buf[256]; size_t n = 0; streambuf *sb = rdbuf(); int c = sb->sgetc();
    while (n < 250 && ((c >= '0' && c <= '9') || c == '+' || c == '-' || c == '.' || c == 'e' || c == 'E')) {
      if ((c == '+' || c == '-') && n && buf[n - 1] != 'e' && buf[n - 1] != 'E') break;
      buf[n++] = (char)c; c = sb->snextc();
    }
    buf[n] = 0; if (c == EOF) setstate(ios_base::eofbit);
    char *e; double v = strtod(buf, &e);
    if (!n || e == buf) { x = 0; setstate(ios_base::failbit); } else x = v;
  }
  return *this;
}
template <> template <> istream &istream::_M_extract(float &x) { double d = 0; _M_extract(d); x = (float)d; return *this; }
template <> template <> istream &istream::_M_extract(long double &x) { double d = 0; _M_extract(d); x = d; return *this; }

template <> istream &operator>>(istream &in, string &str) {
  ios_base::iostate err = ios_base::goodbit; istream::sentry sen(in, false); size_t n = 0;
  if (sen) {
    str.erase(); streamsize w = in.width(); size_t mx = w > 0 ? (size_t)w : (size_t)-1;
    streambuf *sb = in.rdbuf(); int c = sb->sgetc();
    while (n < mx && c != EOF && !isspace(c)) { str += (char)c; n++; c = sb->snextc(); }
    if (n < mx && c == EOF) err |= ios_base::eofbit;
    in.width(0);
  }
  if (!n) err |= ios_base::failbit;
  if (err) in.setstate(err);
  return in;
}
template <> istream &getline(istream &in, string &str, char delim) {
  ios_base::iostate err = ios_base::goodbit; istream::sentry sen(in, true); size_t n = 0;
  if (sen) {
    str.erase(); streambuf *sb = in.rdbuf(); int c = sb->sgetc();
    while (c != EOF && c != (unsigned char)delim) { str += (char)c; n++; c = sb->snextc(); }
    if (c == EOF) err |= ios_base::eofbit; else { n++; sb->sbumpc(); }
  }
  if (!n) err |= ios_base::failbit;
  if (err) in.setstate(err);
  return in;
}
template <> istream &istream::getline(char *s, streamsize n, char delim) {
  _M_gcount = 0; ios_base::iostate err = ios_base::goodbit; sentry sen(*this, true);
  if (sen) {
    streambuf *sb = rdbuf(); int c = sb->sgetc();
    while (_M_gcount + 1 < n && c != EOF && c != (unsigned char)delim) { *s++ = (char)c; ++_M_gcount; c = sb->snextc(); }
    if (c == EOF) err |= ios_base::eofbit; else if (c == (unsigned char)delim) { ++_M_gcount; sb->sbumpc(); } else err |= ios_base::failbit;
  }
  if (n > 0) *s = 0;
  if (!_M_gcount) err |= ios_base::failbit;
  if (err) setstate(err);
  return *this;
}
template <> istream &istream::ignore(streamsize n) { _M_gcount = 0; sentry sen(*this, true); if (sen) { streambuf *sb = rdbuf(); while (_M_gcount < n) { int c = sb->sbumpc(); if (c == EOF) { setstate(ios_base::eofbit); break; } _M_gcount++; } } return *this; }
template <> istream &istream::ignore(streamsize n, int_type d) { _M_gcount = 0; sentry sen(*this, true); if (sen) { streambuf *sb = rdbuf(); while (_M_gcount < n) { int c = sb->sbumpc(); if (c == EOF) { setstate(ios_base::eofbit); break; } _M_gcount++; if (c == d) break; } } return *this; }

template class basic_string<char>;
template class basic_streambuf<char>;
template class basic_ios<char>;
template class basic_ostream<char>;
template class basic_istream<char>;
template class basic_iostream<char>;
template class basic_stringbuf<char>;
template class basic_ostringstream<char>;
template class basic_istringstream<char>;
template class basic_stringstream<char>;
template ostream &__ostream_insert(ostream &, const char *, streamsize);
template ostream &operator<<(ostream &, const char *);
template ostream &operator<<(ostream &, char);
template ostream &operator<<(ostream &, unsigned char);
template ostream &operator<<(ostream &, const unsigned char *);
template ostream &endl(ostream &);
template ostream &ends(ostream &);
template ostream &flush(ostream &);
template istream &ws(istream &);
template istream &operator>>(istream &, char &);
template istream &operator>>(istream &, unsigned char &);
template istream &getline(istream &, string &);
template string operator+(const string &, const string &);
template string operator+(const char *, const string &);

namespace __detail {
static const unsigned long primes[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 47, 53, 59, 67, 79, 97, 127, 157, 199, 257, 337, 439, 577, 761, 997, 1301, 1709, 2221, 2909, 3779, 4931, 6427, 8389, 10937, 14251, 18583};
}

// standard streams: writes are discarded
struct NullBuf : streambuf { int overflow(int c) override { return c == EOF ? 0 : c; } streamsize xsputn(const char *, streamsize n) override { return n; } };
alignas(16) char cout[sizeof(ostream)], cerr[sizeof(ostream)], clog[sizeof(ostream)], cin[sizeof(istream)];
static char nb[sizeof(NullBuf)] __attribute__((aligned(16)));
struct StdInit { StdInit() { NullBuf *b = new (nb) NullBuf(); new (cout) ostream(b); new (cerr) ostream(b); new (clog) ostream(b); new (cin) istream(b); } };
static StdInit stdInit_ __attribute__((init_priority(101)));
}
