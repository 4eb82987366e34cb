// PROPERTY: E03
// SRC: core/lib/Utilities/Exception.cpp
// BOUND: Lagrange interpolation of integer polynomials with any coefficients (in a range) on 4 and 6 nodes at even and uneven distances, at any node or half-integer point of the central interval
// OUTSIDE: rounding in floating point; other nodes
// ASSUMES: none
// OPT: fpmode=2 merge=0 query-timeout=60 max-paths=200000
#include "symx.h"
#include <vector>
#include <cmath>
typedef int64_t I;
// exact fractions: any numerator over a positive concrete denominator
struct Z { I n, d; Z(I x = 0) : n(x), d(1) {} Z(I a, I b) : n(a), d(b) {} };
static I gcd(I a, I b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { I t = a % b; a = b; b = t; } return a; }
static Z operator+(Z a, Z b) { I g = gcd(a.d, b.d); return Z(a.n * (b.d / g) + b.n * (a.d / g), a.d / g * b.d); } static Z operator-(Z a) { return Z(-a.n, a.d); } static Z operator-(Z a, Z b) { return a + -b; }
static Z operator*(Z a, Z b) { return Z(a.n * b.n, a.d * b.d); }
static Z operator/(Z a, Z b) { ASSERT(b.n != 0, "no division by zero"); I s = b.n < 0 ? -1 : 1; return Z(a.n * (b.d * s), a.d * (b.n * s)); }
static Z &operator+=(Z &a, Z b) { return a = a + b; } static Z &operator*=(Z &a, Z b) { return a = a * b; }
static bool operator==(Z a, Z b) { return a.n * b.d == b.n * a.d; } static bool operator<(Z a, Z b) { return a.n * b.d < b.n * a.d; }
namespace std { static Z abs(Z a) { return a.n < 0 ? Z(-a.n, a.d) : a; } }
#include "MiscMath.hpp"
using namespace gpstk;
static const I NODES[3][6] = {{0, 1, 2, 3, 4, 5}, {-3, -1, 0, 2, 3, 7}, {0, 2, 3, 4, 8, 9}};
template <int N> struct Poly { I c[N]; Poly() { for (int i = 0; i < N; i++) c[i] = (I)S("c", 32); } I at(I x) const { I r = 0; for (int i = N; i--;) r = r * x + c[i]; return r; } I slope(I x) const { I r = 0; for (int i = N; --i;) r = r * x + c[i] * i; return r; } };
template <int N> static void setup(std::vector<Z> &X, std::vector<Z> &Y, const Poly<N> &p, I &x) { int w = symx_concretize(R("nodes", 0, 2)), o = N == 4 ? 1 : 0; for (int i = 0; i < N; i++) { X.push_back(Z(NODES[w][o + i])); Y.push_back(Z(p.at(NODES[w][o + i]))); } x = symx_concretize(R("x", 2 * NODES[w][2], 2 * NODES[w][3])); }   // x in halves
template <int N> static void value() { Poly<N> p; std::vector<Z> X, Y; I x; setup<N>(X, Y, p, x); I h = 0, t = 1; for (int i = 0; i < N; i++) { h += p.c[i] * t * (1 << (N - i)); t *= x; } /* p(x/2) * 2^N */ Z e, r = LagrangeInterpolation(X, Y, Z(x, 2), e); ASSERT(r.n * (1 << N) == h * r.d, "a polynomial of lower degree is reproduced"); }
template <int N> static void deriv() { Poly<N> p; std::vector<Z> X, Y; I x; setup<N>(X, Y, p, x); I h = 0, g = 0, t = 1, u = 1; for (int i = 0; i < N; i++) { h += p.c[i] * t * (1 << (N - i)); t *= x; if (i) { g += p.c[i] * i * u * (1 << (N - i)); u *= x; } } Z y, d; LagrangeInterpolation(X, Y, Z(x, 2), y, d); ASSERT(y.n * (1 << N) == h * y.d, "a polynomial of lower degree is reproduced along with its derivative"); ASSERT(d.n * (1 << (N - 1)) == g * d.d, "the derivative of a polynomial of lower degree is reproduced"); }
template <int N> static void simple() { Poly<N> p; std::vector<Z> X, Y; I x; setup<N>(X, Y, p, x); x = symx_concretize(R("any", -2, 18)); I h = 0, t = 1; for (int i = 0; i < N; i++) { h += p.c[i] * t * (1 << (N - i)); t *= x; } Z r = SimpleLagrangeInterpolation(X, Y, Z(x, 2)); ASSERT(r.n * (1 << N) == h * r.d, "a polynomial of lower degree is reproduced anywhere"); }
ENTRY check_lagrange4() { value<4>(); }
ENTRY check_lagrange6() { value<6>(); }
ENTRY check_lagrangeslope4() { deriv<4>(); }
ENTRY check_lagrangeslope6() { deriv<6>(); }
ENTRY check_lagrangesimple4() { simple<4>(); }
ENTRY check_lagrangeshort() { int n = symx_concretize(R("n", 0, 5)), m = symx_concretize(R("m", 0, 5)); std::vector<Z> X, Y; for (int i = 0; i < n; i++) X.push_back(Z(i)); for (int i = 0; i < m; i++) Y.push_back(Z(S("y", 32))); Z e, y, d; bool bad = n < 4 || m < n; bool t1 = false, t2 = false; try { LagrangeInterpolation(X, Y, Z(3, 2), e); } catch (Exception &) { t1 = true; } try { LagrangeInterpolation(X, Y, Z(3, 2), y, d); } catch (Exception &) { t2 = true; } ASSERT(t1 == bad && t2 == bad, "too few or uneven data is refused"); }
