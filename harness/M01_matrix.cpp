// PROPERTY: M01
// SRC: core/lib/Math/Vector/VectorBase.cpp core/lib/Utilities/Exception.cpp
// BOUND: matrices of 1..3 rows and 1..3 columns (4x4 for minors and determinants), vectors of 1..4 elements, elements any integer of 8 bits
// OUTSIDE: floating-point elements, decompositions, inverses, norms that take a square root; a number minus or divided by a matrix (documented ambiguously)
// OPT: merge=0
#include "symx.h"
#include <cstring>
#include <cstdlib>
#include <cmath>
#include <fstream>
#include "Vector.hpp"
#include "Matrix.hpp"
using namespace gpstk;
typedef long E; typedef Matrix<E> M; typedef Vector<E> V;
static int dim(const char *n, int lo, int hi) { return (int)symx_concretize(R(n, lo, hi)); }
static E el(const char *n) { return (E)S(n, 8); }
static M mat(const char *n, int r, int c) { M m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = el(n); return m; }
static V vec(const char *n, int k) { V v(k); for (int i = 0; i < k; i++) v(i) = el(n); return v; }
#define SIZE(m, R_, C_) ASSERT((int)(m).rows() == (R_) && (int)(m).cols() == (C_) && (int)(m).size() == (R_) * (C_), "the size of the result")
#define ALL(r, c, cond, text) do { bool ok_ = true; for (int i = 0; i < (r); i++) for (int j = 0; j < (c); j++) ok_ = symx_and(ok_, (cond)); ASSERT(ok_, text); } while (0)
ENTRY check_product() {
  int r = dim("r", 1, 3), k = dim("k", 1, 3), c = dim("c", 1, 3); M a = mat("a", r, k), b = mat("b", k, c); V v = vec("v", k), w = vec("w", r); M p = a * b; SIZE(p, r, c); V av = a * v, wa = w * a; ASSERT((int)av.size() == r && (int)wa.size() == k, "the size of the result");
  bool ok = true; for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { E x = 0; for (int l = 0; l < k; l++) x += a(i, l) * b(l, j); ok = symx_and(ok, p(i, j) == x); } ASSERT(ok, "the product of matrices");
  ok = true; for (int i = 0; i < r; i++) { E x = 0; for (int l = 0; l < k; l++) x += a(i, l) * v(l); ok = symx_and(ok, av(i) == x); } ASSERT(ok, "the product of a matrix and a vector"); ok = true; for (int l = 0; l < k; l++) { E x = 0; for (int i = 0; i < r; i++) x += w(i) * a(i, l); ok = symx_and(ok, wa(l) == x); } ASSERT(ok, "the product of a vector and a matrix");
}
ENTRY check_sizes() {
  int r = dim("r", 1, 3), c = dim("c", 1, 3), k = dim("k", 1, 3), n = dim("n", 1, 3); M a(r, c, 1L), b(k, n, 1L); V v(n, 1L), w(c, 2L);
  if (c != k) MUSTTHROW(MatrixException, a * b, "a product of matrices that do not fit"); if (c != n) MUSTTHROW(MatrixException, a * v, "a product of a matrix and a vector that do not fit"); if (r != n) MUSTTHROW(MatrixException, v * a, "a product of a vector and a matrix that do not fit"); if (r != k || c != n) { MUSTTHROW(MatrixException, a + b, "a sum of matrices of different sizes"); MUSTTHROW(MatrixException, a - b, "a difference of matrices of different sizes"); }
  if (c != n) { MUSTTHROW(MatrixException, a && b, "columns that do not fit"); MUSTTHROW(MatrixException, a && v, "columns that do not fit"); MUSTTHROW(MatrixException, v && a, "columns that do not fit"); MUSTTHROW(VectorException, v + w, "vectors of different lengths"); } if (r != k) MUSTTHROW(MatrixException, a || b, "rows that do not fit"); if (r != n) { MUSTTHROW(MatrixException, a || v, "rows that do not fit"); MUSTTHROW(MatrixException, v || a, "rows that do not fit"); }
  MUSTTHROW(MatrixException, M(a, 0, 0, r + 1, c), "a part beyond the matrix"); MUSTTHROW(MatrixException, M(a, 0, 1, r, c), "a part beyond the matrix"); MUSTTHROW(MatrixException, minorMatrix(a, r, 0), "a minor of no element"); if (r != c) { MUSTTHROW(MatrixException, trace(a), "a trace of no square"); MUSTTHROW(MatrixException, ident(a), "an identity that is no square"); MUSTTHROW(MatrixException, diag(a), "a diagonal of no square"); }
  if (n != 3 || c != 3) MUSTTHROW(VectorException, cross(v, w), "a cross product of other vectors than those of three elements"); MUSTTHROW(VectorException, V(v, n, 1), "a part beyond the vector"); MUSTTHROW(VectorException, V(v, 0, n + 1), "a part beyond the vector"); MUSTTHROW(MatrixException, MatrixSlice<E>(a, 0, 0, r + 1, c), "a slice beyond the matrix");
}
ENTRY check_sums() {
  int r = dim("r", 1, 3), c = dim("c", 1, 3); M a = mat("a", r, c), b = mat("b", r, c); E d = el("d"); M s = a + b, m = a - b, t = a * d, u = d * a, q = a + d, z = a - d, n = M(a); n = -n; SIZE(s, r, c); SIZE(m, r, c); SIZE(t, r, c);
  ALL(r, c, s(i, j) == a(i, j) + b(i, j), "a sum"); ALL(r, c, m(i, j) == a(i, j) - b(i, j), "a difference"); ALL(r, c, t(i, j) == a(i, j) * d && u(i, j) == d * a(i, j), "a multiple"); ALL(r, c, q(i, j) == a(i, j) + d && z(i, j) == a(i, j) - d, "a number added to each element"); ALL(r, c, n(i, j) == -a(i, j), "the negative");
  M x(a); x += b; ALL(r, c, x(i, j) == s(i, j), "a sum in place"); x -= b; ALL(r, c, x(i, j) == a(i, j), "a difference in place"); x *= d; ALL(r, c, x(i, j) == t(i, j), "a multiple in place");
}
ENTRY check_shape() {
  int r = dim("r", 1, 3), c = dim("c", 1, 3); M a = mat("a", r, c); M t = transpose(a); SIZE(t, c, r); ALL(r, c, t(j, i) == a(i, j), "the transpose"); E flat[9]; for (int i = 0; i < r * c; i++) flat[i] = el("f"); M f(r, c, flat); SIZE(f, r, c); ALL(r, c, f(i, j) == flat[i * c + j], "a list fills a matrix row by row"); M g(a); g = flat; ALL(r, c, g(i, j) == flat[i * c + j], "a list fills a matrix row by row");
  V fv(r * c); for (int i = 0; i < r * c; i++) fv(i) = flat[i]; M h(r, c, fv); ALL(r, c, h(i, j) == flat[i * c + j], "a vector fills a matrix row by row");
  int p = dim("p", 0, 2), q = dim("q", 0, 2); if (p >= r || q >= c) return; int nr = dim("nr", 1, 3), nc = dim("nc", 1, 3); if (p + nr > r || q + nc > c) return; M s(a, p, q, nr, nc); SIZE(s, nr, nc); ALL(nr, nc, s(i, j) == a(p + i, q + j), "a part of a matrix");
  M b(a); MatrixSlice<E> sl(b, p, q, nr, nc); ALL(nr, nc, sl(i, j) == a(p + i, q + j), "a slice shows the matrix"); E d = el("d"); sl = d; ALL(r, c, b(i, j) == (i >= p && i < p + nr && j >= q && j < q + nc ? d : a(i, j)), "writing to a slice changes its elements only");
}
ENTRY check_join() {
  int r = dim("r", 1, 3), c = dim("c", 1, 3), k = dim("k", 1, 2); M a = mat("a", r, c), b = mat("b", k, c), e = mat("e", r, k); V v = vec("v", c), w = vec("w", r); M s = a && b, t = a && v, u = v && a, x = a || e, y = a || w, z = w || a; SIZE(s, r + k, c); SIZE(t, r + 1, c); SIZE(u, r + 1, c); SIZE(x, r, c + k); SIZE(y, r, c + 1); SIZE(z, r, c + 1);
  ALL(r + k, c, s(i, j) == (i < r ? a(i, j) : b(i - r, j)), "rows of a matrix are appended"); ALL(r + 1, c, t(i, j) == (i < r ? a(i, j) : v(j)), "a row is appended"); ALL(r + 1, c, u(i, j) == (i ? a(i - 1, j) : v(j)), "a row is put first"); ALL(r, c + k, x(i, j) == (j < c ? a(i, j) : e(i, j - c)), "columns of a matrix are appended"); ALL(r, c + 1, y(i, j) == (j < c ? a(i, j) : w(i)), "a column is appended"); ALL(r, c + 1, z(i, j) == (j ? a(i, j - 1) : w(i)), "a column is put first");
  V w2 = vec("w2", r); M p = w || w2; SIZE(p, r, 2); ALL(r, 2, p(i, j) == (j ? w2(i) : w(i)), "two columns");
}
ENTRY check_rowscols() {
  int r = dim("r", 1, 3), c = dim("c", 1, 3); M a = mat("a", r, c); const M &k = a; int p = dim("p", 0, 2), q = dim("q", 0, 2), p0 = dim("p0", 0, 2), q0 = dim("q0", 0, 2); if (p >= r || q >= c || p0 >= r || q0 >= c) return;
  V x = k.rowCopy(p, q0), y = k.colCopy(q, p0); ASSERT((int)x.size() == c - q0 && (int)y.size() == r - p0, "the size of a copy"); bool ok = true; for (int j = q0; j < c; j++) ok = symx_and(ok, x(j - q0) == a(p, j)); ASSERT(ok, "a copy of a row"); ok = true; for (int i = p0; i < r; i++) ok = symx_and(ok, y(i - p0) == a(i, q)); ASSERT(ok, "a copy of a column");
  ConstMatrixRowSlice<E> rs = k.row(p, q0); ok = (int)rs.size() == c - q0; for (int j = q0; j < c; j++) ok = symx_and(ok, rs(j - q0) == a(p, j)); ASSERT(ok, "a view of a row"); NOTHROW(k.col(q, p0), "a column can be viewed"); ConstMatrixColSlice<E> cs = k.col(q, p0); ok = (int)cs.size() == r - p0; for (int i = p0; i < r; i++) ok = symx_and(ok, cs(i - p0) == a(i, q)); ASSERT(ok, "a view of a column");
  M b(a); E d = el("d"); b.rowRef(p, q0) = d; ALL(r, c, b(i, j) == (i == p && j >= q0 ? d : a(i, j)), "writing to a row changes its elements only"); M g(a); g.colRef(q, p0) = d; ALL(r, c, g(i, j) == (j == q && i >= p0 ? d : a(i, j)), "writing to a column changes its elements only"); M h(a); h[p][q] = d; ALL(r, c, h(i, j) == (i == p && j == q ? d : a(i, j)), "an element is written");
  M s(a); s.swapRows(p, p0); ALL(r, c, s(i, j) == a(i == p ? p0 : i == p0 ? p : i, j), "rows are exchanged"); M t(a); t.swapCols(q, q0); ALL(r, c, t(i, j) == a(i, j == q ? q0 : j == q0 ? q : j), "columns are exchanged"); V dg = k.diagCopy(); ok = (int)dg.size() == (r < c ? r : c); for (int i = 0; i < r && i < c; i++) ok = symx_and(ok, dg(i) == a(i, i)); ASSERT(ok, "a copy of the diagonal");
}
ENTRY check_special() {
  int n = dim("n", 1, 3), c = dim("c", 1, 3); M a = mat("a", n, n), b = mat("b", n, c); M e = ident<E>(n); ALL(n, n, e(i, j) == (i == j), "the identity"); M d = diag(a); ALL(n, n, d(i, j) == (i == j ? a(i, j) : 0), "the diagonal"); E t = 0; for (int i = 0; i < n; i++) t += a(i, i); ASSERT(trace(a) == t, "the trace"); int k = dim("k", 1, 2); M f = mat("f", k, k); M bd = blkdiag(a, f); SIZE(bd, n + k, n + k); ALL(n + k, n + k, bd(i, j) == (i < n && j < n ? a(i, j) : i >= n && j >= n ? f(i - n, j - n) : 0), "blocks on the diagonal");
  bool ut = true, lt = true, sy = true; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (i > j) ut = symx_and(ut, a(i, j) == 0); if (i < j) lt = symx_and(lt, a(i, j) == 0); sy = symx_and(sy, a(i, j) == a(j, i)); } ASSERT(a.isUT() == ut && a.isLT() == lt && a.isDiagonal() == symx_and(ut, lt) && a.isSymmetric() == sy, "triangular, diagonal and symmetric matrices are recognized"); ASSERT(b.isSquare() == (n == c), "a square matrix is recognized");
  V v = vec("v", n), w = vec("w", c); M o = outer(v, w); SIZE(o, n, c); ALL(n, c, o(i, j) == v(i) * w(j), "the outer product");
}
ENTRY check_norms() { int n = dim("n", 1, 3), c = dim("c", 1, 3); M b = mat("b", n, c); E best = 0, big = 0; for (int j = 0; j < c; j++) { E s = 0; for (int i = 0; i < n; i++) { E x = b(i, j) < 0 ? -b(i, j) : b(i, j); s += x; if (x > big) big = x; } if (s > best) best = s; } ASSERT(maxabs(b) == big, "the largest element"); ASSERT(normCol(b) == best, "the column sum norm"); }
static M cut(const M &a, int p, int q) { int n = a.rows(), k = a.cols(); M m(n - 1, k - 1); for (int i = 0; i < n - 1; i++) for (int j = 0; j < k - 1; j++) m(i, j) = a(i < p ? i : i + 1, j < q ? j : j + 1); return m; }
ENTRY check_minor() { int r = dim("r", 2, 4), c = dim("c", 2, 4), p = dim("p", 0, 3), q = dim("q", 0, 3); if (p >= r || q >= c) return; M a = mat("a", r, c), m = minorMatrix(a, p, q), w = cut(a, p, q); SIZE(m, r - 1, c - 1); ALL(r - 1, c - 1, m(i, j) == w(i, j), "the minor is the matrix without a row and a column"); }
ENTRY check_det() { int n = dim("n", 2, 3); M a = mat("a", n, n); E d = n == 2 ? a(0, 0) * a(1, 1) - a(0, 1) * a(1, 0) : a(0, 0) * (a(1, 1) * a(2, 2) - a(1, 2) * a(2, 1)) - a(0, 1) * (a(1, 0) * a(2, 2) - a(1, 2) * a(2, 0)) + a(0, 2) * (a(1, 0) * a(2, 1) - a(1, 1) * a(2, 0)); ASSERT(slowDet(a) == d, "the determinant"); }
ENTRY check_vector() {
  int n = dim("n", 1, 4), k = dim("k", 1, 4); V v = vec("v", n), w = vec("w", n), x = vec("x", k); E d = el("d"); V s = v + w, m = v - w, p = v * w, t = v * d, u = d - v; bool ok = true; for (int i = 0; i < n; i++) ok = symx_and(ok, s(i) == v(i) + w(i) && m(i) == v(i) - w(i) && p(i) == v(i) * w(i) && t(i) == v(i) * d && u(i) == d - v(i)); ASSERT((int)s.size() == n && ok, "sums, differences and products by element");
  E sm = 0, dt = 0, mn = v(0), mx = v(0); for (int i = 0; i < n; i++) { sm += v(i); dt += v(i) * w(i); if (v(i) < mn) mn = v(i); if (v(i) > mx) mx = v(i); } ASSERT(sum(v) == sm, "the sum of the elements"); ASSERT(dot(v, w) == dt, "the dot product"); ASSERT(min(v) == mn && max(v) == mx, "the least and the greatest element");
  V j = v && x; ok = (int)j.size() == n + k; for (int i = 0; i < n + k; i++) ok = symx_and(ok, j(i) == (i < n ? v(i) : x(i - n))); ASSERT(ok, "vectors are joined"); V g(v); g << x; ok = (int)g.size() == n + k; for (int i = 0; i < n + k; i++) ok = symx_and(ok, g(i) == j(i)); ASSERT(ok, "a vector is appended"); V e = v && d; ASSERT((int)e.size() == n + 1 && e(n) == d && e(0) == v(0), "an element is appended");
  ASSERT(v.front() == v(0), "the first element"); const V &cv = v; ASSERT(cv.front() == v(0), "the first element"); std::vector<E> sv = v.toStdVector(); ok = (int)sv.size() == n; for (int i = 0; ok && i < n; i++) ok = symx_and(ok, sv[i] == v(i)); ASSERT(ok, "the elements as a standard vector"); V b; b = sv; ok = (int)b.size() == n; for (int i = 0; ok && i < n; i++) ok = symx_and(ok, b(i) == v(i)); ASSERT(ok, "the elements from a standard vector");
  V c(x); c = v; ok = (int)c.size() == n; for (int i = 0; i < n; i++) ok = symx_and(ok, c(i) == v(i)); ASSERT(ok, "a vector is assigned"); c.resize(k, d); ok = (int)c.size() == k; for (int i = 0; i < k; i++) ok = symx_and(ok, c(i) == d); ASSERT(ok, "a vector is filled");
}
ENTRY check_slice() {
  int n = dim("n", 1, 4), b = dim("b", 0, 3), len = dim("len", 1, 4), st = dim("st", 1, 3); V v = vec("v", n); if (b + (len - 1) * st >= n || b >= n) return; VectorSlice<E> s(v, std::slice(b, len, st)); bool ok = (int)s.size() == len; for (int i = 0; i < len; i++) ok = symx_and(ok, s(i) == v(b + i * st)); ASSERT(ok, "a slice shows the vector"); V o(v); E d = el("d"); s = d; ok = true; for (int i = 0; i < n; i++) ok = symx_and(ok, v(i) == (i >= b && i < b + len * st && (i - b) % st == 0 ? d : o(i))); ASSERT(ok, "writing to a slice changes its elements only");
  if (b + len <= n) { V p(o, b, len); ok = (int)p.size() == len; for (int i = 0; i < len; i++) ok = symx_and(ok, p(i) == o(b + i)); ASSERT(ok, "a part of a vector"); }
}
ENTRY check_cross() { V a = vec("a", 3), b = vec("b", 3), c = cross(a, b); ASSERT(c.size() == 3 && c(0) == a(1) * b(2) - a(2) * b(1) && c(1) == a(2) * b(0) - a(0) * b(2) && c(2) == a(0) * b(1) - a(1) * b(0), "the cross product"); ASSERT(dot(a, c) == 0 && dot(b, c) == 0, "the cross product is normal to both vectors"); V p = vec("p", 4), q = vec("q", 4); ASSERT(Minkowski(p, q) == p(0) * q(0) + p(1) * q(1) + p(2) * q(2) - p(3) * q(3), "the Minkowski product"); }
ENTRY check_strides() {
  int r = dim("r", 1, 4), c = dim("c", 1, 3), r0 = dim("r0", 0, 3), nr = dim("nr", 1, 3), rs = dim("rs", 1, 3), c0 = dim("c0", 0, 2), nc = dim("nc", 1, 2), cs = dim("cs", 1, 2); if ((nr == 1 && rs > 1) || (nc == 1 && cs > 1)) return; bool rin = r0 + (nr - 1) * rs < r, cin = c0 + (nc - 1) * cs < c; if ((!rin && (c0 || nc > 1)) || (!cin && (r0 || nr > 1))) return; std::slice rr(r0, nr, rs), cc(c0, nc, cs); M a = mat("a", r, c);
  if (!rin || !cin) { MUSTTHROW(MatrixException, MatrixSlice<E>(a, rr, cc), "a slice beyond the matrix"); MUSTTHROW(MatrixException, ConstMatrixSlice<E>(a, rr, cc), "a slice beyond the matrix"); return; }
  const M o(a); E d = el("d"); MatrixSlice<E> s(a, rr, cc); ConstMatrixSlice<E> k(o, rr, cc); SIZE(s, nr, nc); SIZE(k, nr, nc); ALL(nr, nc, s(i, j) == o(r0 + i * rs, c0 + j * cs) && k(i, j) == s(i, j), "a slice with strides shows the matrix");
#define IN_(x, s0, n, st) ((x) >= (s0) && ((x) - (s0)) % (st) == 0 && ((x) - (s0)) / (st) < (n))
  s += d; ALL(r, c, a(i, j) == (IN_(i, r0, nr, rs) && IN_(j, c0, nc, cs) ? o(i, j) + d : o(i, j)), "adding to a slice with strides changes its elements only"); M w = mat("w", nr, nc); s = w; ALL(r, c, a(i, j) == (IN_(i, r0, nr, rs) && IN_(j, c0, nc, cs) ? w((i - r0) / rs, (j - c0) / cs) : o(i, j)), "a matrix is written to a slice with strides");
  M b(o); b.colRef(c0, rr) = d; ALL(r, c, b(i, j) == (IN_(i, r0, nr, rs) && j == c0 ? d : o(i, j)), "writing to a part of a column changes its elements only"); M g(o); g.rowRef(r0, cc) = d; ALL(r, c, g(i, j) == (i == r0 && IN_(j, c0, nc, cs) ? d : o(i, j)), "writing to a part of a row changes its elements only");
  ConstMatrixColSlice<E> cv = o.col(c0, rr); ConstMatrixRowSlice<E> rv = o.row(r0, cc); bool ok = (int)cv.size() == nr && (int)rv.size() == nc; for (int i = 0; i < nr; i++) ok = symx_and(ok, cv(i) == o(r0 + i * rs, c0)); for (int j = 0; j < nc; j++) ok = symx_and(ok, rv(j) == o(r0, c0 + j * cs)); ASSERT(ok, "views of parts of rows and columns");
}
