// PROPERTY: U03
// SRC: core/lib/Utilities/StringUtils.cpp core/lib/Utilities/Exception.cpp
// BOUND: texts of 0..9 characters for words, 0..8 for justification, 0..6 for stripping and replacing with patterns of 1..3 and replacements of 0..3 characters; every character value and delimiter; numbers written and read: a set of 41 hexadecimal and 200 decimal ones, each with the leads and tails listed; quoted: up to 3 fields from a set of 4
// OUTSIDE: regular expressions (matches, isLike), text of floating-point numbers, quoted fields
// ASSUMES: a number's text has at least one digit; the pattern that is replaced is not empty
// OPT: merge=0
#include "symx.h"
#include <vector>
#include <cstring>
#include "StringUtils.hpp"
using namespace gpstk; using namespace gpstk::StringUtils;
typedef std::string T; static const size_t NP = T::npos;
static T text(const char *name, int max) { char b[12]; T ln = T(name) + "len"; int n = symx_concretize(R(ln.c_str(), 0, max)); symx_bytes(b, max, name); return T(b, n); }
static T text1(const char *name, int min, int max) { T ln = T(name) + "len"; int n = symx_concretize(R(ln.c_str(), min, max)); char b[12]; symx_bytes(b, max, name); return T(b, n); }
static std::vector<T> tokens(const T &s, char d) { std::vector<T> v; T c; for (size_t i = 0; i <= s.size(); i++) { if (i == s.size() || s[i] == d) { if (c.size()) v.push_back(c); c = ""; } else c += s[i]; } return v; }
static void cutat(const T &s, char d) {
  std::vector<T> w = tokens(s, d); int n = w.size(); ASSERT(numWords(s, d) == n, "the words are counted"); ASSERT(split(s, d) == w, "a text is split into its words");
  for (int i = 0; i <= n + 1; i++) ASSERT(word(s, i, d) == (i < n ? w[i] : T()), "a word is found by its number, and there is no other");
  T r(s), f = stripFirstWord(r, d); ASSERT(f == (n ? w[0] : T()), "the first word is taken off"); std::vector<T> rest(w.begin() + (n ? 1 : 0), w.end()); ASSERT(split(r, d) == rest, "the other words stay"); ASSERT(n == 0 || firstWord(s, d) == w[0], "the first word is found");
}
ENTRY check_words() { const T s = text("c", 9); cutat(s, ' '); }
ENTRY check_delim() { const T s = text("s", 6); char d = (char)U("d", 8); cutat(s, d); }
ENTRY check_somewords() {
  const T s = text("c", 7); size_t first = symx_concretize(R("first", 0, 3)), num = symx_concretize(R("num", 0, 3)); if (num == 3) num = NP; std::vector<T> w = tokens(s, ' ');
  T got = words(s, first, num); size_t last = num == NP ? w.size() : std::min(w.size(), first + num); std::vector<T> want; for (size_t i = first; i < last; i++) want.push_back(w[i]); ASSERT(tokens(got, ' ') == want, "the words asked for are returned"); ASSERT(got == "" || (got[0] != ' ' && s.find(got) != NP), "they are a part of the text");
  T r(s); removeWords(r, first, num); std::vector<T> left; for (size_t i = 0; i < w.size(); i++) if (i < first || i >= last) left.push_back(w[i]); ASSERT(tokens(r, ' ') == left, "the words named are removed, and no others"); if (left.empty() && w.size()) ASSERT(r == "", "nothing is left if all words are removed");
}
ENTRY check_fields() {
  const T s = text("c", 6); T d(1, 'a'); if (symx_concretize(R("two", 0, 1))) d += ' '; std::vector<T> w, got; T c; for (size_t i = 0; i <= s.size(); i++) { if (i == s.size() || d.find(s[i]) != NP) { if (c.size()) w.push_back(c); c = ""; } else c += s[i]; }
  got = split(s, d, false, true); ASSERT(got == w, "a text is split at any of the delimiters"); std::vector<T> t; for (size_t i = 0; i < w.size(); i++) { T x = strip(w[i]); if (x.size()) t.push_back(x); } got = split(s, d, true, true); ASSERT(got == t, "blanks around the parts are removed");
}
ENTRY check_quoted() { // a quoted field may hold the delimiter; fields are otherwise those between the delimiters
  T f[3], all; int n = symx_concretize(R("n", 1, 3)); std::vector<T> w; for (int i = 0; i < n; i++) { T q = T("q") + char('0' + i), k = T("k") + char('0' + i); static const char *val[4] = {"", "x", "x y", "a,b"}; int vi = symx_concretize(R(k.c_str(), 0, 3)); bool quote = symx_concretize(R(q.c_str(), 0, 1)); if (vi == 3) quote = true; T v = val[vi]; w.push_back(v); all += (i ? "," : "") + (quote ? "\"" + v + "\"" : v); }
  std::vector<T> a = splitWithQuotes(all, ',', false, false), b = splitWithDoubleQuotes(all, ',', false, false); ASSERT(a == w, "quoted fields are read"); ASSERT(b == w, "double-quoted fields are read");
}
ENTRY check_strip() {
  const T s = text1("s", 0, 6), p = text1("p", 1, 3); size_t num = symx_concretize(R("num", 0, 3)); if (num == 3) num = NP; size_t k = 0, b = 0; while (k < num && s.compare(b, p.size(), p) == 0 && b + p.size() <= s.size()) { k++; b += p.size(); } ASSERT(stripLeading(s, p, num) == s.substr(b), "leading copies are removed, as many as asked for");
  size_t e = s.size(); k = 0; while (k < num && e >= p.size() && s.compare(e - p.size(), p.size(), p) == 0) { k++; e -= p.size(); } ASSERT(stripTrailing(s, p, num) == s.substr(0, e), "trailing copies are removed, as many as asked for");
  const T r = s.substr(b); e = r.size(); k = 0; while (k < num && e >= p.size() && r.compare(e - p.size(), p.size(), p) == 0) { k++; e -= p.size(); } ASSERT(strip(s, p, num) == r.substr(0, e), "both ends are stripped");
}
ENTRY check_stripchar() { const T s = text("s", 7); char c = (char)U("c", 8); size_t b = 0, e = s.size(); while (b < e && s[b] == c) b++; ASSERT(stripLeading(s, c) == s.substr(b), "leading characters are removed"); while (e > 0 && s[e - 1] == c) e--; ASSERT(stripTrailing(s, c) == s.substr(0, e), "trailing characters are removed"); ASSERT(strip(s, c) == (b < e ? s.substr(b, e - b) : T()), "both ends are stripped"); }
ENTRY check_blanks() { const T s = text("c", 8); T t = strip(s), l = stripLeading(s), g = stripTrailing(s); size_t b = 0, e = s.size(); while (b < e && s[b] == ' ') b++; while (e > b && s[e - 1] == ' ') e--; ASSERT(t == s.substr(b, e - b) && l == s.substr(b) && (b == s.size() ? g == "" : g == s.substr(0, e)), "blanks are stripped"); }
ENTRY check_justify() {
  const T s = text("s", 8); size_t w = symx_concretize(R("w", 0, 10)), n = s.size(); char p = (char)U("p", 8); T l = leftJustify(s, w, p), r = rightJustify(s, w, p), c = center(s, w, p); ASSERT(l.size() == w && r.size() == w && c.size() == w, "the text has the width asked for");
  if (w <= n) { ASSERT(l == s.substr(0, w), "the left of the text is kept"); ASSERT(r == s.substr(n - w), "the right of the text is kept"); ASSERT(c == s.substr(0, w), "the left of the text is kept"); return; }
  ASSERT(l == s + T(w - n, p), "the padding is on the right"); ASSERT(r == T(w - n, p) + s, "the padding is on the left"); bool ok = false; size_t h = (w - n) / 2; ok = symx_or(c == T(h, p) + s + T(w - n - h, p), c == T(w - n - h, p) + s + T(h, p)); ASSERT(ok, "the text is in the middle");
}
ENTRY check_substring() { const T s = text("s", 4); size_t b = symx_concretize(R("b", 0, 5)), n = symx_concretize(R("n", 0, 5)); char p = (char)U("p", 8); T r = subString(s, b, n, p); ASSERT(r.size() == n, "a part has the length asked for"); for (size_t i = 0; i < n; i++) ASSERT(r[i] == (b + i < s.size() ? s[b + i] : p), "a part is that of the text, and padding"); }
ENTRY check_replace() {
  const T s = text1("s", 0, 6), o = text1("o", 1, 3), w = text1("w", 0, 3); T want; for (size_t i = 0; i < s.size();) { if (s.compare(i, o.size(), o) == 0) { want += w; i += o.size(); } else want += s[i++]; } T r(s); replaceAll(r, o, w); ASSERT(r == want, "each occurrence is replaced once"); ASSERT(change(s, o, w) == want, "each occurrence is changed once");
}
ENTRY check_change() {
  const T s = text1("s", 0, 5), o = text1("o", 1, 2), w = text1("w", 0, 2); size_t b = symx_concretize(R("b", 0, 3)); unsigned num = symx_concretize(R("num", 0, 2)); T want = s.substr(0, std::min(b, s.size())); unsigned k = 0; for (size_t i = b; i < s.size();) { if (k < num && s.compare(i, o.size(), o) == 0) { want += w; i += o.size(); k++; } else want += s[i++]; } ASSERT(change(s, o, w, b, num) == want, "as many are changed as asked for, from the position given");
}
ENTRY check_translate() { const T s = text("s", 3), in = text1("i", 1, 3); int n = symx_concretize(R("n", 0, 2)); T out = T("XY").substr(0, n); char p = (char)U("p", 8); T r = translate(s, in, out, p); ASSERT(r.size() == s.size(), "the length stays"); for (size_t i = 0; i < s.size(); i++) { size_t k = 0; while (k < in.size() && in[k] != s[i]) k++; ASSERT(r[i] == (k == in.size() ? s[i] : k < out.size() ? out[k] : p), "each character is mapped"); } }
ENTRY check_case() { const T s = text("s", 4), l = lowerCase(s), u = upperCase(s); for (size_t i = 0; i < s.size(); i++) { char c = s[i]; ASSERT(l[i] == (c >= 'A' && c <= 'Z' ? c + 32 : c) && u[i] == (c >= 'a' && c <= 'z' ? c - 32 : c), "letters change case, nothing else does"); } }
ENTRY check_charhex() { const T s = text("s", 5), h = c2x(s); ASSERT(h.size() == 2 * s.size(), "two digits for each character"); for (size_t i = 0; i < s.size(); i++) { unsigned v = 0; for (int k = 0; k < 2; k++) { char c = h[2 * i + k]; ASSERT((c >= '0' && c <= '9') || (c >= 'A' && c <= 'F'), "hexadecimal digits"); v = v * 16 + (c <= '9' ? c - '0' : c - 'A' + 10); } ASSERT(v == (unsigned char)s[i], "the digits are the character's value"); } }
ENTRY check_digits() {
  char b[3]; int n = symx_concretize(R("n", 1, 3)); symx_bytes(b, 3, "b"); for (int i = 0; i < n; i++) ASSUME((unsigned char)b[i] < 128); T s(b, n); int i = b[0] == '-' || b[0] == '+', dots = 0, digs = 0, other = 0, alpha = 0; for (int k = 0; k < n; k++) { alpha += (b[k] >= 'a' && b[k] <= 'z') || (b[k] >= 'A' && b[k] <= 'Z'); if (k < i) continue; if (b[k] == '.') dots++; else if (b[k] >= '0' && b[k] <= '9') digs++; else other++; }
  if (digs) { ASSERT(isDigitString(s) == (dots == 0 && other == 0), "a text of digits is recognized"); ASSERT(isDecimalString(s) == (dots <= 1 && other == 0), "a decimal number is recognized"); } else if (other) ASSERT(!isDigitString(s) && !isDecimalString(s), "other text is no number"); ASSERT(isAlphaString(s) == (alpha == n), "a text of letters is recognized");
}
ENTRY check_hexdec() { // the first number of a text is converted, and the rest of the text is kept
  unsigned v = symx_concretize(R("v", 0, 40)); int z = symx_concretize(R("z", 0, 1)); static const char *lead[3] = {"", " ", "0x"}, *tail[3] = {"", " 10", " zz"}; int li = symx_concretize(R("lead", 0, 2)), ti = symx_concretize(R("tail", 0, 2)); if (v > 20) v = 90 + 17 * (v - 20);
  char h[16], H[16], d[16]; snprintf(h, sizeof h, "%x", v); snprintf(H, sizeof H, "%X", v); snprintf(d, sizeof d, "%u", v); T rest = tail[ti]; T got = x2d(T(lead[li]) + (z ? "0" : "") + h + rest); ASSERT(got == T(d) + rest, "a hexadecimal number is written in decimal"); got = x2d(T(lead[li]) + (z ? "0" : "") + H + rest); ASSERT(got == T(d) + rest, "a hexadecimal number is written in decimal");
  if (li < 2) { got = d2x(T(lead[li]) + (z ? "0" : "") + d + rest); ASSERT(got == T(H) + rest, "a decimal number is written in hexadecimal"); } unsigned b = x2uint(T(h) + rest); ASSERT(b == v, "a hexadecimal number is read"); ASSERT(int2x(v) == h, "a number is written in hexadecimal");
}
ENTRY check_int2x() { unsigned m = symx_concretize(R("m", 1, 31)), sh = symx_concretize(R("sh", 0, 27)), v = m << sh; T s = int2x(v); unsigned r = 0; ASSERT(s.size() >= 1 && s.size() <= 8 && (s.size() == 1 || s[0] != '0'), "no leading zeros"); for (size_t i = 0; i < s.size(); i++) r = r * 16 + (s[i] <= '9' ? s[i] - '0' : s[i] - 'a' + 10); ASSERT(r == v, "a number is written in hexadecimal"); }
ENTRY check_printable() {
  const T s = text("s", 4); T want; static const char X[] = "0123456789ABCDEF"; for (size_t i = 0; i < s.size(); i++) { unsigned char c = (unsigned char)s[i]; if (c >= 32 && c < 127) want += (char)c; else if (c < 128) { want += '^'; want += (char)(c ^ 64); } else { want += '<'; want += X[c >> 4]; want += X[c & 15]; want += '>'; } } ASSERT(printable(s) == want, "characters are shown in a form that prints");
}
ENTRY check_integers() { T s; long v = symx_concretize(R("m", -9, 9)), e = symx_concretize(R("e", 0, 9)); while (e-- > 0) v = v * 10 + (v < 0 ? -7 : 7); s = asString(v); ASSERT(asInt(s) == v, "an integer is read as it was written"); T z = asString(v) + "x"; ASSERT(asInt(z) == v, "an integer ends with its digits"); }
