// PROPERTY: I01
// SRC: core/lib/GNSSCore/RinexSatID.cpp core/lib/GNSSEph/SP3SatID.cpp core/lib/GNSSCore/SatelliteSystem.cpp core/lib/Utilities/Exception.cpp core/lib/Utilities/StringUtils.cpp
// BOUND: every satellite system, every satellite number the format can express (order: every 32-bit number), every text of one to three characters
// OUTSIDE: texts with more than two digits; blanks inside the text
// OPT: merge=0
#include "symx.h"
#include <sstream>
#include <map>
#include <iomanip>
#include <cstring>
#define protected public
#define private public
#include "RinexSatID.hpp"
#include "SP3SatID.hpp"
#undef protected
#undef private
using namespace gpstk;
static SatelliteSystem sys(const char *n) { return (SatelliteSystem)R(n, 0, (long)SatelliteSystem::Last - 1); }
static SatelliteSystem csys(const char *n) { return (SatelliteSystem)symx_concretize(R(n, 0, (long)SatelliteSystem::Last - 1)); }
template <class T> static T some(const char *a, const char *b) { T s; s.system = sys(a); s.id = (int)S(b, 32); return s; }
template <class T> static void order() {
  T a = some<T>("sa", "ia"), b = some<T>("sb", "ib"), c = some<T>("sc", "ic");
  bool same = a.system == b.system && a.id == b.id;
  ASSERT((a == b) == same && (a != b) == !same, "identifiers are equal exactly if system and number are");
  ASSERT((int)(a < b) + (int)(b < a) + (int)(a == b) == 1, "of two identifiers exactly one comparison holds");
  ASSERT((a > b) == (b < a) && (a <= b) == !(b < a) && (a >= b) == !(a < b), "the comparisons agree");
  ASSERT(!(a < b && b < c) || a < c, "the order is transitive");
  ASSERT(!(a.system == b.system) || (a < b) == (a.id < b.id), "identifiers of a system are ordered by number");
}
ENTRY check_order() { order<SatID>(); }
ENTRY check_orderrinex() { order<RinexSatID>(); }
ENTRY check_ordersp3() { order<SP3SatID>(); }
ENTRY check_valid() {
  SatID s = some<SatID>("s", "i"); bool v = s.id > 0 && (s.system == SatelliteSystem::GPS ? s.id <= 32 : s.id < 100); ASSERT(s.isValid() == v, "an identifier is valid exactly if its number is in range"); ASSERT(SatID(s.id, s.system) == s, "an identifier holds what it is made of"); ASSERT(!SatID().isValid(), "an empty identifier is not valid");
}
struct Sys { SatelliteSystem s; char c; const char *n3; int lo, hi, off; };
static const Sys rin[] = { {SatelliteSystem::GPS, 'G', "GPS", 1, 99, 0}, {SatelliteSystem::Galileo, 'E', "GAL", 1, 99, 0}, {SatelliteSystem::Glonass, 'R', "GLO", 1, 99, 0}, {SatelliteSystem::Geosync, 'S', "GEO", 101, 199, 100}, {SatelliteSystem::Transit, 'T', "TRN", 1, 99, 0}, {SatelliteSystem::QZSS, 'J', "QZS", 183, 274, 0}, {SatelliteSystem::BeiDou, 'C', "BDS", 1, 99, 0}, {SatelliteSystem::IRNSS, 'I', "IRN", 1, 99, 0} };
static const Sys sp3[] = { {SatelliteSystem::GPS, 'G', "", 1, 99, 0}, {SatelliteSystem::Galileo, 'E', "", 1, 99, 0}, {SatelliteSystem::Glonass, 'R', "", 1, 99, 0}, {SatelliteSystem::LEO, 'L', "", 1, 99, 0}, {SatelliteSystem::QZSS, 'J', "", 193, 291, 192}, {SatelliteSystem::BeiDou, 'C', "", 1, 99, 0}, {SatelliteSystem::Mixed, 'M', "", 1, 99, 0} };
static int number(const Sys &q, int id) { return q.s == SatelliteSystem::QZSS && q.off == 0 ? (id >= 193 ? id - 192 : id - 100) : id - q.off; }
template <class T> static void text(const Sys *t, int n) {
  const Sys &q = t[symx_concretize(R("q", 0, n - 1))]; int id = symx_concretize(R("id", q.lo, q.hi)); T s(id, q.s); ASSERT(s.system == q.s && s.id == id, "an identifier of the format is kept");
  int k = number(q, id); std::string x = s.toString(); ASSERT(x.size() == 3 && x[0] == q.c && x[1] == '0' + k / 10 && x[2] == '0' + k % 10, "the text is the system letter and the number of the format");
  T r; NOTHROW(r.fromString(x), "the text is read"); ASSERT(r == s, "an identifier is read as it was written"); T d; NOTHROW(d = T(x), "the text is read"); ASSERT(d == s, "an identifier is read as it was written");
  ASSERT(s.systemChar() == q.c, "the letter of the system is right");
}
ENTRY check_text() { text<RinexSatID>(rin, 8); }
ENTRY check_textsp3() { text<SP3SatID>(sp3, 7); }
ENTRY check_names() { const Sys &q = rin[symx_concretize(R("q", 0, 7))]; RinexSatID s(q.lo, q.s); ASSERT(s.systemString3() == q.n3, "the short name of the system is right"); RinexSatID u; u.system = csys("o"); u.id = 1; ASSERT(u.system == s.system || (u.systemChar() != s.systemChar() && u.systemString() != s.systemString() && u.systemString3() != s.systemString3()), "different systems have different names"); }
ENTRY check_namessp3() { SP3SatID s, u; s.system = sp3[symx_concretize(R("q", 0, 6))].s; u.system = csys("o"); ASSERT(u.system == s.system || (u.systemChar() != s.systemChar() && u.systemString() != s.systemString()), "different systems have different names"); }
template <class T> static void foreign(const Sys *t, int n, bool mixed) {
  SatelliteSystem y = sys("s"); int id = (int)S("i", 32); bool known = mixed && y == SatelliteSystem::Mixed; for (int i = 0; i < n; i++) known = known || t[i].s == y;
  T a(id, y), b(SatID(id, y)); ASSERT(a == b, "both ways of making an identifier agree"); if (known) ASSERT(a.system == y && a.id == id, "an identifier of the format is kept"); else ASSERT(a.system == SatelliteSystem::Unknown && a.id == -1, "an identifier foreign to the format is unknown");
}
ENTRY check_foreign() { foreign<RinexSatID>(rin, 8, true); }
ENTRY check_foreignsp3() { foreign<SP3SatID>(sp3, 7, true); }
template <class T> static void read(const Sys *t, int n, bool mixed) {
  int len = symx_concretize(R("len", 1, 3)); char x[3]; symx_bytes(x, 3, "x"); std::string s(x, len); bool blank = true; for (int i = 0; i < len; i++) ASSUME(x[i] >= 0x20 && x[i] < 0x7f); for (int i = 1; i < len; i++) ASSUME(x[i] >= '0' && x[i] <= '9'); ASSUME(x[0] != ' ');
  char c = x[0] >= 'a' && x[0] <= 'z' ? x[0] - 32 : x[0]; bool digit = c >= '0' && c <= '9', known = digit || (mixed && c == 'M'); SatelliteSystem y = digit ? SatelliteSystem::GPS : SatelliteSystem::Mixed; for (int i = 0; i < n; i++) if (t[i].c == c) { known = true; y = t[i].s; }
  int k = digit ? c - '0' : 0; for (int i = 1; i < len; i++) k = 10 * k + (x[i] - '0');
  if (y == SatelliteSystem::Geosync) k += k > 0 ? 100 : 0; if (y == SatelliteSystem::QZSS) k += k > 0 ? (t == sp3 || k < 83 ? 192 : 100) : 0; if (k <= 0) k = -1;
  T r; r.id = 5; r.system = SatelliteSystem::BeiDou; bool thrown = false; try { r.fromString(s); } catch (Exception &) { thrown = true; } ASSERT(thrown == !known, "a text is refused exactly if its system letter is unknown"); if (known) ASSERT(r.system == y && r.id == k, "a text is read as system and number");
}
ENTRY check_read() { read<RinexSatID>(rin, 8, true); }
ENTRY check_readsp3() { read<SP3SatID>(sp3, 7, false); }
ENTRY check_empty() { const char *b[] = {"", " ", "   ", "\t"}; const char *s = b[symx_concretize(R("b", 0, 3))]; RinexSatID r(4, SatelliteSystem::BeiDou); NOTHROW(r.fromString(s), "blanks are read"); ASSERT(r.system == SatelliteSystem::GPS && r.id == -1, "blanks give no satellite"); SP3SatID p(4, SatelliteSystem::BeiDou); NOTHROW(p.fromString(s), "blanks are read"); ASSERT(p.system == SatelliteSystem::GPS && p.id == -1, "blanks give no satellite"); }
ENTRY check_system() {
  SatelliteSystem a = csys("a"), b = csys("b"); std::string s = convertSatelliteSystemToString(a); ASSERT(!s.empty() && s.find(' ') == std::string::npos, "a system has a name without blanks"); ASSERT(convertStringToSatelliteSystem(s) == a, "a system is found by its name"); ASSERT(a == b || StringUtils::asString(b) != s, "systems have different names");
}
