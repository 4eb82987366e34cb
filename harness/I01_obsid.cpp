// PROPERTY: I01
// SRC: core/lib/GNSSCore/ObsID.cpp core/lib/GNSSCore/ObsID_Generated.cpp core/lib/GNSSCore/RinexObsID.cpp core/lib/GNSSCore/RinexObsID_Generated.cpp core/lib/GNSSCore/ObservationType.cpp core/lib/GNSSCore/CarrierBand.cpp core/lib/GNSSCore/TrackingCode.cpp core/lib/GNSSEph/NavType.cpp core/lib/GNSSEph/NavID.cpp core/lib/Utilities/Exception.cpp core/lib/Utilities/StringUtils.cpp core/lib/FileHandling/RINEX3/Rinex3ObsBase.cpp
// BOUND: every observation type, carrier band and tracking code; every RINEX observation code of three characters in each satellite system, RINEX versions 3.02 and 3.04
// OUTSIDE: identifiers registered by an application
// OPT: merge=0
// ASSUMES: the signals that carry each navigation message are those of the interface specifications
#include "symx.h"
#include <sstream>
#include <map>
#include <iomanip>
#include <cstring>
#define protected public
#define private public
#include "ObsID.hpp"
#include "RinexObsID.hpp"
#include "NavID.hpp"
#undef protected
#undef private
using namespace gpstk;
typedef ObservationType OT; typedef CarrierBand CB; typedef TrackingCode TC;
static ObsID some(const char *a, const char *b, const char *c) { return ObsID((OT)R(a, 0, (long)OT::Last - 1), (CB)R(b, 0, (long)CB::Last - 1), (TC)R(c, 0, (long)TC::Last - 1)); }
ENTRY check_obsorder() {
  ObsID a = some("ta", "ba", "ca"), b = some("tb", "bb", "cb"), c = some("tc", "bc", "cc"); bool same = a.type == b.type && a.band == b.band && a.code == b.code;
  ASSERT((int)(a < b) + (int)(b < a) + (int)same == 1, "different identifiers are ordered one way"); ASSERT(!(a < b && b < c) || a < c, "the order is transitive");
  bool wild = (a.type == b.type || a.type == OT::Any || b.type == OT::Any) && (a.band == b.band || a.band == CB::Any || b.band == CB::Any) && (a.code == b.code || a.code == TC::Any || b.code == TC::Any); ASSERT((a == b) == wild && (a != b) == !wild, "identifiers are equal if each part is, or is unspecified");
}
ENTRY check_types() { OT a = (OT)symx_concretize(R("a", 0, (long)OT::Last - 1)); std::string s = StringUtils::asString(a); ASSERT(StringUtils::asObservationType(s) == a, "an observation type is found by its name"); ASSERT(ObsID::otDesc.count(a) == 1, "an observation type is described"); }
ENTRY check_bands() { CB a = (CB)symx_concretize(R("a", 0, (long)CB::Last - 1)); std::string s = StringUtils::asString(a); ASSERT(StringUtils::asCarrierBand(s) == a, "a carrier band is found by its name"); ASSERT(ObsID::cbDesc.count(a) == 1, "a carrier band is described"); }
ENTRY check_codes() { TC a = (TC)symx_concretize(R("a", 0, (long)TC::Last - 1)); std::string s = StringUtils::asString(a); ASSERT(StringUtils::asTrackingCode(s) == a, "a tracking code is found by its name"); ASSERT(ObsID::tcDesc.count(a) == 1, "a tracking code is described"); }
ENTRY check_navtypes() { NavType a = (NavType)symx_concretize(R("a", 0, (long)NavType::Last - 1)); std::string s = convertNavTypeToString(a); ASSERT(convertStringToNavType(s) == a, "a message type is found by its name"); ASSERT(NavID(s).navType == a, "a message type is found by its name"); }
static std::string spell(char y, double &ver) {
  char x[3]; symx_bytes(x, 3, "x"); for (int i = 0; i < 3; i++) ASSUME(x[i] >= ' ' && x[i] < 0x7f); x[1] = (char)symx_concretize((unsigned char)x[1]); ver = symx_concretize(R("v", 0, 1)) ? 3.02 : 3.04; return std::string(x, 3);
}
static bool kludge(char y, const std::string &s, double ver) { return y == 'C' && (ver < 3.03 ? s[1] == '2' : (s[1] == '1' && (s[2] == 'I' || s[2] == 'Q'))); }
static void rinex(char y) {
  double ver; std::string s = spell(y, ver); bool v = isValidRinexObsID(s, y); ASSERT(isValidRinexObsID(std::string(1, y) + s) == v, "a code with its system letter is judged as in that system"); if (!v || kludge(y, s, ver)) return;
  ASSERT(isValidRinexObsID(s), "a code of some system is a code"); RinexObsID o; NOTHROW(o = RinexObsID(std::string(1, y) + s, ver), "a valid code is understood"); ASSERT(o.asString(ver) == s, "a code is written as it was read");
  ASSERT(o.type == (s[0] == 'C' ? OT::Range : s[0] == 'L' ? OT::Phase : s[0] == 'D' ? OT::Doppler : s[0] == 'S' ? OT::SNR : s[0] == 'X' ? OT::Channel : s[0] == 'I' ? OT::Iono : OT::Any), "the type of observation is that of the letter");
  if (s[0] != 'I' && s[0] != 'X' && s[2] != ' ' && s[2] != '*') { ASSERT(o.code != TC::Unknown && o.code != TC::Undefined && o.code != TC::Any, "the tracking code is known"); ASSERT(o.band != CB::Unknown && o.band != CB::Undefined && o.band != CB::Any, "the band is known"); }
}
ENTRY check_rinexG() { rinex('G'); }
ENTRY check_rinexR() { rinex('R'); }
ENTRY check_rinexE() { rinex('E'); }
ENTRY check_rinexS() { rinex('S'); }
ENTRY check_rinexC() { rinex('C'); }
ENTRY check_rinexJ() { rinex('J'); }
ENTRY check_rinexI() { rinex('I'); }
ENTRY check_rinexvalid() {
  char x[5]; int len = symx_concretize(R("len", 0, 5)); std::string s = std::string("GC1CX").substr(0, len); if (len == 5) ASSERT(!isValidRinexObsID(s), "a code has three or four characters"); if (len < 3) { ASSERT(!isValidRinexObsID(s), "a code has three or four characters"); MUSTTHROW(InvalidParameter, RinexObsID q(s, 3.04), "a code of the wrong length is refused"); }
  char t = (char)symx_concretize(R("t", 32, 126)); bool ok = t == 'C' || t == 'L' || t == 'D' || t == 'S'; ASSERT(isValidRinexObsID(std::string(1, t) + "1C", 'G') == (ok || t == '*'), "only types of observation are valid"); 
  char y = t; bool sy = y == 'G' || y == 'E' || y == 'R' || y == 'S' || y == 'J'; ASSERT(isValidRinexObsID("L1C", y) == sy, "only the systems with the signal have its code");
  ASSERT(!isValidRinexObsID("C1N", 'G') && isValidRinexObsID("L1N", 'G') && !isValidRinexObsID("C2N", 'G') && isValidRinexObsID("D2N", 'G'), "codeless tracking gives no range");
}
static NavType message(SatelliteSystem y, int id, CB b, TC c) {
  bool l1 = b == CB::L1, l2 = b == CB::L2, l5 = b == CB::L5, cnav2 = l2 && (c == TC::L2CM || c == TC::L2CL || c == TC::L2CML), cnav5 = l5 && (c == TC::L5I || c == TC::L5Q || c == TC::L5IQ), c1 = l1 && (c == TC::L1CP || c == TC::L1CD || c == TC::L1CDP);
  if (y == SatelliteSystem::GPS) { if ((l1 || l2) && (c == TC::CA || c == TC::P || c == TC::Y || c == TC::Ztracking || c == TC::YCodeless || c == TC::Semicodeless)) return NavType::GPSLNAV; if (cnav2) return NavType::GPSCNAVL2; if (cnav5) return NavType::GPSCNAVL5; if (c1) return NavType::GPSCNAV2; if ((l1 || l2) && c == TC::MDP) return NavType::GPSMNAV; }
  if (y == SatelliteSystem::QZSS) { if (l1 && c == TC::CA) return NavType::GPSLNAV; if (cnav2) return NavType::GPSCNAVL2; if (cnav5) return NavType::GPSCNAVL5; if (c1) return NavType::GPSCNAV2; }
  if (y == SatelliteSystem::BeiDou) { int k = b == CB::B1 ? (int)TC::B1I : b == CB::B2 ? (int)TC::B2I : b == CB::B3 ? (int)TC::B3I : -1; bool m = (b == CB::B1 && (c == TC::B1I || c == TC::B1Q || c == TC::B1IQ)) || (b == CB::B2 && (c == TC::B2I || c == TC::B2Q || c == TC::B2IQ)) || (b == CB::B3 && (c == TC::B3I || c == TC::B3Q || c == TC::B3IQ)); if (m) return id > 5 ? NavType::BeiDou_D1 : NavType::BeiDou_D2; }
  if (y == SatelliteSystem::Glonass) { if ((b == CB::G1 || b == CB::G2) && c == TC::Standard) return NavType::GloCivilF; if (b == CB::G3 && (c == TC::L3OCD || c == TC::L3OCP || c == TC::L3OCDP)) return NavType::GloCivilC; }
  if (y == SatelliteSystem::Galileo) { if ((l1 && c == TC::E1B) || (b == CB::E5b && (c == TC::E5bI || c == TC::E5bIQ))) return NavType::GalINAV; if (l5 && (c == TC::E5aI || c == TC::E5aIQ)) return NavType::GalFNAV; }
  if (y == SatelliteSystem::IRNSS && l5 && (c == TC::SPSL5 || c == TC::RSL5D || c == TC::RSL5P || c == TC::RSL5DP)) return NavType::IRNSS_SPS;
  return NavType::Unknown;
}
static bool mixedBand(CB b, TC c) { int n = c == TC::B1I || c == TC::B1Q || c == TC::B1IQ ? 1 : c == TC::B2I || c == TC::B2Q || c == TC::B2IQ ? 2 : c == TC::B3I || c == TC::B3Q || c == TC::B3IQ ? 3 : 0, m = b == CB::B1 ? 1 : b == CB::B2 ? 2 : b == CB::B3 ? 3 : 0; return n && m && n != m; }
ENTRY check_navid() {
  SatelliteSystem y = (SatelliteSystem)symx_concretize(R("y", 0, (long)SatelliteSystem::Last - 1)); int id = (int)R("id", -1, 300); ObsID o = some("t", "b", "c"); ASSUME(!mixedBand(o.band, o.code)); NavID n(SatID(id, y), o); ASSERT(n.navType == message(y, id, o.band, o.code), "the message is the one the signal carries");
}
