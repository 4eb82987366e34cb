PROPS = []
NOT_APPLICABLE = []
def P(id, title, statement, text, why, files, mech, note, over=('inputs',), observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=list(files), mech=list(mech), note=note, observe=list(observe)))

# ---------------------------------------------------------------- bit-level navigation data
P('B01', 'Packed navigation bits decode to what was encoded',
  'Every value that fits a field of a navigation message, packed at any bit offset, width and scale, is read back unchanged, and no other bit of the message changes. A value that does not fit is refused with an error.',
  'all field offsets and widths 1..64, all integer and scaled values, all prior message contents up to 4 words', 'The unit test packs a dozen fixed fields; the guarantee is per offset, width, sign and scale.',
  ['core/lib/GNSSEph/PackedNavBits.cpp'], [('addUnsignedLong/asUnsignedLong and signed, double, string, semicircle variants', 'core/lib/GNSSEph/PackedNavBits.cpp')],
  'Bit-precise, including the floating-point scaling for the powers of two listed in the harness.')
P('N01', 'GPS parity of navigation words matches the interface specification',
  'The parity attached to a navigation word is the one IS-GPS-200 defines for its data and the two last bits of the previous word, a word repaired by the library always passes its own parity check, and every error of up to three bits in a word is detected. A subframe is accepted exactly when all ten words are consistent.',
  'all 30-bit words and predecessor words, all ten-word subframes', 'Tests use five recorded words; the parity equations must hold for all 2^60 word pairs.',
  ['core/lib/GNSSEph/EngNav.cpp'], [('computeParity, fixParity, checkParity', 'core/lib/GNSSEph/EngNav.cpp')],
  'Complete over all word pairs; subframe acceptance over all ten-word subframes.')
P('N03', 'Navigation page, subframe pattern, HOW and week identification is total',
  'Page identifiers map to exactly the subframe and page the interface specification assigns and back, every time count in a week selects the subframe and page being broadcast, and any subframe content yields a defined pattern. An 8- or 10-bit week is expanded to the full week closest to the reference week.',
  'all 16-bit page identifiers, all time counts, all subframe words, all reference weeks', 'Tests list selected pages and weeks; undefined identifiers and cycle boundaries are not sampled.',
  ['core/lib/GNSSEph/EngNav.cpp'], [('sv2page, sfpage2svid, zcount2page, getSubframePattern, convertXBit', 'core/lib/GNSSEph/EngNav.cpp')],
  'Complete over the stated identifier ranges.')
# ---------------------------------------------------------------- utilities
P('U01', 'Binary byte-order conversion is lossless for every value',
  'Encoding a number to network or little-endian order and decoding it returns the identical bit pattern for every integer and floating-point value, places the bytes in the advertised order at the requested offset and touches no other byte.',
  'all 16/32/64-bit values, all offsets in a buffer', 'Tests use a few constants at offset zero.',
  ['core/lib/Utilities/BinUtils.hpp'], [('encodeVar, decodeVar, buntoh*, buhton*', 'core/lib/Utilities/BinUtils.hpp')],
  'Complete for the value ranges; buffers of 12 bytes.')
P('U02', 'Checksums and bit utilities equal their mathematical definition',
  'The computed cyclic redundancy code is the remainder defined by the parameter set for every message, xor checksums cover every byte exactly once, and bit counting and reflection are exact. The named parameter sets are the published ones.',
  'all messages up to the bound, all parameter words for short messages', 'Tests compare a handful of messages with precomputed values.',
  ['core/lib/Utilities/BinUtils.hpp', 'core/lib/Utilities/BinUtils.cpp'], [('computeCRC, xorChecksum, countBits, reflect', 'core/lib/Utilities/BinUtils.hpp')],
  'Messages of up to 38 bytes (a CNAV message).')
P('U03', 'Text utilities keep and cut exactly the characters they are documented to',
  'Words, delimited and quoted fields, stripping, justification, substrings, replacement, character mapping, letter case and printable form give for every text the characters their documentation defines, with no word lost, invented or cut and no access outside the text. Integers are read as they were written, in decimal and in hexadecimal, and the text behind them stays.',
  'all texts up to the bound, every character value, every delimiter, pad and pattern', 'Tests use a few fixed texts; texts of only delimiters, empty patterns of output, patterns that overlap and words past the end do not occur.',
  ['core/lib/Utilities/StringUtils.hpp'], [('word, words, numWords, split, removeWords, strip*, *Justify, center, subString, change, replaceAll, translate, c2x, x2d, d2x, printable', 'core/lib/Utilities/StringUtils.hpp')],
  'Texts of up to 9 characters; numbers of a fixed set for hexadecimal conversions; no regular expressions and no floating-point text.')
# ---------------------------------------------------------------- math
P('M01', 'Elementary matrix and vector operations equal their definitions',
  'Sums, products, transposes, minors, determinants by cofactors, joined, cut and copied matrices, rows, columns, slices, diagonals, exchanges, sums along rows and columns and vector products have for all elements the size and the elements their mathematical definition gives, and writing to a part changes that part only. Operands whose sizes do not fit are refused and nothing outside the operands is accessed.',
  'all matrices and vectors up to the bound and every element value', 'Tests use one or two fixed matrices; non-square shapes, single rows and columns, offsets and slices in the middle are not combined.',
  ['core/lib/Math/Matrix/MatrixOperators.hpp', 'core/lib/Math/Matrix/MatrixImplementation.hpp', 'core/lib/Math/Matrix/MatrixBaseOperators.hpp', 'core/lib/Math/Vector/Vector.hpp', 'core/lib/Math/Vector/VectorOperators.hpp'], [('Matrix, MatrixSlice, row and column views, operators, minorMatrix, det, slowDet', 'core/lib/Math/Matrix'), ('Vector, VectorSlice, dot, cross, norms', 'core/lib/Math/Vector')],
  'Sizes up to 3x3 (4x4 for minors and determinants), integer elements; no decompositions or inverses.')
# ---------------------------------------------------------------- time
P('T01', 'Day numbers and calendar dates correspond one to one',
  'Consecutive day numbers are consecutive calendar dates (Julian calendar before the 1582 reform, Gregorian after it, no year zero) anchored at known dates, and converting a date back yields the same day number, over the whole supported span.',
  'every day number of the supported span', 'Tests sample a few dates; leap-year, century and epoch boundary behaviour must hold for each of the 3.4 million days.',
  ['core/lib/TimeHandling/TimeConverters.cpp'], [('convertJDtoCalendar, convertCalendarToJD', 'core/lib/TimeHandling/TimeConverters.cpp')],
  'Complete over the supported span.')
P('T02', 'Every time representation denotes the same instant',
  'Converting a time to week and second of week of any satellite system, Z-count, calendar date, day of year, Unix, Posix or ANSI seconds or (modified) Julian date gives the components the definition of that format prescribes, and converting back gives the same instant within the resolution of the format. Times outside the range of a format are refused.',
  'all days of the supported span, all milliseconds, all sub-millisecond fractions', 'Rounding at week, day and minute boundaries and at negative times depends on the exact value; tests sample a few instants.',
  ['core/lib/TimeHandling/TimeConverters.cpp', 'core/lib/TimeHandling/WeekSecond.cpp', 'core/lib/TimeHandling/GPSWeekZcount.cpp', 'core/lib/TimeHandling/YDSTime.cpp', 'core/lib/TimeHandling/CivilTime.cpp', 'core/lib/TimeHandling/UnixTime.cpp', 'core/lib/TimeHandling/PosixTime.cpp', 'core/lib/TimeHandling/ANSITime.cpp', 'core/lib/TimeHandling/MJD.cpp', 'core/lib/TimeHandling/JulianDate.cpp'],
  [('convertToCommonTime/convertFromCommonTime of each format', 'core/lib/TimeHandling/WeekSecond.cpp')],
  'Fractions up to 1 ns before the next millisecond; floating-point rounding is bounded over-approximately.')
P('T03', 'Time arithmetic and ordering are exact over the whole time line',
  'Adding days, seconds or milliseconds to a time moves it by exactly that amount, stays normalised, and is undone by the difference operator; comparisons are the order of the instants and refuse mixed time systems. Setting a time rejects exactly the out-of-range components and leaves the object unchanged.',
  'all days, milliseconds and sub-millisecond fractions, all increments in the stated ranges, all pairs of time systems', 'Rounding, carry and borrow at millisecond/second/day boundaries depend on the exact values.',
  ['core/lib/TimeHandling/CommonTime.cpp'], [('CommonTime set/get/add/compare', 'core/lib/TimeHandling/CommonTime.cpp')],
  'Integer parts exact; fractions to 1e-12 s or better with rounding bounded over-approximately.')
P('B02', 'Navigation messages are copied, compared and edited bit for bit',
  'Appending, trimming, inserting, resetting, inverting and copying parts of a navigation message changes exactly the addressed bits. Two messages with the same identification and the same bits compare equal however they were built, the order of messages is a strict weak order, and the text and raw word forms list every bit.',
  'all message contents up to the stated number of bits, all sub-ranges', 'The unit test compares a few complete messages; the order and the range comparisons must hold for all pairs of messages and ranges.',
  ['core/lib/GNSSEph/PackedNavBits.cpp'], [('matchBits, matchMetaData, operator<, copyBits, insertUnsignedLong, addBitVector, invert, reset_num_bits, trimsize', 'core/lib/GNSSEph/PackedNavBits.cpp')],
  'Messages of up to 40 bits, range comparisons of up to 6 bits.')
P('N02', 'Every field of a legacy navigation subframe is decoded as specified',
  'For every subframe of every page type, each decoded ephemeris, clock, almanac, health, ionosphere and UTC parameter equals the bits the interface specification assigns to it, with the specified sign, scale and unit, whatever the other bits are. Truncated week numbers are expanded next to the reference week, and subframes with an undefined identification are refused.',
  'all ten-word subframes of every page type, all reference weeks', 'Unit tests decode a few recorded subframes, in which many fields have the same sign or are zero.',
  ['core/lib/GNSSEph/EngNav.cpp'], [('subframeConvert, getSubframePattern and the conversion tables', 'core/lib/GNSSEph/EngNav.cpp')],
  'Complete over all bit contents; scale factors to 1e-12 relative.')
PROPS.sort(key=lambda p: p['id'])
P('T04', 'Time ranges behave as sets of instants',
  'An instant is in a range exactly if it lies between the bounds, with each bound included as declared; of two ranges exactly one of prior, overlapping and after holds. The order of ranges is a strict weak order by their beginnings, and a range ending before it starts is refused.',
  'all instants and bounds on the millisecond grid, all boundary combinations', 'Boundary cases with mixed inclusive and exclusive bounds are combinatorial; tests cover a few layouts.',
  ['core/lib/TimeHandling/TimeRange.cpp'], [('TimeRange inRange/isPriorTo/overlaps/isAfter/isSubsetOf/operator<', 'core/lib/TimeHandling/TimeRange.cpp')],
  'Instants on the millisecond grid.')
P('T05', 'Z-count and week arithmetic is exact across week and epoch rollovers',
  'Adding and subtracting Z-counts or weeks moves by exactly that amount or is refused without change when it leaves the valid range, differences and order agree with the instants, and two Z-counts are in the same block exactly if no block boundary lies between them. A truncated week number is completed to the week of the reference year or the week nearest the reference.',
  'all weeks, all Z-counts, increments up to 10^12, all block offsets, all years to 4700', 'Carries over week and epoch boundaries and negative quantities are not sampled by tests.',
  ['core/lib/TimeHandling/GPSZcount.cpp', 'core/lib/TimeHandling/GPSWeekZcount.cpp', 'core/lib/TimeHandling/Week.hpp', 'core/lib/TimeHandling/TimeCorrection.cpp'], [('addZcounts, addWeeks, inSameTimeBlock, adjustToYear, timeAdjustWeekRollover', 'core/lib/TimeHandling/GPSWeekZcount.cpp')],
  'Block lengths from a list, offsets symbolic.')
P('T06', 'Leap seconds and time system offsets are the published ones',
  'For every date the offset between UTC and atomic time is the published one, and offsets between any two supported time systems are consistent with it. Conversions involving an unknown system are refused, and time system names convert both ways.',
  'every date from year 1 to 4000, every pair of time systems', 'Tests sample a few dates; the tables and their boundaries must be right for each month.',
  ['core/lib/RefTime/TimeSystem.cpp'], [('getLeapSeconds, getTimeSystemCorrection', 'core/lib/RefTime/TimeSystem.cpp')],
  'Barycentric time excluded (periodic terms).')
PROPS.sort(key=lambda p: p['id'])
P('N04', 'Navigation message filters pass exactly the sound messages',
  'Each validity filter accepts a message exactly when its criterion (parity or cyclic redundancy check, preamble, time count, message identification, empty pattern, consistency with the transmission) holds, keeps its contents, and never loses or duplicates it. Turning messages upright restores the transmitted data for either polarity; voting accepts only the most frequent content of a satellite and epoch; ordering releases messages in time order and refuses only those that are too old. A chain of filters returns every message no filter refuses and reports each refused one.',
  'all message contents; all histories of messages up to the stated length', 'Tests feed recorded files; the criteria must hold for every bit pattern and every history.',
  ['core/lib/NavFilter/LNavParityFilter.cpp', 'core/lib/NavFilter/NavFilterMgr.cpp', 'core/lib/NavFilter/LNavCrossSourceFilter.cpp', 'core/lib/NavFilter/NavOrderFilter.cpp', 'core/lib/NavFilter/CNavParityFilter.cpp'],
  [('validate and finalize of each filter, NavFilterMgr', 'core/lib/NavFilter/NavFilterMgr.cpp')],
  'Complete over message contents; histories of 3 to 5 messages.', over=('inputs', 'histories'))
PROPS.sort(key=lambda p: p['id'])
P('E01', 'Ephemeris lookup returns the right valid ephemeris',
  'Looking up the ephemeris of a satellite at a time returns, of all stored ephemerides of that satellite that are valid then, the one the search method prescribes (the latest transmitted before the time, or the one whose epoch is nearest), and is refused only if none is valid; unhealthy ones are returned only when not excluded. The answer does not depend on the order of insertion, adding reports what was stored, and editing out a time span removes exactly the data outside it.',
  'all histories of additions, edits and queries of the stated length', 'Tests load one file in file order; overlapping validities, uploads, ties and late arrivals need their own histories.',
  ['core/lib/GNSSEph/OrbitEphStore.cpp', 'core/lib/GNSSEph/GPSEphemerisStore.cpp', 'core/lib/GNSSEph/OrbElemStore.cpp'], [('addEphemeris, findUserOrbitEph, findNearOrbitEph, edit', 'core/lib/GNSSEph/OrbitEphStore.cpp'), ('addOrbElem, findOrbElem, findNearOrbElem, findToe, rationalize, edit', 'core/lib/GNSSEph/OrbElemStore.cpp')],
  'Histories of 2 to 4 ephemerides of two satellites and one query.', over=('histories', 'inputs'))
P('E02', 'Validity spans, accuracy and health follow the broadcast parameters',
  'The fit interval, the begin and end of validity, the accuracy index and its nominal value, and the health of an ephemeris or almanac are those the interface specification assigns to the broadcast parameters, for every parameter value. An ephemeris is valid exactly from the begin to the end of its validity.',
  'all issue-of-data numbers, flags, accuracy indices, health words and epochs', 'Unit tests cover a few recorded ephemerides; table boundaries and week rollovers are not sampled.',
  ['core/lib/GNSSEph/GPSEphemeris.cpp', 'core/lib/GNSSEph/OrbitEph.cpp', 'core/lib/GNSSEph/GPS_URA.hpp'], [('adjustValidity, isValid, getFitInterval, ura2accuracy, accuracy2ura', 'core/lib/GNSSEph/GPSEphemeris.cpp')],
  'Epochs on whole seconds; the end of validity after an upload for a few hours of the week.')
PROPS.sort(key=lambda p: p['id'])
P('B03', 'BINEX numbers and records survive writing and reading',
  'A number is written in the shortest form the BINEX definition prescribes for its value, in either byte order, without touching other bytes, and is read back unchanged from a buffer or a stream; numbers out of range and incomplete input are refused. A record of any identification, flags and content written to a stream is read back equal, forwards or backwards and followed by other records, and the stream is left exactly behind it. A record in which a byte was changed is refused.',
  'all number values, buffer offsets and stored bytes, all record flags and contents of the stated lengths', 'The unit tests write and read a few forward-readable little-endian records; the reversed and big-endian forms and the size boundaries are not exercised.',
  ['core/lib/FileHandling/Binex/BinexData.cpp'], [('UBNXI/MGFZI encode, decode, read, write; BinexData putRecord, getRecord', 'core/lib/FileHandling/Binex/BinexData.cpp')],
  'Records of a few content bytes; sizes around the checksum boundaries for some entries.')
P('E03', 'Tabular satellite data is looked up, interpolated and edited faithfully',
  'A time in a table of precise positions or clocks is interpolated from a window of records of which half lie on either side of it; it is refused exactly when there are not enough records, or when gaps or long intervals are to be refused and there is one. At an epoch of the table the stored values are returned. Adding a part of a record replaces that part only, editing keeps exactly the records of the interval, and counts, lists and time spans are those of the records; Lagrange interpolation reproduces every polynomial of lower degree and its derivative.',
  'all tables of the stated length with any epochs and contents, and every requested time', 'Tests interpolate one SP3 file in its middle; edges of tables, gaps, exact epochs, absent velocities and edited stores are where the windows go wrong.',
  ['core/lib/GNSSEph/TabularSatStore.hpp', 'core/lib/GNSSEph/PositionSatStore.cpp', 'core/lib/GNSSEph/ClockSatStore.cpp', 'core/lib/Math/MiscMath.hpp'], [('getTableInterval, getNonCenteredTableInterval, edit, nomTimeStep', 'core/lib/GNSSEph/TabularSatStore.hpp'), ('getValue, getPosition, getVelocity, getAcceleration, add*', 'core/lib/GNSSEph/PositionSatStore.cpp'), ('getValue, getClockBias, getClockDrift, add*', 'core/lib/GNSSEph/ClockSatStore.cpp'), ('LagrangeInterpolation', 'core/lib/Math/MiscMath.hpp')],
  'Tables of at most seven records; Lagrange interpolation over integers (values chosen so that every division is exact), not its rounding.', over=('inputs', 'histories'))
P('S01', 'PRN and space vehicle numbers map to each other uniquely at every time',
  'At any time a PRN number belongs to at most one GPS satellite and a satellite has at most one PRN number, and the two mappings are inverse to each other. Numbers not assigned at that time are refused, availability queries agree with the lookups, and satellite blocks are those of the published numbering.',
  'every PRN and space vehicle number from 0 to 99 and every instant from 1978 to 2057', 'Tests look up a few numbers at a few dates; the table holds about a hundred spans whose boundaries must fit together at every instant.',
  ['core/lib/GNSSCore/SVNumXRef.cpp'], [('getNAVSTAR, getPRNID, NAVSTARIDAvailable, PRNIDAvailable, NAVSTARIDActive', 'core/lib/GNSSCore/SVNumXRef.cpp')],
  'Consistency of the table with itself, not with the history of the constellation.')
P('I01', 'Satellite and observation identifiers are ordered and survive text',
  'Satellite, observation and navigation message identifiers are totally ordered consistently with their equality. Written in RINEX or SP3 notation they are read back equal, for every number and code the notation can express; foreign identifiers become unknown and other texts are refused. Names of systems, types, bands, codes and messages are unique, and a signal is assigned the navigation message the interface specifications say it carries.',
  'all identifiers; all RINEX and SP3 texts of up to three characters', 'Tests convert a few identifiers; every code of every system must survive, and ordering errors lose map entries silently.',
  ['core/lib/GNSSCore/SatID.hpp', 'core/lib/GNSSCore/RinexSatID.cpp', 'core/lib/GNSSEph/SP3SatID.cpp', 'core/lib/GNSSCore/ObsID.cpp', 'core/lib/GNSSCore/RinexObsID_Generated.cpp', 'core/lib/GNSSEph/NavID.cpp'],
  [('SatID comparison, RinexSatID and SP3SatID fromString/toString', 'core/lib/GNSSCore/RinexSatID.cpp'), ('RinexObsID constructor, asString, isValidRinexObsID', 'core/lib/GNSSCore/RinexObsID.cpp')],
  'Identifiers an application registers at run time are outside.')
P('X01', 'Broadcast orbits and clocks follow the interface specification',
  'Position, velocity and clock of a satellite computed from broadcast elements equal the values the user algorithm of the interface specification gives for these elements and that time, to the millimetre.',
  'all element sets and times in the fit interval', 'Tests compare a few recorded epochs.',
  ['core/lib/GNSSEph/OrbitEph.cpp'], [('svXvt', 'core/lib/GNSSEph/OrbitEph.cpp')], '')
P('X02', 'Coordinate conversions are mutually inverse and exact',
  'Converting a position between Cartesian, geodetic, geocentric and spherical coordinates and back returns the same point, and distances, azimuths and elevations agree in all of them.',
  'all points near or above the Earth', 'Tests convert a few points.',
  ['core/lib/GNSSCore/Position.cpp'], [('transformTo and the convert functions', 'core/lib/GNSSCore/Position.cpp')], '')
P('X03', 'Atmospheric delay models equal their published definitions',
  'Tropospheric and ionospheric delays and mapping functions equal the published model for the given site, time and elevation.',
  'all sites, times, elevations and meteorological values', 'Tests evaluate a few cases.',
  ['core/lib/GNSSCore/IonoModel.cpp', 'core/lib/GNSSCore/TropModel.cpp'], [('correction', 'core/lib/GNSSCore/TropModel.cpp')], '')
P('X04', 'Time text is scanned back to the time it was printed from',
  'Printing a time with any format that determines it and scanning the text with the same format gives the same time, and text that does not match the format is refused.',
  'all times and all formats', 'Tests print and scan a few formats.',
  ['core/lib/TimeHandling/TimeString.cpp'], [('printTime, scanTime', 'core/lib/TimeHandling/TimeString.cpp')], '')
P('X05', 'Exchange files are read back as written',
  'RINEX observation, navigation and meteorological files and SP3 orbit files written by the library and read again give the same headers and records, and malformed lines are refused.',
  'all headers and records', 'Tests read and write a few files.',
  ['core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp', 'core/lib/FileHandling/SP3/SP3Data.cpp'], [('reallyGetRecord, reallyPutRecord', 'core/lib/FileHandling/SP3/SP3Data.cpp')], '')
NOT_APPLICABLE += [
 ('X01', 'the user algorithm is an iteration over sine, cosine and arc tangent of symbolic doubles: no SMT theory at hand decides these, and replacing them by uninterpreted functions leaves nothing of the property but the copy of the formula'),
 ('X02', 'geodetic conversion iterates over trigonometric functions and square roots of symbolic doubles with a convergence test; no decision procedure at hand covers them'),
 ('X03', 'the models are products of exponentials, powers and trigonometric functions of symbolic doubles; no decision procedure at hand covers them'),
 ('X04', 'formats are interpreted with POSIX regular expressions of the C library (regcomp/regexec) on symbolic text; the matcher is outside the encoded code and its automaton over symbolic strings with symbolic repetition explodes; the conversions below the text layer are decided in T02'),
 ('X05', 'the readers work on lines of symbolic length with nested optional columns and conversions of symbolic decimal text to doubles (strtod) whose symbolic execution explodes beyond a few columns; the identifiers and number fields they use are decided in their own properties'),
]
PROPS.sort(key=lambda p: p['id'])
