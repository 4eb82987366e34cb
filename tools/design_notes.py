ORACLE = {
 'B01': 'the field written is the field read, bit positions counted from the most significant end; range limits from the widths; no other bit changes.',
 'B02': 'bit-by-bit comparison of two independent bit arrays kept by the harness.',
 'N01': 'the six parity equations of IS-GPS-200 table 20-XIV, as xor masks written in the harness.',
 'N02': 'word, bit, sign and scale tables of IS-GPS-200 20.3.3 (generated from a table in the harness that names bits, not code).',
 'N03': 'the page/subframe table of IS-GPS-200 table 20-V and the 12.5-minute cycle.',
 'N04': 'the acceptance criterion of each filter as a predicate over the message; histories compared with a multiset kept by the harness.',
 'B03': 'the byte layouts of the BINEX definition (ubnxi, mgfzi, record framing, checksums) written out in the harness.',
 'T01': 'calendar rules (month lengths, leap years, reform) stepped from day to day: one inductive step from every day, plus anchors.',
 'T02': 'definition of each format: number of days, weeks, seconds since its epoch in integer arithmetic.',
 'T03': 'integer milliseconds since the origin plus a fraction; the library must agree to the stated resolution.',
 'T04': 'membership predicate of intervals with open or closed ends.',
 'T05': 'integer arithmetic on Z-counts since the epoch.',
 'T06': 'the IERS/USNO leap-second table typed into the harness and the published offsets of the system times.',
 'U01': 'byte k of the buffer is bits 8k..8k+7 of the value (either order).',
 'U02': 'the CRC as polynomial remainder, bit-serial, in the harness; solved by Gaussian elimination over GF(2).',
 'U03': 'character-by-character definitions of word, field, padding and replacement written in the harness, over symbolic characters.',
 'M01': 'element-by-element definitions written in the harness over symbolic integer elements (exact arithmetic, so equality is exact); the refusals documented in the headers for sizes that do not fit.',
 'E01': 'a list of the added data sets in the harness; the right one is selected by comparing their times.',
 'S01': 'the two lookups against each other; the published block numbering. The header documents NoPRNNumberFound for getPRNID but the code, pinned by SVNumXRef_T, throws NoNAVSTARNumberFound: any refusal is accepted.',
 'I01': 'the RINEX and SP3 notations (letter, two digits, offsets 100 and 192); reading is compared with writing; the signal table of the interface specifications for messages. The RINEX 3.02 renaming of the BeiDou B1 codes is excepted as the standard demands.',
 'E03': 'positions of the requested time in the list of epochs kept by the harness; the last value added for each part; polynomials with integer coefficients.',
 'E02': 'IS-GPS-200 tables 20-XII (fit interval) and the URA table; sums of epochs in integer seconds.',
}
