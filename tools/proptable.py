"""The properties: the source of properties.jsonl and MANIFEST.json (run tools/mkdocs.py)."""
S = 'source/string.cxx'
SD = 'source/string_decode_utf8.cxx'
SI = 'source/string_internal.hxx'
I = 'interface/string.hxx'
LOW = 'source/string_tolower.cxx'
T8 = 'source/string_toutf8.cxx'
PRED = 'source/encoding_check_predicate.cxx'
TRIM = 'interface/string_trim.hxx'
SJ = 'interface/string_splitjoin.hxx'
BITS = 'source/bits7..bits16/char_is_unicode.cxx'
BLOW = 'source/bits7..bits16/char_to_lower.cxx'

NA = []

TABLE = [
 dict(id='P01', title='UTF-8 validation accepts exactly the well-formed text of the target range',
      statement='For every zero-terminated byte string and target range, isUtf8 is true exactly when every sequence is in shortest form, complete, '
                'and decodes to a character the target range admits (ASCII to 0x7F, UCS-2 to 0xFFFF, UTF-16 and Unicode to 0x10FFFF, UTF-8 and UCS-4 '
                'to 0x7FFFFFFF, surrogates only as a first-half/second-half pair of three-byte sequences standing for one character above 0xFFFF). '
                'An incomplete sequence at the very end is ignored if it could have been completed for that range. '
                'For a value that is not one of the target ranges the result is false.',
      forall='every byte string of every length, every target range including invalid enumeration values',
      why='The tests try a few hundred strings of a few bytes; acceptance depends on all combinations of up to six bytes per character, '
          'at every position and after every prefix, for six ranges.',
      files=[S, SD, I], mech=[('UTF-8 scan', S + ' isUtf8'), ('sequence decoding and rejection', SD)]),
 dict(id='P02', title='UTF-16 and UCS-2 validation accept exactly the text of the target range',
      statement='For every zero-terminated sequence of 16-bit units and target range, isUtf16 is true exactly when first and second surrogate halves '
                'occur only as adjacent pairs and every decoded character is admitted by the range, ignoring a lone first half at the very end if the '
                'range admits characters above 0xFFFF; isUcs2 is true exactly when there is no surrogate at all and every unit is admitted by the range. '
                'For a value that is not one of the target ranges the result is false.',
      forall='every sequence of 16-bit units of every length, every target range including invalid enumeration values',
      why='Pairing depends on the unit before and after, in any position; tests use a handful of strings.',
      files=[S, SI, I], mech=[('UTF-16 scan', S + ' isUtf16'), ('UCS-2 scan', S + ' isUcs2')]),
 dict(id='P03', title='UCS-4 validation accepts exactly the text of the target range',
      statement='For every zero-terminated sequence of 32-bit values and target range, isUcs4 is true exactly when no value is a surrogate and every '
                'value is admitted by the range. For a value that is not one of the target ranges the result is false.',
      forall='every sequence of 32-bit values of every length, every target range including invalid enumeration values',
      why='2^32 values per position; tests sample a few around the boundaries.',
      files=[S, SI, I], mech=[('UCS-4 scan', S + ' isUcs4'), ('range flags', SI)]),
 dict(id='P04', title='Conversion from UTF-8 gives exactly the encoded characters',
      statement='For every zero-terminated byte string, toUcs4, toUcs2 and toUtf16 return exactly the characters it encodes, in order, in the target form; '
                'if any sequence is malformed or any character does not fit the target, the result is empty. '
                'A completable incomplete sequence at the very end is dropped.',
      forall='every byte string of every length',
      why='Tests convert a few strings; the value of every output unit is a function of all bits of up to six bytes.',
      files=[S, SD, I], mech=[('conversion from UTF-8', S + ' toUcs4/toUcs2/toUtf16(const char*)'), ('decoding', SD)]),
 dict(id='P05', title='Conversion from UTF-16 and UCS-4 gives exactly the same characters',
      statement='For every zero-terminated sequence of 16-bit or 32-bit units, toUtf8, toUcs2, toUtf16 and toUcs4 return exactly the same characters, in order, '
                'in the target form (shortest-form UTF-8 of up to six bytes, surrogate pairs only for 0x10000 to 0x10FFFF); if anything is malformed '
                'or does not fit the target, the result is empty. A lone first surrogate half at the very end is dropped.',
      forall='every sequence of 16-bit or 32-bit units of every length',
      why='Tests convert a few strings; the bit layout must be right for all 2^31 characters and unit pairs.',
      files=[S, T8, I], mech=[('encoding UTF-8', T8), ('conversions from 16- and 32-bit units', S)]),
 dict(id='P06', title='Validation and conversion agree: what is accepted converts, in full',
      statement='Whenever one of the validations accepts a string for a target range, the conversion to that form returns all of its characters and never '
                'an empty or shortened result (apart from an ignored incomplete tail), and no validation accepts a string with a malformed sequence '
                'or a character outside the range.',
      forall='every string of 8-, 16- or 32-bit units, every target range, every conversion',
      why='It relates two functions on all inputs; the tests check each function on its own samples.',
      files=[S, SD, T8, I], mech=[('validations', S), ('conversions', S + ', ' + T8)]),
 dict(id='P07', title='No call reads or writes out of bounds or dereferences null',
      statement='No call of a validation, conversion, counting, lower-casing or trimming function reads or writes outside the given string (its terminator or '
                'its given length) or the library\'s own objects, dereferences a null pointer, recurses without bound or throws on its own account, whatever '
                'the string contains. A null string pointer counts as an empty string: validations give true, conversions an empty string, lengths 0.',
      forall='every string content and length, including truncated and malformed sequences at every position, and null pointers',
      why='Over-reads pass silently in tests; they occur only for particular tails or lengths.',
      files=[S, SD, T8, LOW, TRIM, SI], mech=[('scans over pointers', S), ('length-limited scan', S + ' isUtf8/unicodeLength with a length')]),
 dict(id='P08', title='unicodeLength counts the characters',
      statement='For every string of 8-, 16- or 32-bit units, zero-terminated, length-terminated or in a basic_string, unicodeLength is the number of characters '
                'it encodes, and 0 if it is malformed (for 8- and 16-bit units also if a character is beyond 0x10FFFF). With an explicit length, '
                'units beyond it have no influence and a zero unit inside it is malformed.',
      forall='every string of every length, every explicit length from 1 to 2^31-1',
      why='Tests count a few strings; a miscount needs a particular sequence at a particular distance from the end.',
      files=[S, I], mech=[('counting', S + ' unicodeLength')]),
 dict(id='P09', title='Length-terminated UTF-8 validation judges exactly the given bytes',
      statement='isUtf8 with an explicit length is true exactly when the given number of bytes is well-formed UTF-8 whose characters satisfy the predicate, an '
                'incomplete but completable sequence at the end being ignored and a zero byte being malformed except as the very first byte, which makes the text empty. '
                'Bytes beyond the length have no influence.',
      forall='every buffer content, every length from 1 to 2^31-1',
      why='The interesting inputs are those whose last sequence straddles the length; the tests have a few.',
      files=[S, I], mech=[('length-limited scan', S + ' isUtf8(const char*, unsigned int)')]),

 dict(id='P10', title='Character classes match the Unicode data of each supported version',
      statement='For every supported Unicode version and every value of an 8-, 16- or 32-bit character type, the predicates for assigned, private, control and '
                'whitespace characters (and their negations) hold exactly for the characters that version assigns, the private use ranges, C0/C1 controls with '
                'DEL, and the White_Space characters. A char counts as its unsigned value, and no value above 0x10FFFF is in a class.',
      forall='every 8-, 16- and 32-bit value, ten Unicode versions, eight single-condition predicates',
      over=['inputs', 'configurations'],
      why='Tests enumerate code points below 0x110000 for the compiled-in version; the other 2^32 values and the narrower overloads are sampled.',
      files=[BITS, PRED, I], mech=[('range tables', BITS), ('predicate', PRED)]),
 dict(id='P11', title='Predicates combine as conjunctions and compare by their conditions',
      statement='A predicate built from any sequence of conditions holds for a character exactly when all of its conditions hold (contradictory conditions never '
                'hold, the none condition and values outside the enumeration add nothing), for 8-, 16- and 32-bit characters alike. '
                'Two predicates are equal when they have the same conditions, order and repetition aside, and different otherwise, unless both are contradictory.',
      forall='every character value, every pair of conditions including invalid enumeration values, every combination of three or four, every pair of predicates of two conditions',
      why='The tests try a few chains on a few characters; interaction of conditions depends on order and on the character.',
      files=[PRED, I], mech=[('mask and value', PRED)]),
 dict(id='P12', title='Validation with a predicate checks every character, decoded',
      statement='Every validation that takes a predicate is true exactly when the same validation without it is true and the predicate holds for every decoded '
                'character of the text (for surrogate pairs and multi-byte sequences: the character they stand for), whichever overload is used.',
      forall='every string of every length, every target range, sixteen predicates, pointer, basic_string and length-terminated overloads',
      why='The tests apply a few predicates to a few strings; a predicate skipped or applied to a fragment shows only for particular characters and positions.',
      files=[S, SD, PRED, I], mech=[('predicate application', S)]),
 dict(id='P13', title='toLower maps every character as the Unicode data say',
      statement='For every supported Unicode version, toLower of a UCS-4 string replaces each character that has a simple lower-case mapping in that version by it '
                '(and dotted capital I, U+0130, by i), and leaves every other value, including those above 0x10FFFF, unchanged; order and length are preserved. '
                'With a Turkic language, capital I becomes dotless i.',
      forall='every sequence of 32-bit values of every length, ten Unicode versions',
      over=['inputs', 'configurations'],
      why='Tests check the upper-case letters and a selection of others for one version; all 2^32 values at all positions are meant.',
      files=[LOW, BLOW], mech=[('mapping tables', BLOW), ('loop', LOW)]),
 dict(id='P14', title='The Turkic rule applies for exactly the ten Turkic language codes',
      statement='toLower maps capital I to dotless i exactly if the language is one of az, azb, aze, azj, kk, kaz, tt, tat, tr, tur in lower case; for any other '
                'language string, the empty string, a null pointer or no language it maps it to i. Nothing else depends on the language.',
      forall='every zero-terminated language string, every text',
      why='Tests try the codes and a few others; prefixes, extensions and look-alikes are unlimited.',
      files=[LOW], mech=[('language test', LOW)]),
 dict(id='P15', title='toLower of UTF-8 and UTF-16 lower-cases the decoded characters',
      statement='toLower of a UTF-8 or UTF-16 string is the encoding, in the same form, of toLower of its decoded characters, with the given language passed on.',
      forall='every string, every language',
      why='Tests lower-case a few strings in these forms; encoded length can change with the character.',
      files=[LOW, I], mech=[('UTF-8 and UTF-16 forms', LOW)]),
 dict(id='P16', title='Code page conversion maps every byte as the code page defines',
      statement='toUtf8 with source encoding CP1252 or CP1250 returns the UTF-8 of the characters the code page assigns to the bytes, in order, and an empty string '
                'if any byte is unassigned; with source encoding Unicode it returns the text unchanged, and with an invalid encoding value an empty string.',
      forall='every byte string of every length, every encoding value',
      why='Tests convert bytes one at a time or in short strings; unassigned bytes may occur anywhere.',
      files=[T8, I], mech=[('code page tables', T8)]),
 dict(id='P17', title='split returns exactly the stretches between delimiters',
      statement='split returns the parts between successive delimiters in order, including empty parts at the beginning, the end and between adjacent delimiters, '
                'for every delimiter value; no unit is lost, added or changed. Splitting an empty string gives no parts.',
      forall='every string of fields of any length with up to 12 (thorough: 40) delimiters, every string of up to 5 (6) arbitrary units, nine delimiter values per width',
      why='Tests split a few strings; positions and lengths are unlimited.',
      note='Fields of every length and content; the number of delimiters is bounded as stated.',
      files=[SJ], mech=[('split', SJ)]),
 dict(id='P18', title='join puts exactly one delimiter between neighbours',
      statement='join returns the strings in order with exactly one delimiter between neighbours, whatever the strings contain, empty ones included, and for every '
                'delimiter value; joining nothing gives an empty string.',
      forall='every list of up to 12 (thorough: 32) strings of any length, nine delimiter values per width',
      why='Tests join a few lists.',
      note='Strings of every length and content; the number of strings is bounded as stated.',
      files=[SJ], mech=[('join', SJ)]),
 dict(id='P19', title='trim removes exactly the leading and trailing units of the set',
      statement='trim removes exactly the longest prefix and suffix consisting of units of the given set (a space by default; tab, line feed, carriage return and '
                'space for the ASCII form) and changes nothing else; a string with only such units becomes empty.',
      forall='every string of every length, sets of up to five units at the extremes of each width',
      why='Tests trim a few strings.',
      files=[TRIM], mech=[('trim', TRIM)]),
 dict(id='P20', title='trimWhiteSpace removes exactly the outer Unicode white space',
      statement='trimWhiteSpace of a UTF-16 or UCS-4 string removes exactly the leading and trailing units that are Unicode White_Space characters and changes nothing '
                'else. Of a UTF-8 string it is the UTF-8 of the decoded characters trimmed in this way, and empty if the string is malformed.',
      forall='every string of every length',
      why='Tests trim a few strings with a few kinds of space.',
      files=[TRIM], mech=[('white space set', TRIM), ('UTF-8 form', TRIM)]),
 dict(id='P21', title='wchar_t functions behave as those of the same unit width',
      statement='With 32-bit wchar_t, validation and conversion of wide strings behave as for UCS-4 text restricted to 0x10FFFF where a wide string is validated or '
                'copied, and conversion to wide strings gives UCS-4; with 16-bit wchar_t they behave as for UTF-16. Null pointers are treated as empty strings.',
      forall='every string of every length, both widths of wchar_t, pointer and basic_string overloads',
      over=['inputs', 'configurations'],
      why='Only one width exists on the test platform, and the tests use a few strings.',
      files=[I], mech=[('inline wrappers', I)]),
 dict(id='P22', title='The Windows-only functions behave as their portable counterparts',
      statement='When compiled for Windows, the char overloads of isUtf16, isUcs2 and isUcs4 judge UTF-8 text for that range, toUtf8 of UTF-8 returns valid text '
                'unchanged and otherwise nothing, isTstring and toTstring behave as the validation and conversion to UTF-16 (with _UNICODE) or as the '
                'copy of ASCII text (with _MBCS). Null pointers are treated as empty strings.',
      forall='every string of every length, _MBCS and _UNICODE',
      over=['inputs', 'configurations'],
      why='This code is not even compiled on the test platform.',
      note='toTstring of UTF-16 and UCS-4 under _MBCS (two passes over the text) is only covered for null pointers.',
      files=[I], mech=[('WIN32 section', I)]),
 dict(id='P23', title='basic_string overloads agree with the pointer overloads',
      statement='For every basic_string, each validation and conversion gives the result of the pointer overload for the text up to the first zero unit (or the end).',
      forall='every string content including embedded zero units, every target range',
      why='Tests call one overload or the other on a few strings without embedded zeros.',
      files=[S, I], mech=[('forwarding overloads', S)]),
 dict(id='P24', title='Every call returns',
      statement='Every validation, conversion, counting, lower-casing and trimming call returns for every input: each loop advances through the given text and there is '
                'no unbounded recursion.',
      forall='every string content and length, truncated and malformed sequences included',
      why='A loop that stalls needs one particular malformed sequence; tests would have to hit it.',
      files=[S, SD, T8, LOW, TRIM], mech=[('scan loops', S)],
      tech='progress analysis: every cycle of the transition graph extracted by abstract interpretation must move a position bounded by the input'),
 dict(id='P25', title='Calls share no mutable state and leave their arguments alone',
      statement='No call writes to an object that outlives it, other than its result (or the string it is asked to trim), and none modifies a const argument; so results '
                'do not depend on earlier calls and concurrent calls do not interfere.',
      forall='every sequence of calls, every interleaving of calls in different threads',
      over=['histories', 'schedules', 'inputs'],
      why='Tests run calls one at a time, mostly once; interference needs a particular history or schedule.',
      files=[S, SD, T8, LOW, TRIM, SJ, PRED, BITS, BLOW], mech=[('global tables', S + ', ' + PRED), ('predicate objects', PRED)],
      tech='effect analysis over the call graph (writes to static or thread-local objects and through const parameters), and watch of all abstract stores'),
 dict(id='P26', title='Conversions are lossless: there and back restores the text',
      statement='Converting any text accepted by a conversion (complete and in shortest form) to another form and back to the original form restores it exactly, for every '
                'pair of forms among UTF-8, UTF-16, UCS-2 and UCS-4.',
      forall='every accepted string of every length, every pair of forms',
      why='Tests convert a few strings each way.',
      files=[S, SD, T8], mech=[('conversions', S), ('encoding', T8), ('decoding', SD)]),
 dict(id='P27', title='The reported Unicode version is the one of the compiled-in data',
      statement='getUnicodeVersionSupported returns, for every supported version, "N.0.0" where N is the version whose character data is compiled in.',
      forall='ten supported Unicode versions',
      over=['configurations'],
      why='The tests only check that it is not empty, for one version.',
      files=[S, BITS], mech=[('version string', BITS)]),
]
