#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: a property is claimed when checks/cNN.py exists."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'engine'))

P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique='', note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note, na=na))


AI = 'abstract interpretation of the compiler\'s MIR'

prop('C01', 'Parsing never panics',
     'Parsing any text, with any default region and any loaded metadata, returns a number or an error; it never panics, overflows an integer, slices a text off a character boundary or indexes out of range. This covers checking whether a text is viable as well.',
     ['inputs', 'configurations'], 'every text, every default region, every metadata database',
     'The tests parse a few dozen well-known numbers; a panic needs an odd text (multi-byte digits, empty groups, bare prefixes) or odd metadata.',
     ['src/parser/mod.rs', 'src/parser/helper.rs', 'src/parser/natural.rs', 'src/parser/rfc3966.rs', 'src/parser/valid.rs', 'src/validator.rs', 'src/national_number.rs'],
     [('guards before slicing and unwrapping', 'src/parser/helper.rs'), ('error returns of the entry points', 'src/parser/mod.rs')],
     AI + ': every panic edge reachable from the public parsing functions must be refuted by the facts on its path',
     'Sound up to the library models; sites it cannot bound are listed as undecided in the evidence and raise no alarm.')
prop('C02', 'Formatting, validating and querying a number never panics',
     'For every number that can exist and every loaded metadata, formatting in every mode, checking validity, asking for the type, region, metadata, country, carrier or extension, printing and comparing return normally; they never panic.',
     ['inputs', 'configurations'], 'every number value, every mode, every metadata database',
     'The tests format a handful of parsed numbers with the bundled metadata.',
     ['src/formatter.rs', 'src/phone_number.rs', 'src/validator.rs', 'src/country.rs', 'src/national_number.rs', 'src/metadata/metadata.rs'],
     [('guards before slicing and unwrapping', 'src/formatter.rs'), ('options instead of indexing', 'src/validator.rs')],
     AI + ': every panic edge reachable from the public query and formatting functions must be refuted',
     'Sound up to the library models; undecided sites are listed in the evidence.')
prop('C03', 'Loading any metadata text never panics',
     'Building a database from any metadata text or any decoded metadata, well formed or not, returns a database or an error; it never panics.',
     ['inputs', 'fault_sequences'], 'every metadata text, truncated or malformed at any point',
     'The tests load only the bundled metadata; malformed documents are not tried.',
     ['src/metadata/loader.rs', 'src/metadata/database.rs'],
     [('error returns for missing or malformed values', 'src/metadata/loader.rs'), ('error returns while compiling', 'src/metadata/database.rs')],
     AI + ': every panic edge in the loader and the database builder must be refuted',
     'Sound up to the library models; undecided sites are listed in the evidence.')
prop('C04', 'Every operation ends, without recursion driven by the input',
     'Every operation ends on every input: no loop can go round for ever, in particular not on metadata that stops early, and no chain of calls grows with the input, so that no input can exhaust the stack.',
     ['inputs', 'fault_sequences'], 'every input text and every truncation of a metadata document',
     'A loop that does not end on a truncated document, or a deeply nested one, is never fed to the code by the tests.',
     ['src/metadata/loader.rs', 'src/parser/helper.rs', 'src/formatter.rs', 'src/validator.rs'],
     [('end-of-input arms of the reader loops', 'src/metadata/loader.rs'), ('loops over finite iterators', 'src/parser/helper.rs')],
     'call-graph cycles and loop-progress analysis on MIR',
     'Recursion check exact on the resolved call graph; loops by a recognised progress measure, others listed as undecided.')
prop('C05', 'Operations are pure and safe to share between threads',
     'The result of every operation depends only on its arguments: nothing reads the clock, the environment, the network, a random source or other threads, and only loading from a caller-given path reads a file. There is no mutable process-wide state, and every public type can be shared between threads.',
     ['inputs', 'schedules', 'histories'], 'every history of calls, from any number of threads',
     'Tests run one call at a time in one process and cannot observe hidden state or environment dependence.',
     ['src/lib.rs', 'src/consts.rs', 'src/metadata/database.rs', 'src/phone_number.rs'],
     [('one-time initialised immutable tables', 'src/consts.rs'), ('immutable database behind shared references', 'src/metadata/database.rs')],
     'effect analysis over the typed call graph, statics and auto traits',
     'Exact on the call sites of the crate; dependencies are classified by path.')
prop('C06', 'A successfully parsed number is well formed',
     'A number returned by parsing was read from a national part of at least two and at most seventeen digits, and its value and leading zeros are those of exactly that digit text; its country calling code is one that the metadata knows or the given default region\'s own.',
     ['inputs', 'configurations'], 'every text, default region and metadata',
     'The tests check the fields of a few dozen parsed numbers.',
     ['src/parser/mod.rs', 'src/national_number.rs', 'src/parser/helper.rs'],
     [('length checks', 'src/parser/mod.rs'), ('lookup of the code in the metadata', 'src/parser/helper.rs')],
     AI + ' of the parsing entry point, facts at its success exits', '')
prop('C07', 'The origin of the country code is reported faithfully',
     'After parsing, the reported origin of the country calling code says plus sign exactly when the number part of the text began with a plus sign (or its phone context gave the code), international prefix exactly when there was none and the international prefix of the default region was removed from the start, bare exactly when the code of the default region itself was read off the digits, and default otherwise, when the code is that of the default region; and the national digits are exactly what remains after those parts.',
     ['inputs', 'configurations'], 'every text, default region and metadata',
     'The tests check the origin for a few texts.',
     ['src/parser/helper.rs', 'src/parser/mod.rs'], [('country code extraction', 'src/parser/helper.rs')],
     AI + ' of the parsing entry point, facts at its success exits', '')
prop('C08', 'National rules come from the number\'s own country code',
     'When a number carries its own country calling code, the national prefix and carrier rules applied to it are those of that code\'s metadata; the rules of the default region are applied when, and only when, the code came from the default region.',
     ['inputs', 'configurations'], 'every text, default region and metadata',
     'Needs a foreign default region whose prefix collides with the digits; the tests have one or two such pairs.',
     ['src/parser/mod.rs', 'src/parser/helper.rs'], [('choice of metadata after the code is known', 'src/parser/mod.rs')],
     AI + ' of the parsing entry point', '')
prop('C09', 'The national prefix is stripped at most once and only safely',
     'Parsing removes a national prefix at most once, only from the start of the digits, and never so that a number matching the national rules turns into one that does not; a prefix that is recognised at the start and can be removed safely is removed; a carrier is reported exactly when the prefix pattern captured one.',
     ['inputs', 'configurations'], 'every text, default region and metadata',
     'The interplay of transform rules, captures and viability is sampled by a few numbers.',
     ['src/parser/helper.rs', 'src/parser/mod.rs'], [('prefix stripping', 'src/parser/helper.rs')],
     AI + ' of the prefix stripping function', '')
prop('C10', 'Digits and letters are normalised exactly',
     'In every part of a parsed number, each decimal digit of any script counts as the ASCII digit of the same value; letters count as the digits of the telephone keypad exactly when the number has at least three of them, and otherwise as nothing; no other character ever contributes a digit, and nothing is lost or reordered.',
     ['inputs'], 'every Unicode character',
     'The tests try full-width and Arabic digits in a few numbers.',
     ['src/consts.rs', 'src/parser/helper.rs'], [('mapping tables', 'src/consts.rs'), ('normalisation loop', 'src/parser/helper.rs')],
     'static evaluation of the mapping tables and ' + AI, '')
prop('C11', 'A written extension is recognised in every notation and taken exactly',
     'If the text ends in an extension (";ext=", "ext", "extn", "extension", "x", "#", "~", ",", ";", "int" or "anexo", with spaces, a colon or a full stop where usual, in any case, or "- 123#"; or the RFC 3966 parameter ext), the number parsed carries exactly the extension digits captured (up to seven; five before "#"), normalised, and the national number ends where the notation begins. No extension is invented, and neither finding the calling code nor stripping the national prefix changes it.',
     ['inputs'], 'every text and every supported extension notation',
     'The tests use a few of the notations.',
     ['src/parser/helper.rs', 'src/parser/natural.rs', 'src/parser/rfc3966.rs', 'src/parser/mod.rs', 'src/consts.rs'], [('extension extraction', 'src/parser/natural.rs')],
     AI + ' of the readers of the text and of every step to the number; exact automaton comparison of the pattern for extensions', '')
prop('C12', 'The type of a number follows the documented order of descriptors',
     'A number is of unknown type unless it matches the general description of its region; otherwise its type is the first of premium rate, toll free, shared cost, voice over IP, personal, pager, universal access and voicemail whose description it matches, then fixed line or mobile or both. A description is matched only by a number whose whole text matches its pattern and whose length is listed (if it lists lengths); looking up the description of a type gives the description of that type.',
     ['inputs', 'configurations'], 'every national number and every metadata record',
     'There are thousands of combinations of matching descriptors; the tests have about twenty numbers.',
     ['src/validator.rs', 'src/metadata/descriptor.rs', 'src/metadata/metadata.rs'],
     [('priority order', 'src/validator.rs number_type'), ('length and pattern match', 'src/metadata/descriptor.rs is_match'), ('lookup by type', 'src/metadata/metadata.rs Descriptors::get')],
     AI + ' into an exact decision table, compared with the documented one',
     'Exact: all rows of the table are enumerated symbolically; regular-expression matches are opaque.')
prop('C13', 'Validity, type and metadata of a number agree',
     'A number is valid exactly when the metadata chosen for it gives it a known type; validity and type are both decided on its full national text, leading zeros included, and on the metadata of the same region.',
     ['inputs', 'configurations'], 'every number and database',
     'Numbers with leading zeros in regions sharing a code are hardly tested.',
     ['src/validator.rs', 'src/phone_number.rs'], [('validity', 'src/validator.rs'), ('type and metadata of a number', 'src/phone_number.rs')],
     AI + ' of both queries on the same symbolic number', '')
prop('C14', 'A number is attributed to the right region',
     'The region a number is attributed to always belongs to its country calling code: the only region of that code if there is one, otherwise the first one in the documented order whose leading digits match at the start of the number or, lacking leading digits, under whose rules the number has a known type.',
     ['inputs', 'configurations'], 'every number and database',
     'Only a few shared codes are tested.',
     ['src/validator.rs', 'src/country.rs', 'src/phone_number.rs'], [('region search', 'src/validator.rs source_for')],
     AI + ' of the region search', '')
prop('C15', 'Validation outcomes are classified consistently',
     'Every validation outcome is either possible or invalid, never both: possible and possible-local-only are possible, all others are invalid; the invalid lengths are exactly too short, invalid length and too long.',
     ['inputs'], 'every outcome',
     'No test looks at these predicates.',
     ['src/validator.rs'], [('predicates of the outcome', 'src/validator.rs Validation')],
     AI + ' on each enumeration value', 'Exact.')
prop('C16', 'Formatted numbers have the documented shape',
     'Formatting in E.164 gives a plus sign, the country calling code and the national digits with nothing between; in international form, plus sign, code, a space and the formatted national number; in RFC 3966 form, tel:, plus sign, code, a hyphen and the number, with ;ext= before an extension; in national form the national number; an extension is written exactly when the number has one, introduced by the word of the region or " ext. " in the international and national forms, and never in E.164. Formatting fails only for a calling code without record. A new formatter is in E.164 form without a rule, and setting the form or the rule changes nothing else.',
     ['inputs', 'configurations'], 'every number, mode and metadata',
     'The tests compare a few dozen formatted numbers.',
     ['src/formatter.rs'], [('output per mode', 'src/formatter.rs')],
     AI + ' of the text written on every path', '')
prop('C17', 'The format rule is chosen by pattern and leading digits',
     'A number is formatted by the rule set on the formatter, or without one by the first rule of its region whose leading digits (the last listed pattern) match at the start of the national number, if it has any, and whose pattern matches the whole number, and by no rule when there is none. The national form uses the national rules; the other forms use the international rules when there are any, and the national ones otherwise. The region is the main one of the calling code.',
     ['inputs', 'configurations'], 'every number, mode and metadata',
     'Rule order matters only for numbers matched by several rules, which tests do not search for.',
     ['src/formatter.rs'], [('rule search', 'src/formatter.rs formatter')],
     AI + ' of the rule search', '')
prop('C18', 'Formatting neither loses nor invents digits',
     'Without a format rule the national number is written as it is, leading zeros included; with one, it is the whole national text with the pattern of that rule replaced by its format. Only the national form lets a rule\'s carrier rule (when the number has a carrier) or else its national prefix rule take the place of the first group of the format, with the national prefix of the region, that group and the carrier filled in.',
     ['inputs', 'configurations'], 'every number, mode and metadata',
     'Leading zeros and rule-less regions are hardly tested.',
     ['src/formatter.rs', 'src/national_number.rs'], [('national text', 'src/national_number.rs'), ('replacement', 'src/formatter.rs')],
     AI + ' of the text written on every path', '')
prop('C19', 'Metadata reaches its accessor unchanged',
     'What a metadata document says about a region (code, prefixes, flags, descriptions by type, lengths, examples, formats) is what the accessors of the loaded database return for that region: each element and attribute reaches the accessor of the same meaning and no other.',
     ['inputs', 'configurations'], 'every metadata document and every region',
     'A swapped field shows only for the types and regions a test happens to use.',
     ['src/metadata/loader.rs', 'src/metadata/database.rs', 'src/metadata/metadata.rs', 'src/metadata/descriptor.rs', 'src/metadata/format.rs'],
     [('attribute and element names', 'src/metadata/loader.rs'), ('conversion to the compiled form', 'src/metadata/database.rs'), ('accessors', 'src/metadata/metadata.rs')],
     AI + ' of accessors, builder and loader, composed field by field', '')
prop('C20', 'The loader refuses what it does not understand',
     'A metadata document is refused with an error, and never silently yields a database, when a territory, number format or length element has an attribute outside the schema, a territory or one of its parts has an element outside the schema, an end tag does not fit, the document stops before its end, a number, flag or length range is malformed, or an identifier, calling code, general description, number pattern, format pattern or format is missing. Whole elements beside the territories are skipped.',
     ['inputs', 'fault_sequences'], 'every metadata document',
     'No test loads a malformed document.',
     ['src/metadata/loader.rs'], [('error arms', 'src/metadata/loader.rs')],
     AI + ' of every loader function into decision tables; queries on the passes and success exits', '')
prop('C21', 'The indexes of a database agree',
     'For every database built from a metadata document, each description of the document becomes exactly one record; looking up an identifier finds a record with that identifier; the records and the identifiers listed for a calling code are those of the records with that code, in the same order as each other, with the main country of the code put first; and iterating visits every metadata record.',
     ['inputs', 'configurations'], 'every metadata set',
     'The tests query a few regions of the bundled metadata.',
     ['src/metadata/database.rs'], [('index construction', 'src/metadata/database.rs from')],
     AI + ' of the database builder and the queries', '')
prop('C22', 'The bundled metadata and the built-in patterns are well formed',
     'Every built-in pattern and every pattern of the bundled metadata is a valid regular expression; those for numbers match digits only. Each known country identifier is described exactly once and no other is; calling codes have one to three digits and, where regions share one, exactly one is the main region. Every description of a kind of number lists lengths from 2 to 17, matches some number and none of another length, its example, and only numbers of the general description (but for numbers that begin like the calling code itself). Formats take every digit into a group, refer to existing groups in order, without a reference running into other text; the international form leaves no digit out, adds and repeats none; every format is the first to take some number of the region, and each further pattern for leading digits narrows the one before. A national prefix is one the parser takes; a preferred international prefix is an international prefix.',
     ['configurations'], 'every record of the bundled metadata and every built-in pattern',
     'The tests touch few of the two hundred and fifty regions.',
     ['assets/PhoneNumberMetadata.xml', 'src/consts.rs', 'src/country.rs', 'build.rs'],
     [('built-in patterns', 'src/consts.rs'), ('bundled metadata', 'assets/PhoneNumberMetadata.xml')],
     'lint of the bundled metadata with exact automata comparisons; static evaluation of built-in patterns', '')
prop('C23', 'The given database is the only one consulted',
     'Every operation that takes a database uses that database for all its lookups; it never falls back to the bundled one. Every operation without a database argument is the same operation on the bundled database.',
     ['inputs', 'configurations'], 'every database other than the bundled one',
     'The tests hardly use a database other than the bundled one.',
     ['src/parser/mod.rs', 'src/validator.rs', 'src/phone_number.rs', 'src/formatter.rs'], [('explicit database parameters', 'src/phone_number.rs')],
     'call-graph reachability of the default database and argument dataflow', '')
prop('C24', 'Equality and hashing agree and cover every meaningful part',
     'Two numbers are equal exactly when their calling code, national number, extension and carrier are equal; how the calling code was written does not matter. Equal values have equal hashes, and the same holds for each part of a number.',
     ['inputs'], 'every pair of values',
     'The tests compare a few numbers and never hash.',
     ['src/phone_number.rs', 'src/country.rs', 'src/national_number.rs', 'src/extension.rs', 'src/carrier.rs'],
     [('derived and hand-written equality', 'src/country.rs'), ('hashing', 'src/country.rs')],
     AI + ' of eq and hash on symbolic values',
     'Exact for the exits it resolves; parts enumerated from the type definitions.')
prop('C25', 'Serialised values come back equal',
     'Any number, and each of its public parts, serialised and read back in any format equals the original; no two distinct values are written alike.',
     ['inputs'], 'every value of the serialisable types, every data format',
     'The tests serialise nothing or a single value.',
     ['src/phone_number.rs', 'src/country.rs', 'src/national_number.rs', 'src/extension.rs', 'src/carrier.rs'],
     [('derived serialisation', 'src/phone_number.rs and the part types')],
     'query over serde implementations, attributes and field types of the type-checked program',
     'Exact for derived implementations; hand-written ones are listed as undecided.')
prop('C26', 'A national number keeps its value and its leading zeros exactly',
     'A national number built from a value and a count of leading zeros reports exactly that value and that count, or is refused; its text is that many zeros followed by the value, and reading a text of digits back gives the same number.',
     ['inputs'], 'every value and every count of leading zeros',
     'The tests try small counts only; truncation needs large values.',
     ['src/national_number.rs'], [('packing into one word', 'src/national_number.rs')],
     AI + ' with bit provenance',
     'Exact: all 64 bits of both accessors are traced to the constructor arguments.')

prop('C27', 'Parsing refuses a text only for the reason it gives',
     'A text that is read as a number and is viable is refused only when: the calling code given, or each of the first one, two and three digits after the plus or the international prefix, is unknown to the metadata, or those digits begin with zero (invalid calling code); there is neither calling code nor known default region (the same); at most two digits follow the plus, the international prefix or a given calling code (too short); fewer than two national digits remain (too short) or more than seventeen (too long); or a part is no integer of its size (malformed integer). In every other case it is accepted, and each error is the one for its reason.',
     ['inputs', 'configurations'], 'every text, default region and metadata',
     'The tests refuse few texts, and accepting is tried on few numbers.',
     ['src/parser/mod.rs', 'src/parser/helper.rs', 'src/consts.rs', 'src/error.rs'], [('errors of parsing', 'src/parser/mod.rs'), ('errors of the calling code', 'src/parser/helper.rs')],
     AI + ' of the parsing entry point and the calling code function; every error exit is judged by its conditions', '')

prop('C28', 'Only the number in a text is read, and the whole of it',
     'A text that is no tel URI is read from its first plus sign or decimal digit, in any script. Signs at its end that are neither letters, numerals nor a hash are dropped, and it ends where a second number begins, which is a slash or backslash, any number of spaces, and an x. Apart from an extension nothing else is cut off, whatever its length, and such a text is refused at this stage only when it has no plus sign or digit or nothing is left of it.',
     ['inputs'], 'every text, of any length and script',
     'The tests read seven texts; the patterns accept infinitely many, and what they leave out shows only on signs no test contains.',
     ['src/parser/natural.rs', 'src/parser/helper.rs', 'src/consts.rs'], [('reading natural text', 'src/parser/natural.rs'), ('extracting a possible number', 'src/parser/helper.rs'), ('the patterns', 'src/consts.rs')],
     'abstract interpretation of the reader found by its type, each exit judged by the piece of text it returns; the patterns are compared as automata with the stated languages over a representative alphabet', '')

prop('C29', 'A tel URI is read part by part',
     'A text without spaces that is an optional "tel:" in any letter case, an optional plus sign with what follows it up to a separator (hyphen, dot, parenthesis), a run of digits and separators, and then nothing or parameters, is read as a tel URI: its calling code is what stands after the plus sign, or without one the value of the parameter phone-context less its plus sign; its national number is exactly the run. No other text is read so, and a context or calling code that is given is never dropped, cut or invented.',
     ['inputs'], 'every text, of any length and script',
     'The tests read five URIs; which part of a text becomes which part of the number must hold for all of them.',
     ['src/parser/rfc3966.rs'], [('reading tel URIs', 'src/parser/rfc3966.rs')],
     'abstract interpretation of the reader found by its type; every exit is compared with the places its conditions name', '')

NA = [
    ('C90', 'Formatting then parsing gives the number back', 'Parsing the text written for a number in any international mode gives an equal number.',
     'Needs equality of a value through regular-expression replacement and parsing, which no sound static argument in reach can bound.'),
    ('C91', 'Results agree with libphonenumber', 'For every text and region, parsing, validity, type and formatting agree with the reference implementation for the same metadata.',
     'There is no reference implementation here to compare with, and the agreement is about runtime values of regular expressions.'),
    ('C92', 'Work is linear in the length of the text', 'The time spent on a text grows at most linearly with its length.',
     'Running time inside the regular-expression and parser libraries cannot be bounded by an analysis of this crate.'),
    ('C93', 'Equivalent notations parse to equal numbers', 'Two texts that differ only in punctuation, spacing, digit script or letter case parse to equal numbers.',
     'Relates two runs through regular expressions on runtime text; a sound static relation between them is out of reach.'),
]


def main():
    checks, lines = [], []
    for p in P:
        have = os.path.exists(os.path.join(HERE, 'checks', p['id'].lower() + '.py'))
        if not have:
            continue
        m = importlib.import_module('checks.' + p['id'].lower())
        lines.append(line(p))
        checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'], 'thorough_cmd': 'python3 check.py %s --thorough' % p['id'],
                       'technique': p['technique'], 'level': m.LEVEL, 'level_note': p['note'] or getattr(m, 'NOTE', 'Sound up to the library models; undecided obligations are listed in the evidence and raise no alarm.')})
    na = []
    for id, title, st, reason in NA:
        lines.append(line(dict(id=id, title=title, statement=st, over=['inputs'], qtext='every text and number', why='Tests sample a few texts.',
                               files=['src/parser/mod.rs', 'src/formatter.rs'], mech=[('parser and formatter', 'src/parser/mod.rs, src/formatter.rs')])))
        na.append({'property': id, 'reason': reason})
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for l in lines:
            f.write(json.dumps(l) + '\n')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na}, f, indent=1)
        f.write('\n')
    print(len(checks), 'claimed,', len(na), 'not applicable')


def line(p):
    return {'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['qtext']},
            'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}


main()
