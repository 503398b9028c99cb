import json, os
FIX = [
 ('C01', '9405031', 'asking the metadata of an unlisted default region panicked; now an invalid country code error'),
 ('C01', '7a8e061', 'a region identifier in the metadata that is no known country made parsing and validating panic'),
 ('C03', '0cb7390', 'a territory description without a national number pattern made building the database panic'),
 ('C13', 'd22d5e1', 'type and metadata of a number ignored its leading zeros while validity did not'),
 ('C09', '9534041', 'the national prefix was stripped twice'),
 ('C09', '04e7956', 'the viability test after stripping the national prefix looked at the wrong part of the text'),
 ('C09', '7fe5502', 'a carrier was reported although the prefix pattern captured none'),
 ('C11', '4142f2b', 'extensions in some of the supported notations were lost'),
 ('C17', 'ff8f8a7', 'operator precedence let a rule be chosen whose leading digits did not match'),
 ('C02', '7b7a830', 'formatting panicked when the national prefix rule contained no group reference'),
 ('C21', 'ee4de62', 'iterating the database missed records sharing an identifier'),
 ('C26', '91314de', 'more than 255 leading zeros were truncated when reading a national number'),
 ('C12', '61f84c7', 'the length of a text was truncated to 16 bits before it was compared with the possible lengths'),
 ('C03', '9e30dd2', 'malformed length ranges in the metadata made the loader panic'),
 ('C04', '23c320d', 'skipping a deeply nested element recursed once per level'),
 ('C12', '7cc8b16', 'a descriptor pattern with alternatives matched a part of a number instead of the whole'),
 ('C06', '483ed7a', 'a plus sign after leading zeros was read as part of a national number'),
 ('C26', '77d66ef', 'converting a national number to an integer gave its packed form'),
 ('C19', '6914097', 'entity references in attribute values of the metadata document were not decoded'),
 ('C09', '8e82bea', 'a national number that fits the rules lost its first digits when the region has a prefix but no pattern for parsing it'),
 ('C10', '97e286f', 'the digits of an extension written in most scripts (Khmer, mathematical, ...) were dropped'),
 ('C07', '83039cd', 'the calling code after a plus was taken for the international prefix of the default region'),
]
F = [{'property': p, 'fixed': True, 'commit': c, 'record': 'fixed: property=%s %s %s' % (p, c, w)} for p, c, w in FIX]
json.dump({'findings': F}, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json'), 'w'), indent=1)
