#!/usr/bin/env python3
"""Writes DESIGN.md from its text here, the seeded bugs and known_findings.json"""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = [json.loads(l) for l in open(H + '/properties.jsonl')]
T = {d['id']: d['title'] for d in D}
M = {
'C01': 'Roots: every public function that takes a text and gives a parse result, and the `FromStr` of numbers, with all arguments free. Every panic edge (assert terminators for overflow, index and division, calls that end in the panic machinery, `unwrap`/`expect` of a wrong variant, slicing off a character boundary) reached by the interpreter must be refuted by the facts of its path. Bound: none; loops are summarised by invariants. Undecided edges are listed in the evidence.',
'C02': 'The same rule for formatting (every mode, every formatter built by the builder), validity, type, metadata, country and the accessors, over a number whose fields are free within what its constructors admit (a type invariant computed from the constructors, not assumed).',
'C03': 'The same rule for the XML loader with the event reader free (any event, any text, fresh at every call) and for building a database from decoded metadata.',
'C04': 'For every loop of every function reachable from the public API: a ranking argument found by the interpreter (an index that moves towards a bound, an iterator that is consumed, an end-of-input event that leaves the loop). For recursion: the strongly connected components of the monomorphised call graph; a cycle is a violation when nothing bounds its depth.',
'C05': 'Effect analysis of the monomorphised call graph: no call to clock, environment, network, randomness, thread or file primitives outside the loaders that take a path; no write to a static other than one-time initialisation; auto traits `Send`/`Sync` of the public types read from the type-checked program; no `unsafe` in the crate.',
'C06': 'Decision table of the parsing entry point: on each accepting exit the interpreter’s terms must show that the length of the national text is within 2 and 17 on the path, that value and zeros are read from that text, and the code is 1–3 digits known to the metadata.',
'C07': 'Decision table of the function that assigns the calling code, found by type: the reported source is compared with the conditions of the exit (a plus matched at position 0; an international prefix at the start; the digits of the default region’s code; none).',
'C08': 'Flow analysis: the metadata whose rules reach the stripping function is looked up by the number’s own code when it has one; else by the default region.',
'C09': 'Decision table of the stripping function: what is returned is a suffix of the text after at most one match at position 0 (or the transform rule applied), and never when the text matches the general rules while the rest does not.',
'C10': 'The normalisation function is summarised per character; its mapping table is compared, over all of Unicode, with decimal digit values and the E.161 keypad; a flow analysis shows that every part of a number goes through it, and letters only where the text has three.',
'C11': 'The pattern for extensions is compiled to an automaton with marks and compared with the documented notations; exits of both readers return exactly the marked group, and what is left is the text before the match; a flow analysis shows that nothing afterwards changes it.',
'C12': 'Decision table of the type function against the documented order; kernels for matching a descriptor: anchored pattern and length among the listed lengths.',
'C13': 'Validity, type and metadata are expressed over the same decision terms; each exit of one must agree with the exits of the other two.',
'C14': 'Decision table of the attribution function: only region; leading digits match at the start; known type; main country for code 1; else none.',
'C15': 'Enumeration of the outcome type from the type-checked program against the tables of the four predicates; the length classification is an exact table over the relation of length and listed lengths.',
'C16': 'The output log of the formatter (a sequence of literal and symbolic pieces) per exit and mode is compared with the documented shape.',
'C17': 'The choice of a rule is unrolled: an explicit rule, else the first in order whose last leading-digits pattern matches at the start and whose pattern matches the whole; NA rules only nationally.',
'C18': 'The national piece of every output: unchanged text without a rule; with one, exactly one replacement of the whole match by the template, whose inserted prefix rule refers to the group it replaces.',
'C19': 'For each field of a metadata record: the chain element or attribute → loader field → record field → accessor is traced by symbolic execution of the loader’s tables for every element kind; the pairs must be the documented ones, with nothing dropped or swapped.',
'C20': 'For every parser of an element: on unknown children, unknown or malformed attributes, and bad references the table must have an error exit, and no accepting exit whose conditions include them.',
'C21': 'The builder is summarised per record: one record object is inserted under its identifier, in each list of its code, and each pattern of leading digits; lookups read the maps at the argument.',
'C22': 'A lint of the bundled metadata and of every literal pattern in the source. Patterns are compiled to automata: digits only, descriptors within the general pattern, formats reachable, references valid, lengths covered, example numbers accepted, capture groups as used; the identifiers of regions are read off the decision tables of their two conversions. Exemptions: numbers that begin with the region’s own code; NA formats.',
'C23': 'Taint analysis of databases: the term of the database of every lookup is the argument given; the default one only in operations that take none.',
'C24': 'The equality and hash implementations are read as tables over the fields; fields compared = fields hashed = the documented ones.',
'C25': 'Serialisation and deserialisation visitors are interpreted symbolically: names, order and attributes of every written field must be the ones read; no skip without a default that gives it back; map variants distinct.',
'C26': 'Bit-level flow: all 64 bits of the packed form are traced from the constructor to the accessors; refusal exactly when out of range.',
'C27': 'Every error exit of the entry point and of the calling code function; its full path condition (an exit’s facts are its whole condition) must contain the documented reason.',
'C28': 'The reader found by its type: its patterns are classified by comparison as automata with the three stated languages on an alphabet of class representatives; each exit’s piece of text is compared with the cuts its conditions name.',
'C29': 'The reader of RFC 3966 text found by its type: each exit’s prefix and national number are the pieces of text the stated grammar names.',
'C30': 'The accessors of the number type, and of its parts, are decision tables over the stored fields.',
}
seeds = {}
for f in sorted(glob.glob(H + '/seeded/*/meta.json')):
    m = json.load(open(f))
    seeds.setdefault(m['property'], []).append((f.split('/')[-2], m['what_it_breaks']))
kf = json.load(open(H + '/known_findings.json'))
kf = kf if isinstance(kf, list) else kf.get('findings', kf.get('fixed', []))
o = ['''# Static analysis of rust-phonenumber

(Written by `tools/design.py`.)

## Machinery

* `driver/main.rs` — a rustc (nightly, `rustc-dev`) driver run as `RUSTC_WORKSPACE_WRAPPER` of `cargo check`. It dumps the type-checked program of the current
  `/repo` working tree as *facts*: monomorphised MIR of every function of the crate and of the generic library code it instantiates, types and layouts by field name,
  trait implementations, statics, attributes, auto traits, unsafe blocks.
* `engine/` — an abstract interpreter over that MIR. Values are hash-consed symbolic terms over the arguments; a state carries interval facts, linear inequalities,
  character-set facts of texts, facts about character boundaries, enum discriminants and an output log. Loops are summarised by a relational fixpoint (with
  generalisation to loop phis and inferred invariants) or, for decision tables, unrolled exactly. `models.py`/`stdmodels.py` give the semantics of the standard library,
  regex, nom, quick-xml, either, once_cell calls in terms of that domain. Nothing is executed and no solver is asked; the deciding step is a syntactic entailment in the
  engine's domain. `relang.py`, `rxclass.py` and `rx.py` decide questions about literal patterns (inclusion, difference, captured groups) by automata.
* `checks/cNN.py` — one analysis per property, on the shared `kernels`, `codek`, `parsek`, `fmtk`, `panics`, `loading`, `xmltab`; `check.py` runs one and writes
  `evidence/CNN.json`.

A check reports a *violation* only when a path of the program definitely contradicts the rule on precise terms; where the domain is too coarse (an unmodelled call, a
merged value, a run cut short), the obligation is *undecided*: it is listed in the evidence and raises no alarm. So "proof" here means: on the unchanged tree all
obligations are discharged by the rule, modulo the trusted base. The number of obligations found has a floor, so that code moved out of sight shows as undecided and not
as success. Values invented at a merge of paths need confirmation by a second run that merges later before they count as a violation.

Trusted base: rustc's MIR; the models of library calls; that regex engines implement the languages of their patterns; that writing to a formatter's sink succeeds; that a
metadata database's indexes agree (shown by C21 for those the builder makes).

Facts are cached in `.cache` under a hash of every source file of `/repo`, so each check analyses the current tree; building them takes about 20 s, a check 1–60 s. The
thorough tier raises the limits on unrolling, path counts and time; the rules are the same.

Roots of the analyses are public API items or are found by type signature (the only function from text to a list of …), never by internal name, so that renaming, splitting
or inlining internal functions does not matter. Why this reaches what the tests cannot: each rule is decided on the conditions and values of *all* paths with free inputs,
not on samples.

## Properties

Statements: `properties.jsonl` (source: `tools/props.py`). What decides each:
''']
for d in D:
    i = d['id']
    if i in M:
        o.append('* **%s** %s. %s%s' % (i, d['title'], M[i], (' Planted: ' + ', '.join('`%s`' % s for s, _ in seeds[i]) + '.') if i in seeds else ''))
o.append('''
## Not applicable
''')
for x in json.load(open(H + '/MANIFEST.json'))['not_applicable']:
    i = x.get('property') or x.get('property_id') or x.get('id')
    o.append('* **%s** %s. %s' % (i, T.get(i, ''), x['reason']))
o.append('''
## Defects found and repaired

Each is one `fix:` commit in /repo, recorded in `known_findings.json` (`fixed:` entries suppress nothing; there are no open findings).
''')
for k in kf:
    o.append('* ' + k['record'])
o.append('''
Observed and left alone, because no stated property covers them or the behaviour may be meant: `country::Id` cannot be parsed from "001"; an all-zero national number
is refused; "+44207-1234567" is refused, as the RFC 3966 reader takes everything up to the first separator for the calling code; ";EXT=" in capitals is no parameter;
a trailing "x" or "#" gives an empty extension; the viability test knows ASCII digits only; a domain as phone context is refused.

## False alarms met and removed

Rules that were too strong as first written, and what was done: C22 wanted every descriptor inside the general pattern (Austria and Germany list numbers that begin with
their own calling code: exempted by that rule) and every format reachable (formats without an international form, or shorter than every listed length: exempted); C11 took
the last of several capture groups (the first that matched is right); C27 and C28 met exits that cannot be taken, whose conditions contradict each other only through the
meaning of a pattern (the contradiction is now derived). C13, C17 and C23 once alarmed on refactorings that pass a value through a tuple or closure; the interpreter now
follows them.

## Planted bugs

`seeded/<id>`; `tools/seedtest.py <id>` confirms one in a scratch copy (demo fails, tests pass) and runs its check. All are caught by the check of their property:

| bug | property | what it breaks |
|---|---|---|''')
for p in sorted(seeds):
    for s, w in seeds[p]:
        o.append('| `%s` | %s | %s |' % (s, p, w))
o.append('''
Beside these, small mutations (about 250 in all, ten to twenty for a check) and behaviour-preserving rewritings were tried in scratch copies while each check was written:
the former have to alarm, the latter stay quiet.
''')
open(H + '/DESIGN.md', 'w').write('\n'.join(o))
