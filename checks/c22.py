"""C22: the bundled metadata and the built-in patterns are well formed"""
import os
import re
import xml.etree.ElementTree as ET
from collections import defaultdict
from engine import relang, rx
from checks import c11
from checks import kernels as K
from checks import xmltab as X
from checks.lib import *

LEVEL = 'proof'
RULE = ('obligation = (territory, attribute), (territory, kind of number: pattern, lengths, example, containment in the general description), (territory, format: pattern, groups, references, reachability), '
        '(function that gives a built-in pattern); discharged when the rule of that construct holds')
EXPLAIN = 'Every territory and format of the bundled metadata is read as the loader reads it (white space removed); patterns are compared as automata over the digits; built-in patterns are evaluated from their initialisers.'
ASSUME = ['patterns mean the same to the automata built here as to the regex crate', 'library models of text comparison are correct']

D = '0123456789'
KINDS = ('fixedLine', 'mobile', 'pager', 'tollFree', 'premiumRate', 'sharedCost', 'personalNumber', 'voip', 'uan', 'voicemail')
MOST = 17


def sq(s):
    return re.sub(r'\s+', '', s) if s is not None else None


def lengths(s):
    """the listed lengths, None when the list is malformed"""
    out = set()
    for p in (s or '').split(','):
        m = re.fullmatch(r'\[(\d+)-(\d+)\]|(\d+)', p.strip())
        if not m:
            return None
        if m.group(3):
            out.add(int(m.group(3)))
        elif int(m.group(1)) < int(m.group(2)):
            out |= set(range(int(m.group(1)), int(m.group(2)) + 1))
        else:
            return None
    return out


def matched_lengths(pat):
    d = relang.DFA(pat, D, True)
    cur, out = {d.start()}, set()
    for n in range(0, MOST + 4):
        if any(d.accepts(s) for s in cur):
            out.add(n)
        cur = {s for s in (d.next(s, c) for s in cur for c in D) if s[0]}
    return out


def meets(pat, lead, others, before=()):
    """is there a text the whole pattern matches, that begins like lead, that one of the others matches and none of the formats before"""
    make = lambda p, l: (relang.DFA(p, D, True), relang.DFA('^(?:%s)' % l, D) if l else None)
    fs = [make(pat, lead)] + [make(*x) for x in before]
    os_ = [relang.DFA(o, D, True) for o in others]
    first = (tuple((p.start(), l.start() if l else None) for p, l in fs), tuple(o.start() for o in os_))
    seen, todo = {first}, [first]
    takes = lambda f, s: f[0].accepts(s[0]) and (f[1] is None or f[1].accepts(s[1]))
    dead = (frozenset(), False)
    while todo:
        a, cs = todo.pop()
        if takes(fs[0], a[0]) and any(o.accepts(s) for o, s in zip(os_, cs)) and not any(takes(f, s) for f, s in zip(fs[1:], a[1:])):
            return True
        for ch in D:
            x = tuple((p.next(s, ch), l.next(m, ch) if l else None) for (p, l), (s, m) in zip(fs, a))
            x = tuple(y if y[0][0] else (dead, None if y[1] is None else dead) for y in x)
            n = (x, tuple(o.next(s, ch) for o, s in zip(os_, cs)))
            if x[0][0][0] and n not in seen:
                if len(seen) > 200000:
                    raise relang.Unknown('too large')
                seen.add(n)
                todo.append(n)
    return False


def all_captured(pat):
    """every digit of the pattern lies in a group"""
    m = c11.Marked(pat)
    mark = lambda c: chr(ord(c) + c11.Marked.SHIFT)
    step, acc = c11.walk(m, list(D) + [mark(c) for c in D], None)
    seen, todo = set(), [(m.close([m.start], begin=True), False)]
    while todo:
        s, f = todo.pop()
        if not s or (s, f) in seen:
            continue
        seen.add((s, f))
        if f and acc(s):
            return False
        for c in D:
            todo.append((step(s, c), True))
            todo.append((step(s, mark(c)), f))
    return True


def refs(s):
    return [int(k) for k in re.findall(r'\$(\d)', s)]


def references(res, key, s, n, what):
    """the references of a replacement are groups, and none is read as a longer name"""
    if re.search(r'\$\d[0-9A-Za-z_]', s):
        res.bad(key, '%s "%s": a reference runs into the text after it' % (what, s))
    elif any(k > n or k < 1 for k in refs(s)) or re.search(r'\$(?!\d)', s):
        res.bad(key, '%s "%s" refers to a group that is not there (%d groups)' % (what, s, n))
    else:
        res.ok()


def valid(res, key, what, s):
    if s and rx.valid(s):
        res.ok()
        return True
    res.bad(key, '%s is not a regular expression: "%s"' % (what, s))
    return False


def known(ctx, res):
    """texts of the identifiers, as written and as read"""
    names = K.variants(ctx, K.ID) or []
    said, read = {}, {}
    for i in X.localfns(ctx):
        a, r = X.sig(ctx, i)
        if len(a) != 1 or '{closure' in ctx.F.insts[i]['path']:
            continue
        fr, to = K.base_name(ctx, a[0]), X.tname(ctx, r)
        says = fr == K.ID and K.base_name(ctx, r) == 'str'
        if not says and not (fr == 'str' and to.startswith('core::result::Result<%s,' % K.ID)):
            continue
        t = K.table(ctx, i, ())
        if t.tainted:
            continue
        for st, v in t.outs:
            v = K.plain(t.a, st, v)
            if says:
                d = [y for q, y in st.facts.items() if isinstance(q, Term) and q.op == 'discr']
                if isinstance(v, Term) and v.op == 'str' and len(d) == 1 and d[0][0][0] == d[0][-1][1] < len(names):
                    said.setdefault(names[d[0][0][0]], set()).add(v.args[0])
            elif isinstance(v, Agg) and v.kind == 'adt' and v.var == 0:
                x = K.plain(t.a, st, v.f[0])
                e = [q.args[1].args[0] for q, y in st.facts.items() if isinstance(q, Term) and q.op == 'eqs' and y is True and isinstance(q.args[1], Term) and q.args[1].op == 'str']
                if isinstance(x, Agg) and x.kind == 'adt' and isinstance(x.var, int) and x.var < len(names) and len(e) == 1:
                    read.setdefault(names[x.var], set()).add(e[0])
    for what, m in (('written', said), ('read', read)):
        if set(m) != set(names):
            res.und('identifiers', 'how %d of them are %s is not understood' % (len(set(names) - set(m)), what))
    for n in names:
        if n in said and n in read:
            if said[n] & read[n]:
                res.ok()
            else:
                res.bad('identifier ' + n, 'it is written "%s" and read from "%s"' % (sorted(said[n])[0], sorted(read[n])[0]))
    return {x for n in names for x in said.get(n, {n})}


def territories(ctx, res, root):
    ids = known(ctx, res)
    ts = root.find('territories')
    if ts is None or len(ts) < 200:
        res.und('metadata', 'fewer than 200 territories')
        return
    codes, seen = defaultdict(list), {}
    n = {'kinds': 0, 'formats': 0}
    for t in ts:
        i, cc = t.get('id'), t.get('countryCode')
        codes[cc].append(t)
        key = 'region %s' % i + (' %s' % cc if i == '001' else '')
        if not ids:
            res.und('regions', 'the known regions are not found')
        elif i in ids or i == '001':
            res.ok()
        else:
            res.bad(key, 'not a known region')
        if i != '001' and i in seen:
            res.bad(key, 'described twice')
        seen[i] = t
        if not (cc and re.fullmatch(r'[1-9][0-9]{0,2}', cc)):
            res.bad(key + ' code', 'the calling code is "%s"' % cc)
        else:
            res.ok()
        try:
            territory(res, key, t, n)
        except relang.Unknown as x:
            res.und(key, str(x))
        except AttributeError:
            res.bad(key + ' structure', 'a part of the description is missing')
    for i in sorted(ids - set(seen)):
        res.bad('region %s' % i, 'a known region has no metadata')
    for cc, l in codes.items():
        main = [t.get('id') for t in l if t.get('mainCountryForCode') == 'true']
        if len(l) > 1 and len(main) != 1:
            res.bad('main of %s' % cc, 'of %d regions, %s' % (len(l), 'none is the main one' if not main else 'several are main: ' + ' '.join(main)))
        else:
            res.ok()
    for cc, l in codes.items():
        # formats of a code are those of its main region
        try:
            reach(res, cc, l)
        except relang.Unknown as x:
            res.und('formats of %s' % cc, str(x))
        except AttributeError:
            pass
    res.coverage['territories'] = len(ts)
    res.coverage['calling codes'] = len(codes)
    res.coverage['descriptions of kinds of numbers'] = n['kinds']
    res.coverage['formats'] = n['formats']
    if n['formats'] < 400 or n['kinds'] < 800:
        res.und('metadata', '%(formats)d formats and %(kinds)d descriptions only' % n)


def territory(res, key, t, n):
    for a in ('internationalPrefix', 'nationalPrefixForParsing', 'leadingDigits'):
        if t.get(a) is not None:
            valid(res, key + ' ' + a, a, sq(t.get(a)))
    idd, pref = sq(t.get('internationalPrefix')), t.get('preferredInternationalPrefix')
    if pref is not None:
        good = idd and rx.valid(idd) and re.fullmatch(rx.norm(idd), pref.replace('~', ''))
        (res.ok if good else lambda: res.bad(key + ' preferredInternationalPrefix', 'the preferred prefix "%s" is no international prefix (%s)' % (pref, idd)))()
    np, npp, rule = t.get('nationalPrefix'), sq(t.get('nationalPrefixForParsing')), t.get('nationalPrefixTransformRule')
    if np is not None:
        (res.ok if re.fullmatch(r'[0-9]+', np) else lambda: res.bad(key + ' nationalPrefix', 'the national prefix is "%s"' % np))()
        if npp is not None and rx.valid(npp):
            m = re.match(rx.norm(npp), np)
            (res.ok if m else lambda: res.bad(key + ' nationalPrefixForParsing', 'the national prefix "%s" is not one the parser takes (%s)' % (np, npp)))()
    if rule is not None:
        if npp is None:
            res.bad(key + ' rule', 'a rule without a prefix')
        elif rx.valid(npp):
            references(res, key + ' rule', rule, rx.groups(npp) - 1, 'nationalPrefixTransformRule')
    g = t.find('generalDesc/nationalNumberPattern')
    g = sq(g.text)
    if not valid(res, key + ' general', 'the general pattern', g):
        return
    digits_only(res, key + ' general', g)
    for k in KINDS:
        e = t.find(k)
        if e is None:
            continue
        n['kinds'] += 1
        kk = '%s %s' % (key, k)
        p = sq(e.find('nationalNumberPattern').text)
        if not valid(res, kk, 'the pattern', p):
            continue
        digits_only(res, kk, p)
        pl = e.find('possibleLengths')
        nat = lengths(pl.get('national')) if pl is not None else None
        if not nat or max(nat) > MOST or min(nat) < 2:
            res.bad(kk + ' lengths', 'the listed lengths are %s' % (pl.get('national') if pl is not None else 'missing'))
            continue
        loc = pl.get('localOnly')
        if loc is not None:
            loc = lengths(loc)
            (res.ok if loc and not loc & nat else lambda: res.bad(kk + ' lengths', 'the lengths for local numbers are %s' % pl.get('localOnly')))()
        ml = matched_lengths(p)
        if not ml:
            res.bad(kk, 'the pattern matches no number')
        elif ml - nat:
            res.bad(kk + ' lengths', 'numbers of %s digits match, a length not listed' % sorted(ml - nat)[0])
        else:
            res.ok()
        w = relang.contains(p, [g, r'%s\d*' % t.get('countryCode')], D, True)      # a number that begins like its calling code may be refused on purpose
        (res.ok if w is None else lambda: res.bad(kk + ' general', 'the number %s is no number of the region by its general description' % w))()
        x = e.find('exampleNumber')
        if x is not None:
            (res.ok if re.fullmatch(rx.norm(p), x.text) and len(x.text) in nat else lambda: res.bad(kk + ' example', 'the example %s does not match' % x.text))()
    for f in t.iter('numberFormat'):
        n['formats'] += 1
        p = sq(f.get('pattern'))
        kk = '%s format %s' % (key, p)
        if not valid(res, kk, 'the pattern', p):
            continue
        (res.ok if all_captured(p) else lambda: res.bad(kk, 'digits outside the groups are lost'))()
        groups = rx.groups(p) - 1
        texts = [(x.tag, (x.text or '').strip()) for x in f if x.tag in ('format', 'intlFormat')]
        intl = [s for k, s in texts if k == 'intlFormat']
        if sum(k == 'format' for k, s in texts) != 1:
            res.bad(kk, 'not one format')
        for k, s in texts:
            if k == 'intlFormat' and s == 'NA':
                res.ok()
                continue
            references(res, kk, s, groups, k)
            if set(refs(s)) != set(range(1, groups + 1)) and (k == 'intlFormat' or not intl):
                res.bad(kk + ' ' + k, '"%s" leaves digits out' % s)
            elif [x for x in set(refs(s)) if refs(s).count(x) > 1]:
                res.bad(kk + ' ' + k, '"%s" repeats digits' % s)
            elif refs(s) != sorted(refs(s)):
                res.bad(kk + ' ' + k, '"%s" changes the order of the digits' % s)
            elif k == 'intlFormat' and re.search(r'\d', re.sub(r'\$\d', '', s)):
                res.bad(kk + ' ' + k, '"%s" adds digits' % s)
            else:
                res.ok()
        for a in ('nationalPrefixFormattingRule', 'carrierCodeFormattingRule'):
            s = f.get(a)
            if s is None:
                continue
            good = s.count('$FG') == 1 and ('$CC' in s) == (a[0] == 'c') and not re.search(r'\$(?!FG|NP|CC)', s) and not re.search(r'\$(?:FG|NP|CC)[A-Za-z0-9_](?<!\$)', s) and ('$NP' not in s or np is not None)
            (res.ok if good else lambda: res.bad(kk + ' ' + a, 'the rule is "%s"' % s))()
        for l in f.findall('leadingDigits'):
            valid(res, kk + ' leadingDigits', 'leadingDigits', sq(l.text))


def digits_only(res, key, p):
    """the pattern matches nothing but digits"""
    try:
        d = relang.DFA(p, D + 'a -*', True)
    except relang.Unknown as x:
        res.und(key, str(x))
        return
    seen, todo = set(), [(d.start(), False)]
    while todo:
        s, f = todo.pop()
        if not s[0] or (s, f) in seen:
            continue
        seen.add((s, f))
        if d.accepts(s) and f:
            res.bad(key, 'the pattern matches more than digits')
            return
        for c in D + 'a -*':
            todo.append((d.next(s, c), f or c not in D))
    res.ok()


def reach(res, cc, l):
    """every format is used by some number"""
    pats = []
    for t in l:
        pats.append(sq(t.find('generalDesc/nationalNumberPattern').text))
        pats += [sq(t.find(k + '/nationalNumberPattern').text) for k in KINDS if t.find(k) is not None]
    pats = [p for p in pats if rx.valid(p)]
    for t in l:
        earlier = []
        for f in t.iter('numberFormat'):
            p = sq(f.get('pattern'))
            ld = [sq(x.text) for x in f.findall('leadingDigits')]
            if not rx.valid(p) or not all(rx.valid(x) for x in ld):
                continue
            before = list(earlier)
            earlier.append((p, ld[-1] if ld else None))
            for x, y in zip(ld, ld[1:]):
                w = relang.contains('^(?:%s)' % y, ['^(?:%s)' % x], D)
                (res.ok if w is None else lambda: res.bad('format %s of %s leadingDigits' % (p, t.get('id')), 'numbers that begin with %s are let in by a later pattern only' % w))()
            if any((x.text or '').strip() == 'NA' for x in f.findall('intlFormat')):
                continue        # for short numbers within the region
            local = [lengths(x.get('localOnly')) or set() for s in l for x in s.iter('possibleLengths') if x.get('localOnly')]
            listed = [lengths(x.get('national')) or set() for s in l for x in s.iter('possibleLengths')]
            ml = matched_lengths(p)
            if ml & set().union(*local) or ml and listed and max(ml) < min(set().union(*listed)):
                res.ok()        # for local or short numbers
                continue
            good = any(meets(p, ld[-1] if ld else None, [o], before) for o in pats)
            (res.ok if good else lambda: res.bad('format %s of %s' % (p, t.get('id')), 'no number of the region is formatted with it'))()


def metadata(ctx, res):
    repo = os.environ.get('VERIF_REPO', '/repo')
    try:
        b = open(os.path.join(repo, 'build.rs')).read()
    except OSError:
        res.und('metadata', 'no build script')
        return
    files = {f for f in re.findall(r'assets/[\w./-]+\.xml', b)}
    if len(files) != 1:
        res.und('metadata', 'the bundled metadata file is not found')
        return
    try:
        root = ET.parse(os.path.join(repo, files.pop())).getroot()
    except (OSError, ET.ParseError) as x:
        res.und('metadata', 'not read: %s' % x)
        return
    territories(ctx, res, root)


def builtin(ctx, res):
    n = 0
    for i in X.localfns(ctx):
        a, r = X.sig(ctx, i)
        if X.tname(ctx, r) != 'regex::regex::string::Regex' or len(a) > 1:
            continue
        path = ctx.F.insts[i]['path']
        name = path.replace('::{closure#0}', '').split('::')[-1]
        r = K.table(ctx, i, [], deadline=60)
        if not r.tainted and not r.outs and not r.why():
            res.bad('pattern ' + name, 'the built-in pattern cannot be made: every use panics')
            continue
        if r.tainted or not r.outs:
            res.und(name, r.why() or 'no exit')
            continue
        for st, v in r.outs:
            v = K.plain(r.a, st, v)
            p = c11.pattern(v) if isinstance(v, Term) and v.op == 'regex' else None
            if p is None:
                res.und(name, 'not a constant: %s' % show(v)[:80])
                continue
            n += 1
            valid(res, 'pattern ' + name, 'the built-in pattern', p[0])
    res.coverage['built-in patterns'] = n
    if n < 8:
        res.und('built-in patterns', 'only %d found' % n)


def check(ctx, res):
    builtin(ctx, res)
    metadata(ctx, res)
