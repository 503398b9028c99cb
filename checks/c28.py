"""C28: only the number in a text is read"""
from engine import relang, rxclass
from checks import c11
from checks import codek as C
from checks import parsek as P
from checks import kernels as K
from checks import xmltab as X
from checks.c11 import span, plus, text
from checks.lib import *

LEVEL = 'proof'
RULE = ('obligation = exit of the reader of natural texts (by type, asking for the start of a number), pattern it asks; discharged when the text read begins at the first plus sign or digit and ends where the second number, '
        'or what is neither letter, numeral nor "#" at the end, begins, and a text is refused only when nothing is left; the patterns match exactly that on an alphabet of representative characters')
EXPLAIN = 'Decision tables of the readers by abstract interpretation: the text read is a term over the spans of the patterns asked; the patterns are compared as automata with reference automata.'
ASSUME = ['library models of nom, regex and text are correct', 'regular expressions prefer the leftmost match', 'every character behaves like one of the representative ones in the patterns']

ALPHA = ''.join(map(chr, range(0x20, 0x7f))) + '\t\n\u00a0\uff0b\u0661\u0967\uff11\uff21\u00e9\u4e2d\u2167\u00bd\u0301\u20ac\uff03\u2013\u3000'


def source(rx):
    p = c11.pattern(rx)
    return None if p is None or p[1] else p[0]


def kind(memo, rx):
    """which of the three patterns it is, or (kind, text judged wrongly), or None"""
    if rx not in memo:
        memo[rx] = classify(rx)
    return memo[rx]


def is_start(c):
    import unicodedata
    return c in '+\uff0b' or unicodedata.category(c) == 'Nd'


def is_kept(c):
    import unicodedata
    return c == '#' or unicodedata.category(c)[0] in 'LN'


def classify(rx):
    src = source(rx)
    if src is None:
        return None
    try:
        p = rxclass.expand(src, ALPHA)
        refs = {
            'start': (0, lambda s, c: 1 if s or is_start(c) else 0, lambda s: s == 1),
            'end': (0, lambda s, c: 0 if is_kept(c) else 1, lambda s: s == 1),
            'second': (0, lambda s, c: 2 if s == 2 or s == 1 and c == 'x' else 1 if c in '\\/' or s == 1 and c == ' ' else 0, lambda s: s == 2),
        }
        best = None
        for k, (a, st, acc) in refs.items():
            w = relang.differ(p, ALPHA, a, st, acc)
            if w is None:
                return (k, None)
            # the kind it resembles most: judged on sample texts
            d = relang.DFA(p, ALPHA)
            n = 0
            for t in ('+1', '1', 'a', 'a1', '(1', '1.', '1 ', '1#', '1x', '1/x', '1\\ x', '1/ 2', '-', '1-', '()'):
                s, r = d.start(), a
                for c in t:
                    s, r = d.next(s, c), st(r, c)
                n += bool(d.accepts(s)) == bool(acc(r))
            if best is None or n > best[0]:
                best = (n, k, w)
        return (best[1], best[2]) if best[0] >= 13 else (None, best[2])
    except (rxclass.Bad, relang.Unknown):
        return None


def check(ctx, res):
    e = P.full(ctx, res)
    if e is None:
        return
    memo, n = {}, {'read': 0, 'refused': 0}
    for i in e.readers:
        r = P.table(e, i, set(e.readers) - {i})
        if r.tainted or not r.outs:
            res.und('readers', r.why() or 'no exit')
            continue
        outs = [(st, K.plain(r.a, st, v)) for st, v in r.outs]
        asked = {q.args[0] for st, v in outs for q in st.facts if isinstance(q, Term) and q.op == 'matched' and isinstance(q.args[0], Term) and q.args[0].op == 'regex'}
        kinds = {rx: kind(memo, rx) for rx in asked}
        if not any(k and k[0] == 'start' for k in kinds.values()):
            continue
        for rx, k in kinds.items():
            if k and k[0] and k[1] is not None:
                res.bad('pattern ' + k[0], 'the pattern for the %s of a number judges "%s" wrongly' % ({'start': 'start', 'end': 'end', 'second': 'second start'}[k[0]], k[1]))
            elif k and k[0]:
                res.ok()
        for st, v in outs:
            reading(ctx, res, e, r, st, v, kinds, n)
    for k, c in n.items():
        if not c:
            res.und('coverage', 'no exit where a text is %s' % k)
    found = {k[0] for k in memo.values() if k}
    for k in ('start', 'end', 'second'):
        if k not in found:
            res.und('coverage', 'the pattern for the %s is not found' % k)
    res.coverage['exits that read a text'] = n['read']
    res.coverage['exits that refuse a text'] = n['refused']


def reading(ctx, res, e, r, st, v, kinds, n):
    w = C.W()
    w.e = e
    arg = K.unstar(r.args[0])[0]
    facts = [(q, y) for q, y in st.facts.items() if isinstance(q, Term) and q.op == 'matched' and q.args[0] in kinds]
    by = lambda k: [(q.args[0], q.args[1], y) for q, y in facts if kinds[q.args[0]] and kinds[q.args[0]][0] == k]
    if not (isinstance(v, Agg) and v.kind == 'adt' and v.var in (0, 1) and v.f):
        res.und('exit', 'not understood')
        return
    starts = by('start')
    if v.var == 1:
        n['refused'] += 1
        bad = res.bad if C.known(w, st) else res.und
        if any(y is False and t is arg for rx, t, y in starts):
            res.ok()
            return
        # everything is cut away, or an extension without digits
        empty = [1 for rx, t, y in by('end') + by('second') if y is True and at_start(st, rx, t)]
        empty += [1 for q, y in st.facts.items() if isinstance(q, Term) and q.op == 'capset' and C.single_int(q.args[2]) and y is False]
        empty += [1 for q, y in st.facts.items() if isinstance(q, Term) and q.op == 'len' and y == ((0, 0),)]
        # a start at the very end cannot be: what starts a number is a sign
        if not any(y is True for rx, t, y in by('end') + by('second')):
            empty += [1 for rx, t, y in starts if y is True and t is arg and r.a.prove(st, core.sub(T('ms', rx, arg, core.I(0), ty=r.a.models.usize), core.textlen(arg)))]
        (res.ok if empty else lambda: bad('refused', 'a text with a number in it is refused'))()
        return
    p = K.plain(r.a, st, v.f[0])
    x = K.plain(r.a, st, p.f[1]) if isinstance(p, Agg) and p.kind == 'tuple' and len(p.f) == 2 else None
    if not (isinstance(x, Agg) and x.kind == 'adt' and len(x.f) == len(e.names)):
        res.und('exit', 'number not understood')
        return
    n['read'] += 1
    nat = K.plain(r.a, st, x.f[e.n_national])
    bad = res.bad if C.known(w, st, nat) else res.und
    root, lo, hi = span(nat)
    if root is not arg:
        (bad if precise(nat) else res.und)('text', 'the number is not a piece of the text')
        return
    good = [rx for rx, t, y in starts if t is arg and y is True and C.lin(lo) == C.lin(T('ms', rx, arg, core.I(0)))]
    if not good:
        bad('start', 'the number does not begin at the first plus sign or digit')
        return
    # the last piece of text looked at, before the extension is taken off
    ext = [(q.args[0], q.args[1]) for q, y in facts if y is True and not (kinds[q.args[0]] and kinds[q.args[0]][0])]
    end = C.lin(hi)
    for rx, t in ext:
        if end == plus(span(t)[1], T('ms', rx, t, core.I(0))):
            end = C.lin(span(t)[2])
    whole = C.lin(T('len', arg))
    cuts = {}
    for k in ('end', 'second'):
        l = by(k)
        if not l:
            bad('cut', {'end': 'signs at the end are not looked for', 'second': 'a second number is not looked for'}[k])
            return
        for rx, t, y in l:
            tr, tl, th = span(t)
            if tr is not arg or not c11.equal(tl, lo):
                bad('cut', 'the text looked at does not begin with the number')
                return
            cuts[k] = (C.lin(th), plus(tl, T('ms', rx, t, core.I(0))) if y else C.lin(th), y)
    # from the whole text, by the cuts, to the end
    cur, left = whole, dict(cuts)
    for _ in range(2):
        for k, (a, b, y) in list(left.items()):
            if a == cur:
                cur = b
                del left[k]
                break
    if left:
        bad('cut', 'the text looked at for the end is not the one left')
    elif cur != end:
        bad('end', 'the number does not end where it should')
    else:
        res.ok()


def at_start(st, rx, t):
    return any(isinstance(q, Term) and q.op == 'ms' and q.args[0] is rx and q.args[1] is t and C.single_int(q.args[2]) == 0 and y == ((0, 0),) for q, y in st.facts.items())
