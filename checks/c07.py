"""C07: the origin of the country code is reported faithfully"""
from checks import codek as C
from checks import parsek as P
from checks import kernels as K
from checks.lib import *

LEVEL = 'proof'
RULE = ('obligation = success exit of the function that finds the calling code; discharged when the reported origin follows from its conditions: plus when the text began with one (or the number carries its '
        'context), international prefix when the region\'s pattern matched at the start and was removed, bare when the region\'s own code was read from the digits, default otherwise; and the digits kept are exactly the rest. '
        'Obligation = success exit of the parsing entry point; discharged when it reports the origin found')
EXPLAIN = ('Decision tables of the calling code function and of the parsing entry point (found by type) by abstract interpretation, everything between them followed; '
           'normalisation is a term over each text, as C10 shows it is.')
ASSUME = ['library models of regex, nom, text and Option are correct', 'normalisation maps each text of the record by itself (C10)']


def check(ctx, res):
    e = P.full(ctx, res)
    w = e and C.code_world(ctx, res, e)
    if not w:
        return
    n = {}
    for st, x in C.successes(w):
        d = x is not None and C.decode(w, st, x)
        if not d:
            res.und('exit', 'not understood: %s' % (show(x)[:120] if x is not None else ''))
            continue
        bad = res.bad if C.known(w, st, *d.f) else res.und
        k, c = C.prefix_kind(w, st, d)
        why = origin(w, st, d, k)
        n[d.source] = n.get(d.source, 0) + 1
        if why is None:
            res.ok()
        elif why.startswith('?'):
            res.und(d.source, why[1:])
        else:
            bad(d.source, why)
    for s in w.sources:
        if not n.get(s):
            res.und('coverage', 'no exit reports %s' % s)
    res.coverage['exits of the calling code function'] = n
    entry(ctx, res, e)


def origin(w, st, d, k):
    """None, or what is wrong ('?...': not known)"""
    e = w.e
    if d.context is None:
        return '?the carried calling code is not looked at'
    if d.context == 1:
        if d.source != 'Plus':
            return 'a number that carries its calling code reports %s' % d.source
        if k != 'context':
            return 'the calling code the number carries is replaced'
        if d.stripped or d.skip or d.over:
            return 'digits are cut off a number that carries its calling code'
        return None
    if k == 'context':
        return '?calling code'
    if d.idd and len(d.idd) > 1:
        return '?two international prefixes'
    if d.idd:
        rx = d.idd[0].args[0]
        own = C.is_idd(w, st, rx)
        if own is not True:
            return '?which international prefix' if own is None else 'digits are removed as international prefix that is not the one of the region: %s' % show(rx)[:80]
        if C.matched_at_start(w, st, rx, d.text) is not True:
            return 'an international prefix is removed although it need not match at the start'
    if d.plus is None:
        return '?whether the text begins with a plus is not asked'
    if d.plus == 'maybe':
        return 'a number %s reports %s' % (('with another character in front', 'a plus') if d.source == 'Plus' else ('that may begin with a plus', d.source))
    if d.plus:
        if d.source != 'Plus':
            return 'a number that begins with a plus reports %s' % d.source
        if not d.stripped:
            return 'the plus stays' if d.skip or d.over or k != 'digits' else '?the plus stays'
        if k != 'digits':
            return 'after a plus the calling code is %s' % ('that of the region' if k == 'region' else 'not taken from the digits' if k != 'other digits' else 'not what is cut off the digits')
        if d.idd and C.zero_at(w, st, d.text, (0, {})) is not True:
            return 'what follows a plus is taken for an international prefix although it may be a calling code'
        return None
    if d.stripped:
        return '?something else than a plus is stripped'
    if d.source == 'Plus':
        return 'reports a plus although there is none'
    if d.idd:
        if d.source != 'Idd':
            return 'a number whose international prefix is removed reports %s' % d.source
        if k != 'digits':
            return 'after an international prefix the calling code is %s' % ('that of the region' if k == 'region' else 'not what is cut off the digits')
        z = C.zero_at(w, st, d.text, (0, {d.idd[0]: 1}))
        if z is not False:
            return 'digits are removed as international prefix although a 0 follows'
        return None
    if d.source == 'Idd':
        return 'reports an international prefix although none is removed'
    # no plus, no international prefix: was there one that should have been removed
    for q, v in st.facts.items():
        if isinstance(q, Term) and q.op == 'matched' and v is True and q.args[1] is d.text and C.is_idd(w, st, q.args[0]):
            if C.matched_at_start(w, st, q.args[0], d.text) is True and C.zero_at(w, st, d.text, (0, {T('me', q.args[0], d.text, core.I(0)): 1})) is False:
                return 'an international prefix at the start is not removed'
    if k != 'region':
        return 'the calling code is %s although there is neither a plus nor an international prefix' % ('taken from the digits' if 'digits' in k else 'not that of the region')
    code = d.prefix
    starts = C.fact(st, 'pre', lambda q: q.args[0] is d.text and q.args[1] is code)
    gm, pos = C.viable(w, st, d.text)
    if d.own or d.skip:
        if d.source != 'Number':
            return 'a number whose calling code is read from the digits reports %s' % d.source
        if d.skip or d.own[0].args[0] is not code:
            return 'what is cut off the digits is not the calling code'
        if starts is not True:
            return 'the calling code is cut off although the digits need not begin with it'
        if gm is not False and pos is not False:
            return 'the calling code is cut off a number that is viable without'
        return None
    if d.source != 'Default':
        return 'a number whose calling code is that of the region reports %s' % d.source
    if starts is False:
        return None
    if gm is True and pos is True:
        return None
    return 'digits beginning with the calling code of the region are taken for a national number although they do not fit' if starts is True else '?whether the digits begin with the calling code is not asked'


def entry(ctx, res, e):
    from checks import c06
    w = c06.entry_world(ctx, res, e)
    if not w:
        return
    n = 0
    for st, x in C.successes(w):
        d = x is not None and c06.number(w, st, x)
        if not d:
            res.und('exit of parsing', 'not understood')
            continue
        if d.source is not None and c06.from_code(w, d.source, e.n_country):
            n += 1
            res.ok()
        else:
            bad = res.bad if C.known(w, st, d.source) else res.und
            bad('parsing', 'parsing reports %s instead of the origin found' % show(d.source)[:100])
    if n < 4:
        res.und('coverage', 'only %d exits of parsing' % n)
    res.coverage['exits of parsing'] = n
