"""C08: national rules come from the number's own country code"""
from checks import c06
from checks import codek as C
from checks import parsek as P
from checks import kernels as K
from checks.lib import *

LEVEL = 'proof'
RULE = ('obligation = success exit of the parsing entry point; discharged when the national prefix has been stripped with the rules of the default region and the calling code came from that region, or with the rules found '
        'from the number\'s own calling code and digits, once, on the number as found; or is left alone because there are no such rules or the rest would be too short')
EXPLAIN = 'Decision table of the parsing entry point by abstract interpretation; the metadata handed to the stripping function is traced to the query it came from.'
ASSUME = ['library models of text, Option and integer parsing are correct', 'stripping leaves calling code and origin alone (C09)']


def own_code(w, t):
    """is the term the number's own calling code"""
    return isinstance(t, Term) and t.op == 'parseint' and c06.from_code(w, t.args[0], w.e.n_prefix)


def selection(w, t):
    """the arguments of the selecting function when the term is what it gave"""
    return C.call(t, w.e.select)


def selects(w, st, a):
    """does the selection look at the number's own code and digits, None when it does not, with the reason"""
    code = text = None
    for y in a:
        y = K.plain(w.a, st, y)
        if K.unstar(y)[0] is w.db:
            continue
        if own_code(w, y) or isinstance(y, Term) and y.op == 'int':
            code = y
        elif isinstance(y, Term):
            text = y
    if code is None or text is None:
        return '?'
    if code.op == 'int' and not any(isinstance(q, Term) and q.op == 'discr' and c06.from_code(w, q.args[0], w.e.n_prefix) and C.single(v) == 0 for q, v in st.facts.items()):
        return 'the region is looked up by the calling code %s' % code.args[0]
    base = text
    while isinstance(base, Term) and base.op in ('slice', 'trim', 'trims', 'srep'):
        base = base.args[0]
    if c06.from_code(w, base, w.e.n_national) or base.op == 'str' and base.args[0] == '':
        return None
    return '?' if not precise(base) else 'the region is looked up with %s' % show(text)[:80]


def rules(w, st, m):
    """('default'|'own'|'?'|'other', why) the metadata is from"""
    root, p = K.unstar(m)
    a = C.call(root, w.e.by_id)
    if a is not None and p == ((1, 0),):
        if K.unstar(a[0])[0] is not w.db:
            return 'other', 'another database'
        if C.region_text(w, a[1]):
            return 'default', None
        t = a[1]
        b = C.call(t, w.e.idtext)
        i = b[0] if b is not None else t.args[0] if isinstance(t, Term) and t.op == 'enumtext' else None
        if i is not None:
            r2, p2 = K.unstar(i)
            s = selection(w, r2)
            if s is not None and p2 == ((1, 0), (0, 0)):
                why = selects(w, st, s)
                return ('own', None) if why is None else ('?', '') if why == '?' else ('other', why)
        return ('?', '') if not precise(m) else ('other', 'the rules are those of %s' % show(t)[:80])
    if isinstance(root, Term) and root.op == 'elt' and not p:
        r2, p2 = K.unstar(root.args[0])
        a = C.call(r2, w.e.by_code)
        if a is not None and p2 == ((1, 0),):
            if K.unstar(a[0])[0] is not w.db:
                return 'other', 'another database'
            c = K.plain(w.a, st, a[1])
            if own_code(w, c):
                return 'own', None
            r3, p3 = K.unstar(c)
            s = selection(w, r3)
            if s is not None and p3 == ((1, 0), (1, 0)):
                why = selects(w, st, s)
                return ('own', None) if why is None else ('?', '') if why == '?' else ('other', why)
            return ('?', '') if not precise(c) else ('other', 'the rules are those of the calling code %s' % show(c)[:80])
    return ('?', '') if not precise(m) else ('other', 'the rules are %s' % show(m)[:80])


def is_default(w, st):
    """did the calling code come from the default region: True, False, None"""
    dv = w.sources.index('Default')
    for q, v in st.facts.items():
        if isinstance(q, Term) and q.op == 'discr' and c06.found(w, q.args[0]) == ((0, w.e.n_country),):
            if C.single(v) == dv:
                return True
            if C.apart(v, ((dv, dv),)):
                return False
    return None


def check(ctx, res):
    e = P.full(ctx, res)
    w = e and c06.entry_world(ctx, res, e)
    if not w:
        return
    n = {}
    for st, x in C.successes(w):
        d = x is not None and c06.number(w, st, x)
        if not d:
            res.und('exit', 'not understood')
            continue
        root, p = K.unstar(d.nat)
        a = C.call(root, e.fromtext)
        t = K.plain(w.a, st, a[0]) if a is not None else None
        s = c06.stripped(w, t) if t is not None else None
        bad = res.bad if C.known(w, st, t) else res.und
        region, dflt = C.has_region(w, st), is_default(w, st)
        own = region == 1 and dflt is True
        if s is not None and s[2][:1] == ((0, e.n_national),):
            m, num, _ = s
            if c06.stripped(w, num) is not None or any(isinstance(y, Term) and C.call(y, e.strip) is not None for y in terms(num)):
                bad('once', 'the national prefix is stripped a second time')
                continue
            if not c06.same_number(w, st, num):
                (bad if precise(num) else res.und)('number', 'the national prefix is stripped from %s' % show(num)[:100])
                continue
            k, why = rules(w, st, m)
            n[k] = n.get(k, 0) + 1
            if k == '?':
                res.und('rules', show(m)[:120])
            elif k == 'other':
                bad('rules', why)
            elif k == 'default' and not own:
                bad('default', 'the national rules of the default region are applied to a number that carries its own calling code' if dflt is False or dflt is None else
                    'the national rules of a region are applied although none is given')
            elif k == 'own' and own:
                bad('own', 'the calling code came from the default region, but the national rules applied are not its own')
            else:
                res.ok()
            # what is reported must be the carrier of that very step
            if isinstance(d.car, Agg) and d.car.var == 1:
                y = K.plain(w.a, st, d.car.f[0])
                y = K.plain(w.a, st, y.f[0]) if isinstance(y, Agg) and y.f else y
                cs = c06.stripped(w, y)
                if cs is None or cs[0] is not m or cs[2][:1] != ((0, e.n_carrier),):
                    (bad if precise(y) else res.und)('carrier', 'the carrier reported is %s' % show(y)[:100])
                else:
                    res.ok()
            continue
        if t is None or c06.found(w, t) != ((0, e.n_national),):
            res.und('national text', show(d.nat)[:100])
            continue
        n['none'] = n.get('none', 0) + 1
        why = untouched(w, st, own)
        if why is None:
            res.ok()
        else:
            (res.und if why == '?' else bad)('left alone', why if why != '?' else 'why the national prefix is not looked for')
    if not (n.get('default') and n.get('own') and n.get('none')):
        res.und('coverage', 'exits: %s' % n)
    res.coverage['exits by rules applied'] = n


def untouched(w, st, own):
    """None when leaving the national prefix alone is right"""
    e = w.e
    short = w.valid.index('TooShort') if 'TooShort' in w.valid else None
    for q, v in st.facts.items():
        if not (isinstance(q, Term) and isinstance(v, tuple)):
            continue
        if q.op == 'discr' and C.single(v) is not None:
            x = C.single(v)
            a = C.call(q.args[0], e.length)
            if a is not None and x == short:
                k = [y for y in a if c06.stripped(w, K.plain(w.a, st, y)) is not None]
                if k:
                    m = c06.stripped(w, K.plain(w.a, st, k[0]))[0]
                    kind, _ = rules(w, st, m)
                    if kind in ('default', 'own') and (kind == 'default') == bool(own):
                        return None
                    if kind == '?':
                        return '?'
            root, p = K.unstar(q.args[0])
            if x == 0 and not p and (C.call(root, e.select) is not None or C.call(root, e.by_code) is not None):
                return None
            a = C.call(root, e.by_id)
            if x == 0 and not p and a is not None:
                if not C.region_text(w, a[1]) or own:
                    return None
        if q.op == 'llen' and v == ((0, 0),):
            root, p = K.unstar(q.args[0])
            if C.call(root, e.by_code) is not None:
                return None
    return 'the national prefix is not looked for although there are rules for it'
