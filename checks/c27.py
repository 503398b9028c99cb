"""C27: parsing refuses a text only for the reason it gives"""
from checks import c06
from checks import codek as C
from checks import parsek as P
from checks import kernels as K
from checks import xmltab as X
from checks.lib import *

LEVEL = 'proof'
RULE = ('obligation = error exit of the parsing entry point or of the function that finds the calling code; discharged when the conditions of the exit imply the documented meaning of the error it gives')
EXPLAIN = 'Decision tables of the parsing entry point and of the calling code function (found by type) by abstract interpretation; every error exit is compared with the meaning of its error.'
ASSUME = ['library models of text, Option, regex and integer parsing are correct', 'what the readers and the test for viability refuse is no number']

ERR = 'crate::error::Parse'
TOP = 1 << 61


def errors(w):
    """(state, name of the error or None when it is handed on, error) of every error exit"""
    names = None
    for t in w.ctx.F.types:
        if t.get('path') == ERR:
            names = [v['name'] for v in t['variants']]
    for st, v in w.r.outs:
        v = w.a.deepval(st, v)
        if not (isinstance(v, Agg) and v.kind == 'adt'):
            yield st, '?', v
        elif v.var == 1:
            x = K.plain(w.a, st, v.f[0])
            if isinstance(x, Agg) and x.kind == 'adt' and names and isinstance(x.var, int) and x.var < len(names):
                yield st, names[x.var], x
            else:
                yield st, None, x


def most(w, st, t, pos, n):
    """has the text at most n characters from the position on"""
    c, m = pos
    if core.textlen(t) is core.I(0):
        return True
    v = C.fact(st, 'len', lambda q: q.args[0] is t)
    if not m and v is not None and v[-1][1] <= c + n:
        return True
    d = dict(m)
    d[T('len', t)] = d.get(T('len', t), 0) - 1
    L = T('lin', c + n, tuple((k, x) for k, x in d.items() if x))
    for x in st.lins:
        c2, m2 = C.lin(x)
        if m2 == {k: y for k, y in d.items() if y} and c2 <= c + n:
            return True
    try:
        return bool(w.a.prove(st, w_lin(w, c + n, d)))
    except Exception:
        return False


def w_lin(w, c, d):
    from engine.core import add, I
    out = I(c)
    for k, x in d.items():
        if x:
            out = add(out, k, x)
    return out


def code(w, st, name):
    """why the error is not the right one, None when it is, '?' when not understood"""
    e = w.e
    # a normalised text has only characters of one byte
    if any(isinstance(q, tuple) and q[0] == 'nbd' and C.normed(w, q[1]) for q, v in st.facts.items()):
        return None
    context = C.single(C.fact(st, 'discr', lambda q: C.field_of(q.args[0], w.num) == ((0, e.n_prefix),)))
    plus = C.plus(w, st)
    texts = {t for q in st.facts if isinstance(q, core.Node) for t in terms(q) if C.normed(w, t)}
    texts |= {t for x in st.lins for t in terms(x) if C.normed(w, t)}
    rest = [t for t in texts if C.normed(w, t)[0] == 'rest']
    texts = rest or sorted(texts, key=repr)
    t = texts[0] if texts else None
    if len(texts) > 1 or plus == 'maybe':
        return '?'
    pos, idd = (0, {}), False
    for rx in {q.args[0] for q in st.facts if isinstance(q, Term) and q.op == 'matched'}:
        if C.is_idd(w, st, rx) and t is not None and C.matched_at_start(w, st, rx, t):
            me = (0, {T('me', rx, t, core.I(0)): 1})
            if C.zero_at(w, st, t, me) is False and (plus is not True or C.zero_at(w, st, t, (0, {})) is True):
                pos, idd = me, True
    own = context == 1 or plus is True or idd
    if name == 'TooShortNsn' or name == 'TooShortAfterIdd':
        if not own:
            return 'a number without plus or international prefix is too short for one with it'
        if t is not None and most(w, st, t, pos, 2):
            return None
        # nothing but plus signs
        for q in {q for x in st.lins for q in C.lin(x)[1] if isinstance(q, Term) and q.op in ('tsm', 'nomp') and C.raw(w, q.args[1])}:
            if t is None and w.a.prove(st, core.sub(q, core.textlen(q.args[1]))):
                return None
        return 'a number of more than two digits after the plus is called too short'
    if name == 'InvalidCountryCode':
        def unknown(f):
            for q, v in st.facts.items():
                if isinstance(q, Term) and q.op == 'discr' and C.call(q.args[0], e.by_code) and C.single(v) == 0:
                    a = C.call(q.args[0], e.by_code)
                    x = C.parsed_from(K.plain(w.a, st, a[1]))
                    if K.unstar(a[0])[0] is w.db and x is not None and f(x):
                        return True
            return False
        if context == 1:
            ok = unknown(lambda x: isinstance(x, Term) and x.op == 'norm' and C.field_of(x.args[0], w.num) in (((0, e.n_prefix), (1, 0)), ((0, e.n_prefix), (1, 0), (0, 0))))
            return None if ok else 'the calling code given is refused although the metadata may know it'
        if own:
            if t is not None and C.zero_at(w, st, t, pos) is True:
                return None
            cut = lambda n: lambda x: isinstance(x, Term) and x.op == 'slice' and x.args[0] is t and C.lin(x.args[1]) == pos and C.lin(x.args[2]) == (pos[0] + n, pos[1])
            gone = [n for n in (1, 2, 3) if not unknown(cut(n))]
            return None if not gone else 'the digits are refused although the first %s may be a calling code' % ' or '.join(map(str, gone))
        if C.has_region(w, st) == 0:
            return None
        if C.has_region(w, st) == 1 and C.region_known(w, st) == 0:
            return None
        return 'a number is refused although its region is known'
    if name == 'MalformedInteger':
        for q, v in st.facts.items():
            if isinstance(q, Term) and q.op == 'ok' and v is False and len(q.args) == 1 and isinstance(q.args[0], Term) and q.args[0].op == 'parseint':
                return None
        return 'a text is called a malformed number without having been read as one'
    return 'the error %s is given' % name


def codes(ctx, res, e):
    w = C.code_world(ctx, res, e)
    if not w:
        return
    n = {}
    for st, name, x in errors(w):
        if name in (None, '?'):
            res.und('calling code', 'exit not understood: %s' % show(x)[:80])
            continue
        n[name] = n.get(name, 0) + 1
        why = code(w, st, name)
        if why is None:
            res.ok()
        elif why == '?' or not C.known(w, st):
            res.und('calling code', '%s: %s' % (name, why))
        else:
            res.bad('calling code %s' % name, why)
    res.coverage['error exits of the calling code function'] = dict(n)
    if not n.get('InvalidCountryCode') or not n.get('TooShortNsn', n.get('TooShortAfterIdd')):
        res.und('coverage', 'errors of the calling code function: %s' % n)


def entry(ctx, res, e):
    w = c06.entry_world(ctx, res, e)
    if not w:
        return
    n = {}

    def length(st, low):
        for q, v in st.facts.items():
            if isinstance(q, Term) and q.op == 'len' and isinstance(v, tuple) and c06.from_code(w, K.plain(w.a, st, q.args[0]), e.n_national):
                if low and v[-1][1] <= 1 or not low and v[0][0] >= 18:
                    return True
        return False
    for st, name, x in errors(w):
        n[name or 'handed on'] = n.get(name or 'handed on', 0) + 1
        why = None
        if name == '?':
            res.und('entry', 'exit not understood')
            continue
        if name is None:
            root, p = K.unstar(x)
            if C.call(root, e.code) and p[:1] == ((1, 0),):
                res.ok()
                continue
            if C.call(root, e.fromtext) and p[:1] == ((1, 0),):
                res.ok()
                continue
            (res.und if not precise(x) or not C.known(w, st) else res.bad)('entry', 'the error is %s' % show(x)[:80])
            continue
        if name == 'NoNumber':
            read = [v for q, v in st.facts.items() if isinstance(q, Term) and q.op == 'discr' and C.call(q.args[0], e.readers)]
            via = [v for q, v in st.facts.items() if isinstance(q, Term) and q.op == 'call' and C.call(q, e.viable)]
            if not (read and all(C.single(v) == 1 for v in read)) and False not in via:
                why = 'a viable number that was read is called no number'
        elif name == 'TooShortNsn':
            why = None if length(st, True) else 'a number of two digits or more is called too short'
        elif name == 'TooLong':
            why = None if length(st, False) else 'a number of up to seventeen digits is called too long'
        elif name == 'MalformedInteger':
            bad = [1 for q, v in st.facts.items() if isinstance(q, Term) and (q.op == 'ok' and v is False and isinstance(q.args[0], Term) and q.args[0].op == 'parseint' or
                   q.op == 'discr' and C.call(q.args[0], e.fromtext) and C.single(v) == 1)]
            why = None if bad else 'a text is called a malformed number without having been read as one'
        else:
            why = 'the error %s is given' % name
        if why is None:
            res.ok()
        else:
            (res.bad if C.known(w, st) else res.und)('entry %s' % name, why)
    res.coverage['error exits of parsing'] = dict(n)
    for k in ('NoNumber', 'TooShortNsn', 'TooLong', 'handed on'):
        if not n.get(k):
            res.und('coverage', 'no exit of parsing with the error %s' % k)


def check(ctx, res):
    e = P.full(ctx, res)
    if e is None:
        return
    codes(ctx, res, e)
    entry(ctx, res, e)
