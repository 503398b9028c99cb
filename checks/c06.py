"""C06: a successfully parsed number is well formed"""
from checks import codek as C
from checks import parsek as P
from checks import kernels as K
from checks import fmtk as M
from checks import xmltab as X
from checks.lib import *

LEVEL = 'proof'
RULE = ('obligation = success exit of the parsing entry point; discharged when the national number is read from a text of 2 to 17 characters, and the calling code is the one found. '
        'Obligation = success exit of the function that finds the calling code; discharged when the code is in the metadata, or is that of the given region')
EXPLAIN = 'Decision tables of the parsing entry point and of the calling code function (found by type) by abstract interpretation; lengths by intervals.'
ASSUME = ['library models of text, Option and integer parsing are correct', 'normalised text consists of digits (C10)', 'stripping leaves calling code, origin and extension alone (C09)']


def entry_world(ctx, res, e):
    """decision table of the parsing entry point"""
    w = C.W()
    w.e, w.ctx = e, ctx
    best = None
    for inst in e.entry[:1]:
        r = P.table(e, inst, P.kernels(e) | set(e.code) | set(e.strip))
        if r.tainted or not r.outs:
            res.und('parsing', r.why() or 'no exit')
            return None
        best = inst, r
    inst, r = best
    w.r, w.a = r, r.a
    sig = [X.tname(ctx, t) for t in X.sig(ctx, inst)[0]]
    w.db = w.region = w.text = None
    for k, t in enumerate(sig):
        root = K.unstar(r.args[k])[0]
        if K.DB in t:
            w.db = root
        elif 'Option<' in t and K.ID in t:
            w.region = root
        else:
            w.text = root
    one = lambda l: l[0] if len(l) == 1 else None
    w.p_code = one(M.field_by(ctx, K.PN, lambda f: X.tname(ctx, f) == 'crate::country::Code'))
    w.p_nat = one(M.field_by(ctx, K.PN, lambda f: X.tname(ctx, f) == 'crate::national_number::NationalNumber'))
    opt = lambda n: one(M.field_by(ctx, K.PN, lambda f: X.tname(ctx, f).startswith('core::option::Option<') and n in X.tname(ctx, f)))
    w.p_ext, w.p_car = opt('::Extension'), opt('::Carrier')
    w.c_val = one(M.field_by(ctx, 'crate::country::Code', lambda f: X.tname(ctx, f) == 'u16'))
    w.c_src = one(M.field_by(ctx, 'crate::country::Code', lambda f: X.tname(ctx, f) == P.SOURCE))
    if None in (w.db, w.region, w.text, w.p_code, w.p_nat, w.p_ext, w.p_car, w.c_val, w.c_src):
        res.und('parsing', 'arguments or fields not found')
        return None
    return C.world_fields(ctx, res, w)


def number(w, st, x):
    """the parts of the number returned, or None"""
    if not (isinstance(x, Agg) and x.kind == 'adt' and len(x.f) > max(w.p_code, w.p_nat, w.p_ext, w.p_car)):
        return None
    c = K.plain(w.a, st, x.f[w.p_code])
    if not (isinstance(c, Agg) and c.kind == 'adt'):
        return None
    d = C.W()
    d.value, d.source = K.plain(w.a, st, c.f[w.c_val]), K.plain(w.a, st, c.f[w.c_src])
    d.nat, d.ext, d.car = (K.plain(w.a, st, x.f[k]) for k in (w.p_nat, w.p_ext, w.p_car))
    return d


def found(w, t):
    """field path inside what the calling code function gave, or None"""
    root, p = K.unstar(t)
    a = C.call(root, w.e.code)
    if a is None or p[:1] != ((0, 0),):
        return None
    return p[1:]


def stripped(w, t):
    """(metadata, path) inside what the stripping function gave, or None"""
    root, p = K.unstar(t)
    a = C.call(root, w.e.strip)
    if a is None:
        return None
    k = P.where(w.e, w.e.strip[0], K.MD)
    return a[k], a[1 - k], p


def same_number(w, st, t):
    """is the term the whole record the calling code function gave"""
    t = K.plain(w.a, st, t)
    if found(w, t) == ():
        return True
    return isinstance(t, Agg) and t.kind == 'adt' and len(t.f) == len(w.e.names) and all(found(w, K.plain(w.a, st, y)) == ((0, k),) for k, y in enumerate(t.f))


def from_code(w, t, k):
    """is the term field k of the record found, whether or not the national prefix has been stripped since"""
    p = found(w, t)
    if p is None:
        s = stripped(w, t)
        p = s[2] if s else None
    return p is not None and p[:1] == ((0, k),) and len(p) <= 3


def code_value(w, st, d):
    """None when the reported code is the one found, else what is wrong"""
    v, k = d.value, w.e.n_prefix
    if isinstance(v, Term) and v.op == 'parseint':
        if from_code(w, v.args[0], k):
            return None
        return '?' if not precise(v) else 'reports the calling code %s' % show(v)[:80]
    if isinstance(v, Term) and v.op == 'int':
        for q, x in st.facts.items():
            if isinstance(q, Term) and q.op == 'discr' and from_code(w, q.args[0], k) and C.single(x) == 0:
                return None        # never happens: the calling code function always gives one
        return 'reports the calling code %s' % v.args[0]
    return '?' if not precise(v) else 'reports the calling code %s' % show(v)[:80]


def check(ctx, res):
    e = P.full(ctx, res)
    w = e and entry_world(ctx, res, e)
    if not w:
        return
    n = 0
    for st, x in C.successes(w):
        d = x is not None and number(w, st, x)
        if not d:
            res.und('exit', 'not understood: %s' % (show(x)[:100] if x is not None else ''))
            continue
        n += 1
        root, p = K.unstar(d.nat)
        a = C.call(root, e.fromtext)
        if a is None or p != ((0, 0),):
            (res.bad if precise(d.nat) and not has_call(d.nat) else res.und)('national number', 'the national number is %s' % show(d.nat)[:100])
            continue
        t = K.plain(w.a, st, a[0])
        bad = res.bad if C.known(w, st, t, d.value) else res.und
        if not from_code(w, t, e.n_national):
            bad('text', 'the national number is read from %s' % show(t)[:100])
        v = [x for q, x in st.facts.items() if isinstance(q, Term) and q.op == 'len' and q.args[0] is t]
        lo, hi = (v[0][0][0], v[0][-1][1]) if v else (0, 1 << 62)
        if lo < 2:
            bad('short', 'a number with %s national digits is accepted' % ('any number of' if hi >= 1 << 60 and not v else lo))
        elif hi > 17:
            bad('long', 'a number with %s national digits is accepted' % ('any number of' if hi >= 1 << 60 else hi))
        else:
            res.ok()
        why = code_value(w, st, d)
        if why is None:
            res.ok()
        else:
            (res.und if why == '?' else bad)('code', why if why != '?' else show(d.value)[:100])
    if n < 4:
        res.und('coverage', 'only %d exits of parsing' % n)
    res.coverage['exits of parsing'] = n
    codes(ctx, res, e)


def has_call(v):
    return any(isinstance(x, Term) and x.op == 'call' for x in terms(v))


def codes(ctx, res, e):
    w = C.code_world(ctx, res, e)
    if not w:
        return
    n = {}
    for st, x in C.successes(w):
        d = x is not None and C.decode(w, st, x)
        if not d:
            res.und('exit', 'not understood: %s' % (show(x)[:120] if x is not None else ''))
            continue
        bad = res.bad if C.known(w, st, *d.f) else res.und
        k, c = C.prefix_kind(w, st, d)
        n[k] = n.get(k, 0) + 1
        if k == 'none':
            bad('no code', 'a number is given without calling code')
        elif k == 'context':
            known = [v for q, v in st.facts.items() if isinstance(q, Term) and q.op == 'discr' and C.call(q.args[0], e.by_code) and
                     C.parsed_from(K.plain(w.a, st, C.call(q.args[0], e.by_code)[1])) is c and K.unstar(C.call(q.args[0], e.by_code)[0])[0] is w.db]
            if known and C.single(known[0]) == 1:
                res.ok()
            else:
                bad('carried code', 'a carried calling code is accepted although the metadata need not know it')
        elif k in ('digits', 'other digits'):
            if C.code_known(w, st, c) == 1:
                res.ok()
            else:
                bad('read code', 'a calling code read from the digits is accepted although the metadata need not know it')
            if k == 'digits' and not (1 <= d.skip <= 3):
                bad('read code length', 'a calling code of %d digits' % d.skip)
        elif k == 'region':
            if C.has_region(w, st) == 1 and C.region_known(w, st) == 1:
                res.ok()
            else:
                bad('region code', 'the calling code of a region is given although there is none')
        else:
            (res.und if k == '?' else bad)('code', 'the calling code is %s' % show(c)[:100])
    if not (n.get('digits') and n.get('context') and n.get('region')):
        res.und('coverage', 'exits: %s' % n)
    res.coverage['exits of the calling code function'] = n
