"""C16: formatted numbers have the documented shape"""
from checks import xmltab as X, loading, c23
from checks import kernels as K
from checks import fmtk as M
from checks.lib import *

LEVEL = 'proof'
RULE = ('obligation = exit of the operation that writes a formatted number, and function that makes or changes a formatter; discharged when the text written on that exit is the documented one '
        'for its mode: sign, calling code, separator, number and extension, in that order and nothing else, when the extension is written exactly if there is one, and when the operation fails '
        'only for a calling code without record')
EXPLAIN = ('Decision table of the operation that writes a formatted number by abstract interpretation, everything it calls in this crate followed; the text written on every exit is a term, '
           'split into literal and computed parts and compared with the grammar of the mode.')
ASSUME = ['library models of formatting, text and regex are correct', 'errors of the destination are not modelled']


def body(e, x):
    """a part that is the national number: as it is, or rewritten"""
    if x is M.NAT:
        return 'plain'
    if isinstance(x, Term) and x.op in ('rrep', 'rrepall'):
        t = x.args[1]
        if M.is_nat(e, t) is True:
            return 'rule'
        if isinstance(t, Term) and t.op in ('rrep', 'rrepall') and x.op == 'rrepall' and x.args[2] is core.S('-') and body(e, t) == 'rule':
            return 'hyphen'
    return None


def split(e, ps, head):
    """parts after the head of the mode"""
    if head == '':
        return list(ps)
    if not ps or not isinstance(ps[0], str) or not ps[0].startswith(head):
        return None
    rest = ps[0][len(head):]
    return ([rest] if rest else []) + list(ps[1:])


def grammar(e, st, m, ps):
    """None when the text is a right one for the mode, else what is wrong"""
    head = {'E164': '+', 'International': '+', 'Rfc3966': 'tel:+', 'National': ''}[m]
    sep = {'E164': '', 'International': ' ', 'Rfc3966': '-', 'National': None}[m]
    ps = list(ps)
    if sep is not None:
        ps = split(e, ps, head)
        if ps is None:
            return 'does not begin with %r' % head
        if not ps or not (isinstance(ps[0], Term) and ps[0].op == 'itoa' and M.is_code(e, ps[0].args[0])):
            return 'does not give the calling code after %r' % head
        ps = split(e, ps[1:], sep)
        if ps is None:
            return 'does not put %r after the calling code' % sep
    if not ps or body(e, ps[0]) is None:
        return 'does not give the national number %s' % ('after the calling code' if sep is not None else 'first')
    b = body(e, ps[0])
    if m == 'E164' and b != 'plain':
        return 'does not give the bare national number'
    if m == 'Rfc3966' and b == 'rule':
        return 'keeps the separators of the rule'
    if m in ('International', 'National') and b == 'hyphen':
        return 'replaces the separators of the rule'
    ps = ps[1:]
    n = M.discr(e, st, lambda t: M.is_num(e, t, (0, e.f_ext)))
    if m == 'E164':
        return 'does not end after the national number' if ps else None
    if not ps:
        return None if n == 0 else 'leaves out the extension'
    if not M.ext(e, ps[-1]) if isinstance(ps[-1], Term) else True:
        return 'does not end with the extension, nor after the national number'
    pre = ps[:-1]
    if m == 'Rfc3966':
        return None if pre == [';ext='] else 'does not write ;ext= before the extension'
    d = M.discr(e, st, lambda t: M.record(e, t) == (0, ((0, e.m_ext),)))
    if pre == [' ext. ']:
        return None if d == 0 else 'writes the usual word for extension although the region may have its own'
    if len(pre) == 1 and isinstance(pre[0], Term):
        w = M.record(e, pre[0])
        if w is not None and w[0] == 0 and w[1][:2] == ((0, e.m_ext), (1, 0)):
            return None
    return 'does not write the word for extension of the region, or the usual one, before the extension'


def check(ctx, res):
    e = M.build(ctx, res)
    if e is None:
        return
    good, fail = M.exits(e)
    n = {}
    for st, ps in good:
        if ps is None:
            res.und('text', 'something else than text is written')
            continue
        ms = M.mode(e, st)
        for m in sorted(ms):
            n[m] = n.get(m, 0) + 1
            w = grammar(e, st, m, ps)
            if w is None:
                res.ok()
            elif w == '?':
                res.und(m, 'text %s under unclear conditions' % M.words(ps)[:160])
            else:
                clear = M.known(st, *[x for x in ps if isinstance(x, Term)]) and not any(isinstance(x, Term) and x.op == 'phi' and not inelt(ps, x) for y in ps if isinstance(y, Term) for x in terms(y))
                (res.bad if clear else res.und)(m, 'formatting in mode %s %s: %s' % (m, w, M.words(ps)[:200]))
    for st, v in fail:
        n['fails'] = n.get('fails', 0) + 1
        if unknown(e, st):
            res.ok()
        else:
            (res.bad if M.known(st) else res.und)('failure', 'formatting fails although the calling code has a record')
    for m in e.modes:
        if n.get(m, 0) < 1 or m != 'E164' and n.get(m, 0) < 4:
            res.und('coverage', 'too few exits for %s' % m)
    res.coverage['exits by mode'] = n
    makers(ctx, res, e)


def inelt(ps, x):
    """is the invented position only the place of a rule in its list"""
    for y in ps:
        if isinstance(y, Term):
            for z in terms(y):
                if isinstance(z, Term) and x in z.args and z.op not in ('elt', 'lin'):
                    return False
    return True


def unknown(e, st):
    for q, v in st.facts.items():
        if isinstance(q, Term) and q.op == 'mhas' and v is False and M.is_code(e, q.args[1]):
            return True
        if isinstance(q, Term) and q.op == 'llen' and v == ((0, 0),) and isinstance(q.args[0], Term) and q.args[0].op == 'mapget' and M.is_code(e, q.args[0].args[1]):
            return True
    return False


def makers(ctx, res, e):
    """functions that make a formatter or change one"""
    e164 = e.modes.index('E164')
    n = 0
    from checks.c04 import callgraph
    for i in X.localfns(ctx):
        args, ret = X.sig(ctx, i)
        p = ctx.F.insts[i]['path']
        if c23.deref_ty(ctx, ret) != e.ft and ctx.F.types[c23.deref_ty(ctx, ret)].get('path') != e.fpath or '{closure' in p or ' as ' in p:
            continue
        a = loading.shallow(ctx, i, only=lambda k: False)
        a.one_head = False
        r = Run(ctx, i, ai_=a, deadline=60)
        name = p.replace('crate::', '')
        n += 1
        if r.tainted or not r.outs:
            res.und('maker ' + name, r.why())
            continue
        by = {}
        for k, t in enumerate(args):
            b = K.base_name(ctx, t)
            b = e.fpath if ctx.F.types[c23.deref_ty(ctx, t)].get('path') == e.fpath else b
            by[b] = K.unstar(r.args[k])[0]
        old = by.get(e.fpath)
        for st, v in r.outs:
            v = K.plain(r.a, st, v)
            if not (isinstance(v, Agg) and v.kind == 'adt'):
                root, q = K.unstar(v)
                if root is old and not q and K.PN not in by and M.MODE not in by and M.FM not in by:
                    res.ok()
                else:
                    res.und('maker ' + name, show(v)[:80])
                continue
            for what, k, want, default in (('number', e.f_num, by.get(K.PN), None), ('mode', e.f_mode, by.get(M.MODE), e164), ('format', e.f_fmt, by.get(M.FM), 0)):
                x = field_of(v, k)
                x = r.a.deepval(st, x) if not isinstance(x, Ref) else x
                if want is not None:
                    y = x.f[0] if what == 'format' and isinstance(x, Agg) and x.var == 1 else x if what != 'format' else None
                    root, q = K.unstar(y) if y is not None else (None, None)
                    ok = root is want and not q
                elif old is not None:
                    root, q = K.unstar(x)
                    ok = root is old and q == ((0, k),)
                else:
                    ok = isinstance(x, Agg) and x.kind == 'adt' and x.var == default
                if ok:
                    res.ok()
                elif all(precise(y) for y in [x] + list(st.facts) if isinstance(y, core.Node)):
                    res.bad('maker %s %s' % (name, what), '%s gives a formatter whose %s is %s' % (name, what, 'not the one asked for' if want is not None else 'not kept' if old is not None else 'not the documented one'))
                else:
                    res.und('maker %s %s' % (name, what), show(x)[:80])
    if n < 4:
        res.und('makers', 'only %d found' % n)
