"""C09: the national prefix is stripped at most once and only safely"""
from checks import kernels as K
from checks import parsek as P
from checks import fmtk as M
from checks import c19
from checks.lib import *

LEVEL = 'proof'
RULE = ('obligation = exit of the function that strips the national prefix; discharged when it leaves the digits alone for a documented reason (no rule, the rule does not match at the start, or stripping '
        'would lose viability), or gives the digits after the first match of the prefix at the start, or the transformed digits, tested against the general description; a carrier only from a captured group')
EXPLAIN = ('Decision table of the prefix stripping function (found by its type) by abstract interpretation; text and regular expression operations are symbolic terms.')
ASSUME = ['library models of regex, text and Option are correct']


def is_slice(t):
    return isinstance(t, Term) and t.op == 'slice'


class Ctx:
    pass


def opt(st, w, path):
    """1/0/None: is the optional field set"""
    for q, v in st.facts.items():
        if isinstance(q, Term) and q.op == 'discr':
            root, p = K.unstar(q.args[0])
            if root is w.meta and p == path and isinstance(v, tuple) and len(v) == 1 and v[0][0] == v[0][1]:
                return v[0][0]
    return None


def isfield(w, t, path):
    root, p = K.unstar(t)
    return root is w.meta and p[:len(path)] == path and len(p) <= len(path) + 2


def fact(st, op, f):
    for q, v in st.facts.items():
        if isinstance(q, Term) and q.op == op and f(q):
            return v
    return None


def lo_hi(v):
    if isinstance(v, tuple) and v:
        return v[0][0], v[-1][1]
    return None


def iv(t):
    return t.args[0] if isinstance(t, Term) and t.op == 'int' else None


def viable(w, st, t):
    """does the general description match the text: True, False or None"""
    for q, v in st.facts.items():
        if isinstance(q, Term) and q.op == 'call' and q.args[1] in w.match:
            a = q.args[2]
            ts = [x for x in a if not on_meta(w, x)]
            ms = [x for x in a if on_meta(w, x)]
            if len(ms) == 1 and K.unstar(ms[0])[1] == w.general and any(K.unstar(x) == K.unstar(t) for x in ts):
                return v
    return None


def on_meta(w, x):
    return K.unstar(x)[0] is w.meta


def known(w, st, *more):
    for q, v in st.facts.items():
        if not isinstance(q, Term):
            continue
        if q.op == 'call' and q.args[1] in w.match:
            continue
        if q.op in ('eqv', 'call', 'lany', 'lall', 'in_list') or q.op in ('and', 'or') and isinstance(v, bool):
            return False
        if q.op == 'discr' and False:
            return False
        if any(isinstance(x, Term) and x.op in ('sym', 'j', 'old', 'rs') and 'cowdiscr' not in x.args for x in terms(q)):
            return False
    return not any(isinstance(x, Term) and x.op in ('sym', 'j', 'old', 'rs') for m in more if isinstance(m, core.Node) for x in terms(m))


def is_nat(w, t):
    return P.num(w.e, w.arg, t, w.e.n_national)


def is_pat(w, t):
    return isfield(w, t, w.parsing + ((1, 0),))


def cap(w, t):
    """group number (term) of a captured text of the parsing pattern, or None"""
    if not (is_slice(t) and is_nat(w, t.args[0])):
        return None
    lo, hi = t.args[1:3]
    if not all(isinstance(x, Term) and x.op == o and is_pat(w, x.args[0]) and is_nat(w, x.args[1]) for x, o in ((lo, 'ms'), (hi, 'me'))):
        return None
    return lo.args[2] if lo.args[2] is hi.args[2] else None


def is_last(w, g):
    """is the group number caplen - 1"""
    return isinstance(g, Term) and g.op == 'lin' and g.args[0] == -1 and len(g.args[1]) == 1 and g.args[1][0][1] == 1 and getattr(g.args[1][0][0], 'op', '') == 'caplen'


def groups(w, st):
    v = fact(st, 'caplen', lambda q: is_pat(w, q.args[0]))
    return lo_hi(v) if v is not None else (1, 1 << 62)


def shape(w, t):
    """what the digits have become"""
    if is_nat(w, t):
        return 'same',
    if is_slice(t) and is_nat(w, t.args[0]):
        lo, hi = t.args[1:3]
        if not (isinstance(hi, Term) and hi.op == 'len' and is_nat(w, hi.args[0])):
            return None
        if isinstance(lo, Term) and lo.op == 'me' and is_pat(w, lo.args[0]) and is_nat(w, lo.args[1]) and iv(lo.args[2]) == 0:
            return 'after match',
        if isinstance(lo, Term) and lo.op == 'len' and isfield(w, lo.args[0], w.prefix + ((1, 0),)):
            return 'after prefix',
        return None
    if isinstance(t, Term) and t.op == 'rrep' and is_pat(w, t.args[0]) and is_nat(w, t.args[1]) and isfield(w, t.args[2], w.rule + ((1, 0),)):
        return 'transformed',
    return None


def carrier(w, st, c, kind):
    """None, or what is wrong with the reported carrier ('?': not known)"""
    old = P.num(w.e, w.arg, c, w.e.n_carrier)
    lo, hi = groups(w, st)
    tr = kind == 'transformed'
    need = 3 if tr else 2
    setq = fact(st, 'capset', lambda q: is_pat(w, q.args[0]) and is_nat(w, q.args[1]) and (iv(q.args[2]) == 1 if tr else is_last(w, q.args[2]) or hi == 2 and iv(q.args[2]) == 1))
    if isinstance(c, Agg) and c.var == 1:
        x = K.plain(w.a, st, c.f[0])
        g = cap(w, x)
        if g is None:
            return '?' if not precise(x) else 'reports %s as carrier' % show(x)[:80]
        if kind in ('same', 'after prefix'):
            return 'reports a carrier although nothing was captured'
        if lo < 2:
            return 'reports the whole match as carrier when the prefix pattern has no group'
        if tr and iv(g) != 1 and not (lo == hi and False):
            return 'reports a group that belongs to the number as carrier' if is_last(w, g) else '?'
        if not tr and not is_last(w, g):
            return 'reports the first group as carrier' if hi > 2 and iv(g) == 1 else None if iv(g) == 1 else '?'
        if lo < need:
            return 'reports a group of the number as carrier'
        if setq is not True:
            return '?' if setq is None else 'reports an unset group as carrier'
        return None
    none = isinstance(c, Agg) and c.var == 0
    if not none and not old:
        return '?' if not precise(c) else 'reports %s as carrier' % show(c)[:80]
    if kind in ('same', 'after prefix'):
        return None if old else '?'
    if hi < need or setq is False:
        return None
    if setq is True and lo >= need:
        return 'drops the captured carrier'
    return '?' if setq is None and lo < hi else 'drops the captured carrier'


def reason(w, st):
    """why the digits may stay as they are: None when there is no reason"""
    ps, np = opt(st, w, w.parsing), opt(st, w, w.prefix)
    if ps == 0:
        if np == 0:
            return 'no prefix'
        starts = fact(st, 'pre', lambda q: is_nat(w, q.args[0]) and isfield(w, q.args[1], w.prefix + ((1, 0),)))
        if starts is False:
            return 'does not start with the prefix'
        if starts is True:
            return blocked(w, st, {'after prefix'})
        return None
    if ps == 1:
        m = fact(st, 'matched', lambda q: is_pat(w, q.args[0]) and is_nat(w, q.args[1]))
        if m is False:
            return 'no match'
        s = lo_hi(fact(st, 'ms', lambda q: is_pat(w, q.args[0]) and is_nat(w, q.args[1]) and iv(q.args[2]) == 0))
        if s and s[0] > 0:
            return 'match not at the start'
        return blocked(w, st, due(w, st))
    return None


def due(w, st):
    """what stripping by the pattern amounts to under this exit's conditions"""
    tr = opt(st, w, w.rule)
    if tr == 0:
        return {'after match'}
    last = fact(st, 'capset', lambda q: is_pat(w, q.args[0]) and is_nat(w, q.args[1]) and is_last(w, q.args[2]))
    lo, hi = groups(w, st)
    if tr == 1 and last is True:
        return {'transformed'}
    if last is False:
        return {'after match'}
    return {'after match', 'transformed'}


def blocked(w, st, kinds):
    lost = set()
    for q, v in st.facts.items():
        if v is False and isinstance(q, Term) and q.op == 'call' and q.args[1] in w.match:
            for x in q.args[2]:
                s = shape(w, x) if isinstance(x, Term) else None
                if s and viable(w, st, x) is False:
                    lost.add(s[0])
    if lost & kinds and viable(w, st, w.nat) is True:
        return 'not viable without the prefix'
    return None


def check(ctx, res):
    e = P.build(ctx, res)
    if e is None:
        return
    fns = P.pick(e, P.functions(e, [K.MD, e.path]))
    acc = lambda p, n: c19.accessor(ctx, res, p + '::' + n)
    f = {n: acc(K.MD, n) for n in ('national_prefix', 'national_prefix_for_parsing', 'national_prefix_transform_rule', 'descriptors')}
    g = acc(K.DS, 'general')
    match = set(K.matchers(ctx))
    if len(fns) != 1 or None in f.values() or g is None or not match:
        res.und('function', 'the function stripping the national prefix is not found (%d)' % len(fns))
        return
    inst = fns[0]
    name = ctx.F.insts[inst]['path'].split('::')[-1]
    r = K.table(ctx, inst, match)
    if r.tainted or not r.outs:
        res.und(name, r.why() or 'no exit')
        return
    w = Ctx()
    w.e, w.a, w.match = e, r.a, match
    w.meta = K.unstar(r.args[P.where(e, inst, K.MD)])[0]
    w.arg = K.unstar(r.args[P.where(e, inst, e.path)])[0]
    w.prefix, w.parsing, w.rule = (((0, f[k]),) for k in ('national_prefix', 'national_prefix_for_parsing', 'national_prefix_transform_rule'))
    w.general = ((0, f['descriptors']), (0, g))
    w.nat = T('fld', w.arg, 0, e.n_national)
    n = {}
    for st, v in r.outs:
        v = r.a.deepval(st, v)
        root, p = K.unstar(v)
        if root is w.arg and not p:
            v = None
        elif not (isinstance(v, Agg) and v.kind == 'adt' and len(v.f) == len(e.names)):
            res.und(name, 'an exit gives %s' % show(v)[:100])
            continue
        part = lambda k: K.plain(r.a, st, v.f[k]) if v is not None else T('fld', w.arg, 0, k)
        nat, car = part(e.n_national), part(e.n_carrier)
        bad = res.bad if known(w, st, nat, car) else res.und
        for k in range(len(e.names)):
            if k not in (e.n_national, e.n_carrier) and not P.num(e, w.arg, part(k), k):
                bad('other fields', 'stripping the national prefix changes the %s' % e.names[k])
        s = shape(w, nat)
        if s is None:
            if isinstance(nat, Term) and nat.op == 'rrepall':
                bad('once', 'the national prefix is removed more than once')
            else:
                (bad if precise(nat) else res.und)('digits', 'the digits become %s' % show(nat)[:140])
            continue
        k = s[0]
        n[k] = n.get(k, 0) + 1
        c = carrier(w, st, car, k)
        if c is not None:
            (res.und if c == '?' else bad)('carrier', 'with digits %s it %s' % (k, c if c != '?' else 'reports a carrier not understood'))
        if k == 'same':
            if reason(w, st) is None:
                bad('stays', 'the national prefix stays although the rule matches at the start and the rest is viable')
            else:
                res.ok()
            continue
        if viable(w, st, nat) is not True and viable(w, st, w.nat) is not False:
            bad('viable', 'the digits become those %s without asking whether a viable number stays viable' % k)
            continue
        if k == 'after prefix':
            ok = opt(st, w, w.parsing) == 0 and opt(st, w, w.prefix) == 1 and fact(st, 'pre', lambda q: is_nat(w, q.args[0]) and isfield(w, q.args[1], w.prefix + ((1, 0),))) is True
            why = 'the prefix is cut off although the digits need not begin with it'
        else:
            m = fact(st, 'matched', lambda q: is_pat(w, q.args[0]) and is_nat(w, q.args[1]))
            at = lo_hi(fact(st, 'ms', lambda q: is_pat(w, q.args[0]) and is_nat(w, q.args[1]) and iv(q.args[2]) == 0))
            ok = m is True and at == (0, 0)
            why = 'digits are removed although the prefix pattern need not match at the start'
            if ok and k not in due(w, st):
                ok, why = False, 'the transform rule is %s' % ('not applied' if k == 'after match' else 'applied although its group took no part')
        if ok:
            res.ok()
        else:
            bad('start', why)
    if n.get('after match', 0) + n.get('after prefix', 0) < 2 or not n.get('transformed'):
        res.und('coverage', 'exits: %s' % n)
    res.coverage['exits'] = n
    res.coverage['function'] = name
