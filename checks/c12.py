"""C12: which type a national number has"""
from checks.kernels import top
from checks.lib import *

LEVEL = 'proof'
RULE = ('obligation = one exit path of the classification function, of the descriptor predicate, or of the descriptor lookup for one type; a path is '
        'discharged when every completion of the facts it tested makes the documented decision table give the type it returns')
EXPLAIN = ('The classification function (found by its signature (&Metadata, &str) -> Type) is turned into its complete decision table by abstract '
           'interpretation with the descriptor predicate opaque (no path merging, loops unrolled); every row is compared with the documented priority order. '
           'The predicate itself and the lookup by type are interpreted separately.')
ASSUME = ['the regular-expression engine of the dependency decides matches as documented', 'descriptor patterns are anchored when the database is built (decided by C22)']
MD = 'crate::metadata::metadata::Metadata'
DS = 'crate::metadata::metadata::Descriptors'
ORDER = ['premium_rate', 'toll_free', 'shared_cost', 'voip', 'personal_number', 'pager', 'uan', 'voicemail']
NAME = {'fixed_line': 'FixedLine', 'mobile': 'Mobile', 'toll_free': 'TollFree', 'premium_rate': 'PremiumRate', 'shared_cost': 'SharedCost',
        'personal_number': 'PersonalNumber', 'voip': 'Voip', 'pager': 'Pager', 'uan': 'Uan', 'emergency': 'Emergency', 'voicemail': 'Voicemail',
        'short_code': 'ShortCode', 'standard_rate': 'StandardRate', 'carrier': 'Carrier', 'no_international': 'NoInternational'}


def refto(ctx, x):
    t = ctx.F.types[x]
    return ctx.F.types[t['ty']] if t['k'] == 'ref' else {}


def by_sig(ctx, args, ret):
    """local functions with these argument/return shapes"""
    out = []
    for i, x in enumerate(ctx.F.insts):
        if not x['local'] or not x.get('mir') or '{closure' in x['path']:
            continue
        b = ctx.F.body(i)
        if b.argc != len(args):
            continue
        r = ctx.F.types[b.locals[0]]
        if not ret(r):
            continue
        if all(f(refto(ctx, b.locals[k + 1])) for k, f in enumerate(args)):
            out.append(i)
    return out


def isadt(name):
    return lambda t: t.get('k') == 'adt' and t['path'].split('::')[-1] == name


def isstr(t):
    return t.get('k') == 'str'


def find(ctx):
    pred = by_sig(ctx, [isadt('Descriptor'), isstr], lambda t: t['k'] == 'bool')
    kind = by_sig(ctx, [isadt('Metadata'), isstr], isadt('Type'))
    return top(ctx, pred), top(ctx, kind)


def accessors(ctx, res):
    """descriptor name -> (variant-free term of the field, optional?) as seen by the public accessors"""
    out = {}
    for nm in ['general'] + list(NAME):
        i = inst_of(ctx, DS + '::' + nm)
        if i is None:
            continue
        r = Run(ctx, i)
        if r.tainted:
            res.und('accessor ' + nm, r.why())
            continue
        for st, o in r.outs:
            v = o
            if isinstance(o, Agg) and o.kind == 'adt' and len(o.f) == 1:
                v = o.f[0]
            while isinstance(v, Ref) and v.loc[0] == 'V' and not v.path:
                v = v.loc[1]
            if isinstance(v, Term) and v.op == 'fld':
                t = v
                while t.op == 'fld' and isinstance(t.args[0], Term) and t.args[0].op == 'fld':
                    t = t.args[0]
                if t.op == 'fld' and isinstance(t.args[2], int):
                    out[nm] = t.args[2]
        if nm not in out:
            res.und('accessor ' + nm, 'not a plain field access')
    return out


def check(ctx, res):
    pred, kind = find(ctx)
    acc = accessors(ctx, res)
    res.coverage['accessors'] = acc
    if len(set(acc.values())) != len(acc):
        dup = sorted(n for n in acc if list(acc.values()).count(acc[n]) > 1)
        res.bad('accessors alias', 'the descriptor accessors %s return the same descriptor' % ', '.join(dup))
    field = {k: n for n, k in acc.items()}
    if not pred or not kind or 'general' not in acc:
        res.und('anchor', 'no classification function (&Metadata, &str) -> Type or no predicate (&Descriptor, &str) -> bool')
    else:
        for i in kind:
            table(ctx, res, i, pred, field)
        for i in pred:
            predicate(ctx, res, i)
    lookup(ctx, res, acc)


def dname(ctx, t, field):
    """descriptor a term stands for"""
    while isinstance(t, Ref) and t.loc[0] == 'V' and not t.path:
        t = t.loc[1]
    if not isinstance(t, Term) or t.op != 'fld':
        return None
    if isinstance(t.args[0], Term) and t.args[0].op == 'fld' and isinstance(t.args[0].args[0], Term) and t.args[0].args[0].op == 'fld':
        if t.args[1] == 1 and t.args[2] == 0:
            t = t.args[0]
        else:
            return None
    b = t.args[0]
    if not (isinstance(b, Term) and b.op == 'fld' and 'arg(0)' in show(b.args[0]) and b.args[0].op != 'fld'):
        return None
    return field.get(t.args[2])


def table(ctx, res, i, pred, field):
    a = ai.AI(ctx.F)
    a.JOINCAP, a.unroll, a.use_summaries = 10 ** 6, 40, False
    a.opaque = lambda k, cal: k in pred
    r = Run(ctx, i, ai_=a, deadline=300)
    path = ctx.F.insts[i]['path']
    if r.tainted:
        res.und('table ' + path, r.why())
        return
    res.coverage['rows of ' + path] = len(r.outs)
    arg1 = r.args[1]
    while isinstance(arg1, Ref):
        arg1 = arg1.loc[1]
    for st, out in r.outs:
        got = vname(ctx, out)
        if got is None:
            res.und('table ' + path, 'unresolved result ' + show(out)[:120])
            continue
        M, P, E, odd = {}, {}, None, []
        for k, f in st.facts.items():
            if isinstance(k, Term) and k.op == 'call' and k.args[1] in pred:
                d = dname(ctx, k.args[2][0], field)
                v = k.args[2][1]
                while isinstance(v, Ref):
                    v = v.loc[1]
                if d is None:
                    odd.append(show(k))
                elif v is not arg1:
                    res.bad('table text', '%s matches %s against a text other than the national number: %s' % (path, d, show(v)[:120]))
                    return
                else:
                    M[d] = f
            elif isinstance(k, Term) and k.op == 'discr':
                b = k.args[0]
                d = field.get(b.args[2]) if isinstance(b, Term) and b.op == 'fld' else None
                if d is None:
                    odd.append(show(k))
                elif f == ((0, 0),):
                    P[d] = False
                elif f == ((1, 1),):
                    P[d] = True
            elif isinstance(k, Term) and k.op == 'eqs' and all(isinstance(x, Term) and x.op == 'rxsrc' for x in k.args):
                ds = {pat(x, field) for x in k.args}
                if ds == {'fixed_line', 'mobile'}:
                    E = f
                else:
                    odd.append(show(k))
            else:
                odd.append(show(k) if isinstance(k, core.Node) else str(k))
        want = spec(M, P, E)
        if want == {got}:
            res.ok()
            continue
        others = want - {got}
        desc = ', '.join(['%s %s' % (d, 'matches' if v else 'does not match') for d, v in sorted(M.items())] + ['no ' + d for d, v in sorted(P.items()) if not v])
        if odd:
            res.und('table ' + path, 'row not understood: ' + odd[0][:150])
        else:
            res.bad('table %s instead of %s' % (got, '/'.join(sorted(others))),
                    '%s returns %s where the documented order gives %s: when %s' % (path, got, ' or '.join(sorted(others)), desc or 'nothing is tested'))
    res.sample('%s: %d rows agree with the documented priority order' % (path, len(r.outs)))


def pat(x, field):
    """descriptor whose pattern source this is"""
    t = x.args[0]
    while isinstance(t, Term) and t.op == 'fld':
        if isinstance(t.args[0], Term) and t.args[0].op == 'fld' and t.args[2] in field and t.args[1] == 0 and isinstance(t.args[0].args[0], Term) and t.args[0].args[0].op != 'fld':
            return field[t.args[2]]
        t = t.args[0]
    return None


def spec(M, P, E):
    """set of types the documented order allows given what is known"""
    def v(d):
        if P.get(d) is False:
            return (False,)
        return (M[d],) if d in M else (True, False)
    out = set()
    for g in v('general'):
        if not g:
            out.add('Unknown')
            continue
        open_ = True
        for d in ORDER:
            w = v(d)
            if True in w:
                out.add(NAME[d])
            if False not in w:
                open_ = False
                break
        if not open_:
            continue
        for f in v('fixed_line'):
            for m in v('mobile'):
                for e in ((E,) if E is not None else (True, False)):
                    if P.get('mobile') is False:
                        e = False
                    out.add(('FixedLineOrMobile' if e or m else 'FixedLine') if f else 'Mobile' if m else 'Unknown')
    return out


def predicate(ctx, res, i):
    path = ctx.F.insts[i]['path']
    get = {}
    for nm in ('national_number', 'possible_length'):
        j = inst_of(ctx, 'crate::metadata::descriptor::Descriptor::' + nm)
        if j is None:
            res.und('predicate', 'no accessor ' + nm)
            return
        r = Run(ctx, j)
        get[nm] = [core_term(o) for st, o in r.outs]
    a = ai.AI(ctx.F)
    a.JOINCAP, a.unroll, a.use_summaries = 10 ** 6, 40, False
    r = Run(ctx, i, ai_=a)
    if r.tainted:
        res.und('predicate', r.why())
        return
    rx, L = get['national_number'][0], get['possible_length'][0]
    txt = core_term(r.args[1])
    n = textlen(txt)
    exits = []
    for st, out in r.outs:
        if out is core.TRUE or out is core.FALSE:
            exits.append((st, out is core.TRUE))
        else:
            p, q = a.branch(st.copy(), out)
            if p is not None:
                exits.append((p, True))
            if q is not None:
                exits.append((q, False))
    for st, val in exits:
        ment = [x for k in list(st.facts) + list(st.lins) for x in (terms(k) if not isinstance(k, tuple) else terms(list(k) and tuple(y for y in k if isinstance(y, core.Node))))]
        rxs = {x for x in ment if isinstance(x, Term) and x.op in ('matched', 'ms', 'me', 'fullmatch')}
        m = [st.facts.get(x) for x in rxs if x.op == 'matched' and x.args[0] is rx and x.args[1] is txt]
        elts = [x for x in ment if isinstance(x, Term) and x.op == 'elt' and x.args[0] is L]
        elts.append(T('elt', L, I(0)))
        llen = a.iv(st, T('llen', L))
        bad_txt = [x for x in rxs if x.op == 'matched' and (x.args[0] is not rx or x.args[1] is not txt)]
        if bad_txt:
            if precise(bad_txt[0]):
                res.bad('predicate pattern', '%s decides by %s, which is not the national-number pattern applied to the whole number' % (path, show(bad_txt[0])[:200]))
            else:
                res.und('predicate', show(bad_txt[0])[:200])
            continue
        contains = [k for k in st.facts if isinstance(k, Term) and k.op in ('contains', 'lcontains', 'has') and any(x is L for x in terms(k))]
        if val:
            lenok = llen == ((0, 0),) or any(proveq(a, st, e, n) for e in elts)
            if lenok and m == [True]:
                res.ok()
            elif not m or m != [True]:
                res.bad('predicate accepts without match', '%s may accept a number its pattern does not match' % path)
            elif not any(x.op == 'elt' and x.args[0] is L for x in ment if isinstance(x, Term)) and not contains:
                res.bad('predicate accepts any length', '%s accepts a number whose length is not among the possible lengths' % path)
            else:
                # the wrong quantity compared?
                res.und('predicate length', '; '.join(show(x)[:80] for x in elts[:3])+'@@'+str([show(l)[:99] for l in st.lins])+str(lenok)+str(m))
        else:
            if m == [False]:
                res.ok()
            elif llen == ((0, 0),) and not any(x.op == 'ms' for x in rxs):
                res.bad('predicate refuses', '%s refuses a number its pattern matches although the descriptor lists no lengths' % path)
            elif m == [True] and not any(x.op in ('ms', 'me') for x in rxs) and any(proveq(a, st, e, n) for e in elts):
                res.bad('predicate refuses', '%s refuses a number of a listed length that its pattern matches' % path)
            else:
                res.ok()


def proveq(a, st, x, y):
    if x is y:
        return True
    return bool(a.prove(st, sub(x, y)) and a.prove(st, sub(y, x)))


def core_term(v):
    while isinstance(v, Ref) and v.loc[0] == 'V' and not v.path:
        v = v.loc[1]
    return v


def lookup(ctx, res, acc):
    i = inst_of(ctx, DS + '::get')
    if i is None:
        res.und('lookup', 'Descriptors::get not found')
        return
    b = ctx.F.body(i)
    ty = b.locals[2]
    t = ctx.F.types[ty]
    if t['k'] != 'adt':
        res.und('lookup', 'argument is not the type enumeration')
        return
    back = {v: k for k, v in NAME.items()}
    back['FixedLineOrMobile'] = 'fixed_line'
    back['Unknown'] = 'general'
    for k, w in enumerate(t['variants']):
        r = Run(ctx, i, args=None, setup=lambda st, args, k=k: args.__setitem__(1, A('adt', ty, k, ())))
        if r.tainted:
            res.und('lookup ' + w['name'], r.why())
            continue
        want = back.get(w['name'])
        for st, o in r.outs:
            if not isinstance(o, Agg):
                res.und('lookup ' + w['name'], show(o)[:100])
                continue
            if o.var == 0:
                # absent: legal only because that descriptor is absent
                ds = {field_idx(k2.args[0]): f for k2, f in st.facts.items() if isinstance(k2, Term) and k2.op == 'discr'}
                if want in acc and ds.get(acc[want]) == ((0, 0),):
                    res.ok()
                elif any(True for _ in ds) or precise(o):
                    res.bad('lookup %s' % w['name'], 'looking up type %s may give nothing although its descriptor (%s) is present' % (w['name'], want))
                continue
            f = field_idx(core_term(o.f[0]))
            if f is None:
                res.und('lookup ' + w['name'], show(o)[:120])
            elif want in acc and f == acc[want]:
                res.ok()
            else:
                got = [n for n, x in acc.items() if x == f]
                res.bad('lookup %s' % w['name'], 'looking up type %s gives the %s descriptor, not the %s one' % (w['name'], got[0] if got else f, want))
    res.sample('Descriptors::get agrees with the accessors for %d types' % len(t['variants']))


def field_idx(t):
    while isinstance(t, Term) and t.op == 'fld' and isinstance(t.args[0], Term) and t.args[0].op == 'fld':
        t = t.args[0]
    return t.args[2] if isinstance(t, Term) and t.op == 'fld' else None
