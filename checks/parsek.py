"""the parser's working record and the functions on it, found by what they take and give"""
from checks import xmltab as X, loading, c19
from checks import kernels as K
from checks.lib import *

SOURCE = 'crate::country::Source'
COW = 'Cow<'


class Env:
    pass


def working(ctx):
    """the type of a number that is being parsed: where its calling code comes from and pieces of text"""
    out = []
    for n, t in enumerate(ctx.F.types):
        if t['k'] != 'adt' or not t.get('path', '').startswith('crate::') or len(t.get('variants') or ()) != 1:
            continue
        fs = t['variants'][0]['fields']
        if any(f[1] is None for f in fs):
            continue
        names = {f[0]: X.tname(ctx, f[1]) for f in fs}
        if SOURCE in names.values() and any(COW in v and 'Option' not in v for v in names.values()) and sum(COW in v for v in names.values()) >= 4:
            out.append((n, {f[0]: k for k, f in enumerate(fs)}))
    return out


def build(ctx, res):
    e = Env()
    e.ctx = ctx
    w = working(ctx)
    paths = {ctx.F.types[n]['path'] for n, _ in w}
    if len(paths) != 1:
        res.und('parser', 'the record of a number being parsed is not found')
        return None
    e.path = paths.pop()
    f = w[0][1]
    fl = ctx.F.types[w[0][0]]['variants'][0]['fields']
    e.names = [x[0] for x in fl]
    for k in ('national', 'prefix', 'extension', 'carrier'):
        if k not in f:
            res.und('parser', 'the record of a number being parsed has no field %s' % k)
            return None
        setattr(e, 'n_' + k, f[k])
    e.n_country = [k for k, x in enumerate(fl) if X.tname(ctx, x[1]) == SOURCE][0]
    return e


def functions(e, takes, gives=None):
    """local functions by the types they take, in any order"""
    gives = gives or (lambda r: r.split('<')[0] == e.path)
    out = []
    for i in X.localfns(e.ctx):
        if '{closure' in e.ctx.F.insts[i]['path']:
            continue
        a, r = X.sig(e.ctx, i)
        if sorted(clean(K.base_name(e.ctx, t)) for t in a) == sorted(takes) and gives(X.tname(e.ctx, r)):
            out.append(i)
    return out


def clean(n):
    return n.split('<')[0] if n.startswith('crate::') else n


def pick(e, cand):
    """those of the functions that the library itself calls, outermost"""
    return K.top(e.ctx, cand)


def where(e, i, ty):
    """position of the argument of that type"""
    a, _ = X.sig(e.ctx, i)
    p = [k for k, t in enumerate(a) if clean(K.base_name(e.ctx, t)) == ty]
    return p[0] if len(p) == 1 else None


def num(e, arg, t, k):
    """is the term field k of the working record given"""
    root, p = K.unstar(t)
    return root is arg and bool(p) and p[0] == (0, k) and len(p) <= 2


STR = ('str', 'alloc::string::String', 'alloc::borrow::Cow')
VALID = 'crate::validator::Validation'
BY = ('crate::metadata::database::Database::by_id', 'crate::metadata::database::Database::by_code')


def full(ctx, res):
    """the record and every function on the way from text to number, by type"""
    e = build(ctx, res)
    if e is None:
        return None
    sigs = [(i, [K.base_name(ctx, t) for t in X.sig(ctx, i)[0]], X.tname(ctx, X.sig(ctx, i)[1])) for i in X.localfns(ctx)]
    isnum = lambda r: r.split('<')[0] == e.path
    inresult = lambda r: r.startswith('core::result::Result<' + e.path)
    closure = lambda i: '{closure' in ctx.F.insts[i]['path']
    e.norm = [i for i, a, r in sigs if isnum(r) and any('HashMap' in x for x in a) and any(clean(x) == e.path for x in a)]
    e.strip = K.top(ctx, [i for i, a, r in sigs if not closure(i) and isnum(r) and sorted(map(clean, a)) == sorted([K.MD, e.path])])
    e.code = K.top(ctx, [i for i, a, r in sigs if not closure(i) and inresult(r) and any(clean(x) == e.path for x in a)])
    e.length = [i for i, a, r in sigs if r == VALID and any(clean(x) == e.path for x in a)]
    e.possible = [i for i, a, r in sigs if r == 'bool' and a == [VALID]]
    e.readers = K.top(ctx, [i for i, a, r in sigs if not closure(i) and e.path in r and a == ['str']])
    e.viable = [i for i, a, r in sigs if r == 'bool' and len(a) == 1 and a[0].split('<')[0] in STR]
    e.idtext = [i for i, a, r in sigs if a == [K.ID] and K.base_name(ctx, X.sig(ctx, i)[1]) == 'str']
    e.fromtext = [i for i, a, r in sigs if len(a) == 1 and a[0] == 'str' and r.startswith('core::result::Result<crate::national_number::NationalNumber')]
    e.by_id, e.by_code = ([i for i, a, r in sigs if ctx.F.insts[i]['path'] == p] for p in BY)
    e.match = K.matchers(ctx)
    e.select = K.selectors(ctx)
    entry = [i for i, a, r in sigs if r.startswith('core::result::Result<' + K.PN) and K.DB in a and any('Option<' in x and K.ID in x for x in a)]
    e.entry = [i for i in K.top(ctx, entry) if not closure(i)]
    lost = [k for k in ('norm', 'strip', 'code', 'length', 'readers', 'by_id', 'by_code', 'match', 'select', 'entry', 'fromtext') if not getattr(e, k)]
    if lost or len(e.code) != 1 or len(e.strip) != 1:
        res.und('parser', 'not found: %s' % ' '.join(lost or ['one function for the calling code and one for the national prefix']))
        return None
    return e


def kernels(e):
    return set(e.norm + e.length + e.readers + e.viable + e.idtext + e.fromtext + e.by_id + e.by_code + e.match + e.select)


def table(e, inst, opaque, deadline=200):
    """decision table; derived copies of values are the values, normalisation is a term over each text of the record"""
    ctx = e.ctx
    opaque = set(opaque)
    norm = opaque & set(getattr(e, 'norm', ()))
    a = loading.shallow(ctx, inst, only=lambda k: k in opaque - norm)
    a.one_head = False
    a.use_summaries = False
    a.pair_heads = True
    a.unroll = 40
    a.width = 600
    before = a.on_call

    def on_call(st, cal, args, dty, site):
        k = cal.get('inst')
        if k is not None and len(args) == 1 and ctx.F.insts[k].get('derived') and ctx.F.insts[k]['path'].endswith(' as core::clone::Clone>::clone'):
            v = args[0]
            while isinstance(v, Ref):
                v = a.read(st, v.loc, v.path)
            return [(st, v)]
        if k in norm:
            return normal(e, a, st, k, args, dty)
        return before(st, cal, args, dty, site)
    a.on_call = on_call
    return Run(ctx, inst, ai_=a, deadline=deadline)


def normal(e, a, st, k, args, dty):
    """what normalisation gives: the texts of the record mapped one by one, the rest as it is (C10 shows it)"""
    from engine.stdmodels import cases
    w = where(e, k, e.path)
    rec = args[w]
    while isinstance(rec, Ref):
        rec = a.read(st, rec.loc, rec.path)
    m = a.deepval(st, args[1 - w])
    while isinstance(m, Ref):
        m = a.deepval(st, a.read(st, m.loc, m.path))
    fts = [f[1] for f in a.types[dty]['variants'][0]['fields']]
    outs = [(st, [])]
    for n, ty in enumerate(fts):
        v = rec.f[n] if isinstance(rec, Agg) else a.proj(rec, 0, n, ty)
        nxt = []
        for s, done in outs:
            if n == e.n_national:
                nxt.append((s, done + [a.symval(T('norm', a.models.txt(s, v), m), ty)]))
            elif n in (e.n_prefix, e.n_extension):
                for s2, _ in cases(a.models, s, v, 0):
                    nxt.append((s2, done + [a.models.opt(ty)]))
                for s2, x in cases(a.models, s, v, 1):
                    nxt.append((s2, done + [a.models.opt(ty, a.symval(T('norm', a.models.txt(s2, x), m), a.models.fty(ty, 1, 0)))]))
            else:
                nxt.append((s, done + [v]))
        outs = nxt
    return [(s, core.A('adt', dty, 0, f)) for s, f in outs]
