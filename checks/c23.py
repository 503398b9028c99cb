"""C23: the given database is the only one consulted"""
from checks import xmltab as X, loading, c19
from checks import kernels as K
from checks.lib import *

LEVEL = 'proof'
RULE = ('obligation = place where a function hands a database (or a value holding one) to another, value holding a database that a function returns, pair of operations with and without a '
        'database argument; discharged when the database handed on is the one the function was given, the bundled one only where none was given, and when the operation without the argument '
        'is the operation with the bundled one')
EXPLAIN = ('Modular dataflow: each function that takes a database, directly or inside a value, is interpreted on its own with every other function symbolic, and each database argument is traced '
           'to where it came from. The bundled database is one named constant; a function that holds an optional database may use it only on paths where the option is empty.')
ASSUME = ['library models are correct', 'the operations keep no state of their own (C05)']


def holders(ctx):
    """local types with a database inside -> {type index: [path to the optional or plain reference]}"""
    out = {}
    for i, t in enumerate(ctx.F.types):
        if t['k'] == 'adt' and t.get('local') and t['path'] != K.DB and t.get('akind') == 'struct':
            for k, f in enumerate(t['variants'][0]['fields']):
                if f[1] is None:
                    continue
                n = X.tname(ctx, f[1])
                if K.base_name(ctx, f[1]) == K.DB:
                    out[i] = (k, False)
                elif n.startswith('core::option::Option<') and K.DB in n and '&' in n:
                    out[i] = (k, True)
    return out


def deref_ty(ctx, t):
    while ctx.F.types[t]['k'] == 'ref':
        t = ctx.F.types[t]['ty']
    return t


class Fn:
    def __init__(self, ctx, i, hold):
        self.i = i
        self.path = ctx.F.insts[i]['path']
        self.args, self.ret = X.sig(ctx, i)
        self.db = [k for k, t in enumerate(self.args) if K.base_name(ctx, t) == K.DB]
        self.hold = [k for k, t in enumerate(self.args) if deref_ty(ctx, t) in hold]
        self.gives = deref_ty(ctx, self.ret) if deref_ty(ctx, self.ret) in hold else None


def isdefault(ctx, v):
    r, p = K.unstar(v)
    return isinstance(r, Term) and r.op in ('lazy', 'static')


def run(ctx, f, hold, res, extra=()):
    a = loading.shallow(ctx, f.i, only=lambda k: '{closure' not in ctx.F.insts[k]['path'] and K.base_name(ctx, X.sig(ctx, k)[1]) != K.DB)
    a.one_head = False
    seen = []
    old = a.on_call

    def hook(st, cal, args, dty, site):
        j = cal.get('inst')
        if j is not None and ctx.F.insts[j]['local'] and '{closure' not in ctx.F.insts[j]['path']:
            g, _ = X.sig(ctx, j)
            for k, (t, v) in enumerate(zip(g, args)):
                if K.base_name(ctx, t) == K.DB or deref_ty(ctx, t) in hold:
                    seen.append((st.copy(), j, k, t, K.plain(a, st, v)))
        return old(st, cal, args, dty, site)
    a.on_call = hook
    r = Run(ctx, f.i, ai_=a, deadline=120)
    return r, seen


def given(ctx, f, hold, r):
    """roots a database may come from"""
    dbs = {K.unstar(r.args[k]) if K.unstar(r.args[k])[1] else (K.unstar(r.args[k])[0], ()) for k in f.db}
    opt = {}
    for k in f.hold:
        fld, o = hold[deref_ty(ctx, f.args[k])]
        root, p = K.unstar(r.args[k])
        opt[(root, p + ((0, fld),))] = o
    return dbs, opt


def judge(ctx, f, dbs, opt, st, v):
    """None when the database v is a right one here, else a message"""
    if not isinstance(v, (Term, Ref)):
        return '?'
    root, p = K.unstar(v)
    if (root, p) in dbs:
        return None
    for (r0, p0), o in opt.items():
        if root is r0 and (p == p0 + ((1, 0),) if o else p == p0):
            return None
    if isdefault(ctx, v):
        if not dbs and not opt:
            return None
        if dbs:
            return 'the bundled database is consulted although a database was given'
        for (r0, p0), o in opt.items():
            for q, w in st.facts.items():
                if isinstance(q, Term) and q.op == 'discr' and K.unstar(q.args[0]) == (r0, p0) and w == ((0, 0),):
                    return None
        return 'the bundled database is consulted although a database may have been given'
    return '?'


def kept(ctx, f, hold, r, st, v, dbs, opt):
    """the database inside a returned value"""
    k, o = hold[f.gives]
    if isinstance(v, Term):
        root, p = K.unstar(v)
        if v.op == 'call':
            return None
        for (r0, p0) in opt:
            if root is r0 and p == p0[:-1]:
                return None if not f.db else 'a value is returned with the database it had before instead of the one given'
        return '?'
    if not isinstance(v, Agg):
        return '?'
    x = field_of(v, k)
    if o:
        x2 = r.a.deepval(st, x) if isinstance(x, Ref) else x
        if isinstance(x2, Agg) and x2.kind == 'adt':
            if x2.var == 0:
                return 'the database given is forgotten' if f.db else 'the database of the value is forgotten' if f.hold else None
            if f.db or not f.hold:
                return judge(ctx, f, dbs, {}, st, x2.f[0])
            return judge(ctx, f, dbs, opt, st, x2.f[0])
        if isinstance(x2, Term):
            root, p = K.unstar(x2)
            for (r0, p0) in opt:
                if root is r0 and p == p0:
                    return None if not f.db else 'a value is returned with the database it had before instead of the one given'
        return '?'
    return judge(ctx, f, dbs, opt, st, x)


def check(ctx, res):
    hold = holders(ctx)
    fns = []
    for i in X.localfns(ctx):
        p = ctx.F.insts[i]['path']
        if '{closure' in p:
            continue
        f = Fn(ctx, i, hold)
        names = str(ctx.F.insts[i].get('mir'))
        if (f.db or f.hold or f.gives is not None or 'metadata::database' in names) and not p.startswith('<' + K.DB) and not p.startswith(K.DB + '::'):
            fns.append(f)
    n = 0
    for f in fns:
        key = f.path.replace('crate::', '')
        r, seen = run(ctx, f, hold, res)
        if r.timeout or r.analysis_fail:
            res.und(key, r.why())
            continue
        dbs, opt = given(ctx, f, hold, r)
        for st, j, k, t, v in seen:
            n += 1
            callee = ctx.F.insts[j]['path']
            if K.base_name(ctx, t) == K.DB:
                m = judge(ctx, f, dbs, opt, st, v)
            elif isinstance(v, Term) and (v.op == 'call' or K.unstar(v)[0] in {x for x, _ in opt} and not K.unstar(v)[1]):
                m = None
            elif isinstance(v, Agg):
                k2, o = hold[deref_ty(ctx, t)]
                x = field_of(v, k2)
                if o and isinstance(x, Agg) and x.kind == 'adt':
                    m = judge(ctx, f, dbs, opt, st, x.f[0]) if x.var == 1 else \
                        'the bundled database is consulted although a database was given' if dbs else '?' if opt else None
                    if x.var == 0 and opt and not dbs and any(isinstance(q, Term) and q.op == 'discr' and K.unstar(q.args[0]) in opt and w == ((0, 0),) for q, w in st.facts.items()):
                        m = None
                elif isinstance(x, Term) and K.unstar(x) in opt:
                    m = None
                else:
                    m = '?'
            else:
                m = '?'
            if m is None:
                res.ok()
            elif m == '?':
                res.und(key, 'database handed to %s not traced: %s' % (callee, show(v)[:100]))
            else:
                res.bad(key, '%s: %s (call of %s)' % (key, m, callee))
        if f.gives is not None:
            for st, v in r.outs:
                n += 1
                v = r.a.deepval(st, v)
                m = kept(ctx, f, hold, r, st, v, dbs, opt)
                if m is None:
                    res.ok()
                elif m == '?':
                    res.und(key, 'returned value not traced: %s' % show(v)[:100])
                else:
                    res.bad(key + ' result', '%s: %s' % (key, m))
        elif f.db and not r.tainted and not seen and X.tname(ctx, f.ret) != '()':
            res.sample('%s hands no database on' % key)
    res.coverage['functions'] = len(fns)
    res.coverage['database arguments and results traced'] = n
    if n < 12:
        res.und('floor', 'only %d places found' % n)
    pairs(ctx, res, fns)


def pairs(ctx, res, fns):
    by = {}
    for i in X.localfns(ctx):
        by.setdefault(ctx.F.insts[i]['path'], i)
    n = 0
    takes = {f.i for f in fns if f.db}
    makes = {f.i for f in fns if f.gives is not None}
    for p, i in sorted(by.items()):
        j = by.get(p + '_with')
        if j is None or j not in takes:
            continue
        n += 1
        key = 'pair ' + p.replace('crate::', '')
        dflt = lambda v: isinstance(v, Term) and isdefault(ctx, v)
        # the operation with the database symbolic
        r = K.table(ctx, i, (takes - makes - {i}) | {j})
        a, _ = X.sig(ctx, j)
        dk = [k for k, t in enumerate(a) if K.base_name(ctx, t) == K.DB][0]
        want = [K.unstar(x) for x in r.args]
        via, other, wrong = 0, [], None
        for st, v in r.outs if not r.tainted else []:
            v = K.plain(r.a, st, v)
            if not (isinstance(v, Term) and v.op == 'call' and v.args[1] == j):
                other.append((st, v))
                continue
            vals = list(v.args[2])
            d = vals.pop(dk)
            via += 1
            if not dflt(d) or [K.unstar(x) for x in vals] != want:
                wrong = vals
        if wrong is not None:
            (res.bad if all(precise(x) for x in wrong if isinstance(x, core.Node)) else res.und)(
                key, 'the operation without a database passes %s on to the one with it' % ', '.join(show(x)[:40] for x in wrong))
            continue
        if via and not other:
            res.ok()
            continue
        if via:
            st, v = other[0]
            (res.bad if all(precise(x) for x in list(st.facts) + [v] if isinstance(x, core.Node)) else res.und)(
                key, 'the operation without a database gives %s without asking the one with it' % show(v)[:60])
            continue
        op = takes - makes - {i, j}
        r = K.table(ctx, i, op)
        s = K.table(ctx, j, op)
        if r.tainted or s.tainted:
            res.und(key, (r.why() or s.why())[:200])
            continue
        # argument k of the one with the database is argument k (or k-1) of the other
        m = {}
        rest = [k for k in range(len(a)) if k != dk]
        dd = [q for st, v in r.outs for x in [v] + list(st.facts) for q in terms(r.a.deepval(st, x) if x is v else x) if dflt(q)]
        lazy = dd[0] if dd else None
        for u, k in enumerate(rest):
            m[K.unstar(s.args[k])[0]] = K.unstar(r.args[u])[0]
        if lazy is not None:
            m[T('*', K.unstar(s.args[dk])[0])] = lazy
        A = {(frozenset(st.facts.items()), forget(r.a.deepval(st, v))) for st, v in r.outs}
        Bx = {(frozenset((core.subst(q, m) if isinstance(q, core.Node) else q, x) for q, x in st.facts.items()), forget(core.subst(s.a.deepval(st, v), m))) for st, v in s.outs}
        if A == Bx:
            res.ok()
        elif holding(ctx, r, s, m):
            res.ok()
        else:
            exact = all(precise(x) for st, v in r.outs + s.outs for x in [r.a.deepval(st, v)] + list(st.facts) if isinstance(x, core.Node)) and lazy is not None
            (res.bad if exact else res.und)(key, 'the operation without a database is not the one with the bundled database: %s against %s' % (
                sorted(show(x[1])[:80] for x in A)[:2], sorted(show(x[1])[:80] for x in Bx)[:2]))
    res.coverage['pairs of operations'] = n
    if n < 4:
        res.und('pairs', 'only %d found' % n)


def forget(v):
    return v


def holding(ctx, r, s, m):
    """both give a value holding a database, equal but for the database: none there, the given one here"""
    if len(r.outs) != 1 or len(s.outs) != 1:
        return False
    x, y = r.a.deepval(*r.outs[0]), s.a.deepval(*s.outs[0])
    if not (isinstance(x, Agg) and isinstance(y, Agg) and x.kind == y.kind == 'adt' and len(x.f) == len(y.f)):
        return False
    k = holders(ctx).get(x.ty)
    if k is None:
        return False
    for i in range(len(x.f)):
        if i == k[0]:
            if k[1] and not (isinstance(x.f[i], Agg) and x.f[i].var == 0):
                return False
        elif x.f[i] is not core.subst(y.f[i], m):
            return False
    return True
