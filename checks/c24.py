"""C24: equality and hashing of numbers"""
from checks.lib import *

LEVEL = 'proof'
RULE = ('obligation = (type, exit of its eq) and (type, value fed to the hasher); an eq exit is discharged when its path facts entail equality of every part '
        '(true exits) or contradict equality of all parts (false exits); a hashed value when it is made of compared parts only')
EXPLAIN = ('eq and hash of every public value type are interpreted abstractly on two symbolic values; the compared parts are enumerated from the type '
           'definitions (every leaf except the country-code source) and each exit is checked against them; every value fed to the hasher must be a compared part.')
TYPES = ['crate::phone_number::PhoneNumber', 'crate::country::Code', 'crate::national_number::NationalNumber', 'crate::extension::Extension',
         'crate::carrier::Carrier', 'crate::country::Source', 'crate::country::Id', 'crate::phone_number::Type', 'crate::validator::Validation',
         'crate::formatter::Mode']
SOURCE = 'crate::country::Source'


def leaves(ctx, a, v0, v1, ty, top, out, path='', guard=()):
    """(path, term0, term1, kind, guard) ; guard = ((discr0, discr1, value), ...)"""
    t = ctx.F.types[ty]
    c = a.cls(ty)
    if c == 'text':
        out.append((path, v0, v1, 'text', guard))
        return
    if t['k'] in ('int', 'char', 'bool'):
        out.append((path, v0, v1, 'int', guard))
        return
    if t['k'] == 'adt':
        if t['path'] == SOURCE and not top:
            return
        if len(t['variants']) == 1:
            for n, (nm, fty, pub) in enumerate(t['variants'][0]['fields']):
                if fty is None:
                    continue
                x0 = part(v0, 0, n, fty)
                x1 = part(v1, 0, n, fty)
                leaves(ctx, a, x0, x1, fty, False, out, path + '.' + nm, guard)
            return
        d0, d1 = T('discr', v0), T('discr', v1)
        out.append((path + '?', d0, d1, 'int', guard))
        for k, w in enumerate(t['variants']):
            for n, (nm, fty, pub) in enumerate(w['fields']):
                if fty is None:
                    continue
                leaves(ctx, a, part(v0, k, n, fty), part(v1, k, n, fty), fty, False, out, path + '.' + w['name'] + '.' + nm, guard + ((d0, d1, k),))
        return
    out.append((path, v0, v1, 'other', guard))


def part(v, var, n, ty):
    if isinstance(v, Agg) and v.kind == 'adt' and v.var == var:
        return v.f[n]
    return T('fld', v, var, n, ty=ty)


def deref(v):
    while isinstance(v, Ref) and v.loc[0] == 'V' and not v.path:
        v = v.loc[1]
    return v


def eqterm(a, st, x, y, kind):
    if x is y:
        return core.TRUE
    if kind == 'text':
        return a.models.eqs(x, y)
    return a.eqi(st, x, y)


def check(ctx, res):
    analysed = []
    for path in TYPES:
        eq = find_impl(ctx, 'core::cmp::PartialEq', path, 'eq')
        hs = find_impl(ctx, 'core::hash::Hash', path, 'hash')
        if eq is None:
            if path in TYPES[:5]:
                res.bad('anchor ' + path, path + ' has no equality')
            continue
        r = Run(ctx, eq)
        if r.tainted:
            res.und('eq ' + path, r.why())
            continue
        a = r.a
        v0, v1 = (deref(x) for x in r.args)
        ty = ctx.F.types[ctx.F.body(eq).locals[1]]['ty']
        lv = []
        leaves(ctx, a, v0, v1, ty, True, lv)
        analysed.append('%s (%d parts: %s)' % (path, len(lv), ', '.join(l[0] for l in lv)))
        for st, out in r.outs:
            outs = []
            if out is core.TRUE:
                outs.append((st, True))
            elif out is core.FALSE:
                outs.append((st, False))
            elif isinstance(out, Term):
                p, q = a.branch(st.copy(), out)
                if p is not None:
                    outs.append((p, True))
                if q is not None:
                    outs.append((q, False))
            else:
                res.und('eq ' + path, show(out)[:200])
                continue
            for s, val in outs:
                if val:
                    miss = []
                    for nm, x, y, kind, guard in lv:
                        dead = False
                        for d0, d1, k in guard:
                            for d in (d0, d1):
                                w = a.iv(s, d)
                                if not any(lo <= k <= hi for lo, hi in w):
                                    dead = True
                        if dead:
                            continue
                        if a.truth(s, eqterm(a, s, x, y, kind)) is not True:
                            miss.append(nm)
                    if miss:
                        res.bad('eq %s ignores %s' % (path, miss[0]), '%s: two values compare equal although %s may differ' % (path, ', '.join(miss)))
                    else:
                        res.ok()
                else:
                    cur = s.copy()
                    for nm, x, y, kind, guard in lv:
                        p, q = a.branch(cur, eqterm(a, cur, x, y, kind))
                        if p is None:
                            cur = None
                            break
                        cur = p
                    if cur is None:
                        res.ok()
                    else:
                        extra = [show(k)[:80] for k in s.facts if isinstance(k, core.Node)]
                        if any(isinstance(x, Term) and x.op in IMPRECISE for k in s.facts for x in terms(k)):
                            res.und('eq ' + path, 'false exit not understood')
                        else:
                            res.bad('eq %s false' % path, '%s: two values whose compared parts are all equal may compare unequal (path facts: %s)' % (path, '; '.join(extra[:4])))
        if hs is None:
            if path in TYPES[:5]:
                res.bad('anchor hash ' + path, path + ' has no hash')
            continue
        h = Run(ctx, hs)
        if h.tainted:
            res.und('hash ' + path, h.why())
            continue
        self_ = deref(h.args[0])
        if self_ is not v0:
            res.und('hash ' + path, 'arguments differ')
            continue
        okset = {l[1] for l in lv}
        for st, out in h.outs:
            for e in st.log:
                if e[0] != 'h':
                    res.und('hash ' + path, 'effect ' + str(e[0]))
                    continue
                badp = outside(e[1], okset, v0)
                if badp:
                    res.bad('hash %s' % path, '%s: the hash depends on %s, which equality does not compare' % (path, badp[:200]))
                else:
                    res.ok()
        res.sample('%s: eq compares {%s}; hash reads a subset' % (path, ', '.join(l[0] for l in lv)))
    res.coverage['types'] = analysed
    if len(analysed) < 5:
        res.bad('floor', 'only %d types analysed' % len(analysed))


def outside(t, okset, root):
    """a projection of root not below a compared part"""
    if t in okset:
        return None
    if isinstance(t, Term):
        if t is root:
            return show(t)
        if t.op == 'fld' or t.op == 'discr':
            x = t
            while isinstance(x, Term) and x.op in ('fld', 'discr') and x not in okset:
                x = x.args[0]
            if x in okset:
                return None
            if x is root or isinstance(x, Agg):
                return show(t)
            return outside(x, okset, root)
        for x in t.args:
            if isinstance(x, tuple):
                for y in x:
                    for z in (y if isinstance(y, tuple) else (y,)):
                        if isinstance(z, core.Node):
                            r = outside(z, okset, root)
                            if r:
                                return r
            elif isinstance(x, core.Node):
                r = outside(x, okset, root)
                if r:
                    return r
    if isinstance(t, Agg):
        for x in t.f:
            r = outside(x, okset, root)
            if r:
                return r
    return None
