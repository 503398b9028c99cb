"""C26: national number packing is lossless"""
from checks.lib import *

LEVEL = 'proof'
RULE = ('obligation = one exit of the constructor, an accessor, the text parser or the text writer; discharged when the bit provenance of every result '
        'bit (or the derived output text) equals the specified one under the facts of that path')
EXPLAIN = ('The constructor, both accessors, FromStr and Display of the national number are interpreted abstractly on symbolic inputs; the packed word '
           'returned on every accepting path is fed to the accessors and each of the 64 result bits is traced to the input bit it comes from.')
TITLE = 'A national number keeps its value and its leading zeros exactly, or is refused'
ASSUME = ['integer arithmetic semantics of the engine (linear terms, power-of-two splitting)']


def same_bits(a, st, t, want):
    b = bits(a, st, t)
    if b is None:
        return None
    return b == want


def check(ctx, res):
    P = 'crate::national_number::NationalNumber'
    new, val, zer = (inst_of(ctx, P + '::' + n) for n in ('new', 'value', 'zeros'))
    fs = find_impl(ctx, 'core::str::traits::FromStr', P, 'from_str')
    dsp = find_impl(ctx, 'core::fmt::Display', P, 'fmt')
    if None in (new, val, zer, fs, dsp):
        res.bad('anchor', 'NationalNumber::{new,value,zeros}, FromStr and Display must exist')
        return
    res.coverage['functions'] = [ctx.F.insts[i]['path'] for i in (new, val, zer, fs, dsp)]

    def observe(st, packed):
        r = []
        for i in (val, zer):
            x = Run(ctx, i, args=[R(('V', packed))], st=st.copy())
            if x.tainted or len(x.outs) != 1:
                return None
            r.append((x.a, x.outs[0][0], x.outs[0][1]))
        return r

    # 1. constructor -> accessors
    r = Run(ctx, new)
    if r.tainted:
        res.und('new', r.why())
        return
    v, z = r.args
    nok = 0
    for st, out in r.outs:
        if not (isinstance(out, Agg) and out.kind == 'adt'):
            res.und('new', 'unresolved result ' + show(out))
            continue
        if out.var == 1:
            lo = r.a.iv(st, v)
            if lo and lo[0][0] < 10 ** 15 and lo[0][0] >= 0:
                # refused although it is a legal E.164 national number?
                zi = r.a.iv(st, z)
                if zi and zi[0][0] > 15:
                    res.ok()
                else:
                    res.bad('constructor refuses', 'the constructor refuses values from %d on: national numbers of up to 15 digits must be representable' % lo[0][0])
            else:
                res.ok()
            continue
        nok += 1
        o = observe(st, out.f[0])
        if o is None:
            res.und('accessors', 'accessors not resolved')
            continue
        (a1, s1, t1), (a2, s2, t2) = o
        hi = r.a.iv(st, v)
        wv = same_bits(a1, s1, t1, bits(r.a, st, v))
        wz = same_bits(a2, s2, t2, bits(r.a, st, z))
        for nm, w, t in (('value', wv, t1), ('zeros', wz, t2)):
            if w:
                res.ok()
                res.sample('%s() of an accepted number is bit for bit the %s given' % (nm, nm))
            else:
                w2 = refute(r.a, st, t, {'value': v, 'zeros': z}[nm], v, z)
                if w2:
                    res.bad('round trip ' + nm, 'NationalNumber::new(v, z).%s() is %s, not the %s given: e.g. %s' % (nm, show(t)[:200], nm, w2))
                elif w is None:
                    res.und('round trip ' + nm, show(t)[:300])
                else:
                    res.bad('round trip ' + nm, 'NationalNumber::new(v, z).%s() is %s, not the %s given' % (nm, show(t)[:200], nm))
    if not nok:
        res.bad('constructor', 'the constructor accepts nothing')

    # 1b. conversion to an integer
    cv = None
    for k, x in enumerate(ctx.F.insts):
        if x['local'] and x.get('mir') and x['path'].endswith('>::from') and P in x['path'].split(' for ')[0]:
            b = ctx.F.body(k)
            if b.argc == 1 and ctx.F.types[b.locals[1]].get('path') == P and ctx.F.types[b.locals[0]]['k'] == 'int':
                cv = k
                x1 = Run(ctx, cv)
                x2 = Run(ctx, val, args=[R(('V', x1.args[0]))])
                if x1.tainted or x2.tainted or len(x1.outs) != 1 or len(x2.outs) != 1:
                    res.und('conversion', x1.why())
                elif bits(x1.a, x1.outs[0][0], x1.outs[0][1]) is not None and bits(x1.a, x1.outs[0][0], x1.outs[0][1]) == bits(x2.a, x2.outs[0][0], x2.outs[0][1]):
                    res.ok()
                elif bits(x1.a, x1.outs[0][0], x1.outs[0][1]) is None:
                    res.und('conversion', show(x1.outs[0][1])[:200])
                else:
                    res.bad('conversion', 'converting a national number with leading zeros to an integer gives %s, not its value' % show(x1.outs[0][1])[:200])

    # 2. text written = zeros() times "0" followed by value()
    r = Run(ctx, dsp)
    if r.tainted:
        res.und('display', r.why())
    else:
        ov = Run(ctx, val, args=[r.args[0]])
        oz = Run(ctx, zer, args=[r.args[0]])
        tv, tz = ov.outs[0][1], oz.outs[0][1]
        want = cat(T('rep', S('0'), tz), T('itoa', tv))
        for st, out in r.outs:
            if isinstance(out, Agg) and out.var == 1:
                continue
            if any(e[0] not in ('w',) for e in st.log):
                res.und('display', 'output not resolved: ' + str(st.log)[:200])
                continue
            got = cat(*[e[1] for e in st.log]) if st.log else S('')
            if textual_eq(r.a, st, got, tz, tv):
                res.ok()
                res.sample('Display writes ' + show(got)[:160])
            elif any(isinstance(x, Term) and x.op in IMPRECISE + ('pad', 'show', 'reps', 'fmt') for x in terms(got)):
                res.und('display', show(got)[:300])
            else:
                res.bad('display', 'Display writes %s instead of the leading zeros followed by the value' % show(got)[:300])

    # 3. text -> number
    r = Run(ctx, fs)
    if r.tainted:
        res.und('from_str', r.why())
        return
    t = r.args[0]
    while isinstance(t, Ref):
        t = t.loc[1]
    for st, out in r.outs:
        if not (isinstance(out, Agg) and out.var == 0):
            continue
        o = observe(st, out.f[0])
        if o is None:
            res.und('from_str', 'accessors not resolved')
            continue
        (a1, s1, t1), (a2, s2, t2) = o
        # value must be the integer read from the text from position p on, zeros must equal p, and text[..p] all '0'
        pi = [x for x in terms(t1) if isinstance(x, Term) and x.op == 'parseint']
        if len(pi) != 1 or bits(a1, s1, t1) is None or bits(a1, s1, t1) != bits(a1, s1, pi[0]):
            if len(pi) == 1 and bits(a1, s1, t1) is not None:
                res.bad('from_str value', 'the value of a parsed national number is %s' % show(t1)[:300])
            else:
                res.und('from_str value', show(t1)[:300])
            continue
        src = pi[0].args[0]
        if src is t:
            p = I(0)
        elif src.op == 'slice' and src.args[0] is t and (src.args[2] is textlen(t) or src.args[2] is T('len', t)):
            p = src.args[1]
        else:
            res.und('from_str', 'text read: ' + show(src)[:200])
            continue
        zb = bits(a2, s2, t2)
        zc = [x for x in terms(t2) if isinstance(x, Term)]
        eq = False
        if zb is not None:
            zt = unbits(zb)
            if zt is not None:
                eq = prove_eq(a2, s2, zt, p)
        cs = r.a.cs(st, src)
        if not core.iv_subset(cs, ((48, 57),)):
            res.bad('from_str sign', 'a national number text may contain %s besides digits' % ','.join(repr(chr(a)) for a, b in cs if not 48 <= a <= 57)[:80])
        elif eq:
            zs = cs_eq(r.a, st, t, p)
            if zs == core.ALLCS:
                res.und('from_str skipped', show(p)[:200])
            elif core.iv_subset(zs, ((48, 48),)):
                res.ok()
                res.sample('FromStr: value = integer of text[p..], zeros = p, text[..p] all zero; p = ' + show(p)[:80])
            else:
                res.bad('from_str skipped', 'characters other than 0 are skipped before the value')
        else:
            if zb is not None and zt is not None and r.a.prove_false(st, addc(sub(zt, p), -1)) is False:
                res.und('from_str zeros', '%s vs %s' % (show(t2)[:200], show(p)[:200]))
            else:
                res.und('from_str zeros', '%s vs %s' % (show(t2)[:200], show(p)[:200]))


def cs_eq(a, st, t, p):
    """characters of t[..p], also through prefixes of provably the same length"""
    if p is I(0):
        return ()
    r = a.cs(st, core.slice_(t, I(0), p))
    for k, f in st.facts.items():
        if isinstance(k, tuple) and k[0] == 'cs' and k[1].op == 'slice' and k[1].args[0] is t and k[1].args[1] is I(0) and prove_eq(a, st, k[1].args[2], p):
            r = core.iv_and(r, f)
    return r


def unbits(b):
    """the term whose bits these are"""
    if not any(x for x in b):
        return I(0)
    if all(x in (0, 1) for x in b):
        return I(sum(x << i for i, x in enumerate(b)))
    at = {x[0] for x in b if isinstance(x, tuple)}
    if len(at) == 1 and all(x == 0 or isinstance(x, tuple) and x[1] == i for i, x in enumerate(b)):
        return next(iter(at))
    return None


def prove_eq(a, st, x, y):
    if x is y:
        return True
    return bool(a.prove(st, sub(x, y)) and a.prove(st, sub(y, x)))


def textual_eq(a, st, got, tz, tv):
    ps = list(got.args) if got.op == 'cat' else [got]
    bz, bv = bits(a, st, tz), bits(a, st, tv)
    if len(ps) == 2 and ps[0].op == 'rep' and ps[0].args[0] is S('0') and ps[1].op == 'itoa':
        return bits(a, st, ps[0].args[1]) == bz and bz is not None and bits(a, st, ps[1].args[0]) == bv and bv is not None
    if len(ps) == 1 and ps[0].op == 'itoa' and a.iv(st, tz) == ((0, 0),):
        b = bits(a, st, ps[0].args[0])
        return b is not None and bv is not None and (b == bv or prove_eq(a, st, ps[0].args[0], tv))
    return got is cat(T('rep', S('0'), tz), T('itoa', tv))


def ev(t, env):
    """constant folding of a term"""
    if t in env:
        return env[t]
    if t.op == 'int':
        return t.args[0]
    if t.op == 'lin':
        r = t.args[0]
        for x, c in t.args[1]:
            y = ev(x, env)
            if y is None:
                return None
            r += c * y
        return r
    if t.op in ('and', 'or', 'xor', 'shl', 'shr', 'rem', 'div', 'mul'):
        x, y = ev(t.args[0], env), t.args[1]
        y = ev(y, env) if isinstance(y, Term) else y
        if x is None or y is None or not isinstance(y, int):
            return None
        try:
            return {'and': x & y, 'or': x | y, 'xor': x ^ y, 'shl': (x << y) & (2 ** 64 - 1) if y < 64 else None, 'shr': x >> y if y < 64 else None,
                    'mul': x * y, 'rem': x % y if y else None, 'div': x // y if y else None}[t.op]
        except Exception:
            return None
    if t.op == 'trunc':
        x = ev(t.args[0], env)
        return None if x is None else x & ((1 << t.args[1]) - 1)
    return None


def refute(a, st, t, want, v, z):
    for x in (0, 1, 7, 255, 256, 65535, 12345678, 10 ** 9, 2 ** 32, 10 ** 12, 10 ** 15 - 1, 2 ** 50, 2 ** 55 + 1, 2 ** 56 - 1):
        for y in (0, 1, 2, 3, 9, 15, 16, 100, 127, 128, 255):
            if not inside(a.iv(st, v), x) or not inside(a.iv(st, z), y):
                continue
            env = {v: x, z: y}
            try:
                g = ev(t, env)
            except RecursionError:
                return None
            if g is not None and g != env[want]:
                return 'v=%d z=%d gives %d' % (x, y, g)
    return None


def inside(iv, x):
    return any(a <= x <= b for a, b in iv)
