"""C13: validity, type and metadata of a number agree"""
from checks import xmltab as X, loading, c19
from checks import kernels as K
from checks.lib import *

LEVEL = 'proof'
RULE = ('obligation = exit of an operation that reports validity or type, exit of the function that decides the type of a text, exit of the function that matches a text against a '
        'description; discharged when the exit uses the record and the text the others use, and agrees with the specified table')
EXPLAIN = ('Decision tables by abstract interpretation. The functions that decide the type, match a description and choose a region are found by their signatures and kept symbolic while the '
           'operations above them are tabulated; each is then tabulated itself.')
ASSUME = ['library models of regex, text and maps are correct', 'the patterns of a description are anchored when they are compiled (C19)']

ORDER = [('premium_rate', 'PremiumRate'), ('toll_free', 'TollFree'), ('shared_cost', 'SharedCost'), ('voip', 'Voip'), ('personal_number', 'PersonalNumber'), ('pager', 'Pager'),
         ('uan', 'Uan'), ('voicemail', 'Voicemail')]


def isref(x, y):
    """the same place"""
    return K.unstar(x) == K.unstar(y) or x is y


def clash(f, g):
    for q, v in f.items():
        w = g.get(q)
        if w is None or w == v:
            continue
        if isinstance(v, bool) or isinstance(w, bool):
            if v is not w:
                return True
        elif isinstance(v, tuple) and isinstance(w, tuple) and all(len(p) == 2 for p in v + w):
            if not any(max(a, c) <= min(b, d) for a, b in v for c, d in w):
                return True
    return False


def fits(p, t, hole, got):
    """t has the form p, with one place for `hole`"""
    if isinstance(p, Term) and p.op == '*' and p.args[0] is hole:
        got.append(K.unstar(t))
        return True
    if isinstance(p, Term):
        return isinstance(t, Term) and p.op == t.op and len(p.args) == len(t.args) and all(fits(x, y, hole, got) for x, y in zip(p.args, t.args))
    return p is t or type(p) is type(t) and not isinstance(p, core.Node) and p == t


def national(ctx):
    """forms of the two parts of the national text of a number"""
    out = []
    for n in ('zeros', 'value'):
        i = inst_of(ctx, 'crate::national_number::NationalNumber::' + n)
        r = Run(ctx, i, deadline=60) if i is not None else None
        if r is None or r.tainted or len(r.outs) != 1:
            return None
        x = K.plain(r.a, *r.outs[0])
        if not isinstance(x, Term):
            return None
        out.append((x, K.unstar(r.args[0])[0]))
    return out if resolved(ctx) else None


def resolved(ctx):
    """is the text written for a national number one the rules can recognise (what it must be is C26's)"""
    d = find_impl(ctx, 'core::fmt::Display', 'crate::national_number::NationalNumber', 'fmt')
    r = Run(ctx, d, deadline=60) if d is not None else None
    if r is None or r.tainted:
        return False
    for st, v in r.outs:
        if isinstance(v, Agg) and v.var == 1:
            continue
        if any(x[0] != 'w' for x in st.log):
            return False
        t = cat(*[x[1] for x in st.log]) if st.log else S('')
        if any(isinstance(x, Term) and x.op in IMPRECISE + ('pad', 'show', 'reps', 'fmt') for x in terms(t)):
            return False
    return len(r.outs) < 3


def text_state(t, num, forms):
    """True: the whole national text of num; False: certainly something else; None: not known"""
    if not forms:
        return None
    if isinstance(t, Term) and t.op == 'cat' and len(t.args) == 2:
        a, b = t.args
        if isinstance(a, Term) and a.op == 'rep' and a.args[0] is core.S('0') and isinstance(b, Term) and b.op == 'itoa':
            g = []
            if fits(forms[0][0], a.args[1], forms[0][1], g) and fits(forms[1][0], b.args[0], forms[1][1], g) and len(set(g)) == 1 and g[0][0] is num and len(g[0][1]) == 1:
                return True
    if isinstance(t, Term) and precise(t):
        return False
    return None


def roots(ctx):
    out = []
    for i in X.localfns(ctx):
        a, r = X.sig(ctx, i)
        p = ctx.F.insts[i]['path']
        names = [K.base_name(ctx, t) for t in a]
        if sorted(names) == sorted([K.DB, K.PN]) and X.tname(ctx, r) in (K.TY, 'bool') and '{closure' not in p:
            out.append((i, p, names.index(K.PN), names.index(K.DB), X.tname(ctx, r)))
    return out


def agreement(ctx, res, nts, sels):
    mi = inst_of(ctx, K.PN + '::metadata')
    if mi is None or not nts:
        res.und('operations', 'metadata of a number or the classification of a text not found')
        return
    unk = (K.variants(ctx, K.TY) or []).index('Unknown')
    m = K.table(ctx, mi, set(nts) | set(sels))
    if m.tainted:
        res.und('operations', m.why())
        return
    me = []
    for st, v in m.outs:
        v = m.a.deepval(st, v)
        if not (isinstance(v, Agg) and v.kind == 'adt' and v.var in (0, 1)):
            res.und('metadata of a number', show(v)[:80])
            return
        me.append((dict(st.facts), v.f[0] if v.var else None))
    num, dbt = K.unstar(m.args[0])[0], K.unstar(m.args[1])[0]
    forms = national(ctx)
    if not forms:
        res.und('operations', 'the text of a national number is not recognised')
        return

    def whole(t):
        return text_state(t, num, forms)
    rs = roots(ctx)
    n = 0
    for i, p, ni, di, ret in rs:
        key = 'operation ' + p.split('::', 1)[1]
        if i in sels or i in nts:
            continue
        r = K.table(ctx, i, set(nts) | set(sels))
        if r.tainted or not r.outs:
            res.und(key, r.why() or 'no exit')
            continue
        ren = {K.unstar(r.args[ni])[0]: num, K.unstar(r.args[di])[0]: dbt}
        sb = (lambda x: x) if ni == 0 and di == 1 else lambda x: core.subst(x, ren)
        for st, v in r.outs:
            for want in ((True, False) if ret == 'bool' else (None,)):
                s = st.copy()
                if want is not None:
                    b = K.plain(r.a, s, v)
                    if isinstance(b, Term) and b.op == 'bool':
                        if bool(b.args[0]) != want:
                            continue
                    elif not isinstance(b, Term):
                        res.und(key, show(b)[:80])
                        continue
                    elif r.a.assume(s, b, want) is False:
                        continue
                f = {sb(q) if isinstance(q, Term) else q: x for q, x in s.facts.items()}
                cand = {None if x is None else sb(x) for g, x in me if not clash(f, g)}
                calls = {}
                for q, x in f.items():
                    if isinstance(q, Term) and q.op == 'discr' and isinstance(q.args[0], Term) and q.args[0].op == 'call' and q.args[0].args[1] in nts:
                        calls[q.args[0]] = x
                out = K.plain(r.a, s, v)
                out = sb(out) if isinstance(out, Term) else out
                got = out if isinstance(out, Term) and out.op == 'call' and out.args[1] in nts else None
                if got is not None:
                    calls.setdefault(got, None)
                n += 1
                known = all(precise(q) for q in f if isinstance(q, Term))
                alarm = res.bad if known else res.und
                if len(cand) != 1:
                    # several records possible: the exit does not depend on the choice of the record
                    con = const_result(out, want, unk)
                    if con is not None and con is True and None in cand and len(cand) > 1 and not calls:
                        alarm(key, 'an exit reports %s without asking for the type of the number under its metadata' % ('a valid number' if want else 'a type'))
                    elif con is False and not calls:
                        alarm(key, 'an exit reports %s without asking for the type of the number under its metadata' % ('an invalid number' if want is not None else 'an unknown type'))
                    else:
                        res.und(key, '%d records possible' % len(cand))
                    continue
                M = cand.pop()
                if M is None:
                    ok = want is False or isinstance(out, Agg) and out.var == unk
                    if ok:
                        res.ok()
                    else:
                        alarm(key, 'a number without metadata is reported %s' % ('valid' if want else 'with a type'))
                    continue
                right = []
                for c in calls:
                    margs = c.args[2]
                    recs = [x for x in margs if isref(x, M) or isref(x, T('fld', M, 0, 0))]
                    txt = [x for x in margs if x not in recs]
                    if not recs:
                        alarm(key, 'the type is decided by other metadata than the metadata of the number: %s' % show(margs[0])[:120])
                    elif len(txt) != 1:
                        res.und(key, 'arguments not recognised')
                    else:
                        w = whole(txt[0])
                        if w is False:
                            alarm(key, 'the type is decided on %s instead of the whole national number' % show(txt[0])[:100])
                        elif w is None:
                            res.und(key, 'text not recognised: %s' % show(txt[0])[:80])
                        else:
                            right.append(c)
                if len(calls) != len(right):
                    continue
                if not right:
                    alarm(key, 'an exit reports %s of a number with metadata without asking for its type' % ('the validity' if want is not None else 'the type'))
                    continue
                if len(right) > 1:
                    res.und(key, 'several calls')
                    continue
                iv = calls[right[0]]
                if want is None:
                    if got is not None or isinstance(out, Agg) and iv == ((out.var, out.var),):
                        res.ok()
                    elif isinstance(out, Agg) and isinstance(iv, tuple):
                        alarm(key, 'a number is reported with another type than that of its national text')
                    else:
                        res.und(key, show(out)[:80])
                elif iv is None:
                    alarm(key, 'the validity does not depend on the type of the number')
                else:
                    has = any(a <= unk <= b for a, b in iv)
                    only = iv == ((unk, unk),)
                    if want and not has or not want and only:
                        res.ok()
                    else:
                        alarm(key, 'a number %s is reported %s' % (('whose type is unknown' if want and only else 'with a type') if only or not has else 'of some type', 'valid' if want else 'invalid'))
        res.sample('%s: %d exits' % (p, len(r.outs)))
    res.coverage['operations'] = len(rs)
    res.coverage['exits paired'] = n
    for g, M in me:
        for q, x in g.items():
            for c in terms(q) if isinstance(q, Term) else ():
                if isinstance(c, Term) and c.op == 'call' and c.args[1] in sels:
                    ts = [y for y in c.args[2] if isinstance(y, Term) and ctxt(ctx, y)]
                    ws = [whole(y) for y in ts]
                    if True in ws:
                        res.ok()
                    elif ws and all(w is False for w in ws):
                        res.bad('metadata of a number', 'the metadata of a number is chosen by %s instead of its whole national number' % show(ts[0])[:100])
                    else:
                        res.und('metadata of a number', 'text of the choice not recognised')


def ctxt(ctx, y):
    return y.op in ('cat', 'itoa', 'rep', 'str', 'slice')


def const_result(out, want, unk):
    if want is not None:
        return want
    return out.var != unk if isinstance(out, Agg) else None


# ---- the type of a text

def kernel(ctx, res, nt, mats):
    name = ctx.F.insts[nt]['path']
    key = 'type of a text'
    a, r = X.sig(ctx, nt)
    di = [k for k, t in enumerate(a) if K.base_name(ctx, t) in (K.MD, K.DS)][0]
    r = K.table(ctx, nt, mats)
    if r.tainted or not r.outs:
        res.und(key, r.why() or 'no exit')
        return
    ds = c19.accessor(ctx, res, K.MD + '::descriptors')
    ix = {}
    for n in ['general', 'fixed_line', 'mobile'] + [x for x, _ in ORDER]:
        ix[n] = c19.accessor(ctx, res, K.DS + '::' + n)
    pat = pattern_field(ctx)
    if ds is None or None in ix.values():
        return
    root = T('*', K.unstar(r.args[di])[0])
    if K.base_name(ctx, a[di]) == K.MD:
        root = T('fld', root, 0, ds)
    text = K.unstar(r.args[1 - di])[0]
    vs = K.variants(ctx, K.TY)
    gen = T('fld', root, 0, ix['general'])
    opt = {n: T('fld', root, 0, k) for n, k in ix.items() if n != 'general'}
    n = 0
    for st, v in r.outs:
        v = K.plain(r.a, st, v)
        if not (isinstance(v, Agg) and v.kind == 'adt'):
            res.und(key, show(v)[:80])
            continue
        ty = vs[v.var]
        other = []
        match = {}
        same = None
        for q, x in K.facts(r, st):
            if q.op == 'call' and q.args[1] in mats and isinstance(x, bool):
                d = [y for y in q.args[2] if K.unstar(y)[0] is not text and y is not text]
                t = [y for y in q.args[2] if y not in d]
                if len(d) != 1 or len(t) != 1:
                    other.append('a description is matched against %s' % ', '.join(show(y)[:60] for y in q.args[2]))
                    continue
                w = 'general' if isref(d[0], gen) else None
                for k, o in opt.items():
                    if isref(d[0], T('fld', o, 1, 0)):
                        w = k
                if w is None:
                    other.append(None)
                else:
                    match[w] = x
            elif q.op == 'discr':
                for k, o in opt.items():
                    if isref(q.args[0], o) and x == ((0, 0),):
                        match[k] = False
            elif q.op == 'eqs' and isinstance(x, bool):
                pl = [K.unstar(y.args[0]) if isinstance(y, Term) and y.op == 'rxsrc' else None for y in q.args]
                if pat is not None and sorted(map(str, pl)) == sorted(str(K.unstar(T('fld', T('fld', opt[k], 1, 0), 0, pat))) for k in ('fixed_line', 'mobile')):
                    same = x
                else:
                    other.append(None)
        n += 1
        kn = all(precise(q) for q in st.facts if isinstance(q, Term)) and None not in other
        alarm = res.bad if kn else res.und
        if [o for o in other if o]:
            alarm(key, other[0])
            continue
        bad = spec(ty, match, same)
        if bad is None:
            res.ok()
        else:
            alarm(key + ' ' + ty, bad)
    res.coverage['exits of the type decision'] = n


def spec(ty, m, same):
    words = lambda n: n.replace('_', ' ')
    if m.get('general') is False:
        return None if ty == 'Unknown' else 'a text outside the general description gets the type %s' % ty
    if 'general' not in m:
        return 'a text gets the type %s without being matched against the general description' % ty
    for d, t in ORDER:
        if m.get(d) is True:
            return None if t == ty else 'a text that matches the %s description, and none that goes before it, gets the type %s' % (words(d), ty)
        if d not in m:
            return 'a text gets the type %s although it may match the %s description' % (ty, words(d)) if t != ty else 'a text gets the type %s without matching the %s description' % (ty, words(d))
    f, mo = m.get('fixed_line'), m.get('mobile')
    if f is True:
        if mo is True or same is True:
            return None if ty == 'FixedLineOrMobile' else 'a text that matches the fixed line and the mobile description gets the type %s' % ty
        if mo is False and same is not None or mo is False and ty == 'FixedLine' and same is None:
            return None if ty == 'FixedLine' else 'a text that matches only the fixed line description gets the type %s' % ty
        return 'a text gets the type %s without being matched against the mobile description' % ty
    if f is None:
        return 'a text gets the type %s although it may match the fixed line description' % ty
    if mo is None:
        return 'a text gets the type %s although it may match the mobile description' % ty
    want = 'Mobile' if mo else 'Unknown'
    return None if ty == want else 'a text that matches %s gets the type %s' % ('the mobile description' if mo else 'no description of a type', ty)


def pattern_field(ctx):
    t = X.adt(ctx, K.DE)
    if t is None:
        return None
    v = ctx.F.types[t]['variants'][0]['fields']
    k = [i for i, f in enumerate(v) if f[1] is not None and X.tname(ctx, f[1]).endswith('Regex')]
    return k[0] if len(k) == 1 else None


# ---- matching a text against a description

def matcher(ctx, res, mt):
    key = 'match of a description'
    a, _ = X.sig(ctx, mt)
    di = [k for k, t in enumerate(a) if K.base_name(ctx, t) == K.DE][0]
    r = K.table(ctx, mt, ())
    if r.tainted or not r.outs:
        res.und(key, r.why() or 'no exit')
        return
    pat = pattern_field(ctx)
    ln = c19.accessor(ctx, res, K.DE + '::possible_length')
    if pat is None or ln is None:
        res.und(key, 'fields not found')
        return
    d = T('*', K.unstar(r.args[di])[0])
    P, L, text = T('fld', d, 0, pat), T('fld', d, 0, ln), K.unstar(r.args[1 - di])[0]
    n = 0
    for st, v in r.outs:
        for want in (True, False):
            s = st.copy()
            b = K.plain(r.a, s, v)
            if isinstance(b, Term) and b.op == 'bool':
                if bool(b.args[0]) != want:
                    continue
            elif not isinstance(b, Term) or r.a.assume(s, b, want) is False:
                continue
            n += 1
            hit = free = fit = miss = late = listed = None
            vague = False
            for q, x in K.facts(r, s):
                if q.op == 'matched':
                    if isref(q.args[0], P) and q.args[1] is text:
                        hit = x
                    else:
                        vague = True
                elif q.op == 'ms' and isref(q.args[0], P) and q.args[1] is text:
                    late = x[0][0] > 0
                elif q.op == 'llen' and isref(q.args[0], L):
                    free = True if x == ((0, 0),) else False if x[0][0] > 0 else None
                elif q.op in ('eqi', 'in_list'):
                    if any(isinstance(y, Term) and y.op == 'elt' and isref(y.args[0], L) or isref(y, L) for y in terms(q)):
                        if exact_length(q, text):
                            fit = fit or x
                            listed = True
                        elif any(y is text for y in terms(q)):
                            vague = True
            es = {y for l in s.lins for y in terms(l) if isinstance(y, Term) and y.op == 'elt' and isref(y.args[0], L)}
            if any(r.a.prove(s, sub(e, core.textlen(text))) and r.a.prove(s, sub(core.textlen(text), e)) for e in es):
                fit = True
            known = all(precise(q) or q.op in ('phi',) for q in s.facts if isinstance(q, Term)) and not vague
            alarm = res.bad if known else res.und
            if want:
                if hit is not True:
                    alarm(key, 'a description matches a text without asking its pattern')
                elif late:
                    alarm(key, 'a description matches a text of which its pattern matches a later part only')
                elif free is True or fit is True:
                    res.ok()
                elif fit is False:
                    alarm(key, 'a description matches a text whose length it does not list')
                else:
                    alarm(key, 'a description matches a text without looking at its list of lengths')
            else:
                if hit is False or late:
                    res.ok()
                elif fit is False and (ended(r, s, L) or any(isinstance(q, Term) and q.op == 'in_list' for q in s.facts)):
                    res.ok()
                elif free is False and not fit and ended(r, s, L):
                    res.ok()
                elif free is False and not fit:
                    alarm(key, 'a description refuses a text before all the lengths it lists were looked at')
                elif free is True:
                    alarm(key, 'a description without a list of lengths does not match a text its pattern matches')
                elif fit is True and hit is True:
                    alarm(key, 'a description does not match a text that its pattern matches and whose length it lists')
                else:
                    res.und(key, 'refusal not understood')
    res.coverage['exits of the match'] = n


def ended(r, s, L):
    """the state comes after a walk to the end of the list"""
    ns = {y for l in s.lins for y in terms(l) if isinstance(y, Term) and y.op == 'llen' and isref(y.args[0], L)}
    ps = {y for l in s.lins for y in terms(l) if isinstance(y, Term) and y.op == 'phi'}
    return any(r.a.prove(s, sub(p, n)) for p in ps for n in ns)


def exact_length(q, text):
    if q.op == 'in_list':
        return q.args[0] is T('len', text) or core.textlen(text) is q.args[0]
    x = q.args[0]
    if isinstance(x, Term) and x.op == 'lin' and x.args[0] == 0:
        ks = dict(x.args[1])
        return len(ks) == 2 and sorted(ks.values()) == [-1, 1] and core.textlen(text) in ks
    return False


def check(ctx, res):
    nts, mats, sels = K.classifiers(ctx), K.matchers(ctx), K.selectors(ctx)
    res.coverage['functions'] = {w: [ctx.F.insts[i]['path'] for i in l] for w, l in (('type', nts), ('match', mats), ('region', sels))}
    agreement(ctx, res, nts, sels)
    if len(nts) != 1:
        res.und('type of a text', '%d functions decide it' % len(nts))
    for nt in nts[:1]:
        kernel(ctx, res, nt, mats)
    if not mats:
        res.und('match of a description', 'not found')
    for m in mats[:1]:
        matcher(ctx, res, m)
