"""the exits of the function that finds the calling code, and of the parsing entry point, read back"""
from checks import parsek as P
from checks import kernels as K
from checks import xmltab as X, c19
from checks.lib import *

PLUS = ((43, 43), (0xff0b, 0xff0b))


class W:
    pass


def lin(t):
    """(constant, {term: coefficient}) of an integer term"""
    if isinstance(t, Term) and t.op == 'int':
        return t.args[0], {}
    if isinstance(t, Term) and t.op == 'lin':
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}


def field_of(t, root):
    r, p = K.unstar(t)
    return p if r is root else None


def call(t, fns):
    return t.args[2] if isinstance(t, Term) and t.op == 'call' and t.args[1] in fns else None


def fact(st, op, f):
    for q, v in st.facts.items():
        if isinstance(q, Term) and q.op == op and f(q):
            return v
    return None


def single(v):
    return v[0][0] if isinstance(v, tuple) and len(v) == 1 and v[0][0] == v[0][1] else None


def within(v, s):
    return all(any(a <= lo and hi <= b for a, b in s) for lo, hi in v)


def apart(v, s):
    return all(hi < a or b < lo for lo, hi in v for a, b in s)


def code_world(ctx, res, e):
    """the decision table of the calling code function"""
    w = W()
    w.e, w.ctx = e, ctx
    inst = e.code[0]
    r = P.table(e, inst, P.kernels(e))
    if r.tainted or not r.outs:
        res.und('calling code', r.why() or 'no exit')
        return None
    w.r, w.a = r, r.a
    pos = [P.where(e, inst, e.path), P.where(e, inst, K.DB)]
    rest = [k for k in range(len(r.args)) if k not in pos]
    if None in pos or len(rest) != 1:
        res.und('calling code', 'arguments')
        return None
    w.num, w.db, w.region = (K.unstar(r.args[k])[0] for k in pos + rest)
    return world_fields(ctx, res, w)


def world_fields(ctx, res, w):
    acc = lambda p, n: c19.accessor(ctx, res, p + '::' + n)
    w.f_idd, w.f_code = acc(K.MD, 'international_prefix'), acc(K.MD, 'country_code')
    w.f_desc, w.f_gen = acc(K.MD, 'descriptors'), acc(K.DS, 'general')
    w.sources = K.variants(ctx, P.SOURCE) or []
    w.valid = K.variants(ctx, P.VALID) or []
    w.types = K.variants(ctx, K.TY) or []
    w._sets = {}
    if None in (w.f_idd, w.f_code, w.f_desc, w.f_gen) or sorted(w.sources) != ['Default', 'Idd', 'Number', 'Plus']:
        res.und('metadata', 'fields not found')
        return None
    return w


def region_text(w, t):
    """is the term the name of the given region"""
    a = call(t, w.e.idtext)
    if a is not None:
        return field_of(a[0], w.region) == ((1, 0),)
    return isinstance(t, Term) and t.op == 'enumtext' and field_of(t.args[0], w.region) == ((1, 0),)


def of_region(w, t):
    """path inside the metadata of the given region, or None"""
    root, p = K.unstar(t)
    a = call(root, w.e.by_id)
    if a is None or p[:1] != ((1, 0),):
        return None
    return p[1:] if K.unstar(a[0])[0] is w.db and region_text(w, a[1]) else None


def has_region(w, st):
    return single(fact(st, 'discr', lambda q: field_of(q.args[0], w.region) == ()))


def region_known(w, st):
    def f(q):
        a = call(K.unstar(q.args[0])[0], w.e.by_id)
        return a is not None and K.unstar(q.args[0])[1] == () and region_text(w, a[1])
    return single(fact(st, 'discr', f))


def is_idd(w, st, rx):
    """is the pattern that of the given region's international prefix (or the general one without a region)"""
    p = of_region(w, rx)
    if p is not None:
        return p[:2] == ((0, w.f_idd), (1, 0))
    if isinstance(rx, Term) and rx.op == 'regex' and isinstance(rx.args[0], Term) and rx.args[0].op == 'str':
        return has_region(w, st) == 0 and rx.args[0].args[0].strip('^') == '00'
    return False if precise(rx) else None


def charset(w, p, st=None):
    """the set of characters a parser of one or more characters accepts first"""
    if p in w._sets:
        return w._sets[p]
    out = None
    f = p
    if isinstance(f, Agg) and f.kind == 'parser' and f.var in ('many1', 'recognize') and f.f:
        f = f.f[0]
    if isinstance(f, Agg) and f.kind == 'parser' and f.var in ('many1',) and f.f:
        f = f.f[0]
    if isinstance(f, Agg) and f.kind == 'parser' and f.var == 'oneof':
        out = tuple(f.f[0])
    if isinstance(f, Agg) and f.kind == 'parser' and f.var == 'tw' and f.f[1] in (1, core.I(1)):
        out = tuple(w.a.models.pred(core.State() if st is None else st, f.f[0])[0])
    ty = getattr(f, 'ty', None)
    t = w.ctx.F.types[ty] if ty is not None else {}
    i = t.get('fn', t).get('inst')
    if i is not None and i in X.localfns(w.ctx):
        r = Run(w.ctx, i, deadline=30)
        if not r.tainted and r.outs and len(r.args) == 1:
            got = set()
            for st, v in r.outs:
                v = r.a.deepval(st, v)
                if not (isinstance(v, Agg) and v.kind == 'adt'):
                    got = None
                    break
                c = fact(st, 'charat', lambda q: K.unstar(q.args[0])[0] is K.unstar(r.args[0])[0] and isinstance(q.args[1], Term) and q.args[1].op == 'int' and q.args[1].args[0] == 0)
                if v.var == 0:
                    if c is None:
                        got = None
                        break
                    got |= set(c)
            out = tuple(sorted(got)) if got else None
    w._sets[p] = out
    return out


def raw(w, t):
    """is the term the national text the function was given"""
    return field_of(t, w.num) in (((0, w.e.n_national),), ((0, w.e.n_national), (0, 0)))


def plus(w, st):
    """does the text begin with a plus: True, False or None"""
    for q, v in st.facts.items():
        if not isinstance(q, Term):
            continue
        if q.op == 'ok' and len(q.args) == 2 and raw(w, q.args[1]):
            s = charset(w, q.args[0], st)
            if s is None:
                continue
            if within(s, PLUS) if v else within(PLUS, s):
                return v
            return 'maybe'
        if q.op == 'tsm' and raw(w, q.args[1]) and isinstance(v, tuple) and (v[0][0] > 0 or v[-1][1] == 0):
            return v[0][0] > 0 if (within(q.args[0], PLUS) if v[0][0] > 0 else within(PLUS, q.args[0])) else 'maybe'
        if q.op == 'charat' and raw(w, q.args[0]) and single_int(q.args[1]) == 0 and isinstance(v, tuple):
            if within(v, PLUS):
                return True
            if apart(v, PLUS):
                return False
        if q.op == 'len' and raw(w, q.args[0]) and v == ((0, 0),):
            return False
    # a count of signs taken off that is known only in relation to the length
    for q in {t for l in st.lins for t in lin(l)[1] if isinstance(t, Term) and t.op == 'tsm' and raw(w, t.args[1])}:
        if w.a.prove(st, core.addc(q, -1)):
            return True if within(q.args[0], PLUS) else 'maybe'
    return None


def single_int(t):
    return t.args[0] if isinstance(t, Term) and t.op == 'int' else None


def normed(w, t):
    """('whole'|'rest', map) of a normalised national text, or None"""
    if not (isinstance(t, Term) and t.op == 'norm'):
        return None
    x = t.args[0]
    if raw(w, x):
        return 'whole', t.args[1]
    if x is core.S(''):
        return 'rest', t.args[1]
    if isinstance(x, Term) and x.op == 'slice' and raw(w, x.args[0]) and isinstance(x.args[2], Term) and x.args[2].op == 'len' and raw(w, x.args[2].args[0]):
        lo = x.args[1]
        if isinstance(lo, Term) and lo.op == 'nomp' and charset(w, lo.args[0]) is not None and raw(w, lo.args[1]):
            return 'rest', t.args[1]
        if isinstance(lo, Term) and lo.op == 'tsm' and raw(w, lo.args[1]):
            return 'rest', t.args[1]
    return None


def known(w, st, *more):
    e = w.e
    kern = set(P.kernels(e)) | set(e.code) | set(e.strip)
    vague = ('sym', 'j', 'old', 'rs', 'phi')
    ok = lambda x: not (isinstance(x, Term) and x.op in vague and 'cowdiscr' not in x.args)
    for q, v in st.facts.items():
        if not isinstance(q, core.Node):
            continue
        if isinstance(q, Term) and q.op == 'call' and q.args[1] not in kern:
            return False
        if isinstance(q, Term) and (q.op in ('eqv', 'lany', 'lall', 'in_list') or q.op in ('and', 'or') and isinstance(v, bool)):
            return False
        if not all(ok(x) for x in terms(q)):
            return False
    return all(ok(x) for m in more if isinstance(m, core.Node) for x in terms(m))


def successes(w):
    for st, v in w.r.outs:
        v = w.a.deepval(st, v)
        if isinstance(v, Agg) and v.kind == 'adt' and v.var == 0 and v.f:
            x = w.a.deepval(st, v.f[0])
            yield st, x
        elif not (isinstance(v, Agg) and v.kind == 'adt' and v.var == 1):
            yield st, None


def source(w, v):
    return w.sources[v.var] if isinstance(v, Agg) and v.kind == 'adt' and isinstance(v.var, int) and v.var < len(w.sources) else None


def split(w, t):
    """a national text: (normalised text, offset constant, terms of the offset), or None"""
    if normed(w, t):
        return t, 0, {}
    if isinstance(t, Term) and t.op == 'slice' and normed(w, t.args[0]) and isinstance(t.args[2], Term) and t.args[2].op == 'len' and t.args[2].args[0] is t.args[0]:
        c, m = lin(t.args[1])
        return t.args[0], c, m
    return None


def code_known(w, st, c):
    """is the calling code (a term) one the metadata knows"""
    def f(q):
        a = call(q.args[0], w.e.by_code)
        if a is None or K.unstar(a[0])[0] is not w.db:
            return False
        return K.plain(w.a, st, a[1]) is c
    return single(fact(st, 'discr', f))


def parsed_from(t):
    """text of a number read from text"""
    return t.args[0] if isinstance(t, Term) and t.op == 'parseint' else None


def decode(w, st, x):
    """how this exit came by its calling code: dict, or None when the exit is not understood"""
    e = w.e
    if not (isinstance(x, Agg) and x.kind == 'adt' and len(x.f) == len(e.names)):
        return None
    d = W()
    f = [K.plain(w.a, st, y) for y in x.f]
    d.f = f
    d.source = source(w, f[e.n_country])
    d.nat = f[e.n_national]
    s = split(w, d.nat)
    p = f[e.n_prefix]
    if d.source is None or s is None or not (isinstance(p, Agg) and p.kind == 'adt'):
        return None
    d.text, d.skip, d.over = s
    d.stripped = normed(w, d.text)[0] == 'rest'
    d.map = normed(w, d.text)[1]
    d.idd = [t for t in d.over if isinstance(t, Term) and t.op == 'me' and single_int(t.args[2]) == 0 and t.args[1] is d.text]
    d.own = [t for t in d.over if isinstance(t, Term) and t.op == 'len' and isinstance(t.args[0], Term) and t.args[0].op == 'itoa']
    if any(k != 1 for k in d.over.values()) or len(d.idd) + len(d.own) != len(d.over):
        return None
    d.context = single(fact(st, 'discr', lambda q: field_of(q.args[0], w.num) == ((0, e.n_prefix),)))
    d.plus = plus(w, st)
    d.prefix = None if p.var == 0 else K.plain(w.a, st, p.f[0])
    return d


def prefix_kind(w, st, d):
    """('none'|'context'|'digits'|'region', what is the code): where the reported calling code is from"""
    p = d.prefix
    if p is None:
        return 'none', None
    if isinstance(p, Term) and p.op == 'norm' and field_of(p.args[0], w.num) in (((0, w.e.n_prefix), (1, 0)), ((0, w.e.n_prefix), (1, 0), (0, 0))):
        return 'context', p
    if isinstance(p, Term) and p.op == 'itoa':
        c = p.args[0]
        t = parsed_from(c)
        if isinstance(t, Term) and t.op == 'slice' and t.args[0] is d.text:
            lo, hi = lin(t.args[1]), lin(t.args[2])
            start = {k: v for k, v in d.over.items() if k in d.idd}
            if lo == (0, start) and hi == (d.skip, d.over) and not d.own:
                return 'digits', c
            return 'other digits', c
        q = of_region(w, c)
        if q == ((0, w.f_code),):
            return 'region', c
        if of_region(w, c) is None and K.unstar(c)[1][-1:] == ((0, w.f_code),):
            return 'other', c
    return ('?' if not precise(p) else 'other'), p


def matched_at_start(w, st, rx, text):
    m = fact(st, 'matched', lambda q: q.args[0] is rx and q.args[1] is text)
    if m is not True:
        return m
    v = fact(st, 'ms', lambda q: q.args[0] is rx and q.args[1] is text and single_int(q.args[2]) == 0)
    if v is None:
        return None
    return True if v == ((0, 0),) else False if v[0][0] > 0 else None


def char_after(w, st, text, at):
    """intervals of the character of text at the position, or None; 'end' when there is none"""
    for q, v in st.facts.items():
        if isinstance(q, Term) and q.op == 'charat' and q.args[0] is text and lin(q.args[1]) == at:
            return v
    return None


def zero_at(w, st, text, at):
    v = char_after(w, st, text, at)
    if v is None:
        return False if ended(w, st, text, at) else None
    return True if v == ((48, 48),) else False if apart(v, ((48, 48),)) else None


def ended(w, st, text, at):
    c, m = at
    t = T('lin', c, tuple(sorted(m.items(), key=repr))) if m else T('int', c)
    for x in st.lins:
        c2, m2 = lin(x)
        # position - len >= 0
        want = dict(m)
        want[T('len', text)] = want.get(T('len', text), 0) - 1
        if m2 == want and c2 <= c:
            return True
    v = fact(st, 'len', lambda q: q.args[0] is text)
    return not m and v is not None and v[-1][1] <= c


def viable(w, st, text):
    """(does the region's general rule match, is the length possible)"""
    gm = pos = None
    for q, v in st.facts.items():
        if not isinstance(q, Term):
            continue
        a = call(q, w.e.match)
        if a is not None:
            m = [of_region(w, y) for y in a]
            t = [K.plain(w.a, st, y) for y in a]
            if ((0, w.f_desc), (0, w.f_gen)) in m and text in t:
                gm = v
        if q.op == 'discr':
            a = call(q.args[0], w.e.length)
            if a is not None and isinstance(v, tuple):
                recs = [K.plain(w.a, st, y) for y in a]
                if any(of_region(w, y) == () for y in a) and any(isinstance(y, Agg) and len(y.f) == len(w.e.names) and K.plain(w.a, st, y.f[w.e.n_national]) is text for y in recs):
                    names = {w.valid[k] for lo, hi in v for k in range(lo, min(hi, len(w.valid) - 1) + 1)}
                    good = {n for n in w.valid if n.startswith('IsPossible')}
                    pos = True if names <= good else False if not names & good else None
    return gm, pos
