"""the formatting of a number: every exit of the operation that writes one, read back into parts"""
from checks import xmltab as X, loading, c19, c21, c13, c14, c23
from checks import kernels as K
from checks.lib import *

MODE = 'crate::formatter::Mode'
FM = 'crate::metadata::format::Format'
NAT = ('NAT',)
FIRST = {'(\\$\\d)', '\\$\\d', '(\\$[0-9])', '\\$[0-9]', '(\\$\\d+)', '\\$\\d+'}


class Env:
    pass


def field_by(ctx, adt, pred):
    t = ctx.F.types[X.adt(ctx, adt)] if isinstance(adt, str) else ctx.F.types[adt]
    return [k for k, f in enumerate(t['variants'][0]['fields']) if f[1] is not None and pred(f[1])]


def build(ctx, res):
    """the environment, or None when the operation is not found"""
    e = Env()
    hold = c23.holders(ctx)
    e.ctx = ctx
    e.ft = None
    for t in hold:
        if field_by(ctx, t, lambda f: K.base_name(ctx, f) == K.PN):
            e.ft = t
    if e.ft is None:
        res.und('formatting', 'the type that formats numbers is not found')
        return None
    e.fpath = ctx.F.types[e.ft]['path']
    e.inst = [i for i in X.localfns(ctx) if ctx.F.insts[i]['path'].endswith('as core::fmt::Display>::fmt') and ctx.F.insts[i]['path'].startswith('<' + e.fpath)]
    one = lambda l: l[0] if len(l) == 1 else None
    e.f_num = one(field_by(ctx, e.ft, lambda f: K.base_name(ctx, f) == K.PN))
    e.f_mode = one(field_by(ctx, e.ft, lambda f: X.tname(ctx, f) == MODE))
    e.f_fmt = one(field_by(ctx, e.ft, lambda f: FM in X.tname(ctx, f) and 'Option<' in X.tname(ctx, f)))
    e.f_code = one(field_by(ctx, K.PN, lambda f: X.tname(ctx, f) == 'crate::country::Code'))
    e.f_val = one(field_by(ctx, 'crate::country::Code', lambda f: X.tname(ctx, f) == 'u16'))
    opt = lambda n: one(field_by(ctx, K.PN, lambda f: X.tname(ctx, f).startswith('core::option::Option<') and n in X.tname(ctx, f)))
    e.f_ext, e.f_car = opt('::Extension'), opt('::Carrier')
    e.modes = K.variants(ctx, MODE) or []
    acc = lambda p, n: c19.accessor(ctx, res, p + '::' + n)
    e.m_fmt, e.m_int = acc(K.MD, 'formats'), acc(K.MD, 'international_formats')
    e.m_np, e.m_ext = acc(K.MD, 'national_prefix'), acc(K.MD, 'preferred_extension_prefix')
    e.r_pat, e.r_fmt, e.r_ld = acc(FM, 'pattern'), acc(FM, 'format'), acc(FM, 'leading_digits')
    e.r_np, e.r_cc = acc(FM, 'national_prefix'), acc(FM, 'domestic_carrier')
    e.ix = c21.query(ctx, type(res)(), 'by_code', 'code')
    e.forms = c13.national(ctx)
    miss = [k for k, v in sorted(vars(e).items()) if v is None]
    if miss or len(e.inst) != 1 or sorted(e.modes) != ['E164', 'International', 'National', 'Rfc3966']:
        res.und('formatting', 'not found: %s' % ' '.join(miss))
        return None
    r = K.table(ctx, e.inst[0], ())
    if r.tainted or not r.outs:
        res.und('formatting', r.why() or 'no exit')
        return None
    e.r, e.a = r, r.a
    e.self_ = K.unstar(r.args[0])[0]
    e.numpath = ((0, e.f_num),)
    e._nat = {}
    return e


def is_num(e, t, *path):
    root, p = K.unstar(t)
    return root is e.self_ and p == e.numpath + path


def is_code(e, t):
    return is_num(e, t, (0, e.f_code), (0, e.f_val))


def ext(e, t):
    """the text inside the extension of the number"""
    root, p = K.unstar(t)
    n = e.numpath + ((0, e.f_ext), (1, 0))
    return root is e.self_ and p[:len(n)] == n and len(p) <= len(n) + 1


def car(e, t):
    root, p = K.unstar(t)
    n = e.numpath + ((0, e.f_car), (1, 0))
    return root is e.self_ and p[:len(n)] == n and len(p) <= len(n) + 1


def is_nat(e, t):
    """True, False, None as of c13.text_state"""
    if t not in e._nat:
        ok = None
        if isinstance(t, Term) and t.op == 'cat' and len(t.args) == 2 and e.forms:
            x, y = t.args
            if isinstance(x, Term) and x.op == 'rep' and x.args[0] is core.S('0') and isinstance(y, Term) and y.op == 'itoa':
                g = []
                if c13.fits(e.forms[0][0], x.args[1], e.forms[0][1], g) and c13.fits(e.forms[1][0], y.args[0], e.forms[1][1], g) and len(set(g)) == 1 and \
                        g[0][0] is e.self_ and g[0][1][:1] == e.numpath and len(g[0][1]) == 2:
                    ok = True
        if ok is None and isinstance(t, Term) and precise(t):
            ok = False
        e._nat[t] = ok
    return e._nat[t]


def record(e, t):
    """path inside the first record of the calling code of the number, or None"""
    root, p = K.unstar(t)
    if not (isinstance(root, Term) and root.op == 'elt'):
        return None
    l, k = root.args
    if not (isinstance(l, Term) and l.op == 'mapget' and is_code(e, l.args[1])):
        return None
    _, q = K.unstar(l.args[0])
    if q[-1:] != ((0, e.ix),):
        return None
    if p and p[0] == (0, 2):
        p = p[1:]
    return (k.args[0] if isinstance(k, Term) and k.op == 'int' else k), p


def rulelist(e, t):
    """'national' or 'international' rules of the record"""
    p = record(e, t)
    if p is None or p[0] != 0:
        return None
    return 'national' if p[1] == ((0, e.m_fmt),) else 'international' if p[1] == ((0, e.m_int),) else None


def rule(e, t):
    """((list, position) or 'given', rest of the path) of a place inside a rule"""
    root, p = K.unstar(t)
    n = ((0, e.f_fmt), (1, 0))
    if root is e.self_ and p[:2] == n:
        return 'given', p[2:]
    if isinstance(root, Term) and root.op == 'elt':
        w = rulelist(e, root.args[0])
        if w is not None:
            return (w, root.args[1]), p
    return None


def mode(e, st):
    for q, v in st.facts.items():
        if isinstance(q, Term) and q.op == 'discr':
            root, p = K.unstar(q.args[0])
            if root is e.self_ and p == ((0, e.f_mode),):
                return {e.modes[k] for a, b in v for k in range(a, min(b, len(e.modes) - 1) + 1)}
    return set(e.modes)


def discr(e, st, pred):
    """known variant of the value at a place, or None"""
    for q, v in st.facts.items():
        if isinstance(q, Term) and q.op == 'discr' and pred(q.args[0]):
            return v[0][0] if len(v) == 1 and v[0][0] == v[0][1] else None
    return None


def flat(e, v):
    """parts of a text, neighbouring literals joined, the national text one part"""
    todo, out = [v] if not isinstance(v, list) else list(v), []
    while todo:
        x = todo.pop(0)
        if isinstance(x, Term) and x.op == 'cat':
            if is_nat(e, x) is True:
                out.append(NAT)
                continue
            todo[:0] = list(x.args)
            continue
        if isinstance(x, Term) and x.op == 'str':
            if x.args[0] == '':
                continue
            if out and isinstance(out[-1], str):
                out[-1] += x.args[0]
            else:
                out.append(x.args[0])
            continue
        out.append(x)
    # the two halves of the national text written one after the other
    i = 0
    while i + 1 < len(out):
        if isinstance(out[i], Term) and out[i].op == 'rep' and isinstance(out[i + 1], Term) and out[i + 1].op == 'itoa':
            t = T('cat', out[i], out[i + 1])
            if is_nat(e, t) is True:
                out[i:i + 2] = [NAT]
        i += 1
    return out


def written(e, st):
    """parts of the text written at an exit, None when not only text was written"""
    if any(x[0] != 'w' for x in st.log):
        return None
    return flat(e, [K.plain(e.a, st, x[1]) if isinstance(x[1], Ref) else x[1] for x in st.log])


def known(st, *more):
    """do the conditions of this exit name nothing invented"""
    vague = ('sym', 'j', 'old', 'rs')
    if any(isinstance(q, Term) and (q.op in ('eqv', 'call', 'lany', 'lall', 'in_list') or q.op in ('and', 'or') and isinstance(v, bool)) for q, v in st.facts.items()):
        return False
    return not any(isinstance(x, Term) and x.op in vague for q in list(st.facts) + list(more) if isinstance(q, core.Node) for x in terms(q))


def exits(e):
    """(state, written parts) of the exits that succeed; and those that fail"""
    good, fail = [], []
    for st, v in e.r.outs:
        v = e.a.deepval(st, v)
        if isinstance(v, Agg) and v.kind == 'adt' and v.var == 0:
            good.append((st, written(e, st)))
        else:
            fail.append((st, v))
    return good, fail


def is_self_format(e, t):
    root, p = K.unstar(t)
    return root is e.self_ and p == ((0, e.f_fmt),)


def words(p):
    return ' '.join('NUMBER' if x is NAT else repr(x) if isinstance(x, str) else show(x)[:60] for x in p)
