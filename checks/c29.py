"""C29: a tel URI is read part by part"""
from checks import codek as C
from checks import parsek as P
from checks import kernels as K
from checks.c11 import span, text, source_of, starts, ended
from checks.lib import *

EXPLAIN = 'Decision table of the reader that looks parameters up, by abstract interpretation: each exit is compared with the places where its conditions say the parts of the text begin and end.'
LEVEL = 'proof'
RULE = 'the scheme, the plus sign and what follows it up to a separator, the national number, and the context are the pieces of text the grammar names; refused only for a space, no digits, or a sign that belongs to nothing'
ASSUME = ['library models of nom and text are correct', 'of two parameters of one name the map keeps one']

CONTEXT = 'phone-context'
SEPS = '-.()'
DIGITS = '0123456789'


def check(ctx, res):
    e = P.full(ctx, res)
    if e is None:
        return
    n = {'read': 0, 'refused': 0, 'plus': 0, 'context': 0}
    for i in e.readers:
        r = P.table(e, i, set(e.readers) - {i})
        if r.tainted or not r.outs:
            res.und('readers', r.why() or 'no exit')
            continue
        outs = [(st, K.plain(r.a, st, v)) for st, v in r.outs]
        if not any(isinstance(q, Term) and q.op == 'mhas' and source_of(q.args[0]) for st, v in outs for q in st.facts):
            continue
        for st, v in outs:
            o = C.W()
            o.e, o.r, o.st, o.arg = e, r, st, K.unstar(r.args[0])[0]
            one(res, o, v, n)
    for k, c in n.items():
        if not c:
            res.und('coverage', 'no exit: ' + k)
    for k, what in (('read', 'exits that read a tel URI'), ('refused', 'exits that refuse one'), ('plus', 'exits with a plus'), ('context', 'exits with a context')):
        res.coverage[what] = n[k]


def lin(o, t, at=None):
    """linear form, with the width of a known ASCII sign put in"""
    c, d = C.lin(t) if not isinstance(t, tuple) else t
    d = dict(d)
    for x in list(d):
        if isinstance(x, Term) and x.op == 'utf8len':
            s = C.single(o.st.facts.get(x.args[0], ()))
            if s is not None and s < 128:
                c += d.pop(x)
    return c, d


def add(o, *ts):
    c, d = 0, {}
    for t in ts:
        a, b = lin(o, t)
        c += a
        for x, k in b.items():
            d[x] = d.get(x, 0) + k
            if not d[x]:
                del d[x]
    return c, d


def terms_at(o, op, pos):
    """facts about the text at a place"""
    for q, y in o.st.facts.items():
        if isinstance(q, Term) and q.op == op and q.args[0] is o.arg and lin(o, q.args[1]) == pos:
            yield q, y


def run_at(o, pos, kind):
    """(number of signs taken, parser) of a run read at a place"""
    for q, y in o.st.facts.items():
        if not (isinstance(q, Term) and q.op == 'nomp' and isinstance(q.args[0], Agg) and q.args[0].kind == 'parser' and q.args[0].var == kind):
            continue
        t = q.args[1]
        root, lo, hi = span(t)
        if text(t) == '':
            if rest_is_empty(o, pos):
                yield q, y
        elif root is o.arg and lin(o, lo) == pos and C.lin(hi) == C.lin(core.textlen(o.arg)):
            yield q, y


def rest_is_empty(o, pos):
    n = o.st.facts.get(core.textlen(o.arg))
    if n and len(n) == 1 and n[0][0] == n[0][1] and not pos[1]:
        return n[0][0] == pos[0]
    t = core.textlen(o.arg)
    x = lint(o, pos)
    return bool(o.r.a.prove(o.st, core.sub(x, t)))


def lint(o, pos):
    t = core.I(pos[0])
    for x, k in pos[1].items():
        t = core.add(t, x, k)
    return t


def zero(y):
    return y == ((0, 0),)


def signs(res, o, parser, what, must, mustnot):
    """the signs of a run"""
    try:
        yes, no = o.r.a.models.pred(o.st, parser.f[0])
    except Exception:
        res.und('signs', 'signs of the %s not understood' % what)
        return
    inn = lambda c, s: any(a <= ord(c) <= b for a, b in s)
    if parser.var == 'tt':
        yes, no = no, yes
    for c in must:
        if inn(c, yes):
            res.ok()
        else:
            (res.bad if inn(c, no) else res.und)('signs of the ' + what, 'the sign %r ends the %s' % (c, what))
    for c in mustnot:
        if inn(c, no):
            res.ok()
        else:
            (res.bad if inn(c, yes) else res.und)('signs of the ' + what, 'the sign %r belongs to the %s' % (c, what))


def one(res, o, v, n):
    e, st, a = o.e, o.st, o.r.a
    if not (isinstance(v, Agg) and v.kind == 'adt' and v.var in (0, 1) and v.f):
        res.und('exit', 'not understood')
        return
    bad = res.bad if C.known(o, st) else res.und
    space = tel = None
    for q, y in st.facts.items():
        if isinstance(q, Term) and q.op == 'has' and K.unstar(q.args[0])[0] is o.arg:
            if text(q.args[1]) == ' ' or C.single_int(q.args[1]) == 32 or show(q.args[1]) == "' '":
                space = y
            elif 'nocase' in show(q.args[1]).lower() and 'tel:' in show(q.args[1]).lower():
                tel = y
    if v.var == 1:
        n['refused'] += 1
        why = refusal(o, space, tel)
        if why is None:
            res.ok()
        else:
            bad('refused', why)
        return
    n['read'] += 1
    p = K.plain(a, st, v.f[0])
    x = K.plain(a, st, p.f[1]) if isinstance(p, Agg) and p.kind == 'tuple' and len(p.f) == 2 else None
    if not (isinstance(x, Agg) and x.kind == 'adt' and len(x.f) == len(e.names)):
        res.und('exit', 'number not understood')
        return
    nat, pre = K.plain(a, st, x.f[e.n_national]), K.plain(a, st, x.f[e.n_prefix])
    if not (isinstance(pre, Agg) and pre.kind == 'adt' and pre.var in (0, 1)):
        res.und('prefix', 'not understood: %s' % show(pre)[:80])
        return
    t = K.plain(a, st, pre.f[0]) if pre.var else None
    bad = res.bad if C.known(o, st, nat, *([] if t is None else [t])) else res.und
    if space is not False:
        bad('space', 'a text with spaces is read as a tel URI')
        return
    if tel is None:
        if not short(o, 4):
            bad('scheme', 'the scheme "tel:" is not looked for')
            return
    at = (4, {}) if tel else (0, {})
    # the plus sign and the digits after it
    plus = any(C.single(y) == 43 for q, y in terms_at(o, 'charat', at))
    asked = plus or any(True for _ in terms_at(o, 'charat', at))
    taken = None
    if plus:
        got = list(run_at(o, add(o, at, core.I(1)), 'tt'))
        if not got:
            res.und('plus', 'what follows the plus sign is not understood')
            return
        q, y = got[0]
        if not zero(y):
            taken = q
            signs(res, o, q.args[0], 'calling code', DIGITS, SEPS)
    elif not asked:
        bad('plus', 'a plus sign is not looked for')
        return
    begin = at if taken is None else add(o, at, core.I(1), taken)
    root, lo, hi = span(nat)
    if root is not o.arg:
        bad('national', 'the national number is not a piece of the text')
        return
    if lin(o, lo) != begin:
        bad('national begin', 'the national number does not begin after the %s' % ('calling code' if taken is not None else 'scheme'))
        return
    got = list(run_at(o, begin, 'tw'))
    if not got:
        res.und('national', 'the end of the national number is not understood')
        return
    q, y = got[0]
    signs(res, o, q.args[0], 'national number', DIGITS + SEPS, ';+ x/')
    end = add(o, begin, q)
    if lin(o, hi) == end or ended(st, nat) and C.lin(hi) == C.lin(core.textlen(o.arg)):
        res.ok()
    else:
        bad('national end', 'the national number does not end with its last digit or separator')
        return
    over = ended(st, nat) or rest_is_empty(o, end)
    if not over and not any(C.single(y) == 59 for op in ('charat', 'byteat') for q, y in terms_at(o, op, lin(o, hi))):
        bad('rest', 'a number is read although something else than a parameter follows it')
        return
    # the calling code
    if taken is not None:
        n['plus'] += 1
        r2, l2, h2 = span(t) if t is not None else (None, None, None)
        if t is None:
            bad('code', 'the calling code after the plus sign is dropped')
        elif r2 is not o.arg or lin(o, l2) != add(o, at, core.I(1)) or lin(o, h2) != begin:
            bad('code', 'the calling code is not what stands between the plus sign and the first separator')
        else:
            res.ok()
        return
    has = [(q, y) for q, y in st.facts.items() if isinstance(q, Term) and q.op == 'mhas' and source_of(q.args[0]) and text(q.args[1]) == CONTEXT]
    if any(y is True for q, y in has):
        n['context'] += 1
        m = [q.args[0] for q, y in has if y is True][0]
        if t is None:
            bad('context', 'the calling code given by the context is dropped')
            return
        root, lo, hi = span(t)
        if not (isinstance(root, Term) and root.op == 'mapget' and root.args[0] is m and text(root.args[1]) == CONTEXT) or C.lin(hi) != C.lin(core.textlen(root)):
            bad('context', 'the calling code is not the one the context gives')
            return
        if not starts(source_of(m)[1], span(nat)[2], o.arg):
            bad('context place', 'the parameters are not read where the national number ends')
            return
        first = [y for q, y in st.facts.items() if isinstance(q, Term) and q.op == 'charat' and q.args[0] is root and C.single_int(q.args[1]) == 0]
        n0 = st.facts.get(core.textlen(root))
        is_plus = any(C.single(y) == 43 for y in first)
        want = (1, {}) if is_plus else (0, {})
        if not first and not zero(n0):
            bad('context plus', 'the plus sign of the context is not looked for')
        elif lin(o, lo) != want:
            bad('context plus', 'the plus sign of the context is not taken off' if is_plus else 'the context loses its first sign')
        else:
            res.ok()
        return
    if t is not None:
        bad('invented', 'a calling code appears that the text does not give')
        return
    if any(y is False for q, y in has):
        res.ok()
        return
    asks = [y for q, y in st.facts.items() if isinstance(q, Term) and q.op == 'ok' and starts(q.args[1], span(nat)[2], o.arg)]
    if asks and not any(y is True for y in asks) or not asks and over:
        res.ok()
    else:
        bad('context', 'the context is not looked for')


def short(o, k):
    n = o.st.facts.get(core.textlen(o.arg))
    return bool(n) and n[-1][1] < k


def refusal(o, space, tel):
    if space is True:
        return None
    at = (4, {}) if tel else (0, {})
    if rest_is_empty(o, at):
        return None
    begin, plus = at, any(C.single(y) == 43 for q, y in terms_at(o, 'charat', at))
    if plus:
        got = list(run_at(o, add(o, at, core.I(1)), 'tt'))
        if rest_is_empty(o, add(o, at, core.I(1))):
            return None
        if got and not zero(got[0][1]):
            begin = add(o, at, core.I(1), got[0][0])
            # the calling code reached the end
            if rest_is_empty(o, begin):
                return None
    got = list(run_at(o, begin, 'tw'))
    if any(zero(y) for q, y in got) or any(text(q.args[1]) == '' and zero(y) for q, y in o.st.facts.items() if isinstance(q, Term) and q.op == 'nomp'):
        return None
    for q, y in got:
        end = add(o, begin, q)
        for op in ('charat', 'byteat'):
            for f, z in terms_at(o, op, end):
                if not any(a <= 59 <= b for a, b in z):
                    return None
    return 'a text that is a tel URI is not read as one'
