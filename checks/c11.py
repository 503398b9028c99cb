"""C11: an extension is taken exactly, and leaves the number"""
from engine import relang
from checks import c06, c10
from checks import codek as C
from checks import parsek as P
from checks import kernels as K
from checks import xmltab as X
from checks.lib import *

LEVEL = 'proof'
RULE = ('obligation = success exit of a reader of the text, of the calling code function and of the parsing entry point, parameter of RFC 3966, notation of the pattern for extensions; discharged when the extension is '
        'the group captured, or the value of the parameter named ext, the national text ends where its notation begins, and the extension reaches the number returned')
EXPLAIN = ('Decision tables of the readers, the calling code function and the entry point (found by type) by abstract interpretation: the extension and the national text are terms over the spans of the pattern and of the '
           'parameters. The pattern for extensions is compared with every notation and one to seven digits as an automaton in which captured digits differ from others.')
ASSUME = ['library models of nom, regex, maps and text are correct', 'regular expressions prefer the leftmost match']

NOTATIONS = [';ext=', ' ext. ', ' ext ', 'ext', ' ext: ', ' extn. ', ' extn ', ' extension ', ' extensi\u00f3n ', ' x', 'x', ' X ', '#', '~', ',', ', ', ' anexo ', ' int ', ';']
HASH = ['- ', ' ', '-']


class Out:
    pass


def span(t):
    """(text, start, end) of a piece of text"""
    if isinstance(t, Term) and t.op == 'slice':
        return t.args
    return t, core.I(0), T('len', t)


def plus(x, y):
    c, d = C.lin(x)
    c2, d2 = C.lin(y)
    out = dict(d)
    for t, k in d2.items():
        out[t] = out.get(t, 0) + k
    return c + c2, {t: k for t, k in out.items() if k}


def equal(x, y):
    return x is y or C.lin(x) == C.lin(y)


def text(v):
    return v.args[0] if isinstance(v, Term) and v.op == 'str' else None


def pattern(rx):
    """(source, case is ignored) of a constant pattern"""
    src = rx.args[0]
    src = text(src) if isinstance(src, Term) else src
    if not isinstance(src, str):
        return None
    return src, any(f == ('case_insensitive', True) for x in rx.args[1:] for f in (x if isinstance(x, tuple) else ()))


def ended(st, t):
    """nothing follows the piece of text"""
    root, lo, hi = span(t)
    return isinstance(hi, Term) and hi.op == 'len' and hi.args[0] is root


def source_of(m):
    """(parser of one parameter, text it reads) of the map of parameters"""
    m = K.unstar(m)[0]
    for x in terms(m):
        if isinstance(x, Term) and x.op == 'manyout':
            return x.args[0], x.args[1]
    return None


def starts(t, at, root):
    """does the text t begin at the place of root"""
    r, lo, hi = span(t)
    if text(t) == '':
        return C.lin(at) == C.lin(T('len', root))
    return r is root and equal(lo, at)


def by_pattern(o, st, nat, ext, rx, i):
    """why the exit does not follow from the match of the pattern on the text, None when it does"""
    root, lo, hi = span(i)
    set_ = {g: v for q, v in st.facts.items() if isinstance(q, Term) and q.op == 'capset' and q.args[0] is rx and q.args[1] is i for g in [C.single_int(q.args[2])]}
    r, a, b = span(nat)
    if ext is None:
        return 'the extension recognised is left out'
    if r is not root or not equal(a, lo):
        return 'the national number does not begin where the text does'
    if C.lin(b) != plus(lo, T('ms', rx, i, core.I(0))):
        return 'the national number does not end where the extension begins'
    r, a, b = span(ext)
    if r is not root:
        return 'the extension is not a piece of the text'
    for g, v in set_.items():
        if v is True and g and C.lin(a) == plus(lo, T('ms', rx, i, core.I(g))) and C.lin(b) == plus(lo, T('me', rx, i, core.I(g))):
            return None
    return 'the extension is not the group captured'


def passed(o, x):
    """the reader's call a number comes from, with the path"""
    root, p = K.unstar(x)
    return (root, p) if C.call(root, o.e.readers) else None


def readers(ctx, res, o):
    e = o.e
    judged = []
    for i in e.readers:
        r = P.table(e, i, set(e.readers) - {i})
        if r.tainted or not r.outs:
            res.und('readers', r.why() or 'no exit')
            continue
        for st, v in r.outs:
            v = K.plain(r.a, st, v)
            judged.append((i, r, st, v))
    pats, params = set(), {}
    for i, r, st, v in judged:
        for q, x in st.facts.items():
            if not isinstance(q, Term):
                continue
            if q.op == 'capset' and C.single_int(q.args[2]):
                pats.add(q.args[0])
            if q.op == 'mhas' and text(q.args[1]) == 'ext' and source_of(q.args[0]):
                params.setdefault(source_of(q.args[0])[0], (r, st))
    o.pats, o.params = pats, params
    exts = {'pattern': 0, 'parameter': 0}
    n = 0
    for i, r, st, v in judged:
        w = C.W()
        w.e = e
        fn = 'reader'
        asked = {(q.args[0], q.args[1]): x for q, x in st.facts.items() if isinstance(q, Term) and q.op == 'matched' and q.args[0] in pats}
        if not (isinstance(v, Agg) and v.kind == 'adt' and v.var in (0, 1) and v.f):
            res.und(fn, 'result not understood')
            continue
        if v.var == 1:
            bad = res.bad if C.known(w, st) else res.und
            for (rx, t), x in asked.items():
                g = X_groups(rx)
                if x is True and any(C.single_int(q.args[2]) is not None and q.args[0] is rx and y is True for q, y in st.facts.items() if isinstance(q, Term) and q.op == 'capset' and C.single_int(q.args[2])):
                    bad('refused', 'a text with an extension is refused')
                elif x is True and g and sum(1 for q in st.facts if isinstance(q, Term) and q.op == 'capset' and q.args[0] is rx and C.single_int(q.args[2])) < g - 1:
                    bad('refused', 'a text with an extension is refused')
                else:
                    res.ok()
            continue
        p = K.plain(r.a, st, v.f[0])
        if not (isinstance(p, Agg) and p.kind == 'tuple' and len(p.f) == 2):
            root, path = K.unstar(p)
            if C.call(root, e.readers):
                res.ok()
                continue
            res.und(fn, 'result not understood')
            continue
        x = K.plain(r.a, st, p.f[1])
        if not isinstance(x, Agg) or x.kind != 'adt' or len(x.f) != len(e.names):
            if passed(o, x):
                res.ok()
            else:
                res.und(fn, 'number not understood: %s' % show(x)[:100])
            continue
        n += 1
        nat, ext = K.plain(r.a, st, x.f[e.n_national]), K.plain(r.a, st, x.f[e.n_extension])
        got = passed(o, nat)
        if got:
            q = K.unstar(ext) if not isinstance(ext, Agg) else None
            (res.ok if q and q[0] is got[0] and q[1][:-1] == got[1][:-1] and q[1][-1] == (0, e.n_extension) else lambda: res.bad('passed', 'the extension read is not passed on'))()
            continue
        if not (isinstance(ext, Agg) and ext.kind == 'adt' and ext.var in (0, 1)):
            res.und(fn, 'extension not understood: %s' % show(ext)[:100])
            continue
        t = K.plain(r.a, st, ext.f[0]) if ext.var == 1 else None
        bad = res.bad if C.known(w, st, nat, *([] if t is None else [t])) else res.und
        if t is not None and isinstance(t, Term) and t.op == 'mapget':
            exts['parameter'] += 1
            src = source_of(t.args[0])
            if text(t.args[1]) != 'ext':
                bad('parameter', 'the extension is the value of the parameter "%s"' % (text(t.args[1]) if text(t.args[1]) is not None else show(t.args[1])[:60]))
            elif src is None:
                res.und('parameter', 'parameters not understood')
            elif not starts(src[1], span(nat)[2], span(nat)[0]):
                bad('parameter place', 'the national number does not end where the parameters begin')
            else:
                res.ok()
            continue
        full = [(rx, i2) for (rx, i2), y in asked.items() if y is True]
        clear = [(rx, i2) for (rx, i2), y in asked.items() if y is False]
        if full:
            if ext.var == 1:
                exts['pattern'] += 1
            why = by_pattern(o, st, nat, t, *full[0])
            (res.ok if why is None else lambda: bad('pattern', why))()
            continue
        if t is not None:
            bad('invented', 'the extension is %s' % show(t)[:80])
            continue
        if clear:
            (res.ok if any(i2 is nat for _, i2 in clear) else lambda: bad('other text', 'the text looked at for an extension is not the one that becomes the national number'))()
            continue
        asks = [(q, y) for q, y in st.facts.items() if isinstance(q, Term) and q.op == 'ok']
        took = [(q, y) for q, y in asks if starts(q.args[1], span(nat)[2], span(nat)[0])]
        if any(y is True for q, y in took):
            has = [y for q, y in st.facts.items() if isinstance(q, Term) and q.op == 'mhas' and text(q.args[1]) == 'ext' and source_of(q.args[0])]
            if has and has[0] is False:
                res.ok()
            else:
                bad('dropped', 'the parameter ext is %s' % ('left out' if has else 'never looked for'))
        elif took or ended(st, nat):
            res.ok()
        else:
            bad('not looked for', 'a number is read without looking for an extension')
    for k, c in exts.items():
        if not c:
            res.und('coverage', 'no reader takes an extension from a %s' % k)
    res.coverage['success exits of readers'] = n
    res.coverage['exits with an extension'] = '%d by pattern, %d by parameter' % (exts['pattern'], exts['parameter'])
    return n


def X_groups(rx):
    from engine import rx as R
    p = pattern(rx)
    return R.groups(p[0]) if p else None


# ---------------------------------------------------------------- one parameter

def parameters(ctx, res, o):
    e = o.e
    for p, (r0, st0) in o.params.items():
        f = p.f[0] if isinstance(p, Agg) and p.kind == 'parser' and p.f else None
        inst = ctx.F.types[f.ty].get('fn', {}).get('inst') if isinstance(f, Agg) and f.kind == 'fn' else None
        if inst is None:
            res.und('parameters', 'reader of a parameter not found')
            continue
        r = P.table(e, inst, set())
        if r.tainted or not r.outs:
            res.und('parameters', r.why() or 'no exit')
            continue
        n = 0
        for st, v in r.outs:
            v = K.plain(r.a, st, v)
            if not (isinstance(v, Agg) and v.kind == 'adt' and v.var == 0):
                continue
            try:
                q = K.plain(r.a, st, v.f[0])
                kv = K.plain(r.a, st, q.f[1])
                key, val = (K.plain(r.a, st, y) for y in kv.f)
                rest = K.plain(r.a, st, q.f[0])
            except (AttributeError, ValueError, IndexError):
                res.und('parameters', 'result not understood')
                continue
            n += 1
            parts = []
            for what, t in (('name', key), ('value', val)):
                root, lo, hi = span(t)
                tw = [y for y in C.lin(hi)[1] if isinstance(y, Term) and y.op == 'nomp' and equal(span(y.args[1])[1], lo)]
                if text(t) == '':
                    parts.append((None, None, None, None))
                    continue
                if ended(st, t):        # all the rest was taken
                    tw = [y for y in st.facts if isinstance(y, tuple) and y[0] == 'cs' and y[1] is t]
                    parts.append((lo, hi, ('cs', st.facts[tw[0]]) if tw else None, t))
                    continue
                parts.append((lo, hi, tw[0].args[0] if len(tw) == 1 and C.lin(hi) == plus(lo, tw[0]) else None, t))
            (klo, khi, kp, kt), (vlo, vhi, vp, vt) = parts
            bad = res.bad
            ends = text(rest) == '' or vhi is None or (span(rest)[0] is span(vt)[0] and equal(span(rest)[1], vhi))
            (res.ok if ends else lambda: bad('parameter rest', 'what follows a parameter is not what follows its value'))()
            root = span(kt)[0] if kt is not None else None
            if root is None:
                res.und('parameter', 'name not understood')
                continue
            at = lambda pos, c: any(isinstance(y, Term) and y.op == 'charat' and y.args[0] is root and equal(y.args[1], pos) and C.single(z) == ord(c) for y, z in st.facts.items())
            wide = lambda pos: T('utf8len', T('charat', root, pos))
            first = core.I(0)
            if not at(first, ';') or not (C.lin(klo) == C.lin(wide(first)) or C.lin(klo) == (1, {})):
                res.und('parameter', 'begin of the name not understood')
                continue
            if vlo is not None:
                c, d = plus(khi, wide(khi))
                if not at(khi, '=') or not (C.lin(vlo) == (c, d) or C.lin(vlo) == plus(khi, core.I(1))):
                    bad('parameter value', 'the value of a parameter does not begin after the sign "="')
                    continue
            for what, q, must, mustnot in (('name', kp, 'ext', '=;'), ('value', vp, '0123456789-.()', ';')):
                if q is None:
                    if what == 'name' or vlo is not None:
                        res.und('parameter', '%s not understood' % what)
                    continue
                if isinstance(q, tuple):
                    yes, no = q[1], ()
                else:
                    try:
                        yes, no = r.a.models.pred(st, q.f[0])
                    except Exception:
                        res.und('parameter', 'characters of the %s not understood' % what)
                        continue
                    if q.var == 'tt':
                        yes, no = no, yes
                inn = lambda c, s: any(a <= ord(c) <= b for a, b in s)
                for c in must:
                    (res.ok if inn(c, yes) else lambda: bad('parameter characters', 'the character %r ends the %s of a parameter' % (c, what)))()
                for c in mustnot:
                    if inn(c, yes):
                        (bad if isinstance(q, tuple) or not inn(c, no) else res.und)('parameter characters', 'the character %r belongs to the %s of a parameter' % (c, what))
                    else:
                        res.ok()
        res.coverage['exits of the reader of a parameter'] = n
        if not n:
            res.und('parameters', 'no success exit')


# ---------------------------------------------------------------- the pattern

class Marked(relang.NFA):
    """captured characters are those of a second alphabet"""
    SHIFT = 0xe000

    def __init__(self, pattern, fold=False):
        self.inside = False
        super().__init__(pattern, fold)

    def one(self, it, a, b):
        if it[0] is relang.sc.SUBPATTERN and it[1][0] is not None:
            was, self.inside = self.inside, True
            super().one(it, a, b)
            self.inside = was
        else:
            super().one(it, a, b)

    def ch(self, a, b, p):
        s = self.SHIFT
        if self.inside:
            super().ch(a, b, lambda c: s <= ord(c) < s + 128 and p(chr(ord(c) - s)))
        else:
            super().ch(a, b, lambda c: not s <= ord(c) < s + 128 and p(c))


def walk(nfa, alphabet, start):
    """(state set after every character, is it a match of the whole)"""
    preds = {s: [(frozenset(c for c in alphabet if p(c)), t) for p, t in es] for s, es in nfa.step.items()}
    memo = {}

    def step(st, c):
        if (st, c) not in memo:
            memo[st, c] = nfa.close([b for q in st for cs, b in preds.get(q, ()) if c in cs])
        return memo[st, c]
    return step, lambda st: nfa.final in nfa.close(st, end=True)


def text_state(nfa, step, t):
    st = nfa.close([nfa.start], begin=False)
    for c in t:
        st = step(st, c)
    return st


def notations(ctx, res, o):
    for rx in sorted(o.pats, key=lambda t: t.id if hasattr(t, 'id') else 0):
        p = pattern(rx)
        if p is None:
            res.und('pattern', 'not a constant')
            continue
        src, fold = p
        m = lambda c: chr(ord(c) + Marked.SHIFT)
        plain = '0123456789'
        number = '0123456789-. ()'
        alpha = sorted(set(''.join(NOTATIONS + HASH) + number + '#') | set(m(c) for c in plain))
        try:
            n, mk = relang.NFA(src, fold), Marked(src, fold)
            st1, acc1 = walk(n, alpha, None)
            st2, acc2 = walk(mk, alpha, None)
        except relang.Unknown as x:
            res.und('pattern', str(x))
            continue
        tries = [(t, '', 7) for t in NOTATIONS] + [(t, '#', 5) for t in HASH]
        for t, end, most in tries:
            name = 'digits after "%s"' % (t + ('…#' if end else ''))
            # every text of digits is captured as a whole
            cur, why = {text_state(mk, st2, t)}, None
            for k in range(1, most + 1):
                cur = {st2(s, m(c)) for s in cur for c in plain}
                fin = {s for s in cur}
                for c in end:
                    fin = {st2(s, c) for s in fin}
                if not all(acc2(s) for s in fin):
                    why = 'not all texts of %d digits are captured' % k
                    break
            # and in no other way
            if why is None:
                cur = {(text_state(mk, st2, t), False)}
                for k in range(1, most + 1):
                    cur = {(st2(s, c if z else m(c)), f or z) for s, f in cur for c in plain for z in (False, True)}
                    fin = set(cur)
                    for c in end:
                        fin = {(st2(s, c), f) for s, f in fin}
                    if any(f and acc2(s) for s, f in fin):
                        why = 'some of %d digits may be left out' % k
                        break
            # no match begins before the notation
            if why is None:
                first = n.close([n.start])
                seen, todo = set(), [(first, False)]
                while todo and why is None:
                    s, d = todo.pop()
                    if (s, d) in seen or not s:
                        continue
                    seen.add((s, d))
                    for c in number:
                        todo.append((st1(s, c), c in plain))
                    if d:
                        q = s
                        for c in t:
                            q = st1(q, c)
                        cur = {q}
                        for k in range(1, most + 1):
                            cur = {st1(x, c) for x in cur for c in plain}
                            fin = set(cur)
                            for c in end:
                                fin = {st1(x, c) for x in fin}
                            if any(acc1(x) for x in fin):
                                why = 'part of the number before it is taken for it'
                                break
            if why is None:
                res.ok()
            else:
                res.bad('notation ' + name, '%s: %s' % (name, why))
    res.coverage['notations'] = len(NOTATIONS) + len(HASH)


# ---------------------------------------------------------------- on the way to the number

def through_code(ctx, res, e):
    w = C.code_world(ctx, res, e)
    if not w:
        return
    n = 0
    for st, x in C.successes(w):
        if not (isinstance(x, Agg) and x.kind == 'adt' and len(x.f) == len(e.names)):
            res.und('calling code', 'exit not understood')
            continue
        n += 1
        v = K.plain(w.a, st, x.f[e.n_extension])
        if not isinstance(v, Agg):
            (res.ok if C.field_of(v, w.num) == ((0, e.n_extension),) else lambda: res.und('calling code', 'extension not understood'))()
            continue
        bad = res.bad if C.known(w, st) else res.und
        if v.var == 0:
            had = C.single(C.fact(st, 'discr', lambda q: C.field_of(q.args[0], w.num) == ((0, e.n_extension),)))
            (res.ok if had == 0 else lambda: bad('calling code', 'the extension is lost with the calling code'))()
        else:
            t = K.plain(w.a, st, v.f[0])
            while isinstance(t, Term) and t.op == 'norm':
                t = K.plain(w.a, st, t.args[0])
            p = C.field_of(t, w.num)
            (res.ok if p is not None and p[:1] == ((0, e.n_extension),) else lambda: bad('calling code', 'the extension becomes %s' % show(t)[:80]))()
    res.coverage['exits of the calling code function'] = n


class Part:
    """the obligations of another check about one field"""

    def __init__(self, res, key):
        self.res, self.key, self.coverage = res, key, {}

    def ok(self):
        pass

    def bad(self, key, msg):
        if key == self.key:
            self.res.bad('normalising', msg)

    def und(self, key, msg=''):
        if key in (self.key, 'record'):
            self.res.und('normalising', msg)


def through_norm(ctx, res, e):
    p = Part(res, 'field ' + e.names[e.n_extension])
    c10.record(ctx, p, e, set(c10.mappers(ctx)))
    res.ok()
    res.coverage.update(p.coverage)


def through_strip(ctx, res, e):
    inst, k = e.strip[0], e.n_extension
    r = K.table(ctx, inst, set(e.match))
    if r.tainted or not r.outs:
        res.und('national prefix', r.why() or 'no exit')
        return
    arg = K.unstar(r.args[P.where(e, inst, e.path)])[0]
    w = C.W()
    w.e = e
    for st, v in r.outs:
        v = r.a.deepval(st, v)
        if K.unstar(v) == (arg, ()):
            res.ok()
        elif not (isinstance(v, Agg) and v.kind == 'adt' and len(v.f) == len(e.names)):
            res.und('national prefix', 'exit not understood')
        elif P.num(e, arg, K.plain(r.a, st, v.f[k]), k):
            res.ok()
        else:
            (res.bad if C.known(w, st) else res.und)('national prefix', 'the extension changes with the national prefix')
    res.coverage['exits of the function stripping the national prefix'] = len(r.outs)


def through_entry(ctx, res, e):
    w = c06.entry_world(ctx, res, e)
    if not w:
        return
    n = 0
    for st, x in C.successes(w):
        d = x is not None and c06.number(w, st, x)
        if not d:
            res.und('entry', 'exit not understood')
            continue
        n += 1
        bad = res.bad if C.known(w, st) else res.und
        k = e.n_extension
        # what the calling code function was given
        for y in {y for q in list(st.facts) + [x] if isinstance(q, core.Node) for y in terms(q) if isinstance(y, Term) and C.call(y, e.code)}:
            a = C.call(y, e.code)
            i = P.where(e, e.code[0], e.path)
            g = K.plain(w.a, st, a[i])
            if isinstance(g, Agg) and g.kind == 'adt' and len(g.f) == len(e.names):
                g = K.plain(w.a, st, g.f[k])
                root, p = K.unstar(g)
                good = C.call(root, e.readers) and p[-1:] == ((0, k),)
            else:
                root, p = K.unstar(g)
                good = C.call(root, e.readers)
            (res.ok if good else lambda: bad('entry', 'the number read is changed before its calling code is sought'))()
        v = d.ext
        if not isinstance(v, Agg):
            res.und('entry', 'extension not understood: %s' % show(v)[:80])
            continue
        if v.var == 0:
            had = C.single(C.fact(st, 'discr', lambda q: c06.from_code(w, q.args[0], k)))
            (res.ok if had == 0 else lambda: bad('entry', 'the extension is lost'))()
        else:
            t = K.plain(w.a, st, v.f[0])
            while isinstance(t, Agg) and t.kind == 'adt' and len(t.f) == 1:
                t = K.plain(w.a, st, t.f[0])
            (res.ok if isinstance(t, Term) and c06.from_code(w, t, k) else lambda: bad('entry', 'the extension becomes %s' % show(t)[:80]))()
    if n < 4:
        res.und('coverage', 'only %d exits of parsing' % n)
    res.coverage['exits of parsing'] = n


def check(ctx, res):
    o = Out()
    o.e = P.full(ctx, res)
    if o.e is None:
        return
    readers(ctx, res, o)
    parameters(ctx, res, o)
    notations(ctx, res, o)
    through_norm(ctx, res, o.e)
    through_strip(ctx, res, o.e)
    through_code(ctx, res, o.e)
    through_entry(ctx, res, o.e)
