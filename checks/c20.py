"""C20: a document the loader does not understand is refused"""
from checks import xmltab as X, loading, c19
from checks.c19 import pinned, precise
from checks.lib import *

LEVEL = 'proof'
RULE = ('obligation = one pass of a loader loop, one success exit of a loading function, one required value of the compiled form; discharged when the pass is not taken for a name '
        'outside the schema, for the end of another element, for the end of the document or after a failed conversion, when the success exit follows the end of the element that was '
        'opened with every attribute looked at and no error seen, and when a value that is required is present on every success exit')
EXPLAIN = ('The same decision tables as for the field mapping: for each loader loop, the exact set of states that go round again and that leave with success, with what each knows about the '
           'event, the name and the conversions that failed.')
ASSUME = ['library models are correct', 'the XML reader reports what the document contains, the end of the document included']
REQUIRED = {'meta': ('id', 'country_code', 'general'), 'desc': ('national_number',), 'fmt': ('pattern', 'format')}
KINDNAME = {'meta': 'territory', 'desc': 'description', 'fmt': 'format'}


def failures(ctx, s, before=None):
    """errors the state has seen: failed conversions, failed reads, failed loader calls"""
    out = []
    for q, v in s.facts.items():
        if before is not None and before.facts.get(q) == v or not isinstance(q, Term):
            continue
        if q.op == 'ok' and v is False:
            out.append('the conversion %s failed' % show(q.args[0])[:60])
        elif q.op == 'discr' and v == ((1, 1),) and isinstance(q.args[0], Term):
            x = q.args[0]
            if x.op == 'sym' and x.args[0] == 'event':
                out.append('reading the document failed')
            elif x.op == 'call' and result_fn(ctx, x.args[1]):
                out.append('%s failed' % x.args[0].split('::')[-1])
            elif x.op == 'item' and any(isinstance(y, Term) and y.op == 'xattrs' for y in terms(x)):
                out.append('an attribute is malformed')
    return out


def result_fn(ctx, i):
    return isinstance(i, int) and X.okty(ctx, ctx.F.body(i).locals[0]) is not None if ctx.F.insts[i].get('mir') else False


def known_end(ctx, s, name):
    """the name of the end tag is compared with a known text or with the opening name: True, False, None"""
    if name is None:
        return False
    t = X.base(name)
    for q, v in s.facts.items():
        if isinstance(q, Term) and q.op in ('eqs', 'eqv') and v is True and any(X.base(y) is t for y in q.args[:2]):
            return True
    p, exact = X.allows(s, t, X.OTHER)
    return True if not p else (False if exact else None)


def last_event(ctx, st):
    evs = X.events(ctx, st)
    if not evs:
        return None, None
    ev, k = max(evs, key=lambda e: e[0].args[0].args[1] if isinstance(e[0].args[0].args[1], int) else 0)
    return ev, k


def loader_fn(ctx, res, kind, i, deep):
    t = X.Table(ctx, i, deep)
    name = t.path.split('::')[-1]
    if t.bad or t.odd or not t.oks:
        res.und('loader ' + name, t.r.why() or 'exits not recognised')
        return 0
    code = {v: k for k, v in X.KIND.items()}
    # attributes outside the schema
    for s in t.attrs:
        p = X.pinned_name(s.state, X.base(s.key))
        if not p:
            (res.bad if p is False else res.und)('%s attribute' % name, 'an attribute that is not in the schema is accepted (in %s)' % name)
        else:
            res.ok()
        for f in failures(ctx, s.state, s.head):
            res.bad('%s attribute error' % name, '%s goes on to the next attribute although %s' % (name, f))
        if p in c19.BOOL:
            pv, ev = X.allows(s.state, X.base(s.val), 'zz')
            if pv:
                (res.bad if ev else res.und)('%s flag %s' % (name, p), 'the flag %s is accepted whatever its value (in %s)' % (p, name))
    # events
    for s in t.events:
        ks = {X.KIND[k] for k in s.kinds}
        if 'Eof' in ks:
            res.bad('%s end of document' % name, '%s goes on after the end of the document' % name)
        else:
            res.ok()
        if 'End' in ks and kind != 'skip':
            if ks == {'End'}:
                res.bad('%s end tag' % name, '%s goes on after an end tag it did not expect' % name) if s.name is None or X.allows(s.state, X.base(s.name), X.OTHER) == (True, True) \
                    else res.und('%s end tag' % name, 'an end tag is passed over')
            else:
                res.bad('%s end tag' % name, '%s goes on after any end tag' % name)
        if ks & {'Start', 'Empty'} and kind != 'skip':
            if s.name is None:
                res.bad('%s element' % name, 'an element of any name is passed over (in %s)' % name)
            else:
                p, exact = X.pinned_name(s.state, X.base(s.name)), True
                p, exact = not p, p is False
                if p and kind == 'list' and skipped(ctx, s):
                    res.ok()  # an element beside the territories is skipped whole
                elif p:
                    (res.bad if exact else res.und)('%s element' % name, 'an element that is not in the schema is passed over (in %s)' % name)
                else:
                    res.ok()
        for f in failures(ctx, s.state, s.head):
            res.bad('%s error' % name, '%s goes on although %s' % (name, f))
    for s in t.other:
        for f in failures(ctx, s.state, s.head):
            res.bad('%s error' % name, '%s goes on although %s' % (name, f))
    for L in t.a.loops:
        if any(x.loop is L for x in t.events):
            for s in L['entry']:
                if unread(s):
                    res.bad('%s attributes' % name, '%s goes on to the content of an element without having looked at all its attributes' % name)
    # success exits
    for st, v in t.oks:
        ev, ks = last_event(ctx, st)
        if ev is None:
            res.und('%s success' % name, 'succeeds without an event')
            continue
        ks = {X.KIND[k] for k in ks}
        if 'Eof' in ks:
            res.bad('%s success' % name, '%s succeeds at the end of the document although its element is still open' % name)
        elif ks != {'End'}:
            res.bad('%s success' % name, '%s succeeds at an event that is not the end of its element (%s)' % (name, ', '.join(sorted(ks))))
        else:
            k = known_end(ctx, st, X.ename(st, ev))
            if k is False and kind != 'skip':
                res.bad('%s success' % name, '%s succeeds at the end tag of any element' % name)
            elif k is None:
                res.und('%s success' % name, 'name of the end tag not recognised')
            else:
                res.ok()
        for f in failures(ctx, st):
            res.bad('%s success error' % name, '%s succeeds although %s' % (name, f))
        left = unread(st)
        if left:
            res.bad('%s attributes' % name, '%s succeeds without having looked at all attributes of %s' % (name, show(left)[:40]))
    # the event loops are entered with all attributes read
    return len(t.attrs) + len(t.events) + len(t.oks)


def skipped(ctx, s):
    """the pass has skipped the element with the skipping function, given its name"""
    for q, v in s.state.facts.items():
        if isinstance(q, Term) and q.op == 'discr' and v == ((0, 0),) and s.head.facts.get(q) != v and isinstance(q.args[0], Term) and q.args[0].op == 'call':
            c = q.args[0]
            if c19.kind_of(ctx, c.args[1]) == 'skip' and any(X.base(x) is X.base(s.name) for x in terms(c.args[2]) if isinstance(x, Term)):
                return True
    return False


def unread(st):
    """an attribute list of which the state has taken some attributes and not reached the end"""
    seen, done = {}, set()
    for q, v in st.facts.items():
        if isinstance(q, Term) and q.op == 'isnext':
            for x in terms(q.args[0]):
                if isinstance(x, Term) and x.op == 'xattrs':
                    seen[x] = True
                    if v is False:
                        done.add(x)
    for x in seen:
        if x not in done:
            return x
    return None


def lengths_fn(ctx, res, i):
    a = loading.shallow(ctx, i, only=lambda k: False)
    a.pair_heads = True
    r = Run(ctx, i, ai_=a, deadline=100)
    name = ctx.F.insts[i]['path'].split('::')[-1]
    if r.tainted:
        res.und('lengths ' + name, r.why())
        return
    n = 0
    for L in a.loops:
        for h, backs in L['pairs']:
            for s in backs:
                n += 1
                f = failures(ctx, s, h)
                if f:
                    res.bad('lengths ' + name, 'a length list is read on although %s' % f[0])
                else:
                    res.ok()
    for st, v in r.outs:
        v = a.deepval(st, v)
        if isinstance(v, Agg) and v.var == 0:
            n += 1
            f = failures(ctx, st)
            if f:
                res.bad('lengths ' + name, 'a length list is accepted although %s' % f[0])
            else:
                res.ok()
    res.sample('%s: %d passes and exits' % (name, n))


def required(ctx, res):
    b = c19.Builders(ctx, res)
    for kind, names in REQUIRED.items():
        b.fields(kind)
        i = next((i for i, k in b.kind.items() if k == kind), None)
        if i is None:
            continue
        r = Run(ctx, i, ai_=loading.shallow(ctx, i, only=lambda k: k in b.kind), deadline=120)
        if r.tainted:
            res.und('required ' + kind, r.why())
            continue
        lty = X.sig(ctx, i)[0][-1]
        lf = [f[0] for f in ctx.F.types[lty]['variants'][0]['fields']]
        for st, v in r.outs:
            v = r.a.deepval(st, v)
            if not (isinstance(v, Agg) and v.var == 0):
                continue
            for f in failures(ctx, st):
                res.bad('builder %s' % kind, 'a %s is built although %s' % (KINDNAME[kind], f))
            for n in names:
                if n not in lf:
                    res.und('required ' + n, 'no such loaded field')
                    continue
                x = T('fld', r.args[-1], 0, lf.index(n))
                d = pinned(st, x)
                if d == 1:
                    res.ok()
                else:
                    res.bad('required ' + n, 'a database is built although the %s of a %s is missing' % (n.replace('_', ' '), KINDNAME[kind]))


def roots(ctx, res):
    """the public loading functions hand on every error"""
    n = 0
    for i in loading.loading_roots(ctx):
        if any('quick_xml::reader::Reader<' in X.tname(ctx, t) for t in X.sig(ctx, i)[0]):
            continue
        r = Run(ctx, i, ai_=loading.shallow(ctx, i), deadline=100)
        name = ctx.F.insts[i]['path'].split('::')[-1]
        if r.tainted:
            res.und('loading ' + name, r.why())
            continue
        for st, v in r.outs:
            v = r.a.deepval(st, v)
            if isinstance(v, Agg) and v.var == 0:
                n += 1
                f = failures(ctx, st)
                if f:
                    res.bad('loading ' + name, '%s succeeds although %s' % (name, f[0]))
                else:
                    res.ok()
    res.sample('%d success exits of the public loading functions' % n)


def check(ctx, res):
    fns, deep = X.reader_fns(ctx), X.derived(ctx)
    cov = {}
    for p, i in sorted(fns.items()):
        if X.changes(ctx, i) and c19.kind_of(ctx, i) is None:
            continue
        cov[p] = loader_fn(ctx, res, c19.kind_of(ctx, i), i, deep)
    if len(cov) < 6:
        res.und('loader functions', 'only %d found' % len(cov))
    res.coverage['loader_functions'] = cov
    lens = {ctx.F.insts[j]['path']: j for j in X.localfns(ctx) if X.okty(ctx, X.sig(ctx, j)[1]) is not None and X.tname(ctx, X.okty(ctx, X.sig(ctx, j)[1])) == 'alloc::vec::Vec<u16>'
            and len(X.sig(ctx, j)[0]) == 1}
    if not lens:
        res.und('lengths', 'no function that reads a list of lengths found')
    for p, j in sorted(lens.items()):
        lengths_fn(ctx, res, j)
    required(ctx, res)
    roots(ctx, res)
