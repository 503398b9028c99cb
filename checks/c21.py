"""C21: the three indexes of a database hold the same records"""
from checks import xmltab as X, loading, c19
from checks.c19 import precise
from checks.lib import *

LEVEL = 'proof'
RULE = ('obligation = (pass of the construction loop, index) and (query, exit); discharged when the pass enters the converted record under its identifier, under its calling code at the '
        'head of the list exactly when it is the main country, and its identifier at the same position of the parallel list, on top of what the index held; and when each query '
        'returns exactly what its index holds, in order')
EXPLAIN = ('Abstract interpretation of the constructor with symbolic maps: each pass around its loop gives the exact new value of each index as a term over the old one. The queries are '
           'interpreted the same way, so the invariant proved for the loop is the one the queries expose.')
ASSUME = ['library models of maps and lists are correct', 'the metadata passed in was converted as C19 describes']
DB = 'crate::metadata::database::Database'


def deref(a, st, v):
    for _ in range(8):
        if isinstance(v, Ref):
            v = v.loc[1] if v.loc[0] == 'V' and not v.path else a.read(st, v.loc, v.path)
        else:
            break
    return v


def rec(a, st, v):
    """the record behind references and shared pointers"""
    for _ in range(8):
        v = deref(a, st, v)
        if isinstance(v, Term) and v.op == '*':
            v = v.args[0]
        elif isinstance(v, Term) and v.op == 'fld' and isinstance(v.args[0], Term) and (v.args[0].op == '*' or shared(v)):
            v = v.args[0] if shared(v) else v.args[0].args[0]
        else:
            break
    return v


def shared(v):
    """v is what a shared pointer points to: a part of a converted record that a record does not have"""
    return v.args[2] == 2 and v.args[0].op == 'fld' and isinstance(v.args[0].args[0], Term) and v.args[0].args[0].op == 'call'


def kept(v, m):
    return any(isinstance(x, Agg) and x.kind == 'list' and x.f and any(inside(y, m) for y in x.f) or isinstance(x, Term) and x.op in ('lpush', 'lins') and inside(x.args[-1], m) for x in terms(v))


def inside(v, x):
    return any(y is x for y in terms(v))


# ---- the constructor

class Build:
    def __init__(self, ctx, res):
        self.ctx, self.res = ctx, res
        self.b = c19.Builders(ctx, res)
        self.root = None
        for i in X.localfns(ctx):
            a, r = X.sig(ctx, i)
            o = X.okty(ctx, r)
            if o is not None and X.tname(ctx, o) == DB and any('Vec<' + X.LP + 'Metadata>' in X.tname(ctx, t) for t in a):
                self.root = i

    def run(self):
        ctx, res = self.ctx, self.res
        if self.root is None:
            res.und('constructor', 'not found')
            return None
        a = loading.shallow(ctx, self.root, only=lambda k: k in self.b.kind)
        a.pair_heads = True
        r = Run(ctx, self.root, ai_=a, deadline=120)
        if r.tainted:
            res.und('constructor', r.why())
            return None
        self.r, self.a = r, a
        return r


def record_of(ctx, b, s, head):
    """the converted record of this pass: the success payload of the conversion call"""
    out = set()
    for q, v in s.facts.items():
        if isinstance(q, Term) and q.op == 'discr' and v == ((0, 0),) and head.facts.get(q) != v and isinstance(q.args[0], Term) and q.args[0].op == 'call' and \
           b.kind.get(q.args[0].args[1]) == 'meta':
            out.add(T('fld', q.args[0], 0, 0))
    return out


def classify(a, st, new, old, key, val, isrec, main):
    """how an index changes in one pass: (ok, message); None when the form is not recognised"""
    new = deref(a, st, new)
    if new is old:
        return False, 'does not get the record'
    if not (isinstance(new, Term) and new.op == 'minsert'):
        return None
    m, k, v = new.args[:3]
    if m is not old:
        return None
    return m, deref(a, st, k), v


def check_pass(ctx, res, B, names, idx, s, h, fields):
    a = B.a
    ms = record_of(ctx, B.b, s, h)
    if not ms:
        return False
    if len(ms) != 1:
        res.und('construction', 'several records in one pass')
        return True
    m = ms.pop()
    ident, code, main = fields
    # facts about the main flag of this record
    def part(k):
        return [q for q in s.facts if isinstance(q, Term) and q.op == 'fld' and q.args[2] == k and rec(a, s, q.args[0]) is m]
    flag = [s.facts[q] for q in part(main)]
    flag = flag[0] if len(set(flag)) == 1 else None

    def isfield(x, k):
        x = deref(a, s, x)
        return isinstance(x, Term) and x.op == 'fld' and x.args[2] == k and rec(a, s, x.args[0]) is m

    def isrec(x):
        return rec(a, s, x) is m
    if all(deref(a, s, cell(s, *o)) is deref(a, h, cell(h, *o)) for o in idx.values()):
        if any(isinstance(v, (Agg, Term)) and h.mem.get(k) is not v and (k not in h.mem or isinstance(h.mem[k], (Agg, Term))) and inside(v, m) and kept(v, m) for k, v in s.mem.items()):
            res.und('construction', 'records are gathered before they are entered')
            return False
    def present(w):
        old = deref(a, h, cell(h, *idx[w]))
        hs = [x for q, x in s.facts.items() if isinstance(q, Term) and q.op == 'mhas' and isfield(q.args[1], code) and
              (deref(a, s, q.args[0]) is old or empty_map(q.args[0]) and empty_map(old) and getattr(q.args[0], 'ty', 0) == getattr(old, 'ty', 0))]
        return hs[-1] if hs else None
    if 'code' in idx and 'reg' in idx and {present('code'), present('reg')} == {True, False}:
        return True    # by induction both lists exist for the same calling codes
    pos = {}
    for w, (loc, path) in idx.items():
        old, new = cell(h, loc, path), cell(s, loc, path)
        key = 'index ' + names[w]
        new = deref(a, s, new)
        old = deref(a, h, old)
        if new is old:
            res.bad(key, 'a record that was read does not enter the index %s' % names[w])
            continue
        if empty_map(old) and isinstance(new, Term) and new.op == 'minsert' and new.args[0].op in ('mapempty',) or isinstance(new, Term) and new.op == 'minsert' and deref(a, s, new.args[0]) is old:
            k, v = new.args[1], new.args[2]
        elif isinstance(new, Agg) and new.kind == 'cmap' and len(new.f) == 1 and empty_map(old):
            k, v = new.f[0].f[0], new.f[0].f[1]
        else:
            res.und(key, 'not recognised: %s' % show(new)[:100])
            continue
        wantk = ident if w == 'id' else code
        if not isfield(k, wantk):
            kk = deref(a, s, k)
            (res.bad if precise(kk) or isinstance(kk, Term) and kk.op == 'fld' and rec(a, s, kk.args[0]) is m else res.und)(key, 'a record is entered into the index %s under %s instead of its %s' % (
                names[w], show(kk)[:60], 'identifier' if w == 'id' else 'calling code'))
            continue
        elem = (lambda x: isfield(x, ident)) if w == 'reg' else isrec
        if w == 'id':
            if isrec(v):
                res.ok()
            else:
                res.und(key, 'value not recognised: %s' % show(v)[:80])
            continue
        v = deref(a, s, v)
        had = [present(w)]
        if isinstance(v, Agg) and v.kind == 'list' and len(v.f) == 1:
            if not elem(v.f[0]):
                res.und(key, 'element not recognised: %s' % show(v.f[0])[:80])
            elif had[-1] is False:
                res.ok()
                pos[w] = 'only'
            else:
                res.bad(key, 'entering a record into the index %s drops the others of the same calling code' % names[w])
            continue
        if isinstance(v, Term) and v.op == 'lins' and isinstance(v.args[0], Agg) and v.args[0].kind == 'list' and not v.args[0].f and had[-1] is False:
            # a first entry put at a computed place: an insertion beyond the end would panic (C02)
            if elem(v.args[2]):
                res.ok()
                pos[w] = 'only'
            else:
                res.und(key, 'element not recognised: %s' % show(v.args[2])[:80])
            continue
        if isinstance(v, Term) and v.op in ('lins', 'lpush') and isinstance(v.args[0], Term) and v.args[0].op == 'mapget' and isfield(v.args[0].args[1], code):
            e = v.args[-1]
            if not elem(e):
                (res.bad if not inside(e, m) and precise(e) else res.und)(key, 'the index %s gets %s' % (names[w], show(e)[:60]))
                continue
            i = v.args[1]
            at = 'end' if v.op == 'lpush' else None if not isinstance(i, Term) else 'front' if i.op == 'int' and i.args[0] == 0 else \
                'end' if i.op == 'llen' and same_list(a, s, i.args[0], v.args[0]) else 'fixed' if i.op == 'int' else None
            if at is None and isinstance(i, Term) and i.op == 'llen' and isinstance(i.args[0], Term) and i.args[0].op == 'mapget' and isfield(i.args[0].args[1], code):
                # as long as the other list of the same code: they have the same length by induction
                at = 'end'
            if at is None:
                res.und(key, 'position not recognised: %s' % show(v.args[1])[:60])
                continue
            pos[w] = at
            if at == 'fixed':
                res.bad(key, 'a record is put at place %s of the list of its calling code in the index %s' % (show(i), names[w]))
            elif flag is True and at != 'front':
                res.bad(key, 'the main country of a calling code is not put first in the index %s' % names[w])
            elif flag is False and at == 'front':
                res.bad(key, 'a country that is not the main one of its calling code is put before it in the index %s' % names[w])
            elif flag is None:
                res.bad(key, 'the place of a record in the index %s does not depend on whether it is the main country of its calling code' % names[w])
            else:
                res.ok()
            continue
        res.und(key, 'value not recognised: %s' % show(v)[:100])
    if 'code' in pos and 'reg' in pos and pos['code'] != 'only' and pos['reg'] != 'only':
        if pos['code'] == pos['reg']:
            res.ok()
        else:
            res.bad('index order', 'the identifier of a record does not get the place of the record itself (%s and %s)' % (pos['reg'], pos['code']))
    return True


def cursors(a, st, src):
    """cells holding an iterator over the list given -> index of the next element"""
    out = {}
    for loc, v in st.mem.items():
        for x in terms(v) if isinstance(v, (Agg, Term)) else ():
            if isinstance(x, Agg) and x.kind == 'it' and x.var == 'list' and x.f[0] is src and isinstance(x.f[1], Term):
                out[loc] = x.f[1]
    return out


def complete(B, res):
    """each pass converts exactly the elements it takes, from the first to the last"""
    a, r = B.a, B.r
    src = r.args[0]
    idxs = []
    n = 0

    def llen(v):
        for st, w in r.outs:
            for q in st.facts:
                if isinstance(q, Term) and q.op == 'llen' and q.args[0] is v:
                    return q
        return T('llen', v)
    for L in a.loops:
        for h, backs in L['pairs']:
            hc = cursors(a, h, src)
            idxs += hc.values()
            for s in backs:
                sc = cursors(a, s, src)
                for loc in hc:
                    if loc not in sc:
                        continue
                    d = sub(sc[loc], hc[loc])
                    if not (isinstance(d, Term) and d.op == 'int'):
                        res.und('whole document', 'step %s' % show(d)[:60])
                        continue
                    if d.args[0] == 0:
                        continue
                    n += 1
                    got = set()
                    for q, v in s.facts.items():
                        if isinstance(q, Term) and q.op == 'discr' and isinstance(q.args[0], Term) and q.args[0].op == 'call' and B.b.kind.get(q.args[0].args[1]) == 'meta':
                            got |= {x.args[1] for x in terms(q.args[0]) if isinstance(x, Term) and x.op == 'elt' and x.args[0] is src}
                    miss = [j for j in range(d.args[0]) if addc(hc[loc], j) not in got] if d.args[0] > 0 else None
                    if miss is None:
                        res.und('whole document', 'the list is walked backwards')
                    elif miss:
                        res.bad('whole document', 'a description of the document is passed over without becoming a record')
                    else:
                        res.ok()
        for s in L['entry']:
            for i in cursors(a, s, src).values():
                if isinstance(i, Term) and i.op == 'int':
                    (res.ok if i.args[0] == 0 else lambda: res.bad('whole document', 'the first description of the document is passed over'))()
    for st, v in r.outs:
        v = a.deepval(st, v)
        if isinstance(v, Agg) and v.var == 0:
            if any(a.prove(st, sub(i, llen(src))) for i in idxs):
                res.ok()
            else:
                res.und('whole document', 'not shown that the loop runs to the end of the list')
    res.coverage['passes taking a description'] = n


def cell(st, loc, path):
    v = st.mem.get(loc)
    for k in path:
        v = field_of(v, k) if isinstance(v, Agg) else T('fld', v, 0, k) if v is not None else None
    return v


def same_list(a, st, x, y):
    return x is y or isinstance(x, Term) and isinstance(y, Term) and x.op == y.op == 'mapget' and deref(a, st, x.args[0]) is deref(a, st, y.args[0]) and x.args[1] is y.args[1]


def empty_map(v):
    return isinstance(v, Agg) and v.kind == 'cmap' and not v.f or isinstance(v, Term) and v.op == 'mapempty'


def construct(ctx, res, ix):
    B = Build(ctx, res)
    r = B.run()
    if r is None:
        return
    acc = {}
    for n in ('id', 'country_code', 'is_main_country_for_code'):
        acc[n] = c19.accessor(ctx, res, c19.M + '::' + n)
    if None in acc.values():
        return
    fields = (acc['id'], acc['country_code'], acc['is_main_country_for_code'])
    names = {'id': 'by identifier', 'code': 'by calling code', 'reg': 'of identifiers by calling code'}
    cells = {}
    for st, v in r.outs:
        v = B.a.deepval(st, v)
        if not (isinstance(v, Agg) and v.var == 0):
            continue
        d = v.f[0]
        for w, k in ix.items():
            x = field_of(d, k) if isinstance(d, Agg) else None
            o = X.origin(x) if isinstance(x, Term) else None
            if o is None and empty_map(x):
                continue
            cells.setdefault(w, set()).add(o if o else show(x)[:80])
    idx = {}
    for w in ix:
        c = cells.get(w, set())
        if len(c) != 1 or not isinstance(next(iter(c)), tuple):
            res.und('index ' + names[w], 'built from %s' % sorted(map(str, c))[:2])
        else:
            idx[w] = next(iter(c))
    n = 0
    for L in B.a.loops:
        for h, backs in L['pairs']:
            for s in backs:
                if check_pass(ctx, res, B, names, idx, s, h, fields):
                    n += 1
        for s in L['entry']:
            for w, o in idx.items():
                v = deref(B.a, s, cell(s, *o))
                if v is None or X.origin(v) is not None or inside(v, None):
                    continue
                if empty_map(v):
                    res.ok()
    if not n:
        res.und('construction', 'no pass around the construction loop found')
    res.coverage['passes of the construction loop'] = n
    complete(B, res)
    for st, v in r.outs:
        v = B.a.deepval(st, v)
        if isinstance(v, Agg) and v.var == 0:
            res.sample('success exit: %s' % show(v)[:120])


# ---- the queries

def query(ctx, res, name, kind):
    """field of the database a query looks at, when it returns just what it holds"""
    i = inst_of(ctx, DB + '::' + name)
    if i is None:
        res.und('query ' + name, 'not found')
        return None
    r = Run(ctx, i, deadline=60)
    if r.tainted or not r.outs:
        res.und('query ' + name, r.why() or 'no exit')
        return None
    ks = set()
    good = True
    for st, v in r.outs:
        v = r.a.deepval(st, v)
        gets = [x for x in terms(v) if isinstance(x, Term) and x.op == 'mapget'] or \
            [y for z in st.mem.values() if isinstance(z, (Agg, Term)) for y in terms(z) if isinstance(y, Term) and y.op == 'mapget'] or \
            [y for L in r.a.loops for h in L['heads'] for z in h.mem.values() if isinstance(z, (Agg, Term)) for y in terms(z) if isinstance(y, Term) and y.op == 'mapget']
        has = [(q, w) for q, w in st.facts.items() if isinstance(q, Term) and q.op == 'mhas']
        if isinstance(v, Agg) and v.var == 0 and not v.f:
            if len(has) == 1 and has[0][1] is False:
                ks.add(c19.selffield(has[0][0].args[0]))
                res.ok()
            else:
                (res.bad if has and has[0][1] is True and all(precise(q) for q in st.facts if isinstance(q, Term)) else res.und)('query ' + name, 'the query %s finds nothing although the index has an entry' % name)
                good = False
            continue
        if not (isinstance(v, Agg) and v.var == 1 and len(v.f) == 1) or not gets:
            res.und('query ' + name, show(v)[:100])
            good = False
            continue
        g = gets[0]
        ks.add(c19.selffield(g.args[0]))
        k = deref(r.a, st, g.args[1])
        if not (k is strip_arg(r, 1)):
            (res.bad if precise(k) else res.und)('query ' + name, 'the query %s looks up %s instead of the key given' % (name, show(k)[:60]))
            good = False
            continue
        x = deref(r.a, st, v.f[0])
        form = shape(r.a, st, x, g)
        if form is None:
            ks2 = {y.var for L in r.a.loops for h in L['heads'] for z in h.mem.values() if isinstance(z, (Agg, Term)) for y in terms(z)
                   if isinstance(y, Agg) and y.kind == 'it' and any(isinstance(w, (Agg, Term)) and inside(w, g) for w in y.f)}
            odd = [k for k in ks2 if k in DROP or k == 'rev']
            if len(odd) == 1 and inside_loops(r.a, x):
                res.bad('query ' + name, 'the query %s does not give what the index holds: it %s' % (name, DROP.get(odd[0], 'gives it in another order')))
                good = False
                continue
        if form == 'same':
            res.ok()
        else:
            (res.bad if form == 'other' and precise(x) else res.und)('query ' + name, 'the query %s gives %s instead of what the index holds' % (name, show(x)[:80]))
            good = False
    if len(ks) == 1 and good:
        return ks.pop()
    if len(ks) > 1:
        res.und('query ' + name, 'several indexes')
    return None


def inside_loops(a, x):
    return isinstance(x, Term) and any(isinstance(y, Term) and y.op == 'phi' for y in terms(x))


def strip_arg(r, k):
    v = r.args[k]
    while isinstance(v, Ref):
        v = v.loc[1] if v.loc[0] == 'V' and not v.path else v
        if isinstance(v, Ref):
            break
    return v


def only_parts(v, x):
    """v is made of x by following references and fields only"""
    while True:
        if v is x:
            return True
        if isinstance(v, Ref):
            if v.loc[0] == 'V':
                v = v.loc[1]
                continue
            return False
        if isinstance(v, Term) and v.op in ('*', 'fld') and not (v.op == 'fld' and v.args[1] != 0):
            v = v.args[0]
            continue
        return False


def shape(a, st, x, g):
    if x is g or only_parts(x, g):
        return 'same'
    if isinstance(x, Term) and x.op == 'lmap':
        if x.args[0] is g and only_parts(x.args[2], x.args[1]):
            return 'same'
        return None
    if isinstance(x, Term) and x.op in ('elt', 'slice', 'lrev', 'lpush', 'lins'):
        return 'other'
    return None


KEEP = {'mapf', 'map_fn', 'flatten', 'flat_map', 'map', 'list', 'copied', 'cloned', 'fuse', 'inspect', 'peekable', 'chain', 'enum', 'rev'}
DROP = {'filter': 'leaves some out', 'take': 'stops early', 'skip': 'leaves the first out', 'step': 'leaves some out', 'take_while': 'stops early', 'skip_while': 'leaves some out',
        'filter_map': 'leaves some out', 'map_while': 'stops early', 'scan': 'stops early'}


def iteration(ctx, res, code):
    i = inst_of(ctx, DB + '::iter')
    if i is None:
        res.und('iteration', 'not found')
        return
    r = Run(ctx, i, deadline=60)
    if r.tainted or not r.outs:
        res.und('iteration', r.why() or 'no exit')
        return
    for st, v in r.outs:
        v = r.a.deepval(st, v)
        its = [x for x in terms(v) if isinstance(x, Agg) and x.kind == 'it']
        if not its:
            res.und('iteration', show(v)[:100])
            continue
        kinds = [x.var for x in its]
        base = [c19.selffield(x) for y in its for x in y.f if c19.selffield(x) is not None]
        drop = [k for k in kinds if k in DROP]
        first = [x.f[1] for x in its if x.var in ('list', 'map') and len(x.f) > 1 and isinstance(x.f[1], Term)]
        if drop:
            res.bad('iteration', 'iterating the database %s (%s)' % (DROP[drop[0]], drop[0]))
        elif not base or any(k not in KEEP for k in kinds):
            res.und('iteration', '%s over %s' % (kinds, base))
        elif set(base) != {code}:
            res.bad('iteration', 'iterating the database does not go over the index by calling code, in which alone every record has its own place')
        elif any(x.op != 'int' or x.args[0] != 0 for x in first):
            res.bad('iteration', 'iterating the database does not begin with the first record')
        elif 'flatten' not in kinds and 'flat_map' not in kinds:
            res.und('iteration', 'lists are not flattened: %s' % kinds)
        else:
            res.ok()
        res.coverage['iteration'] = kinds


def check(ctx, res):
    ix = {w: query(ctx, res, n, w) for w, n in (('id', 'by_id'), ('code', 'by_code'), ('reg', 'region'))}
    ix = {w: k for w, k in ix.items() if k is not None}
    if len(set(ix.values())) != len(ix):
        res.bad('queries', 'two queries of different meaning look at the same index')
        return
    res.coverage['index fields'] = ix
    if 'code' in ix:
        iteration(ctx, res, ix['code'])
    construct(ctx, res, ix)
