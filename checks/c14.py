"""C14: a number is attributed to the right region"""
from checks import xmltab as X, loading, c19, c21, c13
from checks import kernels as K
from checks.lib import *

LEVEL = 'proof'
RULE = ('obligation = exit of the operation that gives the metadata of a number, and pass of the walk over the regions of its calling code; discharged when the record given is the only one of '
        'the code or one whose leading digits match at the start (or, without leading digits, under which the number has a type), when every region walked past is one for which that fails, and '
        'when nothing is given only after the last one')
EXPLAIN = ('Decision table of the public operation by abstract interpretation, with the function that decides the type of a text kept symbolic (C13 tabulates it). The walk over the regions is '
           'covered by its passes from a symbolic position, so every list of regions is covered.')
ASSUME = ['library models of regex, text, lists and maps are correct', 'the indexes of the database agree (C21)', 'the type of a text is decided as C13 says']


class Env:
    pass


def place(e, t):
    """(position in the lists of the calling code, rest of the path) of a place inside one of its records"""
    root, path = K.unstar(t)
    if not isinstance(root, Term):
        return None
    k = None
    if root.op == 'mapget' and e.isidx(root.args[0], 'id'):
        x = root.args[1]
        while isinstance(x, Term) and x.op in ('enumtext', 'enumof'):
            x = x.args[0]
        if isinstance(x, Term) and x.op == 'elt' and e.islist(x.args[0], 'reg'):
            k = x.args[1]
    elif root.op == 'elt' and e.islist(root.args[0], 'code'):
        k = root.args[1]
    if k is None:
        return None
    if path and path[0] == (0, 2) and not e.plainrec:
        path = path[1:]
    return k, path


def evidence(e, st):
    """position -> True (the rules of the region accept the number), False (they do not)"""
    ld = {}
    typ = {}
    for q, v in st.facts.items():
        if not isinstance(q, Term):
            continue
        if q.op == 'discr':
            c = q.args[0]
            if isinstance(c, Term) and c.op == 'call' and c.args[1] in e.nts:
                rec = [place(e, y) for y in c.args[2]]
                rec = [p for p in rec if p is not None and p[1] in ((), ((0, e.ds),))]
                txt = [y for y in c.args[2] if place(e, y) is None]
                if len(rec) == 1 and len(txt) == 1:
                    e.texts.add(txt[0])
                    k = rec[0][0]
                    if v == ((e.unk, e.unk),):
                        typ[k] = False
                    elif not any(a <= e.unk <= b for a, b in v):
                        typ[k] = True
                continue
            p = place(e, c)
            if p is not None and p[1] == ((0, e.ld),) and v in (((0, 0),), ((1, 1),)):
                ld.setdefault(p[0], {})['has'] = v == ((1, 1),)
        elif q.op in ('matched', 'ms'):
            p = place(e, q.args[0])
            if p is not None and p[1] == ((0, e.ld), (1, 0)):
                e.texts.add(q.args[1])
                ld.setdefault(p[0], {})[q.op] = v if q.op == 'matched' else True if v == ((0, 0),) else False if v[0][0] > 0 else None
    out = {}
    for k in set(ld) | set(typ):
        f = ld.get(k, {})
        if f.get('has') is True:
            if f.get('matched') is False or f.get('ms') is False:
                out[k] = False
            elif f.get('matched') is True and f.get('ms') is True:
                out[k] = True
        elif f.get('has') is False and k in typ:
            out[k] = typ[k]
    return out


def check(ctx, res):
    e = Env()
    mi = inst_of(ctx, K.PN + '::metadata')
    e.nts = K.classifiers(ctx)
    if mi is None or not e.nts:
        res.und('metadata of a number', 'operation or classification not found')
        return
    quiet = type(res)()
    ix = {w: c21.query(ctx, quiet, n, w) for w, n in (('id', 'by_id'), ('code', 'by_code'), ('reg', 'region'))}
    e.ld = c19.accessor(ctx, res, K.MD + '::leading_digits')
    e.ds = c19.accessor(ctx, res, K.MD + '::descriptors')
    if None in ix.values() or e.ld is None or e.ds is None:
        res.und('metadata of a number', 'indexes not found (see C21)')
        return
    e.unk = (K.variants(ctx, K.TY) or []).index('Unknown')
    e.plainrec = False
    e.texts = set()
    r = K.table(ctx, mi, e.nts)
    if r.tainted or not r.outs:
        res.und('metadata of a number', r.why() or 'no exit')
        return
    a = r.a
    num, db = K.unstar(r.args[0])[0], K.unstar(r.args[1])[0]

    def isidx(t, w):
        root, path = K.unstar(t)
        return root is db and path == ((0, ix[w]),)

    def iscode(t):
        root, path = K.unstar(t)
        if root is not num or len(path) != 2:
            return False
        f = ctx.F.types[X.adt(ctx, K.PN)]['variants'][0]['fields'][path[0][1]][1]
        return f is not None and X.tname(ctx, f) == 'crate::country::Code' and ctx.F.types[f]['variants'][0]['fields'][path[1][1]][1] is not None

    def islist(t, w):
        return isinstance(t, Term) and t.op == 'mapget' and isidx(t.args[0], w) and iscode(t.args[1])
    e.isidx, e.islist = isidx, islist
    forms = c13.national(ctx)
    lists = {q.args[0] for st, v in r.outs for q in st.facts if isinstance(q, Term) and q.op == 'llen' and (islist(q.args[0], 'reg') or islist(q.args[0], 'code'))}

    def size(st):
        """known sizes of the lists of the code"""
        out = None
        for q, v in st.facts.items():
            if isinstance(q, Term) and q.op == 'llen' and q.args[0] in lists:
                out = v if out is None or v == ((1, 1),) else out
        return out

    def known(st):
        return all(precise_here(q) for q in st.facts if isinstance(q, Term))

    def precise_here(q):
        return not any(isinstance(x, Term) and x.op in ('sym', 'j', 'old', 'rs') for x in terms(q))
    # --- exits
    n = {'some': 0, 'none': 0, 'pass': 0}
    for st, v in r.outs:
        v = a.deepval(st, v)
        alarm = res.bad if known(st) else res.und
        if not (isinstance(v, Agg) and v.kind == 'adt' and v.var in (0, 1)):
            res.und('metadata of a number', show(v)[:100])
            continue
        ev = evidence(e, st)
        sz = size(st)
        if v.var == 1:
            n['some'] += 1
            p = place(e, v.f[0])
            if p is None or p[1] != ():
                (alarm if isinstance(v.f[0], Term) and precise_here(v.f[0]) else res.und)('metadata given', 'a number is given the record %s, which is not one of its calling code' % show(v.f[0])[:140])
                continue
            k = p[0]
            first = isinstance(k, Term) and k.op == 'int' and k.args[0] == 0
            byid = K.unstar(v.f[0])[0].op == 'mapget'
            if sz == ((1, 1),):
                if not first:
                    alarm('metadata given', 'the record at place %s is given for a code with one region' % show(k))
                elif byid and not geo(st, e):
                    alarm('metadata given', 'the record of a non-geographical code is looked up by its identifier, which it shares with others')
                else:
                    res.ok()
            elif ev.get(k) is True:
                if sz is not None and not any(x <= 1 <= y for x, y in sz):
                    res.ok()
                else:
                    alarm('metadata given', 'the rules of the only region of a code decide whether a number belongs to it')
            elif ev.get(k) is False:
                alarm('metadata given', 'a number is attributed to a region whose rules do not accept it')
            else:
                alarm('metadata given', 'a number is attributed to a region without asking whether its leading digits match, or without leading digits its rules')
            continue
        n['none'] += 1
        why = nothing(e, a, st, sz, lists)
        if why:
            res.ok()
        else:
            alarm('no metadata', 'a number gets no region although %s' % ('the rules of one accept it' if True in ev.values() else 'its calling code has regions that were not asked' if ev or sz else 'nothing was looked up'))
    # --- passes
    for L in a.loops:
        for h, backs in L['pairs']:
            hc = cursors(a, h, lists)
            for s in backs:
                sc = cursors(a, s, lists)
                for loc in hc:
                    if loc not in sc or sc[loc] is hc[loc]:
                        continue
                    d = sub(sc[loc], hc[loc])
                    if not (isinstance(d, Term) and d.op == 'int'):
                        res.und('walk over the regions', 'step %s' % show(d)[:60])
                        continue
                    n['pass'] += 1
                    alarm = res.bad if known(s) else res.und
                    ev = evidence(e, s)
                    if d.args[0] < 1:
                        res.und('walk over the regions', 'not in order')
                        continue
                    for j in range(d.args[0]):
                        k = addc(hc[loc], j)
                        w = ev.get(k)
                        if w is False:
                            res.ok()
                        elif w is True:
                            alarm('walk over the regions', 'a region whose rules accept the number is passed over')
                        else:
                            alarm('walk over the regions', 'a region is passed over without asking whether its leading digits match, or without leading digits its rules')
        for s in L['entry']:
            for loc, i in cursors(a, s, lists).items():
                if isinstance(i, Term) and i.op == 'int':
                    if i.args[0] == 0:
                        res.ok()
                    else:
                        res.bad('walk over the regions', 'the walk over the regions of a code does not begin with the first')
            if reversed_(s, lists):
                res.bad('walk over the regions', 'the regions of a code are not asked in their order')
    for t in e.texts:
        w = c13.text_state(t, num, forms)
        if w is True:
            res.ok()
        else:
            (res.bad if w is False else res.und)('text asked', 'the rules of a region are asked about %s instead of the whole national number' % show(t)[:100])
    for w, m in (('some', 3), ('none', 2), ('pass', 2)):
        if n[w] < m:
            res.und('coverage', 'only %d of kind %s found' % (n[w], w))
    res.coverage['exits and passes'] = n


def geo(st, e):
    for q, v in st.facts.items():
        if isinstance(q, Term) and q.op == 'eqs' and any(y is core.S('001') for y in q.args):
            return v is False
    return False


def nothing(e, a, st, sz, lists):
    if sz == ((0, 0),):
        return True
    for q, v in st.facts.items():
        if not isinstance(q, Term):
            continue
        if q.op == 'mhas' and v is False and (e.isidx(q.args[0], 'reg') or e.isidx(q.args[0], 'code') or e.isidx(q.args[0], 'id')):
            return True
        if q.op == 'isenum' and v is False:
            return True
        if q.op == 'llen' and v == ((0, 0),) and q.args[0] in lists:
            return True
    ns = {y for l in st.lins for y in terms(l) if isinstance(y, Term) and y.op == 'llen' and y.args[0] in lists}
    ps = {y for l in st.lins for y in terms(l) if isinstance(y, Term) and y.op == 'phi'}
    return any(a.prove(st, sub(p, n)) for p in ps for n in ns)


def its(st):
    for loc, v in st.mem.items():
        if isinstance(v, (Agg, Term)):
            for x in terms(v):
                if isinstance(x, Agg) and x.kind == 'it':
                    yield loc, x


def cursors(a, st, lists):
    return {loc: x.f[1] for loc, x in its(st) if x.var == 'list' and x.f[0] in lists and isinstance(x.f[1], Term)}


def reversed_(st, lists):
    return any(x.var == 'rev' and any(y in lists for y in terms(x)) for loc, x in its(st))
