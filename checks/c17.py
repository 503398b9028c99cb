"""C17: the format rule is chosen by pattern and leading digits"""
from checks import kernels as K
from checks import fmtk as M
from checks.lib import *
from checks.c14 import its

LEVEL = 'proof'
RULE = ('obligation = exit of the operation that writes a formatted number in a mode that uses rules, and pass of the search through the rules; discharged when the rule used is the one handed '
        'over or, without one, a rule of the right list whose leading digits and pattern are known to fit, when every rule passed over is known not to fit, and when no rule is used only after '
        'the last one')
EXPLAIN = ('Decision table of the operation that writes a formatted number by abstract interpretation, everything it calls in this crate followed. The search through the rules is covered by its '
           'passes from a symbolic position, so every list of rules is covered.')
ASSUME = ['library models of regex, text and lists are correct']


def evidence(e, st):
    """(list, position) -> True (the rule fits the number), False (it does not)"""
    lead, pat = {}, {}
    odd = set()
    for q, v in st.facts.items():
        if not isinstance(q, Term):
            continue
        if q.op == 'llen':
            w = M.rule(e, q.args[0])
            if w and w[1] == ((0, e.r_ld),):
                if v == ((0, 0),):
                    lead[w[0]] = True
                elif not any(a <= 0 for a, b in v):
                    lead.setdefault(w[0], {})
        elif q.op in ('matched', 'ms', 'me'):
            root, p = K.unstar(q.args[0])
            w = M.rule(e, q.args[0])
            if w and w[1] == ((0, e.r_pat),):
                if M.is_nat(e, q.args[1]) is not True:
                    odd.add((w[0], q.args[1]))
                    continue
                pat.setdefault(w[0], {})[q.op] = (q, v)
                continue
            if isinstance(root, Term) and root.op == 'elt' and not p:
                w = M.rule(e, root.args[0])
                if w and w[1] == ((0, e.r_ld),):
                    k = sub(root.args[1], T('llen', root.args[0]))
                    if not (isinstance(k, Term) and k.op == 'int' and k.args[0] == -1):
                        odd.add((w[0], root.args[1]))
                        continue
                    if M.is_nat(e, q.args[1]) is not True:
                        odd.add((w[0], q.args[1]))
                        continue
                    d = lead.setdefault(w[0], {})
                    if isinstance(d, dict):
                        d[q.op] = (q, v)
    out = {}
    for k in set(lead) | set(pat):
        l = lead.get(k)
        if isinstance(l, dict):
            l = at(e, st, l, whole=False)
        p = at(e, st, pat.get(k, {}), whole=True)
        out[k] = False if l is False or p is False else True if l is True and p is True else None
    return out, odd


def at(e, st, d, whole):
    """does the pattern match from the start (and to the end)"""
    if 'matched' not in d:
        return None
    q, v = d['matched']
    if v is False:
        return False
    ms = d.get('ms', (None, None))[1]
    s = True if ms == ((0, 0),) else False if ms and all(a > 0 for a, b in ms) else None
    if not whole or s is False:
        return s
    end = None
    for x in e.ends:
        if x.args[0] is q.args[0] and x.args[1] is q.args[1]:
            end = x
    if end is None:
        return None
    n = e.a.models.lenof(st, q.args[1])
    if e.a.prove(st, sub(end, n)):
        return s
    if e.a.prove(st, addc(sub(n, end), -1)):
        return False
    return None


def positions(e, st, near=()):
    """place of the walk -> (list, position) it looks at next; near: states of the same pass, to tell counters of the walk from others"""
    out = {}
    for loc, x in its(st):
        if x.var == 'list' and isinstance(x.f[0], Term):
            w = M.rulelist(e, x.f[0])
            if w:
                out[loc] = (w, x.f[1])
    for loc, v in st.mem.items():
        k = v.f[0] if isinstance(v, Agg) and v.kind == 'it' and v.var == 'range' else v
        if isinstance(k, Term) and k.op == 'phi' and loc not in out:
            ws = {w[0][0] for s in near for q in s.facts if isinstance(q, Term) for y in terms(q) if isinstance(y, Term) and y.op == 'elt' and k in set(terms(y.args[1]))
                  for w in [M.rule(e, y)] if w and w[0] != 'given'}
            if len(ws) == 1:
                out[loc] = (ws.pop(), k)
    return out


def counter(st, loc):
    v = st.mem.get(loc)
    if isinstance(v, Agg) and v.kind == 'it':
        return v.f[1] if v.var == 'list' else v.f[0] if v.var == 'range' else None
    return v if isinstance(v, Term) else None


def right(e, st, m):
    """the list of rules the mode asks for, None when that is not decided here"""
    if m == 'National':
        return 'national'
    for q, v in st.facts.items():
        if isinstance(q, Term) and q.op == 'llen' and M.rulelist(e, q.args[0]) == 'international':
            return 'national' if v == ((0, 0),) else 'international' if not any(a <= 0 for a, b in v) else None
    return None


def used(e, x):
    """the rule whose pattern or format a part is made with"""
    out = set()
    for y in terms(x):
        if isinstance(y, Term) and y.op in ('rrep', 'rrepall'):
            w = M.rule(e, y.args[0])
            if w and w[1] == ((0, e.r_pat),):
                out.add(w[0])
    return out


def check(ctx, res):
    e = M.build(ctx, res)
    if e is None:
        return
    e.ends = {y for st, v in e.r.outs for l in list(st.lins) + list(st.facts) if isinstance(l, core.Node) for y in terms(l) if isinstance(y, Term) and y.op == 'me'}
    for L in e.a.loops:
        for h, backs in L['pairs']:
            for st in backs:
                e.ends |= {y for l in list(st.lins) + list(st.facts) if isinstance(l, core.Node) for y in terms(l) if isinstance(y, Term) and y.op == 'me'}
    good, fail = M.exits(e)
    n = {'given': 0, 'rule': 0, 'none': 0, 'pass': 0}
    for st, ps in good:
        if ps is None:
            res.und('text', 'something else than text is written')
            continue
        ms = M.mode(e, st) - {'E164'}
        if not ms:
            continue
        alarm = res.bad if M.known(st) else res.und
        rules = set()
        for x in ps:
            if isinstance(x, Term):
                rules |= used(e, x)
        given = M.discr(e, st, lambda t: M.is_self_format(e, t))
        ev, odd = evidence(e, st)
        for w, t in odd:
            ((res.bad if M.known(st, t) and (not isinstance(t, Term) or precise(t)) else res.und))('text or leading digits', 'whether a rule fits is asked of %s' % (show(t)[:100] if isinstance(t, core.Node) else t))
        if len(rules) > 1:
            alarm('rule', 'two rules are used for one number')
            continue
        k = rules.pop() if rules else None
        if k == 'given':
            n['given'] += 1
            (res.ok() if given == 1 else res.und('rule', 'rule handed over'))
        elif given == 1:
            alarm('rule handed over', 'a rule was handed over but %s' % ('another is used' if k else 'none is used'))
        elif given is None:
            (res.und if k is None else alarm)('rule handed over', 'a rule is used without asking whether one was handed over')
        elif k is not None:
            n['rule'] += 1
            for m in sorted(ms):
                r = right(e, st, m)
                if r is None:
                    # not asked whether there are international rules
                    alarm('list of rules', 'the %s rules are used in mode %s without asking whether there are international ones' % (k[0], m))
                elif r != k[0]:
                    alarm('list of rules', 'the %s rules are used in mode %s%s' % (k[0], m, '' if m == 'National' else ' although there are international ones' if r == 'international' else ''))
                else:
                    res.ok()
            if ev.get(k) is True:
                res.ok()
            elif ev.get(k) is False:
                alarm('rule', 'a rule is used that does not fit the number')
            else:
                alarm('rule', 'a rule is used without knowing that its last leading digits match at the start and its pattern the whole number')
        else:
            n['none'] += 1
            for m in sorted(ms):
                r = right(e, st, m)
                if r is None:
                    res.und('no rule', 'list of rules not decided')
                    continue
                if exhausted(e, st, r):
                    res.ok()
                else:
                    alarm('no rule', 'no rule is used in mode %s although %s' % (m, 'one fits' if any(v for w, v in ev.items() if w[0] == r) else 'the %s rules were not all asked' % r))
    for L in e.a.loops:
        walked = {}
        for h, backs in L['pairs']:
            hp = positions(e, h, backs)
            walked.update(hp)
            for s in backs:
                ev, odd = evidence(e, s)
                alarm = res.bad if M.known(s) else res.und
                for loc, (w, i) in hp.items():
                    c = counter(s, loc)
                    if c is None or c is i:
                        continue
                    d = sub(c, i)
                    n['pass'] += 1
                    if not (isinstance(d, Term) and d.op == 'int'):
                        res.und('search', 'step %s' % show(d)[:60])
                        continue
                    if d.args[0] < 1:
                        alarm('search', 'the rules are not searched in their order')
                        continue
                    for j in range(d.args[0]):
                        k = (w, addc(i, j))
                        if ev.get(k) is False:
                            res.ok()
                        elif ev.get(k) is True:
                            alarm('search', 'a rule that fits is passed over')
                        else:
                            alarm('search', 'a rule is passed over without knowing that it does not fit')
        for s in L['entry']:
            for loc in walked:
                i = counter(s, loc)
                if isinstance(i, Term) and i.op == 'int':
                    if i.args[0] == 0:
                        res.ok()
                    else:
                        res.bad('search', 'the search does not begin with the first rule')
            for loc, x in its(s):
                if x.var == 'rev' and any(M.rulelist(e, y) for y in terms(x) if isinstance(y, Term)):
                    res.bad('search', 'the rules are not searched in their order')
    for w, m in (('given', 3), ('rule', 6), ('none', 3), ('pass', 2)):
        if n[w] < m:
            res.und('coverage', 'only %d of kind %s found' % (n[w], w))
    res.coverage['exits and passes'] = n


def exhausted(e, st, r):
    """has every rule of the list been asked"""
    for q, v in st.facts.items():
        if isinstance(q, Term) and q.op == 'llen' and v == ((0, 0),) and M.rulelist(e, q.args[0]) == r:
            return True
    ns = {y for l in st.lins for y in terms(l) if isinstance(y, Term) and y.op == 'llen' and M.rulelist(e, y.args[0]) == r}
    ps = {y for l in st.lins for y in terms(l) if isinstance(y, Term) and y.op == 'phi'}
    return any(e.a.prove(st, sub(p, n)) for p in ps for n in ns)
