"""C18: formatting neither loses nor invents digits"""
import re
from checks import kernels as K
from checks import fmtk as M
from checks.lib import *

LEVEL = 'proof'
RULE = ('obligation = exit of the operation that writes a formatted number; discharged when the national part written is the whole national number itself, or the whole national number with '
        'the pattern of one rule replaced by the format of that rule, in national form after the prefix or carrier rule of that rule has taken the place of its first group, under the '
        'conditions documented for each')
EXPLAIN = ('Decision table of the operation that writes a formatted number by abstract interpretation, everything it calls in this crate followed; replacements by regular expressions and in '
           'texts are symbolic terms, compared part by part with the documented ones.')
ASSUME = ['library models of regex, text and lists are correct', 'the rules of the metadata mention every group of their pattern (C22 looks at the bundled ones)']


def charset(src):
    """characters of a pattern of the form [..]+, or None"""
    m = re.fullmatch(r'\[(.*)\]\+?', src, re.S)
    if not m:
        return None
    toks, i, b = [], 0, m.group(1)
    while i < len(b):
        if b[i] == '\\':
            m2 = re.match(r'\\[xu]\{([0-9A-Fa-f]+)\}', b[i:])
            if m2:
                toks.append((int(m2.group(1), 16), False))
                i += m2.end()
                continue
            if i + 1 < len(b) and not b[i + 1].isalnum():
                toks.append((ord(b[i + 1]), False))
                i += 2
                continue
            return None
        if b[i] in '[]&' or b[i] == '^' and i == 0:
            return None
        toks.append((ord(b[i]), b[i] == '-'))
        i += 1
    out, i = set(), 0
    while i < len(toks):
        if i + 2 < len(toks) and toks[i + 1][1]:
            out |= set(range(toks[i][0], toks[i + 2][0] + 1))
            i += 3
        else:
            out.add(toks[i][0])
            i += 1
    return out


def separators(res, rx):
    """is the regular expression one of separators only"""
    if not (isinstance(rx, Term) and rx.op == 'regex' and isinstance(rx.args[0], Term) and rx.args[0].op == 'str'):
        return None
    src = rx.args[0].args[0]
    cs = charset(src)
    if cs is None or not src.endswith('+'):
        return None
    if any(chr(c).isdigit() or chr(c) in '+;' or chr(c).isalpha() and chr(c) not in 'x\u30fc' for c in cs):
        return False
    return all(ord(c) in cs for c in ' ().-/')


def chain(t):
    """text and the replacements made in it, innermost last"""
    out = []
    while isinstance(t, Term) and t.op == 'srep':
        out.append((t.args[1], t.args[2]))
        t = t.args[0]
    return t, out


def rulefield(e, t, k, opt):
    w = M.rule(e, t)
    if w is None:
        return None
    want = ((0, k), (1, 0)) if opt else ((0, k),)
    return w[0] if w[1] == want else None


def first(e, rx):
    return isinstance(rx, Term) and rx.op == 'regex' and isinstance(rx.args[0], Term) and rx.args[0].op == 'str' and rx.args[0].args[0] in M.FIRST


def transform(e, st, m, k, tpl):
    """None when the template is the documented one for rule k, else what is wrong ('?': not known)"""
    has = lambda f: M.discr(e, st, lambda t: M.rule(e, t) == (k, ((0, f),)))
    carrier = M.discr(e, st, lambda t: M.is_num(e, t, (0, e.f_car)))
    cc, np = has(e.r_cc), has(e.r_np)
    # which transformation the documentation asks for, under every condition this exit leaves open
    wants = set()
    for c in (0, 1) if carrier is None else (carrier,):
        for d in (0, 1) if cc is None else (cc,):
            for p in (0, 1) if np is None else (np,):
                wants.add(None if m != 'National' else 'carrier' if c and d else 'prefix' if p else None)
    fits = None
    for q, v in st.facts.items():
        if isinstance(q, Term) and q.op == 'matched' and first(e, q.args[0]) and rulefield(e, q.args[1], e.r_fmt, False) == k:
            fits = v
    if rulefield(e, tpl, e.r_fmt, False) == k:
        if wants == {None} or fits is False:
            return None
        return 'leaves out the %s rule of the format rule' % max(wants - {None})
    if not (isinstance(tpl, Term) and tpl.op == 'rrep'):
        return '?' if not (isinstance(tpl, Term) and precise(tpl)) else 'uses %s as format' % show(tpl)[:60]
    if not first(e, tpl.args[0]):
        return '?'
    if rulefield(e, tpl.args[1], e.r_fmt, False) != k:
        return 'uses %s as format' % show(tpl.args[1])[:60]
    if wants == {None}:
        return 'applies a prefix or carrier rule although %s' % ('the mode is %s' % m if m != 'National' else 'there is none')
    if fits is False:
        return '?'
    base, reps = chain(tpl.args[2])
    if rulefield(e, base, e.r_cc, True) == k:
        got = 'carrier'
    elif rulefield(e, base, e.r_np, True) == k:
        got = 'prefix'
    else:
        return '?' if not (isinstance(base, Term) and precise(base)) else 'takes %s for the prefix rule' % show(base)[:60]
    if wants != {got}:
        return 'applies the %s rule where %s is due' % (got, 'the %s rule' % max(wants - {got, None}) if wants - {got, None} else 'none')
    seen = {}
    for a, b in reps:
        if not (isinstance(a, Term) and a.op == 'str'):
            return '?'
        if a.args[0] in seen:
            return '?'
        seen[a.args[0]] = b
    for key in sorted(set(seen) - {'$NP', '$FG', '$CC'}):
        return 'replaces %r in the prefix rule' % key
    if '$FG' not in seen or '$NP' not in seen or got == 'carrier' and '$CC' not in seen:
        return 'does not replace %s in the prefix rule' % ' '.join(x for x in ('$NP', '$FG', '$CC') if x not in seen)
    g = seen['$FG']
    if not (isinstance(g, Term) and g.op == 'cat' and len(g.args) == 2 and g.args[0] is core.S('$') and group(e, g.args[1], k)):
        return '?' if not (isinstance(g, Term) and precise(g)) else 'puts %s in the place of $FG' % show(g)[:60]
    p = seen['$NP']
    d = M.discr(e, st, lambda t: M.record(e, t) == (0, ((0, e.m_np),)))
    w = M.record(e, p) if isinstance(p, Term) else None
    if w is not None and w[0] == 0 and w[1][:2] == ((0, e.m_np), (1, 0)):
        pass
    elif p is core.S(''):
        if d == 1:
            return 'drops the national prefix of the region'
        if d is None:
            return '?'
    else:
        return '?' if not (isinstance(p, Term) and precise(p)) else 'puts %s in the place of $NP' % show(p)[:60]
    c = seen.get('$CC')
    if got == 'carrier':
        if not (isinstance(c, Term) and M.car(e, c)):
            return '?' if not (isinstance(c, Term) and precise(c)) else 'puts %s in the place of $CC' % show(c)[:60]
    elif c is not None and c is not core.S(''):
        return '?' if not (isinstance(c, Term) and precise(c)) else 'puts %s in the place of $CC' % show(c)[:60]
    return None


def word(e, x):
    w = M.record(e, x)
    return w is not None and w[0] == 0 and w[1][:2] == ((0, e.m_ext), (1, 0))


def ix(x):
    return x.args[0] if isinstance(x, Term) and x.op == 'int' else x


def group(e, t, k):
    """the first group reference of the format of rule k"""
    if not (isinstance(t, Term) and t.op == 'slice' and rulefield(e, t.args[0], e.r_fmt, False) == k):
        return False
    lo, hi = t.args[1:3]
    return all(isinstance(x, Term) and x.op == o and first(e, x.args[0]) and rulefield(e, x.args[1], e.r_fmt, False) == k and ix(x.args[2]) in (0, 1)
               for x, o in ((lo, 'ms'), (hi, 'me'))) and ix(lo.args[2]) == ix(hi.args[2])


def check(ctx, res):
    e = M.build(ctx, res)
    if e is None:
        return
    good, fail = M.exits(e)
    n = {'number itself': 0, 'by rule': 0, 'with prefix or carrier rule': 0}
    for st, ps in good:
        if ps is None:
            res.und('text', 'something else than text is written')
            continue
        for m in sorted(M.mode(e, st)):
            bad = res.bad if M.known(st, *[x for x in ps if isinstance(x, Term)]) else res.und
            nat = [x for x in ps if x is M.NAT]
            rep = [x for x in ps if isinstance(x, Term) and x.op in ('rrep', 'rrepall')]
            rest = [x for x in ps if isinstance(x, Term) and x not in rep and x.op != 'itoa' and not M.ext(e, x) and not word(e, x)]
            if rest:
                exact = all(precise(x) for x in rest)
                (bad if exact else res.und)(m, 'the text written in mode %s has %s in it' % (m, show(rest[0])[:100]))
                continue
            if len(nat) + len(rep) != 1:
                bad(m, 'the national number is written %d times in mode %s: %s' % (len(nat) + len(rep), m, M.words(ps)[:120]))
                continue
            if nat:
                n['number itself'] += 1
                res.ok()
                continue
            t = rep[0]
            if m == 'Rfc3966' and t.op == 'rrepall':
                s = separators(res, t.args[0])
                if s is None or t.args[2] is not core.S('-'):
                    res.und(m, 'separators %s' % show(t.args[0])[:80])
                    continue
                if s is False:
                    res.bad('separators', 'what is replaced by hyphens in RFC 3966 form is not exactly separators')
                    continue
                res.ok()
                t = t.args[1]
            if not (isinstance(t, Term) and t.op in ('rrep', 'rrepall')):
                res.und(m, show(t)[:80])
                continue
            w = M.rule(e, t.args[0])
            if not (w and w[1] == ((0, e.r_pat),)):
                (bad if precise(t.args[0]) else res.und)(m, 'the number is rewritten with %s' % show(t.args[0])[:80])
                continue
            x = M.is_nat(e, t.args[1])
            if x is not True:
                (bad if x is False else res.und)(m, 'what is rewritten in mode %s is %s instead of the whole national number' % (m, show(t.args[1])[:80]))
                continue
            why = transform(e, st, m, w[0], t.args[2])
            if why is None:
                n['with prefix or carrier rule' if t.args[2].op == 'rrep' else 'by rule'] += 1
                res.ok()
            elif why == '?':
                res.und(m, 'format %s' % show(t.args[2])[:120])
            else:
                bad('format', 'formatting in mode %s %s' % (m, why))
    for w, k in (('number itself', 4), ('by rule', 8), ('with prefix or carrier rule', 6)):
        if n[w] < k:
            res.und('coverage', 'only %d exits write the %s' % (n[w], w))
    res.coverage['exits'] = n
