"""C03: loading any metadata text never panics"""
import multiprocessing
from checks import panics, loading, c01
from checks.lib import *

LEVEL = 'proof'
RULE = c01.RULE.replace('the public parsing functions', 'the public loading functions')
EXPLAIN = ('Every function reachable from the public functions that load, parse or build a database is interpreted by itself, over all its arguments, all reader events and '
           'attributes, with the other local functions opaque. An edge that is not refuted is tried again with the callers (and the callees its condition is about) '
           'followed, so that what a caller checks first counts; it is a violation when it remains.')
ASSUME = ['library models are correct', 'the XML reader reports events and errors as documented and does not panic itself', 'compiling a regular expression returns an error rather than panicking']
_C = {}


def run(inst, deep):
    a = loading.shallow(_C['ctx'], inst, deep)
    r = Run(_C['ctx'], inst, ai_=a, deadline=60)
    if r.timeout:
        a = loading.shallow(_C['ctx'], inst, deep, cap=24)
        r = Run(_C['ctx'], inst, ai_=a, deadline=60)
    return r


def calls_in(f):
    out = set()
    for st, tm in f.states:
        if tm is None and st is not None and st.facts:
            tm = (list(st.facts)[-1],)
        for x in terms(tm) if tm is not None else ():
            if isinstance(x, Term) and x.op == 'call':
                out.add(x.args[1])
            elif isinstance(x, Term) and x.op == 'optmap':
                out.add(x.args[1])
    return out


def on_args(f):
    """does the condition depend on what the caller passes"""
    for st, tm in f.states:
        if tm is None and st is not None and st.facts:
            tm = (list(st.facts)[-1],)
        if tm is None or any(isinstance(x, Term) and x.op in ('arg', 'formal') for x in terms(tm)):
            return True
    return False


def _one(i):
    sys.setrecursionlimit(20000)
    begin = time.time()
    ctx, rev, public = _C['ctx'], _C['rev'], _C['public']
    r = run(i, ())
    fails = []
    for f in r.failures:
        definite, soft, why = panics.judge(r, f)
        deep = calls_in(f)
        cur = {i}
        keep = set(deep)
        if deep:
            r2 = run(i, tuple(keep))
            g = r2.a.failures.get(f.key())
            if r2.tainted:
                definite, why = False, [r2.why()]
            elif g is None:
                continue
            else:
                definite, soft, why = panics.judge(r2, g)
                if calls_in(g):
                    definite = False
        keep.add(i)
        level = 0
        while definite and on_args(f) and not cur & public and level < 3:
            level += 1
            up = {c for x in cur for c in rev.get(x, ()) if c not in keep}
            if not up:
                break
            if time.time() - begin > 240:
                definite, why = False, ['callers not all analysed']
                break
            still, unsure = False, None
            for c in up:
                r2 = run(c, tuple(keep))
                hit = [g for g in r2.failures if g.kind == f.kind and g.msg == f.msg and any(ctx.F.insts[x]['path'] in g.stack for x in keep)]
                if r2.tainted:
                    unsure = ['caller %s: %s' % (ctx.F.insts[c]['path'], r2.why())]
                elif hit:
                    if calls_in(hit[0]):
                        unsure = ['depends on another function']
                    else:
                        still = True
                        f = hit[0]
            if not still:
                definite, why = (False, unsure) if unsure else (None, None)
            keep |= up
            cur = up
        if definite is None:
            continue
        fails.append((f.kind, f.where, f.msg, list(f.stack), definite, why))
    return i, dict(r.a.ok_obl), fails, r.tainted, r.why(), len(r.outs), r.a.steps


def check(ctx, res):
    public = loading.loading_roots(ctx)
    seen, g = loading.reach(ctx, public)
    rev = {}
    for i, o in g.items():
        for j in o:
            rev.setdefault(j, set()).add(i)
    derived = {f.get('inst') for f in ctx.F.fns if f.get('derived')}
    todo = sorted(i for i in seen if i not in derived and '_::<impl' not in ctx.F.insts[i]['path'] and '<crate::_::' not in ctx.F.insts[i]['path']
                  and '::_::' not in ctx.F.insts[i]['path'])
    todo = [i for i in todo if i in public or rev.get(i)]
    _C.update(ctx=ctx, rev=rev, public=set(public))
    if len(public) < 4 or len(todo) < 20:
        res.und('roots', '%d public functions, %d functions in all' % (len(public), len(todo)))
    with multiprocessing.get_context('fork').Pool(6) as p:
        got = p.map(_one, todo, 1)
    seen = set()
    for i, ok, fails, tainted, why, nout, steps in got:
        path = ctx.F.insts[i]['path']
        if tainted:
            res.und('analysis of ' + path, why)
        for k in ok:
            res.ok()
        if not ok and not fails and not tainted:
            res.ok()
        for kind, where, msg, stack, definite, cond in fails:
            key = '%s in %s' % (kind if kind != 'assert' else msg, where)
            if (key, definite) in seen:
                continue
            seen.add((key, definite))
            text = '%s can panic while loading (%s, %s), via %s; condition %s' % (where, kind, msg, ' > '.join(stack)[:400], ' / '.join(cond or []))
            (res.bad if definite else res.und)(key, text)
    res.coverage['functions analysed'] = sorted({ctx.F.insts[g[0]]['path'] for g in got})
    res.coverage['public functions'] = sorted(ctx.F.insts[i]['path'] for i in public)
    res.coverage['abstract steps'] = sum(g[6] for g in got)
    res.sample('%d functions reachable from %d public loading functions' % (len(got), len(public)))
