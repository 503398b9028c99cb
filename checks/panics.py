"""Shared by C01-C03: every panic edge reachable from a set of public functions is refuted or reported."""
import multiprocessing, re
from checks.lib import *

# symbols the analysis invents when it gives up on a value say nothing definite; symbols it makes when it merges paths
# ('j', summary results, loop carried values with bounds) need a second run that merges later
SOFT = ('j', 'rep', 'todig')
WORLD = ('event', 'fileok', 'attr')      # what the reader or the file system answers: any value is possible
ARITH = ('slice-order', 'slice-bounds', 'index-bounds', 'assert', 'slice-char-boundary')
CONFIRM_CAP = 120


def vague(a, st, v, arith):
    """None: about program values; 'soft': about merged values; a text: about an invented symbol"""
    soft = None
    chosen = set()      # loop variables that only say which element of a list is looked at: any element is possible
    for x in terms(v):
        if isinstance(x, Term) and x.op in ('elt', 'item', 'litem') and len(x.args) > 1:
            chosen |= {y for y in terms(x.args[1]) if isinstance(y, Term) and y.op == 'phi'}
    chosen -= direct(v)
    for x in terms(v):
        if not isinstance(x, Term):
            continue
        if x in chosen:
            soft = 'soft'
            continue
        # a map filled by a loop is only known by what the current round puts in
        if x.op in ('mapget', 'cmapget', 'llen') and (isinstance(x.args[0], Agg) and x.args[0].kind == 'cmap' or x.op != 'llen' and isinstance(x.args[0], Term) and x.args[0].op == 'phi'):
            return show(x)[:80]
        if x.op == 'sym':
            if x.args[0] in WORLD:
                continue
            if x.args[0] not in SOFT:
                return show(x)[:80]
            soft = 'soft'
        elif x.op in ('old', 'rs'):
            soft = 'soft'
        elif x.op == 'phi':
            if x in ai.HARD:
                return show(x)[:80]
            soft = 'soft'
            if arith and x.ty is not None and a.types[x.ty]['k'] == 'int' and st is not None:
                iv = a.iv(st, x)
                if not iv or iv[-1][1] > 1 << 16 or iv[0][0] < -(1 << 16):
                    return show(x)[:80]
    return soft


def direct(v):
    """loop variables of a value outside the indexes of list elements"""
    if isinstance(v, Term):
        if v.op == 'phi':
            return {v}
        a = v.args[:1] if v.op in ('elt', 'item', 'litem') else v.args
    else:
        a = v.f if isinstance(v, Agg) else v if isinstance(v, (tuple, list)) else ()
    out = set()
    for x in a:
        out |= direct(x)
    return out


def roots(ctx, want):
    out = []
    for f in api(ctx):
        if f.get('inst') is None:
            continue
        if want(ctx, f):
            out.append((f['path'], f['inst']))
    return sorted(out)


def ret_adts(ctx, inst):
    """names of the adts in a function's return type"""
    b = ctx.F.body(inst)
    out, todo, seen = set(), [b.locals[0]], set()
    while todo:
        x = todo.pop()
        if x in seen or not isinstance(x, int):
            continue
        seen.add(x)
        t = ctx.F.types[x]
        if t['k'] == 'adt':
            out.add(t['path'])
            todo += [g for g in t.get('args', []) if isinstance(g, int)]
        elif t['k'] == 'tuple':
            todo += t.get('f', t.get('tys', []))
        elif 'ty' in t:
            todo.append(t['ty'])
    return out


def arg_kinds(ctx, inst):
    b = ctx.F.body(inst)
    out = []
    for k in range(1, b.argc + 1):
        x = b.locals[k]
        while ctx.F.types[x]['k'] == 'ref':
            x = ctx.F.types[x]['ty']
        t = ctx.F.types[x]
        out.append(t['path'] if t['k'] == 'adt' else t['k'])
    return out


_CTX = None


def analyse(inst, shallow, deadline, cap=None):
    a = ai.AI(_CTX.F)
    if cap:
        a.JOINCAP = cap
    if shallow:
        a.opaque = shallow(_CTX, inst)
    return Run(_CTX, inst, ai_=a, deadline=deadline)


def judge(r, f):
    """(definite?, soft?, condition) of a failure"""
    soft, why = False, []
    for st, tm in (f.states or [(None, None)]):
        if tm is None and st is not None and st.facts:
            tm = (list(st.facts)[-1],)
        v = vague(r.a, st, tm, f.kind in ARITH) if tm is not None else 'no condition recorded'
        if v is None or v == 'soft':
            cond = [show(k)[:160] + ' in ' + str(x)[:40] for k, x in list(st.facts.items())[-3:]] if st is not None else []
            if v is None:
                return True, False, cond
            soft, why = True, cond
        elif not soft:
            why.append(v)
    return soft, soft, why[:3]


def _one(job):
    path, inst, shallow, deadline = job
    sys.setrecursionlimit(20000)
    r = analyse(inst, shallow, deadline)
    fails, again = [], None
    for f in r.failures:
        definite, soft, why = judge(r, f)
        if definite and soft:
            if again is None:
                again = analyse(inst, shallow, deadline, CONFIRM_CAP)
            if again.timeout or f.key() not in again.a.failures:
                definite, why = False, ['not confirmed when paths are merged later'] + why
        fails.append((f.kind, f.where, f.msg, list(f.stack), definite, why))
    return path, dict(r.a.ok_obl), fails, r.tainted, r.why(), len(r.outs), r.secs, r.a.steps


def check(ctx, res, rts, floor, deadline=300, shallow=None, procs=6):
    global _CTX
    _CTX = ctx
    if len(rts) < floor:
        res.und('roots', 'only %d of at least %d functions found' % (len(rts), floor))
    with multiprocessing.get_context('fork').Pool(procs) as p:
        got = p.map(_one, [(n, i, shallow, deadline) for n, i in rts], 1)
    seen = {}
    fn = set()
    for path, ok, fails, tainted, why, nout, secs, steps in got:
        if tainted:
            res.und('analysis of ' + path, why)
        elif not nout and not fails:
            res.und('analysis of ' + path, 'no exit found')
        for (where, kind, msg), n in ok.items():
            fn.add(where)
            res.ok()
        for kind, where, msg, stack, definite, cond in fails:
            key = '%s in %s' % (kind if kind != 'assert' else msg, where)
            k0 = (key, definite)
            if k0 in seen:
                continue
            seen[k0] = 1
            text = '%s can panic (%s, %s), reached from %s via %s; condition %s' % (where, kind, msg, path, ' > '.join(stack)[:400], ' / '.join(cond))
            if definite and not tainted:
                res.bad(key, text)
            elif definite and kind != 'analysis' and why.startswith('no model'):
                res.bad(key, text)
            else:
                res.und(key, text)
    res.coverage['public functions analysed'] = [g[0] for g in got]
    res.coverage['functions with panic edges'] = sorted(fn)
    res.coverage['abstract steps'] = sum(g[7] for g in got)
    res.sample('%d public functions, %d functions with panic edges' % (len(got), len(fn)))
