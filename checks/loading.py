"""Analysis of the loading code one function at a time: calls of other local functions are opaque terms."""
from checks.lib import *

MAP = ('core::option::Option::<T>::map',)


BIG = 12        # blocks; smaller closures of the root are followed


def mutates(ctx, k):
    t = ctx.F.types[ctx.F.body(k).locals[1]]
    if t['k'] == 'ref':
        t = ctx.F.types[t['ty']]
    return any(ctx.F.types[u]['k'] == 'ref' and ctx.F.types[u].get('mut') for u in t.get('upvars', []))


def localfn(ctx, k):
    x = ctx.F.insts[k]
    return x['local'] and x.get('mir')


def closure_inst(a, st, f):
    n = 0
    while isinstance(f, Ref) and n < 8:
        f = a.read(st, f.loc, f.path)
        n += 1
    ty = f.ty if isinstance(f, (Term, Agg)) else None
    while ty is not None and a.types[ty]['k'] == 'ref':
        ty = a.types[ty]['ty']
    if ty is not None and a.types[ty]['k'] == 'closure':
        return a.types[ty].get('inst'), f
    return None, f


def shallow(ctx, inst, deep=(), cap=10 ** 6, one_head=True, only=None):
    """interpreter in which every local function except `deep` and the root's own closures that are plain expressions is opaque;
    with `only`, just the functions it accepts"""
    a = ai.AI(ctx.F)
    a.one_head = one_head
    a.JOINCAP = cap
    root = ctx.F.insts[inst]['path']

    def opaque(k, cal):
        if k == inst or k in deep or not localfn(ctx, k):
            return False
        p = ctx.F.insts[k]['path']
        if only is not None and not only(k):
            return False
        return not p.startswith(root + '::{closure') or len(ctx.F.body(k).blocks) > BIG and not mutates(ctx, k)
    a.opaque = opaque

    def on_call(st, cal, args, dty, site):
        if cal.get('path') in MAP and len(args) == 2:
            i, f = closure_inst(a, st, args[1])
            v = args[0]
            while isinstance(v, Ref):
                v = a.read(st, v.loc, v.path)
            if i is not None and isinstance(v, Term) and opaque(i, None):
                d = st.facts.get(T('discr', v))
                if d is None or len(d) != 1 or d[0][0] != d[0][1]:
                    return [(st, a.symval(T('optmap', v, i, a.deepval(st, f), ty=dty), dty))]
        return None
    a.on_call = on_call
    return a


def loading_roots(ctx):
    """public functions that build a database or loader metadata from text, file or decoded metadata"""
    from checks import panics
    out = []
    for f in api(ctx):
        if f.get('inst') is None:
            continue
        r = panics.ret_adts(ctx, f['inst'])
        if any(x.endswith('Result') for x in r) and any(x.startswith('crate::metadata::loader::') or x.endswith('database::Database') for x in r):
            out.append(f['inst'])
    return out


def reach(ctx, roots):
    from checks.c04 import callgraph
    g, _ = callgraph(ctx)
    seen, todo = set(), list(roots)
    while todo:
        i = todo.pop()
        if i not in seen:
            seen.add(i)
            todo += g.get(i, ())
    return seen, g
