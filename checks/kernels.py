"""the classification functions of the library, found by what they take and give"""
from checks import xmltab as X, loading, c19
from checks.lib import *

MD = 'crate::metadata::metadata::Metadata'
DS = 'crate::metadata::metadata::Descriptors'
DE = 'crate::metadata::descriptor::Descriptor'
DB = 'crate::metadata::database::Database'
PN = 'crate::phone_number::PhoneNumber'
TY = 'crate::phone_number::Type'
ID = 'crate::country::Id'


def base_name(ctx, t):
    """type name without references"""
    n = X.tname(ctx, t)
    while n.startswith('&'):
        n = n[1:].lstrip()
        if n.startswith("'"):
            n = n.split(' ', 1)[1]
        if n.startswith('mut '):
            n = n[4:]
    return n


def find(ctx, takes, gives):
    """local functions by the types they take (in any order) and give"""
    out = []
    for i in X.localfns(ctx):
        a, r = X.sig(ctx, i)
        if sorted(base_name(ctx, t) for t in a) == sorted(takes) and gives(X.tname(ctx, r)):
            out.append(i)
    return out


def top(ctx, l):
    """those of the functions that none of the others calls"""
    if len(l) < 2:
        return l
    from checks.c04 import callgraph
    g, _ = callgraph(ctx)
    below = set()
    for i in l:
        seen, todo = set(), list(g.get(i, ()))
        while todo:
            k = todo.pop()
            if k not in seen:
                seen.add(k)
                todo += g.get(k, ())
        below |= seen
    return [i for i in l if i not in below] or l


def classifiers(ctx):
    """functions deciding the type of a text under a record"""
    return top(ctx, [i for d in (MD, DS) for i in find(ctx, [d, 'str'], lambda r: r == TY)])


def matchers(ctx):
    return top(ctx, find(ctx, [DE, 'str'], lambda r: r == 'bool'))


def selectors(ctx):
    """functions choosing the region of a calling code"""
    out = []
    for i in X.localfns(ctx):
        a, r = X.sig(ctx, i)
        if 'Either<' in X.tname(ctx, r) and any(base_name(ctx, t) == DB for t in a):
            out.append(i)
    return out


def national_text(ctx, number_arg):
    """term of the national number written out in full: what Display of the number's national part gives"""
    return None


def table(ctx, inst, opaque, deadline=200):
    """decision table of a function: every exit with its facts"""
    opaque = set(opaque)
    a = loading.shallow(ctx, inst, only=lambda k: k in opaque)
    a.one_head = False
    a.use_summaries = False
    a.pair_heads = True
    a.unroll = 40
    return Run(ctx, inst, ai_=a, deadline=deadline)


def variants(ctx, path):
    """variant names of an enum"""
    for t in ctx.F.types:
        if t.get('path') == path and t['k'] == 'adt':
            return [v['name'] for v in t['variants']]
    return None


def facts(r, st):
    return [(q, v) for q, v in st.facts.items() if isinstance(q, Term)]


def plain(a, st, v):
    """a value with its references followed"""
    v = a.deepval(st, v)
    for _ in range(6):
        if isinstance(v, Ref) and v.loc[0] == 'V' and not v.path:
            v = v.loc[1]
        elif isinstance(v, Ref):
            v = a.read(st, v.loc, v.path)
        else:
            break
    return v


def unstar(v):
    """the place behind references and shared pointers: (root, fields)"""
    p = []
    while True:
        if isinstance(v, Ref) and v.loc[0] == 'V':
            p = list(v.path) + p
            v = v.loc[1]
        elif isinstance(v, Term) and v.op == '*':
            v = v.args[0]
        elif isinstance(v, Term) and v.op == 'fld':
            p.insert(0, tuple(v.args[1:]))
            v = v.args[0]
        else:
            return v, tuple(p)
