"""C04: every operation ends, without recursion driven by the input"""
import re
from checks.lib import *
from checks.c05 import callees, strip

LEVEL = 'other'
RULE = ('obligation = strongly connected component of the call graph, natural loop; a loop is discharged when every cycle through it asks a finite iterator for its next '
        'element, or reads one more event from the reader and cannot come round again at the end of the input')
EXPLAIN = ('Call graph (direct calls, closures, function values, and trait calls through to_string/parse/into/formatting) of all compiled functions: no cycle. Natural '
           'loops of every function: after removing the blocks that consume one element of a finite iterator or one reader event, no cycle remains; the reader loops '
           'are followed with the end-of-input event and must leave.')
ASSUME = ['iterators of the standard library over slices, strings, maps, ranges and options are finite', 'parser combinators and the regular-expression engine of the dependencies end',
          'the XML reader consumes input with each event and reports the end of input for ever once reached']
INF = re.compile(r'\b(RangeFrom|Repeat|RepeatWith|Cycle|Successors|FromFn|Generate)\b')


VIA = {'to_string': 'Display', 'parse': 'FromStr', 'into': 'From', 'new_display': 'Display', 'new_debug': 'Debug', 'try_into': 'TryFrom'}


def callgraph(ctx):
    """local call graph: direct calls, closures, function values, trait calls through to_string/parse/into/formatting"""
    F = ctx.F
    insts = [i for i, x in enumerate(F.insts) if x['local'] and x.get('mir')]
    g = {}
    clos = {}
    for i in insts:
        p = F.insts[i]['path']
        if '{closure' in p:
            clos.setdefault(p.rsplit('::{closure', 1)[0], []).append(i)
    edges = 0
    for i in insts:
        x = F.insts[i]
        out = set(clos.get(x['path'], ()))
        for d in callees(x['mir']['blocks']):
            j = d.get('inst')
            if j is not None and F.insts[j]['local'] and F.insts[j].get('mir'):
                out.add(j)
            elif d.get('name') in VIA and d['krate'] != 'phonenumber':
                for t in list(d.get('args') or []) + list(d.get('iargs') or []) + [d.get('self_ty')]:
                    if not isinstance(t, int):
                        continue
                    while F.types[t]['k'] == 'ref':
                        t = F.types[t]['ty']
                    m = F.impl.get(t, {}).get(VIA[d['name']])
                    if m and m.get('inst') is not None and F.insts[m['inst']]['local'] and F.insts[m['inst']].get('mir'):
                        out.add(m['inst'])
        g[i] = out
        edges += len(out)
    return g, edges


def check(ctx, res):
    F = ctx.F
    insts = [i for i, x in enumerate(F.insts) if x['local'] and x.get('mir')]
    g, edges = callgraph(ctx)
    for c in sccs(g):
        if len(c) > 1 or c[0] in g[c[0]]:
            names = sorted({strip(F.insts[k]['path']) for k in c})
            res.bad('recursion ' + names[0], 'recursion: %s: its depth follows the input and can exhaust the stack' % ' -> '.join(names[:6]))
        else:
            res.ok()
    # loops
    nl = 0
    for i in insts:
        b = F.body(i)
        b.cfg()
        if getattr(b, 'irreducible', False):
            res.und('irreducible ' + b.path, 'control flow not reducible')
            continue
        for h, body in (b.loops or {}).items():
            nl += 1
            loop(ctx, res, b, h, set(body))
    res.coverage.update(functions=len(insts), call_edges=edges, loops=nl)
    if len(insts) < 100 or nl < 8:
        res.und('floor', 'fewer functions or loops than expected')


def loop(ctx, res, b, h, body):
    F = ctx.F
    prog, reads, infinite = set(), set(), set()
    for k in body:
        t = b.blocks[k]['t']
        if t[0] != 'call' or t[1][0] != 'fn':
            continue
        d = t[1][1]
        nm = d.get('name')
        if nm in ('next', 'next_back', 'nth') and 'iter' in (d.get('decl') or '').lower():
            s = ' '.join(F.types[x]['s'] for x in list(d.get('args') or []) + [d.get('self_ty')] if isinstance(x, int))
            if INF.search(s):
                infinite.add(k)
            else:
                prog.add(k)
        elif nm in ('read_event_into', 'read_event', 'read_to_end_into', 'read_event_unbuffered'):
            reads.add(k)
        elif nm in ('pop', 'pop_front', 'pop_back') and not any(pushes(b, q) for q in body):
            prog.add(k)
    where = '%s (loop at line %s)' % (b.path, line(b, h))
    key = '%s loop %d' % (strip(b.path), sorted(b.loops).index(h))
    inner = set()
    for h2, b2 in b.loops.items():
        if h2 != h and set(b2) < body:
            inner |= {h2}
    cut = cyc(b, h, body - prog - reads)
    if cut:
        if infinite and not leaves(b, body, infinite):
            res.bad('endless ' + key, '%s walks an unbounded iterator and has no other exit' % where)
        elif not any(s not in body for q in body for s in b.succ[q]):
            res.bad('endless ' + key, '%s has no exit' % where)
        else:
            res.und(key, '%s: no recognised progress measure' % where)
        return
    if reads and cyc(b, h, body - prog):
        eof(ctx, res, b, h, body, prog, reads, where, key)
    else:
        res.ok()
        res.sample('%s: every round takes one element of a finite iterator' % where)


def pushes(b, k):
    t = b.blocks[k]['t']
    return t[0] == 'call' and t[1][0] == 'fn' and t[1][1].get('name') in ('push', 'push_back', 'push_front', 'extend', 'insert', 'append')


def line(b, h):
    t = b.blocks[h]['t']
    for x in reversed(t):
        if isinstance(x, list) and len(x) == 3 and isinstance(x[0], str) and x[0].endswith('.rs'):
            return x[1]
    return '?'


def cyc(b, h, nodes):
    """is there a cycle through the head inside these blocks"""
    if h not in nodes:
        return False
    seen, st = set(), [s for s in b.succ[h] if s in nodes]
    while st:
        k = st.pop()
        if k == h:
            return True
        if k in seen:
            continue
        seen.add(k)
        st += [s for s in b.succ[k] if s in nodes]
    return False


def leaves(b, body, infinite):
    """exits other than the end of the unbounded iterator"""
    for q in body:
        for s in b.succ[q]:
            if s not in body and not any(q in b.succ[n] for n in infinite):
                return True
    return False


def eof(ctx, res, b, h, body, prog, reads, where, key):
    """follow the loop with the end-of-input event: the switch on an event goes only to its end-of-input arm"""
    F = ctx.F
    seen = set()
    st = []
    for r in reads:
        st += [(s, ()) for s in b.succ[r] if s in body]
    und = False
    path = None
    while st:
        k, env = st.pop()
        if (k, env) in seen:
            continue
        seen.add((k, env))
        if len(seen) > 20000:
            und = True
            break
        if k == h or k in reads:
            if ('g', 1) in env:
                und = True
                continue
            path = k
            break
        if k in prog and k not in reads:
            continue
        env = step(F, b, k, dict(env))
        t = b.blocks[k]['t']
        nxt = [s for s in b.succ[k]]
        if t[0] == 'switch':
            v = env.get(opkey(t[1]))
            if v == 'ev':
                env['g'] = 1
            elif v is not None:
                nxt = [switch_to(t, v)]
        e = tuple(sorted(env.items(), key=str))
        st += [(s, e) for s in nxt if s in body]
    if path is not None:
        res.bad('end of input ' + key, '%s comes round again when the input has ended: it never ends on truncated metadata' % where)
    elif und:
        res.und(key, 'end-of-input walk too large')
    else:
        res.ok()
        res.sample('%s: reads one event per round and leaves at the end of the input' % where)


def opkey(o):
    if isinstance(o, list) and len(o) >= 2 and o[0] in ('cp', 'mv'):
        p = o[1]
        if isinstance(p, list) and len(p) == 2 and not p[1]:
            return p[0]
    return None


def switch_to(t, v):
    for val, tgt in t[2]:
        if int(val) == v:
            return tgt
    return t[3]


def step(F, b, k, env):
    for s in b.blocks[k]['s']:
        if not s or s[0] != '=':
            continue
        dst, rv = s[1], s[2]
        if dst[1]:
            continue
        env.pop(dst[0], None)
        if rv[0] == 'discr':
            ty = place_ty(F, b, rv[1])
            if ty is not None:
                t = F.types[ty]
                if t['k'] == 'adt' and t['path'].split('::')[-1] == 'Event' and 'quick_xml' in t['path']:
                    for n, w in enumerate(t['variants']):
                        if w['name'] == 'Eof':
                            env[dst[0]] = w.get('discr', n)
            elif env.get(rv[1][0]) == 'ev':
                env[dst[0]] = 'ev'
        elif rv[0] == 'use':
            o = rv[1]
            if isinstance(o, list) and o and o[0] == 'k':
                c = o[1]
                v = c.get('v') if isinstance(c, dict) else None
                if isinstance(c, dict) and c.get('c') in ('int', 'bool', 'scalar') and isinstance(v, (int, bool, str)):
                    try:
                        env[dst[0]] = int(v)
                    except ValueError:
                        pass
            elif opkey(o) in env:
                env[dst[0]] = env[opkey(o)]
    t = b.blocks[k]['t']
    if t[0] == 'call' and isinstance(t[3], list) and not t[3][1]:
        env.pop(t[3][0], None)
        if any(evref(F, b, o) for o in t[2]) and F.types[b.locals[t[3][0]]]['k'] in ('bool', 'int', 'adt') and (t[1][0] != 'fn' or t[1][1]['krate'] == 'phonenumber'):
            env[t[3][0]] = 'ev'
    return env


def evref(F, b, o):
    """an operand that is an event or refers to one"""
    k = opkey(o)
    if k is None:
        return False
    t = F.types[b.locals[k]]
    while t['k'] == 'ref':
        t = F.types[t['ty']]
    return t['k'] == 'adt' and t['path'].split('::')[-1] == 'Event' and 'quick_xml' in t['path']


def place_ty(F, b, p):
    ty = b.locals[p[0]]
    for e in p[1]:
        t = F.types[ty]
        if e == 'D':
            if t['k'] in ('ref', 'ptr'):
                ty = t['ty']
            elif t['k'] == 'adt' and t['args']:
                ty = t['args'][0]
            else:
                return None
        elif isinstance(e, list) and e and e[0] == 'F' and isinstance(e[-1], int):
            ty = e[-1]
        elif isinstance(e, list) and e and e[0] == 'V':
            continue
        else:
            return None
    return ty


def sccs(g):
    idx, low, st, on, out, n = {}, {}, [], set(), [], [0]
    for r in g:
        if r in idx:
            continue
        work = [(r, iter(g[r]))]
        idx[r] = low[r] = n[0]
        n[0] += 1
        st.append(r)
        on.add(r)
        while work:
            v, it = work[-1]
            w = next(it, None)
            if w is None:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        x = st.pop()
                        on.discard(x)
                        c.append(x)
                        if x == v:
                            break
                    out.append(c)
            elif w not in g:
                continue
            elif w not in idx:
                idx[w] = low[w] = n[0]
                n[0] += 1
                st.append(w)
                on.add(w)
                work.append((w, iter(g[w])))
            elif w in on:
                low[v] = min(low[v], idx[w])
    return out
