"""C05: operations are pure, repeatable and safe to call from many threads"""
import json, re
from checks.lib import *

LEVEL = 'proof'
RULE = ('obligation = (function, callee), static item, public type; discharged when the callee has no effect outside its arguments, the static is immutable after its '
        'one-time initialisation, the type is Send + Sync and free of interior mutability')
EXPLAIN = ('Effect analysis over the type-checked program: every callee of every compiled function is classified by path; statics and the auto traits of all public '
           'types are read from the compiler; casts that expose addresses and unsafe blocks are rejected.')
ASSUME = ['functions of the standard library and of the dependencies that are not on the effect list depend only on their arguments',
          'Lazy/LazyLock/OnceLock run their initialiser once and publish its result safely']

EFFECT = [
    (r'^std::env::', 'the process environment'), (r'(^|::)env::(var|vars|args|current_dir|temp_dir|home_dir|set_var)', 'the process environment'),
    (r'std::time::(Instant|SystemTime)', 'the clock'), (r'^std::thread::', 'threads'), (r'^std::process::', 'processes'),
    (r'^std::net::', 'the network'), (r'^std::fs::', 'the file system'), (r'^std::io::(stdio|_print|_eprint|stdin|stdout|stderr)', 'standard streams'),
    (r'^(std|alloc|core)::io::(stdio|_print|_eprint)', 'standard streams'),
    (r'sync::atomic::|Atomic(Bool|U|I|Ptr)', 'an atomic'), (r'::cell::(Cell|RefCell|UnsafeCell|OnceCell)|\bRefCell\b', 'a cell'),
    (r'sync::(poison::)?(mutex|rwlock|Mutex|RwLock|Condvar|mpsc|nonpoison)', 'a lock'), (r'thread::local|LocalKey', 'thread-local state'),
    (r'RandomState::new', 'a random hash seed'), (r'^rand::|^getrandom::|^fastrand::', 'a random source'),
    (r'core::ptr::(read|write|read_volatile|write_volatile)|::read_volatile|::write_volatile', 'raw memory'), (r'^libc::', 'the C library'),
    (r'std::panic::(set_hook|take_hook)', 'the panic hook'),
]
ITER = re.compile(r'(HashMap|HashSet).*::(iter|iter_mut|keys|values|values_mut|into_iter|drain|into_keys|into_values|retain)$|hash::(map|set)::.*(IntoIterator|Iterator)')
ONCE = ('once_cell::sync::Lazy<', 'once_cell::sync::OnceCell<', 'std::sync::LazyLock<', 'std::sync::OnceLock<', 'std::sync::lazy_lock::LazyLock<',
        'std::sync::once_lock::OnceLock<', 'lazy_static::')
MUTABLE = re.compile(r'\b(Cell|RefCell|UnsafeCell|Mutex|RwLock|Atomic\w+|LocalKey|OnceCell)\b')


def callees(m):
    out = []

    def rec(x):
        if isinstance(x, dict):
            if 'decl' in x:
                out.append(x)
            for v in x.values():
                rec(v)
        elif isinstance(x, list):
            for v in x:
                rec(v)
    rec(m)
    return out


def check(ctx, res):
    F = ctx.F
    nf = ncall = 0
    bodies = [(x['path'], x['mir'], i) for i, x in enumerate(F.insts) if x['local'] and x.get('mir')]
    bodies += [(s['path'], s['mir'], None) for s in F.statics if s.get('mir')] if isinstance(F.statics, list) else [(p, s['mir'], None) for p, s in F.statics.items() if s.get('mir')]
    seen = set()
    for path, mir, i in bodies:
        nf += 1
        for d in callees(mir['blocks']):
            if d['krate'] == 'phonenumber':
                continue
            ncall += 1
            p = d['path']
            tys = [F.types[t]['s'] for t in list(d.get('args') or []) + list(d.get('iargs') or []) if isinstance(t, int)]
            if (path, p) in seen:
                continue
            seen.add((path, p))
            eff = next((w for r, w in EFFECT if re.search(r, p)), None)
            if eff == 'the file system' and p.endswith('File::open') and i is not None and path_param(F, i):
                eff = None
            if eff:
                res.bad('effect %s calls %s' % (strip(path), p), '%s calls %s: its result depends on or changes %s' % (path, p, eff))
            elif ITER.search(p) and any('RandomState' in t for t in tys + [F.types[d['self_ty']]['s'] if isinstance(d.get('self_ty'), int) else '']):
                res.bad('random order %s' % strip(path), '%s iterates a randomly seeded hash table (%s): its order differs between runs' % (path, p))
            else:
                res.ok()
        for b in mir['blocks']:
            for s in b['s']:
                if s and s[0] == '=' and isinstance(s[2], list) and s[2] and s[2][0] == 'cast' and 'Expose' in str(s[2][1]):
                    res.bad('address exposed in ' + strip(path), '%s turns an address into a number' % path)
                elif s and s[0] == '=' and isinstance(s[2], list) and s[2] and s[2][0] == 'tls':
                    res.bad('thread local in ' + strip(path), '%s uses thread-local state' % path)
    sts = F.statics if isinstance(F.statics, list) else [dict(v, path=k) for k, v in F.statics.items()]
    for s in sts:
        t = F.types[s['ty']]['s']
        if s['mut']:
            res.bad('static mut ' + s['path'], '%s is a mutable static' % s['path'])
        elif s['tls']:
            res.bad('thread local ' + s['path'], '%s is thread-local' % s['path'])
        else:
            inner = t
            if t.startswith(ONCE):
                inner = t.split('<', 1)[-1]
            if MUTABLE.search(inner):
                res.bad('mutable static ' + s['path'], '%s is shared mutable state: %s' % (s['path'], t))
            else:
                res.ok()
    for u in F.j['unsafe_blocks']:
        res.bad('unsafe code in ' + str(u.get('fn', u) if isinstance(u, dict) else u), 'unsafe block at ' + json.dumps(u))
    autos = F.j['autos']
    for a in autos:
        if not a.get('reachable'):
            continue
        bad = [n for n, k in (('Send', 'send'), ('Sync', 'sync'), ('free of interior mutability', 'freeze')) if a[k] is False]
        if bad:
            res.bad('type %s' % a['path'], 'the public type %s is not %s' % (a['path'], ', not '.join(bad)))
        else:
            res.ok(3)
    for n in F.j['impls']:
        if n.get('unsafe') and n.get('trait') in ('core::marker::Send', 'core::marker::Sync'):
            res.bad('unsafe impl for ' + n['self'], 'unsafe impl of %s for %s' % (n['trait'], n['self']))
    res.coverage.update(functions=nf, call_sites=ncall, statics=len(sts), public_types=sum(1 for a in autos if a.get('reachable')))
    if nf < 100 or len(sts) < 5 or not autos:
        res.und('floor', 'fewer functions or statics than expected were analysed')
    res.sample('%d distinct (function, callee) pairs classified as effect free' % len(seen))


def strip(p):
    return re.sub(r'::\{closure#\d+\}', '', p)


def path_param(F, i):
    """the function takes the path it opens from its caller"""
    x = F.insts[i]
    b = F.body(i)
    if b.argc < 1:
        return False
    # no constant text in the body
    def strs(o):
        if isinstance(o, dict):
            return any(strs(v) for k, v in o.items()) or ('str' in o and isinstance(o['str'], str))
        if isinstance(o, list):
            return any(strs(v) for v in o)
        return False
    return not strs([bl['s'] for bl in b.blocks])
