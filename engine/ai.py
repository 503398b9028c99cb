"""Abstract interpreter over the monomorphised MIR dumped by /verif/driver.

Values are interned terms (core.py).  A state maps memory cells to values and
carries interval / charset / linear / boolean facts about the terms.  Branches
split states, joins merge them (anti-unification), loops are iterated to a
fixpoint with widening.  Nothing is executed and no solver is called.
"""
import json
import time, sys
from core import *

sys.setrecursionlimit(20000)


class Infeasible(Exception):
    pass


class Facts:
    def __init__(self, path):
        j = json.load(open(path))
        self.j = j
        self.types = j['types']
        self.insts = j['insts']
        self.fns = j['fns']
        self.bypath = {}
        for f in j['fns']:
            self.bypath.setdefault(f['path'], f)
        self.statics = {s['path']: s for s in j['statics']}
        self.impl = {}
        for row in j['impltab']:
            self.impl[row[0]] = {x[0]: x[1] for x in row[1:]}
        self.bodies = {}
        self.enum_tables = {}
        self.enum_detail = {}
        self.tyby = {}
        for i, t in enumerate(self.types):
            self.tyby.setdefault(t['s'], i)

    def body(self, i):
        b = self.bodies.get(i)
        if b is None:
            b = self.bodies[i] = Body(self, i, self.insts[i]['mir'])
        return b


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [b for _, b in t[2]] + [t[3]]
    if k == 'drop':
        return [t[2]]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    if k == 'assert':
        return [t[4]]
    return []


class Body:
    def __init__(self, F, i, mir):
        self.i = i
        self.path = F.insts[i]['path'] if i is not None else '?'
        self.local = F.insts[i]['local'] if i is not None else True
        self.mir = mir
        self.blocks = mir['blocks']
        self.argc = mir['argc']
        self.locals = mir['locals']
        self.spread = mir['spread']
        self.cfg()
        self.live = None

    def cfg(self):
        n = len(self.blocks)
        self.succ = [[s for s in dict.fromkeys(succs(b['t'])) if not self.blocks[s]['cleanup']] for b in self.blocks]
        seen = set()
        post = []
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                post.append(b)
                st.pop()
        self.rpo = post[::-1]
        self.order = {b: k for k, b in enumerate(self.rpo)}
        self.pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                self.pred[s].append(b)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                new = None
                for p in self.pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while self.order[x] > self.order[y]:
                                    x = idom[x]
                                while self.order[y] > self.order[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        self.loops = {}
        self.irreducible = False
        for b in self.rpo:
            for s in self.succ[b]:
                if self.order[s] <= self.order[b]:
                    if not dom(s, b):
                        self.irreducible = True
                        continue
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(self.pred[x])

    def liveness(self):
        if self.live is not None:
            return self.live
        n = len(self.blocks)
        use = {}
        deff = {}

        def pl(p, u, d, w):
            if p[1] or not w:
                if p[0] not in d:
                    u.add(p[0])
            for e in p[1]:
                if isinstance(e, list) and e[0] == 'I' and e[1] not in d:
                    u.add(e[1])
            if w and not p[1]:
                d.add(p[0])

        def op(o, u, d):
            if o[0] in ('cp', 'mv'):
                pl(o[1], u, d, False)

        def rv(r, u, d):
            k = r[0]
            if k in ('use', 'repeat'):
                op(r[1], u, d)
            elif k == 'ref':
                pl(r[2], u, d, False)
            elif k == 'cast':
                op(r[2], u, d)
            elif k == 'bin':
                op(r[2], u, d)
                op(r[3], u, d)
            elif k == 'un':
                op(r[2], u, d)
            elif k == 'discr':
                pl(r[1], u, d, False)
            elif k == 'agg':
                for o in r[2]:
                    op(o, u, d)
        for b in self.rpo:
            u, d = set(), set()
            for s in self.blocks[b]['s']:
                if s[0] == '=':
                    rv(s[2], u, d)
                    pl(s[1], u, d, True)
                elif s[0] == 'sd':
                    pl(s[1], u, d, False)
                elif s[0] == 'assume':
                    op(s[1], u, d)
            t = self.blocks[b]['t']
            if t[0] in ('switch', 'assert'):
                op(t[1], u, d)
            elif t[0] == 'call':
                if t[1][0] == 'op':
                    op(t[1][1], u, d)
                for o in t[2]:
                    op(o, u, d)
                pl(t[3], u, d, True)
            elif t[0] == 'ret':
                if 0 not in d:
                    u.add(0)
            use[b], deff[b] = u, d
        live = {b: set() for b in self.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                out = set()
                for s in self.succ[b]:
                    out |= live[s]
                new = use[b] | (out - deff[b])
                if new != live[b]:
                    live[b] = new
                    ch = True
        self.live = live
        return live


class Failure:
    def __init__(self, kind, where, msg, stack):
        self.kind, self.where, self.msg, self.stack = kind, where, msg, stack
        self.states = []            # (state, terms of the unproved condition), a few of them

    def key(self):
        return '%s|%s|%s' % (self.where, self.kind, self.msg)

    def __repr__(self):
        return '%s in %s: %s [via %s]' % (self.kind, self.where, self.msg, ' > '.join(self.stack))


class AI:
    JOINCAP = 24

    def __init__(self, facts):
        self.F = facts
        self.types = facts.types
        self.dry = 0
        self.failures = {}
        self.ok_obl = {}
        self.calls = {}
        self.unknown = {}
        self.loops = []          # recorded loop passes
        self.pair_heads = False  # also record which head each back state comes from
        self.stack = []
        self.frames = {}
        self.opaque = lambda inst, callee: False
        self.opaque_used = {}
        self.one_head = False       # merge all states at a loop head whatever their shape
        self.static_cache = {}
        self.statics_read = set()
        self.extra_key = None    # property specific partitioning of joins
        self.visited = set()
        self.steps = 0
        self.maxsteps = 30_000_000
        self.has_axioms = []
        self.on_call = None
        self.use_summaries = True
        self.summaries = {}
        self.in_summary = set()
        self.deadline = None
        self.unroll = 0
        self.width = 64
        import models
        self.M = models
        self.models = models.Models(self)

    # ------------------------------------------------------------ types
    def ty(self, i):
        return self.types[i]

    def tk(self, i):
        return self.types[i]['k'] if i is not None else None

    def cls(self, i):
        """text / list / other"""
        if i is None:
            return None
        t = self.types[i]
        c = t.get('_cls')
        if c is None:
            c = t['_cls'] = self._cls(t)
        return c

    def _cls(self, t):
        k = t['k']
        if k == 'str':
            return 'text'
        if k in ('slice', 'array'):
            return 'list'
        if k == 'adt':
            p = t['path']
            if p == 'alloc::string::String':
                return 'text'
            if p == 'alloc::vec::Vec':
                return 'list'
            if p in ('alloc::borrow::Cow', 'alloc::boxed::Box', 'alloc::rcs::arc::Arc', 'alloc::rcs::rc::Rc', 'alloc::sync::Arc', 'alloc::rc::Rc'):
                a = t['args']
                if a:
                    c = self.cls(a[0])
                    if self.types[a[0]]['k'] in ('str', 'slice') or p == 'alloc::borrow::Cow' and c:
                        return c
                if p == 'alloc::borrow::Cow':
                    return 'cowother'
                return 'ptr'
            return 'adt'
        if k == 'ref':
            x = self.types[t['ty']]
            if x['k'] == 'str':
                return 'text'
            if x['k'] == 'slice':
                return 'list'
            return 'ref'
        return k

    def is_cow(self, i):
        t = self.types[i]
        return t['k'] == 'adt' and t['path'] == 'alloc::borrow::Cow' and self.cls(i) in ('text', 'list')

    def pointee(self, i):
        t = self.types[i]
        if t['k'] in ('ref', 'ptr'):
            return t['ty']
        if t['k'] == 'adt' and t['args']:
            return t['args'][0]
        return None

    def elemty(self, i):
        t = self.types[i]
        if t['k'] in ('slice', 'array'):
            return t['ty']
        if t['k'] == 'ref':
            return self.elemty(t['ty'])
        if t['k'] == 'adt' and t['args']:
            if t['path'] == 'alloc::vec::Vec':
                return t['args'][0]
            return self.elemty(t['args'][0])
        return None

    def symval(self, term, i):
        if i is None:
            return term
        c = self.cls(i)
        if term.ty is None:
            term.ty = i
        if c in ('text', 'list'):
            return term
        if c == 'ref' or c == 'ptr':
            p = self.pointee(i)
            return R(('V', self.symval(T('*', term, ty=p), p)))
        t = self.types[i]
        if t['k'] == 'ptr':
            return term
        if t['k'] == 'tuple':
            return A('tuple', None, 0, [self.symval(T('fld', term, 0, n, ty=x), x) for n, x in enumerate(t['tys'])])
        if t['k'] == 'fndef':
            return A('fn', i, 0, ())
        if t['k'] == 'closure' and not t['upvars']:
            return A('closure', i, 0, ())
        if t['k'] == 'adt' and t['akind'] == 'struct' and t['variants'] and not t['variants'][0]['fields'] and t['local']:
            return A('adt', i, 0, ())
        return term

    def proj(self, v, var, idx, fty, cty=None):
        if isinstance(v, Agg):
            if v.kind in ('adt', 'tuple', 'closure', 'arr'):
                if idx < len(v.f):
                    return v.f[idx]
                return fresh('badproj', fty)
            if v.kind == 'list':
                return v
            m = self.models.proj_agg(v, var, idx, fty)
            if m is not None:
                return m
            return self.symval(T('fld', v, var, idx, ty=fty), fty)
        if isinstance(v, Ref):
            return v
        if v is None:
            return fresh('uninit', fty)
        if cty is not None and self.is_cow(cty):
            return v
        return self.symval(T('fld', v, var, idx, ty=fty), fty)

    # ------------------------------------------------------------ memory
    def base(self, st, loc):
        if loc in st.mem:
            return st.mem[loc]
        if loc[0] == 'V':
            return loc[1]
        if loc[0] == 'S':
            return self.static_value(loc[1])
        if loc[0] == 'M':
            return self.models.read_mapslot(st, loc)
        return None

    def read(self, st, loc, path=()):
        v = self.base(st, loc)
        for e in path:
            v = self.step_read(st, v, e)
        return v

    def step_read(self, st, v, e):
        if e[0] == 'f':
            return self.proj(v, e[1], e[2], e[3], e[4])
        if e[0] == 'i':
            return self.models.elt(st, v, e[1], e[2])
        if e[0] == 's':
            return self.models.lslice(st, v, e[1], e[2])
        raise AssertionError(e)

    def write(self, st, loc, path, val):
        if not path:
            if loc[0] == 'M':
                self.models.write_mapslot(st, loc, val)
            else:
                st.mem[loc] = val
            return
        b = self.base(st, loc)
        nb = self.upd(st, b, path, val)
        if loc[0] == 'M':
            self.models.write_mapslot(st, loc, nb)
        else:
            st.mem[loc] = nb

    def expand(self, v, var, ty):
        """turn a symbolic struct into an aggregate of its fields"""
        t = self.types[ty]
        if t['k'] == 'tuple':
            return A('tuple', None, 0, [self.proj(v, 0, n, x) for n, x in enumerate(t['tys'])])
        if t['k'] == 'adt':
            fs = t['variants'][var]['fields'] if var < len(t['variants']) else []
            return A('adt', ty, var, [self.proj(v, var, n, x[1]) for n, x in enumerate(fs)])
        if t['k'] == 'closure':
            return A('closure', ty, 0, [self.proj(v, 0, n, x) for n, x in enumerate(t['upvars'])])
        return None

    def upd(self, st, v, path, val):
        if not path:
            return val
        e = path[0]
        if e[0] == 'f':
            if isinstance(v, Agg) and v.kind in ('adt', 'tuple', 'closure', 'arr'):
                if v.kind == 'adt' and v.var != e[1] and e[4] is not None and self.types[e[4]].get('akind') == 'enum':
                    v = self.expand(fresh('uninit', e[4]), e[1], e[4])
            else:
                if isinstance(v, Ref) or e[4] is not None and (self.is_cow(e[4]) or self.cls(e[4]) == 'ptr'):
                    return self.upd(st, v, path[1:], val)
                x = v if isinstance(v, Term) else fresh('uninit', e[4])
                v = self.expand(x, e[1], e[4]) if e[4] is not None else None
                if v is None:
                    return fresh('updlost')
            f = list(v.f)
            while len(f) <= e[2]:
                f.append(fresh('uninit'))
            f[e[2]] = self.upd(st, f[e[2]], path[1:], val)
            return A(v.kind, v.ty, v.var, f)
        if e[0] == 'i':
            old = self.models.elt(st, v, e[1], e[2])
            return self.models.lset(st, v, e[1], self.upd(st, old, path[1:], val))
        return fresh('updlost')

    def place(self, st, body, fid, p):
        """-> (loc, path, type id)"""
        loc, path = ('L', fid, p[0]), ()
        cty = body.locals[p[0]]
        var = 0
        for e in p[1]:
            if e == 'D':
                v = self.read(st, loc, path)
                if isinstance(v, Ref):
                    loc, path = v.loc, v.path
                else:
                    c = self.cls(cty) if cty is not None else None
                    if c in ('text', 'list') or not isinstance(v, Term):
                        loc, path = ('V', v if v is not None else fresh('uninit')), ()
                    else:
                        nt = self.pointee(cty) if cty is not None else None
                        loc, path = ('V', self.symval(T('*', v, ty=nt), nt)), ()
                if cty is not None:
                    c = self.cls(cty)
                    t = self.types[cty]
                    cty = self.pointee(cty)
                var = 0
            elif e == 'O':
                pass
            elif e[0] == 'F':
                path = path + (('f', var, e[1], e[2], cty),)
                cty = e[2]
                var = 0
            elif e[0] == 'V':
                var = e[1]
            elif e[0] == 'I':
                idx = st.mem.get(('L', fid, e[1]))
                path = path + (('i', idx, self.elemty(cty)),)
                cty = self.elemty(cty)
            elif e[0] == 'C':
                if e[3]:
                    v = self.read(st, loc, path)
                    idx = sub(self.models.llen(v), I(e[1]))
                else:
                    idx = I(e[1])
                path = path + (('i', idx, self.elemty(cty)),)
                cty = self.elemty(cty)
            elif e[0] == 'S':
                v = self.read(st, loc, path)
                hi = sub(self.models.llen(v), I(e[2])) if e[3] else I(e[2])
                path = path + (('s', I(e[1]), hi),)
        return loc, path, cty

    def readplace(self, st, body, fid, p):
        loc, path, _ = self.place(st, body, fid, p)
        v = self.read(st, loc, path)
        if v is None:
            v = fresh('uninit', body.locals[p[0]] if not p[1] else None)
        return v

    # ------------------------------------------------------------ constants
    def const(self, c):
        k = c['c']
        if k == 'int':
            return I(c['v'])
        if k == 'char':
            v = c['v']
            return I(ord(v) if isinstance(v, str) else v)
        if k == 'bool':
            return B(c['v'])
        if k == 'str':
            return S(c['v'])
        if k == 'bytes':
            return A('list', None, 0, [I(x) for x in c['v']])
        if k == 'array':
            return A('list', None, 0, [self.const(x) for x in c['v']])
        if k == 'tuple':
            return A('tuple', None, 0, [self.const(x) for x in c['v']])
        if k == 'adt':
            if self.cls(c['ty']) in ('text', 'list'):
                t = self.types[c['ty']]
                if t['path'] == 'alloc::borrow::Cow' and c['v']:
                    return self.const(c['v'][0])
                if t['path'] == 'alloc::string::String':
                    return S('')
                if t['path'] == 'alloc::vec::Vec':
                    return A('list', None, 0, ())
            return A('adt', c['ty'], c['var'], [self.const(x) for x in c['v']])
        if k == 'zst':
            t = self.types[c['ty']]
            if t['k'] == 'fndef':
                return A('fn', c['ty'], 0, ())
            if t['k'] == 'closure':
                return A('closure', c['ty'], 0, ())
            if t['k'] == 'adt':
                return A('adt', c['ty'], 0, ())
            return A('zst', c['ty'], 0, ())
        if k == 'ref':
            v = self.const(c['v'])
            ct = c.get('cty')
            if ct is not None and self.types[ct]['k'] == 'ref':
                pt = self.types[ct]['ty']
                if self.types[pt]['k'] in ('str', 'slice'):
                    return v
                return R(('V', v))
            if isinstance(c['v'], dict) and c['v'].get('c') in ('str',):
                return v
            return R(('V', v))
        if k == 'static':
            return R(('S', c['v']))
        if k == 'fn':
            return A('fnv', None, 0, (json.dumps(c['v']),))
        if k == 'bits':
            return I(c['v']) if isinstance(c.get('v'), int) else fresh('bits', c.get('cty'))
        ct = c.get('cty', c.get('ty'))
        return self.symval(T('const', json.dumps(c, sort_keys=True)[:300], ty=ct), ct)

    def static_value(self, path):
        self.statics_read.add(path)
        v = self.static_cache.get(path)
        if v is not None:
            return v
        s = self.F.statics.get(path)
        sym = T('static', path, ty=s['ty'] if s else None)
        self.static_cache[path] = sym
        if s and s.get('mir') and not s['mut']:
            b = Body(self.F, None, s['mir'])
            b.path = path
            st = State()
            self.dry += 1
            save = self.opaque
            try:
                outs = self.run_body(b, [], st, ('static', path))
            except RecursionError:
                outs = []
            self.dry -= 1
            self.opaque = save
            if len(outs) == 1:
                sym = outs[0][1]
        self.static_cache[path] = sym
        return sym

    # ------------------------------------------------------------ failures
    def where(self):
        for p in reversed(self.stack):
            if p.startswith('crate::') or '<crate::' in p or 'crate::' in p.split(' as ')[-1]:
                return p
        return self.stack[-1] if self.stack else '?'

    def fail(self, kind, msg, st=None, terms=None):
        if self.dry:
            return
        f = Failure(kind, self.where(), msg, list(self.stack))
        f = self.failures.setdefault(f.key(), f)
        if len(f.states) < 12:
            f.states.append((st, terms))

    def oblige(self, kind, msg, ok, st=None, terms=None):
        if self.dry:
            return
        if ok:
            k = (self.where(), kind, msg)
            self.ok_obl[k] = self.ok_obl.get(k, 0) + 1
        else:
            self.fail(kind, msg, st, terms)

    # ------------------------------------------------------------ facts
    def iv(self, st, t):
        """interval set of an integer / char term"""
        if isinstance(t, Term):
            if t.op == 'int':
                return ((t.args[0], t.args[0]),)
            if t.op == 'lin':
                lo, hi = t.args[0], t.args[0]
                for x, c in t.args[1]:
                    v = self.iv(st, x)
                    if not v:
                        return ()
                    a, b = v[0][0] * c, v[-1][1] * c
                    lo += min(a, b)
                    hi += max(a, b)
                r = ((lo, hi),)
                f = st.facts.get(t)
                return iv_and(r, f) if f is not None else r
            r = self.base_iv(st, t)
            f = st.facts.get(t)
            if f is not None:
                r = iv_and(r, f)
            return r
        return ((-INF, INF),)

    def base_iv(self, st, t):
        op = t.op
        if op in ('len', 'llen', 'ms', 'me', 'count'):
            return ((0, LENMAX),)
        if op == 'utf8len':
            c = self.iv(st, t.args[0])
            lo = len(chr(c[0][0]).encode('utf8', 'surrogatepass')) if c else 1
            hi = len(chr(min(c[-1][1], MAXCP)).encode('utf8', 'surrogatepass')) if c else 4
            return ((lo, hi),)
        if op == 'char':
            return iv_and(((0, 0xD7FF), (0xE000, MAXCP)), self.cs(st, t.args[0])) or ((0, MAXCP),)
        if op == 'caplen':
            return ((1, LENMAX),)
        if op == 'and':
            m = t.args[1]
            if isinstance(m, Term) and m.op == 'int' and m.args[0] >= 0:
                return ((0, m.args[0]),)
        if op == 'shr' and t.args[1].op == 'int':
            b = self.iv(st, t.args[0])
            if b and b[0][0] >= 0:
                return ((b[0][0] >> t.args[1].args[0], b[-1][1] >> t.args[1].args[0]),)
        if op == 'rem' and t.args[1].op == 'int' and t.args[1].args[0] > 0:
            b = self.iv(st, t.args[0])
            if b and b[0][0] >= 0:
                return ((0, t.args[1].args[0] - 1),)
        if op == 'div' and t.args[1].op == 'int' and t.args[1].args[0] > 0:
            b = self.iv(st, t.args[0])
            if b and b[0][0] >= 0:
                return ((b[0][0] // t.args[1].args[0], b[-1][1] // t.args[1].args[0]),)
        if op == 'ite':
            c = self.truth(st, t.args[0])
            if c is True:
                return self.iv(st, t.args[1])
            if c is False:
                return self.iv(st, t.args[2])
            return iv_or(self.iv(st, t.args[1]), self.iv(st, t.args[2]))
        if op == 'trunc':
            return ((0, (1 << t.args[1]) - 1),)
        if t.ty is not None:
            k = self.types[t.ty]
            if k['k'] == 'int':
                return int_range(k['bits'], k['signed'])
            if k['k'] == 'char':
                return ((0, 0xD7FF), (0xE000, MAXCP))
            if k['k'] == 'bool':
                return ((0, 1),)
        return ((-INF, INF),)

    def cs(self, st, t):
        """charset (superset of the characters) of a text"""
        if not isinstance(t, Term):
            return ALLCS
        f = st.facts.get(('cs', t))
        if t.op == 'str':
            return cs_of(t.args[0])
        if t.op == 'cat':
            r = ()
            for x in t.args:
                r = iv_or(r, self.cs(st, x))
        elif t.op == 'slice':
            r = self.cs(st, t.args[0])
        elif t.op == 'chr':
            r = self.iv(st, t.args[0])
        elif t.op == 'itoa':
            r = DIGITS
            b = self.iv(st, t.args[0])
            if not b or b[0][0] < 0:
                r = iv_or(r, cs_of('-'))
        elif t.op == 'rep':
            r = self.cs(st, t.args[0])
        elif t.op == 'rrep':
            r = iv_or(self.cs(st, t.args[1]), self.cs(st, t.args[2]))
        elif t.op == 'srep':
            r = iv_or(self.cs(st, t.args[0]), self.cs(st, t.args[2]))
        elif t.op == 'show':
            r = self.models.show_cs(t)
        else:
            r = ALLCS
        return iv_and(r, f) if f is not None else r

    # -- linear prover
    def minlin(self, st, L):
        c, d = lin_parts(L)
        for x, k in d.items():
            v = self.iv(st, x)
            if not v:
                return INF
            c += k * (v[0][0] if k > 0 else v[-1][1])
        return c

    def prove(self, st, L, depth=4, seen=None):
        """L >= 0 in every concretisation?"""
        if self.minlin(st, L) >= 0:
            return True
        if depth == 0:
            return False
        if seen is None:
            seen = set()
        if L in seen:
            return False
        seen.add(L)
        _, d = lin_parts(L)
        for l in st.lins:
            _, dl = lin_parts(l)
            for x, k in dl.items():
                kl = d.get(x)
                if kl is not None and (kl > 0) == (k > 0) and kl % k == 0:
                    if self.prove(st, add(L, l, -(kl // k)), depth - 1, seen):
                        return True
                    break
        # structural: len(T) of slices
        for x, k in d.items():
            for l in self.models.struct_lins(st, x):
                _, dl = lin_parts(l)
                kk = dl.get(x)
                if kk and (kk > 0) == (k > 0) and k % kk == 0:
                    if self.prove(st, add(L, l, -(k // kk)), depth - 1, seen):
                        return True
        return False

    def prove_false(self, st, L):
        """L < 0 always"""
        return self.prove(st, addc(add(I(0), L, -1), -1))

    def assume_ge0(self, st, L):
        if L.op == 'int':
            return L.args[0] >= 0
        if self.prove_false(st, L):
            return False
        c, d = lin_parts(L)
        if len(d) == 1:
            (x, k), = d.items()
            v = self.iv(st, x)
            if k == 1:
                n = iv_and(v, ((-c, INF),))
            elif k == -1:
                n = iv_and(v, ((-INF, c),))
            else:
                n = v
            if not n:
                return False
            if n != v:
                st.facts[x] = n
                if not self.refined(st, x):
                    return False
            if abs(k) == 1:
                return True
        if not self.prove(st, L):
            st.lins = st.lins | {L}
        return True

    def refined(self, st, x):
        return self.models.on_refine(st, x)

    def assume_in(self, st, t, ivs):
        if t.op == 'int':
            return bool(iv_and(((t.args[0], t.args[0]),), ivs))
        if t.op == 'ite':
            c = self.truth(st, t.args[0])
            if c is None:
                a = iv_and(self.iv(st, t.args[1]), ivs)
                b = iv_and(self.iv(st, t.args[2]), ivs)
                if not a and not b:
                    return False
                if not a:
                    return self.assume(st, t.args[0], False) and self.assume_in(st, t.args[2], ivs)
                if not b:
                    return self.assume(st, t.args[0], True) and self.assume_in(st, t.args[1], ivs)
            else:
                return self.assume_in(st, t.args[1] if c else t.args[2], ivs)
        cur = self.iv(st, t)
        n = iv_and(cur, ivs)
        if not n:
            return False
        if t.op == 'lin':
            c, d = lin_parts(t)
            if len(d) == 1:
                (x, k), = d.items()
                if k in (1, -1):
                    sh = tuple((lo - c, hi - c) for lo, hi in ivs) if k == 1 else iv_norm([(c - hi, c - lo) for lo, hi in ivs])
                    return self.assume_in(st, x, sh)
            st.facts[t] = n
            if not self.assume_ge0(st, addc(t, -n[0][0])):
                return False
            return self.assume_ge0(st, add(I(n[-1][1]), t, -1))
        if n != cur:
            st.facts[t] = n
            return self.refined(st, t)
        return True

    def truth(self, st, b):
        """True / False / None"""
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        if not isinstance(b, Term):
            return None
        f = st.facts.get(b)
        if isinstance(f, bool):
            return f
        op = b.op
        if op == 'not':
            r = self.truth(st, b.args[0])
            return None if r is None else not r
        if op == 'ge0':
            if self.prove(st, b.args[0]):
                return True
            if self.prove_false(st, b.args[0]):
                return False
            return None
        if op == 'eqi':
            L = b.args[0]
            if L.op == 'int':
                return L.args[0] == 0
            c, d = lin_parts(L)
            if len(d) == 1:
                (x, k), = d.items()
                v = self.iv(st, x)
                if c % k:
                    return False
                z = -c // k
                if not iv_and(v, ((z, z),)):
                    return False
                if v == ((z, z),):
                    return True
                return None
            if self.prove(st, L) and self.prove(st, add(I(0), L, -1)):
                return True
            if self.prove(st, addc(L, -1)) or self.prove(st, addc(add(I(0), L, -1), -1)):
                return False
            return None
        if op == 'in':
            v = self.iv(st, b.args[0])
            if not iv_and(v, b.args[1]):
                return False
            if iv_subset(v, b.args[1]):
                return True
            return None
        if op == 'and':
            x, y = self.truth(st, b.args[0]), self.truth(st, b.args[1])
            if x is False or y is False:
                return False
            if x and y:
                return True
            return None
        if op == 'or':
            x, y = self.truth(st, b.args[0]), self.truth(st, b.args[1])
            if x or y:
                return True
            if x is False and y is False:
                return False
            return None
        return self.models.truth(st, b)

    def assume(self, st, b, val):
        """restrict st; False when infeasible"""
        t = self.truth(st, b)
        if t is not None:
            return t == val
        op = b.op
        if op == 'not':
            return self.assume(st, b.args[0], not val)
        if op == 'ge0':
            if val:
                return self.assume_ge0(st, b.args[0])
            return self.assume_ge0(st, addc(add(I(0), b.args[0], -1), -1))
        if op == 'eqi':
            L = b.args[0]
            c, d = lin_parts(L)
            if val:
                if len(d) == 1:
                    (x, k), = d.items()
                    return self.assume_in(st, x, ((-c // k, -c // k),))
                return self.assume_ge0(st, L) and self.assume_ge0(st, add(I(0), L, -1))
            if len(d) == 1:
                (x, k), = d.items()
                z = -c // k
                return self.assume_in(st, x, iv_sub(self.iv(st, x), ((z, z),)))
            # distinct: tighten when one side is known
            if self.prove(st, L):
                return self.assume_ge0(st, addc(L, -1))
            if self.prove(st, add(I(0), L, -1)):
                return self.assume_ge0(st, addc(add(I(0), L, -1), -1))
            st.facts[b] = False
            return True
        if op == 'in':
            ivs = b.args[1]
            if not val:
                ivs = iv_sub(self.iv(st, b.args[0]), ivs)
            return self.assume_in(st, b.args[0], ivs)
        if op == 'and' and val:
            return self.assume(st, b.args[0], True) and self.assume(st, b.args[1], True)
        if op == 'or' and not val:
            return self.assume(st, b.args[0], False) and self.assume(st, b.args[1], False)
        if op == 'and':
            x, y = self.truth(st, b.args[0]), self.truth(st, b.args[1])
            if x:
                return self.assume(st, b.args[1], False)
            if y:
                return self.assume(st, b.args[0], False)
        if op == 'or':
            x, y = self.truth(st, b.args[0]), self.truth(st, b.args[1])
            if x is False:
                return self.assume(st, b.args[1], True)
            if y is False:
                return self.assume(st, b.args[0], True)
        st.facts[b] = val
        return self.models.on_assume(st, b, val)

    def branch(self, st, b):
        """-> (state if true or None, state if false or None)"""
        t = self.truth(st, b)
        if t is True:
            return st, None
        if t is False:
            return None, st
        a = st.copy()
        c = st.copy()
        ra = a if self.assume(a, b, True) else None
        rc = c if self.assume(c, b, False) else None
        return ra, rc

    # ------------------------------------------------------------ rvalues
    def operand(self, st, body, fid, o):
        if o[0] == 'k':
            return self.const(o[1])
        if o[0] == 'rt':
            return FALSE
        return self.readplace(st, body, fid, o[1])

    def opty(self, st, body, fid, o):
        if o[0] == 'k':
            return o[1].get('cty', o[1].get('ty'))
        if o[0] == 'rt':
            return None
        return self.place(st, body, fid, o[1])[2]

    def rvalue(self, st, body, fid, r, dty):
        k = r[0]
        if k == 'use':
            return self.operand(st, body, fid, r[1])
        if k == 'ref':
            loc, path, ty = self.place(st, body, fid, r[2])
            if ty is not None and self.types[ty]['k'] in ('str', 'slice'):
                v = self.read(st, loc, path)
                return v if v is not None else fresh('uninit', ty)
            if loc[0] == 'V' and path:
                try:
                    v = self.read(st, loc, path)
                except AssertionError:
                    v = None
                if v is not None and not r[1] and loc not in st.mem:
                    return R(('V', v))
            return R(loc, path)
        if k == 'repeat':
            v = self.operand(st, body, fid, r[1])
            if r[2] is not None and r[2] <= 64:
                return A('list', None, 0, [v] * r[2])
            return fresh('arr', dty)
        if k == 'cast':
            return self.cast(st, body, fid, r, dty)
        if k == 'bin':
            a = self.operand(st, body, fid, r[2])
            b = self.operand(st, body, fid, r[3])
            return self.binop(st, r[1], a, b, self.opty(st, body, fid, r[2]))
        if k == 'un':
            a = self.operand(st, body, fid, r[2])
            if r[1] == 'Not':
                aty = self.opty(st, body, fid, r[2])
                if aty is not None and self.tk(aty) == 'bool':
                    return self.neg(a)
                return fresh('bitnot', aty)
            if r[1] == 'Neg':
                return add(I(0), a, -1) if isinstance(a, Term) else fresh('neg', dty)
            if r[1] == 'PtrMetadata':
                return self.models.anylen(st, a, self.opty(st, body, fid, r[2]))
            return fresh('un', dty)
        if k == 'discr':
            loc, path, ty = self.place(st, body, fid, r[1])
            v = self.read(st, loc, path)
            return self.discr(st, v, ty)
        if k == 'agg':
            kk = r[1]
            ops = [self.operand(st, body, fid, o) for o in r[2]]
            if kk[0] == 'tuple':
                return A('tuple', None, 0, ops)
            if kk[0] == 'array':
                return A('list', None, 0, ops)
            if kk[0] == 'adt':
                if self.is_cow(kk[1]):
                    return ops[0]
                if self.cls(kk[1]) == 'text' and ops:
                    return self.models.txt(st, ops[0])
                if kk[3] is not None:
                    return ops[0] if ops else UNIT
                return A('adt', kk[1], kk[2], ops)
            if kk[0] == 'closure':
                return A('closure', kk[1], 0, ops)
            return fresh('agg', dty)
        return fresh('rv', dty)

    def neg(self, a):
        if a is TRUE:
            return FALSE
        if a is FALSE:
            return TRUE
        if isinstance(a, Term) and a.op == 'not':
            return a.args[0]
        if isinstance(a, Term) and a.op == 'ge0':
            return T('ge0', addc(add(I(0), a.args[0], -1), -1))
        return T('not', a)

    def discr(self, st, v, ty):
        if isinstance(v, Agg):
            if v.kind == 'adt':
                if ty is not None and self.types[ty]['k'] == 'adt':
                    vs = self.types[ty]['variants']
                    if v.var < len(vs):
                        return I(vs[v.var]['discr'])
                return I(v.var)
            m = self.models.discr_agg(st, v, ty)
            if m is not None:
                return m
        if ty is not None and self.is_cow(ty):
            d = fresh('cowdiscr')
            st.facts[d] = ((0, 1),)
            return d
        d = T('discr', v if v is not None else fresh('uninit'))
        if ty is not None and self.types[ty]['k'] == 'adt' and d not in st.facts:
            vs = self.types[ty]['variants']
            if vs:
                st.facts[d] = iv_norm([(x['discr'], x['discr']) for x in vs])
        return d

    def cast(self, st, body, fid, r, dty):
        v = self.operand(st, body, fid, r[2])
        kind = r[1]
        to = self.types[r[3]]
        if 'Unsize' in kind:
            if isinstance(v, Ref) and to['k'] in ('ref', 'ptr') and self.types[to['ty']]['k'] in ('slice',):
                return self.read(st, v.loc, v.path)
            return v
        if kind.startswith('IntToInt') or kind.startswith('CharTo'):
            if isinstance(v, Term) and to['k'] in ('int', 'char'):
                if v.op == 'bool':
                    return I(1 if v.args[0] else 0)
                src = self.opty(st, body, fid, r[2])
                if src is not None and self.tk(src) == 'bool':
                    return T('ite', v, I(1), I(0))
                rng = int_range(to['bits'], to['signed']) if to['k'] == 'int' else ((0, MAXCP),)
                if iv_subset(self.iv(st, v), rng):
                    return v
                if v.op == 'int':
                    x = v.args[0] & ((1 << to['bits']) - 1)
                    if to['signed'] and x >> (to['bits'] - 1):
                        x -= 1 << to['bits']
                    return I(x)
                if not to['signed']:
                    return T('trunc', v, to['bits'], ty=r[3])
                return fresh('cast', r[3])
            return fresh('cast', r[3])
        return v

    def binop(self, st, op, a, b, aty):
        ovf = op.endswith('WithOverflow')
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        isint = isinstance(a, Term) and isinstance(b, Term)
        t = self.types[aty] if aty is not None else None
        if base in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if not isint:
                if base in ('Eq', 'Ne') and a is b:
                    return B(base == 'Eq')
                return fresh('cmp', self.F.tyby.get('bool'))
            if t is not None and t['k'] == 'bool':
                x = self.models.booleq(a, b)
                return x if base == 'Eq' else self.neg(x) if base == 'Ne' else fresh('cmp', self.F.tyby.get('bool'))
            if base == 'Eq':
                return self.eqi(st, a, b)
            if base == 'Ne':
                return self.neg(self.eqi(st, a, b))
            if base == 'Lt':
                return self.ge0(st, addc(sub(b, a), -1))
            if base == 'Le':
                return self.ge0(st, sub(b, a))
            if base == 'Gt':
                return self.ge0(st, addc(sub(a, b), -1))
            return self.ge0(st, sub(a, b))
        if base in ('BitAnd', 'BitOr', 'BitXor') and t is not None and t['k'] == 'bool':
            if base == 'BitAnd':
                if a is FALSE or b is FALSE:
                    return FALSE
                if a is TRUE:
                    return b
                if b is TRUE:
                    return a
                return T('and', a, b, ty=aty)
            if base == 'BitOr':
                if a is TRUE or b is TRUE:
                    return TRUE
                if a is FALSE:
                    return b
                if b is FALSE:
                    return a
                return T('or', a, b, ty=aty)
            return self.neg(self.models.booleq(a, b))
        if not isint or t is None or t['k'] != 'int':
            v = fresh('bin', aty)
            return A('tuple', None, 0, (v, fresh('ovf', self.F.tyby.get('bool')))) if ovf else v
        rng = int_range(t['bits'], t['signed'])
        v = self.arith(st, base, a, b, t, aty)
        fits = iv_subset(self.iv(st, v), rng)
        if not fits:
            # prove by linear reasoning
            fits = self.prove(st, addc(v, -rng[0][0])) and self.prove(st, add(I(rng[0][1]), v, -1))
        if ovf:
            if fits:
                return A('tuple', None, 0, (v, FALSE))
            if base in ('Add', 'Sub', 'Mul') and v.op in ('lin', 'int') or v.op not in ('int', 'lin'):
                inr = T('and', T('ge0', addc(v, -rng[0][0])), T('ge0', add(I(rng[0][1]), v, -1)))
                return A('tuple', None, 0, (v, T('not', inr)))
            return A('tuple', None, 0, (v, fresh('ovf', self.F.tyby.get('bool'))))
        if base in ('Add', 'Sub', 'Mul', 'Shl') and not fits:
            return T('wrap', v, t['bits'], ty=aty)
        return v

    def eqi(self, st, a, b):
        L = sub(a, b)
        if L.op == 'int':
            return B(L.args[0] == 0)
        # canonical sign
        c, d = lin_parts(L)
        first = min(d, key=lambda x: x.id)
        if d[first] < 0:
            L = add(I(0), L, -1)
        return T('eqi', L)

    def ge0(self, st, L):
        if L.op == 'int':
            return B(L.args[0] >= 0)
        return T('ge0', L)

    def split_pow(self, st, a, k):
        """a == hi*2^k + lo with 0<=lo<2^k, or None"""
        c, d = lin_parts(a)
        m = 1 << k
        hi, lo = I(c // m), I(c % m)
        for x, co in d.items():
            if co % m == 0:
                hi = add(hi, x, co // m)
            else:
                lo = add(lo, x, co)
        v = self.iv(st, lo)
        if v and v[0][0] >= 0 and v[-1][1] < m:
            return hi, lo
        return None

    def arith(self, st, base, a, b, t, aty):
        if base == 'Add':
            return add(a, b)
        if base == 'Sub':
            return sub(a, b)
        if base == 'Mul':
            if b.op == 'int':
                return add(I(0), a, b.args[0])
            if a.op == 'int':
                return add(I(0), b, a.args[0])
            return T('mul', a, b, ty=aty)
        if base == 'Shl':
            if b.op == 'int' and 0 <= b.args[0] < 128:
                r = add(I(0), a, 1 << b.args[0])
                if aty is None or t.get('k') != 'int' or iv_subset(self.iv(st, r), int_range(t['bits'], t['signed'])):
                    return r
            return T('shl', a, b, ty=aty)
        if base == 'Shr' and b.op == 'int':
            s = self.split_pow(st, a, b.args[0])
            if s:
                return s[0]
            return T('shr', a, b, ty=aty)
        if base == 'BitAnd':
            for x, y in ((a, b), (b, a)):
                if y.op == 'int':
                    m = y.args[0]
                    if m == 0:
                        return I(0)
                    if m > 0 and (m & (m + 1)) == 0:
                        s = self.split_pow(st, x, m.bit_length())
                        if s:
                            return s[1]
                    return T('and', x, y, ty=aty)
            return T('and', a, b, ty=aty)
        if base == 'BitOr':
            for x, y in ((a, b), (b, a)):
                v = self.iv(st, y)
                if v and v[0][0] >= 0:
                    k = v[-1][1].bit_length()
                    c, d = lin_parts(x)
                    if c % (1 << k) == 0 and all(co % (1 << k) == 0 for co in d.values()):
                        return add(x, y)
            return T('or_', a, b, ty=aty)
        if base in ('Div', 'Rem') and a.op == 'int' and b.op == 'int' and b.args[0]:
            return I(a.args[0] // b.args[0]) if base == 'Div' else I(a.args[0] % b.args[0])
        if base == 'Div':
            return T('div', a, b, ty=aty)
        if base == 'Rem':
            return T('rem', a, b, ty=aty)
        return fresh('arith', aty)

    # ------------------------------------------------------------ execution
    def frame(self, key):
        f = self.frames.get(key)
        if f is None:
            f = self.frames[key] = len(self.frames) + 1
        return f

    def run_body(self, body, args, st, site):
        fid = self.frame(site)
        st = st.copy()
        if body.spread is not None:
            n = body.spread
            args = args[:n - 1] + [A('tuple', None, 0, args[n - 1:])] if len(args) != body.argc or not (
                len(args) >= n and isinstance(args[n - 1], Agg) and args[n - 1].kind == 'tuple') else args
        for n, a in enumerate(args):
            st.mem[('L', fid, n + 1)] = a
        self.stack.append(body.path)
        if body.i is not None:
            self.visited.add(body.i)
        try:
            ex, backs = self.run_region(body, fid, None, 0, [st])
        finally:
            self.stack.pop()
        outs = []
        for s in ex.get('RET', []):
            v = s.mem.get(('L', fid, 0), UNIT)
            self.pop_frame(s, fid)
            outs.append((s, v))
        return self.merge_outs(outs, site)

    def pop_frame(self, s, fid):
        dead = [k for k in s.mem if k[0] in ('L', 'H') and k[1] == fid]
        for k in dead:
            del s.mem[k]

    def merge_outs(self, outs, site):
        if len(outs) <= 1:
            return outs
        sts = []
        key = ('R', 0)
        for s, v in outs:
            s.mem[key] = v
            sts.append(s)
        sts = self.dedupe(sts)
        if len(sts) > self.JOINCAP:
            sts = self.merge_states(sts)
        res = []
        for s in sts:
            v = s.mem.pop(key)
            res.append((s, v))
        return res

    def merge_values(self, outs):
        key, sts, res = ('R', 0), [], []
        for s, v in outs:
            s = s.copy()
            s.mem = {key: v}
            sts.append(s)
        for s in self.merge_states(sts):
            v = s.mem.pop(key)
            res.append((s, v))
        return res

    def run_region(self, body, fid, region, head, states):
        """process blocks of `region` (None = all) starting at head.
        -> (exits {blk or 'RET': [states]}, states on back edges to head)"""
        pend = {head: list(states)}
        exits = {}
        backs = []
        blocks = body.rpo if region is None else [b for b in body.rpo if b in region]
        skip = set()
        first = True
        for b in blocks:
            if b in skip:
                continue
            sts = pend.pop(b, None)
            if not sts:
                continue
            if b != head or not first:
                if len(body.pred[b]) > 1 or len(sts) > self.JOINCAP:
                    sts = self.at_join(body, fid, b, sts)
            isloop = b in body.loops and not (b == head and region is not None)
            first = False
            if isloop:
                lb = body.loops[b]
                ex = self.run_loop(body, fid, b, sts)
                skip |= lb
                for t, ss in ex.items():
                    if t == 'RET':
                        exits.setdefault('RET', []).extend(ss)
                    elif region is not None and t == head:
                        backs.extend(ss)
                    elif region is not None and t not in region:
                        exits.setdefault(t, []).extend(ss)
                    else:
                        pend.setdefault(t, []).extend(ss)
                continue
            for s in sts:
                for t, s2 in self.run_block(body, fid, b, s):
                    if t == 'RET':
                        exits.setdefault('RET', []).append(s2)
                    elif region is not None and t == head:
                        backs.append(s2)
                    elif region is not None and t not in region:
                        exits.setdefault(t, []).append(s2)
                    else:
                        pend.setdefault(t, []).append(s2)
        return exits, backs

    def run_loop(self, body, fid, head, states):
        region = body.loops[head]
        live = body.liveness()[head]
        lid = ('loop', fid, head)

        def prep(s):
            self.prune(s, body, fid, live)
            return s

        def step(sts):
            return self.run_region(body, fid, region, head, sts)
        ex = self.fix(lid, [prep(s) for s in states], step, prep, info=(body.path, head))
        out = {}
        for t, ss in ex.items():
            out[t] = ss
        return out

    def fix(self, lid, entry, step, prep=lambda s: s, info=None):
        """generic loop fixpoint. step(states) -> (exits, backs)"""
        if self.unroll and entry:
            r = self.unrolled(entry, step, prep)
            if r is not None:
                return r
        H = self.group(entry, lid, None)
        bases = sorted({s.log for s in entry}, key=len, reverse=True)
        it = 0
        while True:
            it += 1
            if it > 40:
                self.fail('analysis', 'loop fixpoint did not converge')
                break
            self.dry += 1
            try:
                ex, backs = step([s.copy() for s in H.values()])
            finally:
                self.dry -= 1
            backs = [prep(self.age(s, lid, H)) for s in backs]
            N = self.group(self.foldlogs(list(H.values()), backs, bases, lid), lid, H, widen=2 if it >= 12 else it >= 3)
            if self.same(H, N):
                break
            H = N
        if not self.dry:
            heads = [s.copy() for s in H.values()]
            ex, backs = step([s.copy() for s in H.values()])
            self.loops.append(dict(id=lid, info=info, stack=list(self.stack), heads=heads, backs=backs,
                                   entry=entry))
            if self.pair_heads:
                self.dry += 1
                try:
                    self.loops[-1]['pairs'] = [(h, step([h.copy()])[1]) for h in H.values()] if len(H) > 1 else [(h, backs) for h in H.values()]
                finally:
                    self.dry -= 1
        self.countloop(lid, entry, H, ex, backs)
        return ex

    def unrolled(self, entry, step, prep):
        """run the loop iteration by iteration while it stays finite (exact), None when it does not end"""
        save = (dict(self.failures), dict(self.ok_obl), {k: set(v) for k, v in self.unknown.items()})
        cur = [s.copy() for s in entry]
        exits = {}
        n = 0
        while cur:
            n += 1
            if n > self.unroll or len(cur) > self.width:
                self.failures, self.ok_obl, self.unknown = save
                return None
            ex, backs = step(cur)
            for t, ss in ex.items():
                exits.setdefault(t, []).extend(ss)
            cur = self.dedupe([prep(s) for s in backs])
        return exits

    # ---- output written by loops
    def splitlog(self, log, bases, lid):
        for b in bases:
            if log[:len(b)] == b:
                rest = log[len(b):]
                if rest and rest[0][0] == 'rep' and rest[0][1] == lid:
                    return b, rest[0][2], rest[1:]
                return b, None, rest
        return log, None, ()

    def foldlogs(self, heads, backs, bases, lid):
        if not any(len(s.log) for s in backs):
            return heads + backs
        un = {}
        sp = []
        for s in heads + backs:
            b, seqs, new = self.splitlog(s.log, bases, lid)
            u = un.setdefault(b, set())
            if seqs:
                u |= seqs
            if new:
                u.add(new)
            sp.append((s, b))
        out = []
        for s, b in sp:
            l = b + ((('rep', lid, frozenset(un[b])),) if un[b] else ())
            if l != s.log:
                s = s.copy()
                s.log = l
            out.append(s)
        return out

    def countloop(self, lid, entry, H, ex, backs):
        """loops that write (or append) the same text a known number of times"""
        if len(H) != 1 or not entry or not backs:
            return
        h = next(iter(H.values()))
        phis = set()
        for k, v in h.mem.items():
            collect_phi(v, lid, phis)
        if not phis:
            return

        def at(s, p):
            cur = s.mem.get(p.args[1])
            for e in p.args[2]:
                cur = child(cur, e)
                if cur is None:
                    return None
            return cur

        def entryval(p):
            e = {at(s, p) for s in entry}
            return next(iter(e)) if len(e) == 1 else None
        ctr = down = None
        for p in phis:
            bv = {at(s, p) for s in backs}
            if len(bv) == 1:
                x = next(iter(bv))
                e0 = entryval(p)
                if isinstance(x, Term) and x.op == 'lin' and x is addc(p, 1) and isinstance(e0, Term):
                    ctr = (p, e0)
                    break
                if isinstance(x, Term) and x.op == 'lin' and x is addc(p, -1) and isinstance(e0, Term):
                    down = (p, e0)
        down = down if ctr is None else None
        ctr = ctr or down
        if ctr is None:
            return
        p, e0 = ctr
        hl = h.log[-1] if h.log else None
        wr = None
        if hl and hl[0] == 'rep' and hl[1] == lid and len(hl[2]) == 1:
            seq = next(iter(hl[2]))
            if all(s.log == h.log + seq for s in backs) and not any(e[0] != 'w' or has_phi(e[1], lid) for e in seq):
                wr = seq
        app = {}
        for q in phis:
            if q is p or not (q.ty is not None and self.cls(q.ty) == 'text'):
                continue
            bv = {at(s, q) for s in backs}
            e = entryval(q)
            if len(bv) == 1 and isinstance(e, Term):
                x = next(iter(bv))
                if isinstance(x, Term) and x.op == 'cat' and x.args[0] is q:
                    piece = cat(*x.args[1:])
                    if not has_phi(piece, lid):
                        app[q] = (e, piece)
        if wr is None and not app:
            return
        cands = []
        for k, v in h.mem.items():
            int_leaves(v, cands, 0)
        cands = [c for c in dict.fromkeys(cands) if not has_phi(c, lid)]
        for t, ss in ex.items():
            for n, s in enumerate(ss):
                cnt = sub(e0, p) if down else sub(p, e0)
                if down and self.prove(s, sub(I(0), p)) and self.prove(s, p):
                    cnt = e0
                for c in cands if not down else ():
                    if self.prove_false(s, addc(sub(p, c), -1)) and self.prove_false(s, addc(sub(c, p), -1)):
                        cnt = sub(c, e0)
                        break
                if app:
                    s = subst_state(s, {q: cat(e, rep(piece, cnt)) for q, (e, piece) in app.items()})
                if wr is not None:
                    s = s.copy() if s is ss[n] else s
                    s.log = tuple(('w', rep(cat(*[e[1] for e in wr]), cnt)) if l is hl or l == hl else l for l in s.log)
                ss[n] = s

    def age(self, s, lid, H):
        """rename this loop's phi symbols that changed to their 'old' form"""
        s = s.copy()
        base = len(next(iter(H.values())).log) if H else 0
        # log of a loop body collapses
        mark = ('loop',) + lid[1:3] if len(lid) >= 3 else ('loop', lid)
        phis = set()
        for k, v in s.mem.items():
            collect_phi(v, lid, phis)
        for k in s.facts:
            collect_phi(k, lid, phis)
        for l in s.lins:
            collect_phi(l, lid, phis)
        if phis:
            m = {}
            for p in phis:
                cell, path = p.args[1], p.args[2]
                cur = s.mem.get(cell)
                for e in path:
                    cur = child(cur, e)
                    if cur is None:
                        break
                if cur is not p:
                    m[p] = T('old', p, ty=p.ty)
            if m:
                s = subst_state(s, m)
        for k in list(s.mem):
            v = s.mem[k]
            if k[0] in ('H', 'L'):
                n = self.models.fold_chars(s, v)
                if n is not v:
                    s.mem[k] = n
        return s

    # ---- grouping and merging
    def shape(self, st, v, d=0):
        if isinstance(v, Agg):
            if v.kind == 'list':
                return 'l'
            if d > 5:
                return v.kind
            return (v.kind, v.var, tuple(self.shape(st, x, d + 1) for x in v.f))
        if isinstance(v, Ref):
            if v.loc[0] == 'V':
                if v.loc in st.mem:
                    return ('&', id(v))
                if v.path:
                    return ('&', v.id)
                return ('&', self.shape(st, v.loc[1], d + 1))
            return ('&', v.id)
        if isinstance(v, Term):
            if v.op == 'bool':
                return v.args[0]
            dd = T('discr', v)
            f = st.facts.get(dd)
            if f is not None and len(f) == 1 and f[0][0] == f[0][1]:
                return ('v', f[0][0])
            if v.ty is not None and self.types[v.ty]['k'] == 'bool':
                tr = self.truth(st, v)
                return ('b', tr)
            return 't'
        return v if isinstance(v, (int, str, type(None))) else 't'

    def skey(self, st, coarse=False):
        ks = []
        for k in sorted(st.mem, key=repr_key):
            v = st.mem[k]
            ks.append((k if k[0] != 'V' else ('V', k[1].id), self.shape(st, v) if not coarse else kindof(v)))
        x = self.extra_key(self, st) if self.extra_key else None
        return (tuple(ks), st.log, x)

    def hshape(self, v, d=0):
        if isinstance(v, Agg) and not (v.kind == 'adt' and v.ty is not None and self.types[v.ty].get('akind') == 'enum'):
            if v.kind == 'list':
                return 't'
            return v.kind if d > 5 else (v.kind, v.var, tuple(self.hshape(x, d + 1) for x in v.f))
        if isinstance(v, Ref):
            if v.loc[0] == 'V' and not v.path:
                return ('&', self.hshape(v.loc[1], d + 1))
            return ('&', v.id)
        return v if isinstance(v, (int, str, type(None))) else 't'

    def hkey(self, st):
        """key of a loop head state that ignores which variant its enums have"""
        x = self.extra_key(self, st) if self.extra_key else None
        return (tuple((k if k[0] != 'V' else ('V', k[1].id), self.hshape(st.mem[k])) for k in sorted(st.mem, key=repr_key)), st.log, x)

    def group(self, states, lid, H, widen=False):
        g = {}
        for s in states:
            g.setdefault(self.skey(s) if not (self.one_head or widen == 2) else self.hkey(s), []).append(s)
        if len(g) > 64:
            self.fail('analysis', 'loop head partition explosion') if len(g) > 400 else None
        for rnd in range(6):
            rs = []
            for k, ss in g.items():
                if len(ss) == 1:
                    r = ss[0].copy()
                else:
                    r = self.merge(ss, lid, widen)
                self.scrub(r, lid)
                rs.append(r)
            out = {}
            g = {}
            for r in rs:
                g.setdefault(self.skey(r) if not (self.one_head or widen == 2) else self.hkey(r), []).append(r)
            if all(len(x) == 1 for x in g.values()):
                break
        return {k: x[0] for k, x in g.items()}

    def scrub(self, r, lid):
        """forget facts about previous iterations' values"""
        def bad(x, memo):
            return has_old(x, lid, memo)
        memo = {}
        for k in list(r.facts):
            if bad(k, memo):
                del r.facts[k]
        r.lins = frozenset(l for l in r.lins if not bad(l, memo))
        for k in list(r.mem):
            v = r.mem[k]
            if bad(v, memo):
                r.mem[k] = self.generalise(r, v, lid, k, (), memo)

    def generalise(self, st, v, lid, cell, path, memo):
        if not has_old(v, lid, memo):
            return v
        if isinstance(v, Agg) and v.kind != 'list':
            return A(v.kind, v.ty, v.var, [self.generalise(st, x, lid, cell, path + (n,), memo) for n, x in enumerate(v.f)])
        if isinstance(v, Ref) and v.loc[0] == 'V' and not v.path:
            return R(('V', self.generalise(st, v.loc[1], lid, cell, path + ('*',), memo)))
        ty = v.ty if isinstance(v, (Term, Agg)) else None
        p = T('phi', lid, cell, path, ty=ty)
        return p

    def same(self, H, N):
        if set(H) != set(N):
            return False
        for k in H:
            a, b = H[k], N[k]
            if a.mem != b.mem or a.facts != b.facts or a.lins != b.lins:
                return False
        return True

    def dedupe(self, sts):
        out = []
        seen = {}
        for s in sts:
            k = (frozenset(s.mem.items()), frozenset(s.facts.items()), s.lins, s.log)
            if k in seen:
                continue
            seen[k] = 1
            out.append(s)
        return out

    def prune(self, s, body, fid, live):
        """drop dead, unreferenced locals of frame fid"""
        cells = [k for k in s.mem if k[0] in ('L', 'H') and k[1] == fid]
        if not cells:
            return
        keep = set()
        work = []
        for k in s.mem:
            if k[0] in ('L', 'H') and k[1] == fid:
                if k[0] == 'L' and k[2] in live:
                    work.append(k)
            else:
                work.append(k)
        memo = set()
        while work:
            k = work.pop()
            if k in keep:
                continue
            keep.add(k)
            v = s.mem.get(k)
            if v is not None:
                refs_of(v, memo, work)
        for k in cells:
            if k not in keep:
                del s.mem[k]

    def at_join(self, body, fid, b, sts):
        if len(sts) == 1:
            return sts
        live = body.liveness()[b]
        for s in sts:
            self.prune(s, body, fid, live)
        sts = self.dedupe(sts)
        if len(sts) > self.JOINCAP:
            sts = self.merge_states(sts)
        return sts

    def merge_states(self, sts):
        g = {}
        for s in sts:
            g.setdefault(self.skey(s), []).append(s)
        out = []
        for k, ss in g.items():
            out.append(ss[0] if len(ss) == 1 else self.merge(ss, None))
        return out

    def merge(self, ss, lid, widen=False):
        """join states of equal shape"""
        r = State()
        r.log = ss[0].log
        maps = [dict() for _ in ss]       # leaf value -> phi, per state
        phis = []                          # (phi, [values])
        cells = set(ss[0].mem)
        for s in ss[1:]:
            cells &= set(s.mem)
        cache = {}
        rcand = []

        def jv(vs, cell, path):
            v0 = vs[0]
            if all(v is v0 for v in vs):
                return v0
            if isinstance(v0, Agg) and v0.kind != 'list' and all(
                    isinstance(v, Agg) and v.kind == v0.kind and v.var == v0.var and len(v.f) == len(v0.f) for v in vs):
                if v0.kind == 'it' and v0.var == 'chars':
                    sp = self.models.join_chars(ss, vs)
                    if sp is not None:
                        vs = sp
                        v0 = vs[0]
                        if all(v is v0 for v in vs):
                            return v0
                fs = [jv([v.f[n] for v in vs], cell, path + (n,)) for n in range(len(v0.f))]
                ty = v0.ty
                for v in vs:
                    if ty is None:
                        ty = v.ty
                if v0.kind == 'it' and v0.var == 'range' and isinstance(fs[0], Term) and isinstance(fs[1], Term) and fs[0].op == 'phi':
                    rcand.append(sub(fs[1], fs[0]))
                return A(v0.kind, ty, v0.var, fs)
            if all(isinstance(v, Ref) and v.loc[0] == 'V' and not v.path for v in vs) and not any(v.loc in s.mem for v, s in zip(vs, ss)):
                return R(('V', jv([v.loc[1] for v in vs], cell, path + ('*',))))
            if not all(isinstance(v, Node) for v in vs):
                if all(isinstance(v, tuple) for v in vs):   # charset constants
                    u = ()
                    for v in vs:
                        u = iv_or(u, v)
                    return u
                return v0
            key = tuple(vs)
            if lid is None and key in cache:
                return cache[key]
            ty = None
            for v in vs:
                if isinstance(v, (Term, Agg)) and v.ty is not None:
                    ty = v.ty
                    break
            if ty is None and any(isinstance(v, Term) and v.op in ('int', 'lin', 'len') for v in vs):
                ty = self.F.tyby.get('usize') if all(self.iv(s, v)[0][0] >= 0 for v, s in zip(vs, ss) if isinstance(v, Term) and self.iv(s, v)) else None
            p = T('phi', lid, cell, path, ty=ty) if lid is not None else fresh('jx' if any(invented(v) for v in vs) else 'j', ty)
            if lid is not None and any(invented(v) for v in vs):
                HARD.add(p)
            cache[key] = p
            phis.append((p, vs))
            for m, v in zip(maps, vs):
                if isinstance(v, Node) and not (isinstance(v, Term) and v.op in ('int', 'bool', 'str')):
                    m.setdefault(v, p)
            return p
        for c in cells:
            vs = [s.mem[c] for s in ss]
            r.mem[c] = jv(vs, c, ())
        # facts: common ones, with leaf values renamed
        inv = [dict((p, v) for p, v in zip([x[0] for x in phis], [x[1][n] for x in phis])) for n in range(len(ss))]
        phiset = set(p for p, _ in phis)
        cand = {}
        for k, f in ss[0].facts.items():
            cand[k] = f
            if maps[0]:
                k2 = subst(k, maps[0])
                if k2 is not k and k2 != k:
                    cand[k2] = f
        for k, f in cand.items():
            ok = True
            val = f
            for n, s in enumerate(ss):
                if n == 0 and k in ss[0].facts and not mention_any(k, phiset):
                    continue
                kn = subst(k, inv[n]) if inv[n] else k
                g = self.factval(s, kn)
                if g is None:
                    ok = False
                    break
                val = self.joinfact(val, g)
                if val is None:
                    ok = False
                    break
            if ok and widen and lid is not None and val != f and isinstance(k, Term) and isinstance(val, tuple):
                ok = False
            if ok:
                r.facts[k] = val
        lc = set(rcand)
        for l in ss[0].lins:
            lc.add(l)
            if maps[0]:
                l2 = subst(l, maps[0])
                lc.add(l2)
        ints = [(p, vs) for p, vs in phis if all(isinstance(v, Term) and v.op in ('int', 'lin', 'len', 'phi', 'sym', 'utf8len', 'ms', 'me') for v in vs)
                and (p.ty is None or self.types[p.ty]['k'] == 'int')]
        if len(ints) <= 10:
            for a in range(len(ints)):
                for b in range(a + 1, len(ints)):
                    d = self.iv(ss[0], sub(ints[a][1][0], ints[b][1][0]))
                    if d and len(d) == 1 and d[0][0] == d[0][1]:
                        c = d[0][0]
                        e = addc(sub(ints[a][0], ints[b][0]), -c)
                        lc.add(e)
                        lc.add(sub(I(0), e))
        if len(ints) <= 8:
            txts = [(p, vs) for p, vs in phis if all(isinstance(v, Term) for v in vs) and (p.ty is not None and self.cls(p.ty) == 'text' or any(
                v.op in ('slice', 'cat', 'str', 'rrep') for v in vs))][:8]
            for p, vs in ints:
                for q, us in txts:
                    lc.add(sub(T('len', q), p))
                    if all(self.models.is_bd(s, u, v) for s, u, v in zip(ss, us, vs)):
                        cand.setdefault(('bd', q, p), True)
                        r.facts[('bd', q, p)] = True
                for q, us in ints:
                    if q is not p:
                        lc.add(sub(q, p))
                v = vs[0]
                if v.op in ('ms', 'me') and len(v.args) > 1 and isinstance(v.args[1], Term) and v.args[1] not in maps[0]:
                    lc.add(sub(textlen(v.args[1]), p))
        keep = set()
        for l in lc:
            good = True
            for n, s in enumerate(ss):
                ln = subst(l, inv[n]) if inv[n] else l
                if not (ln in s.lins or self.prove(s, ln)):
                    good = False
                    break
            if good:
                keep.add(l)
        r.lins = frozenset(keep)
        # descriptions of the new leaves
        for p, vs in phis:
            if not all(isinstance(v, Term) for v in vs):
                if all(isinstance(v, Agg) and v.kind == 'list' or isinstance(v, Term) for v in vs):
                    ivs = ()
                    for v, s in zip(vs, ss):
                        ivs = iv_or(ivs, self.iv(s, self.models.llen(v)))
                    self.setiv(r, T('llen', p), ivs, widen, lid, ss)
                continue
            k = self.types[p.ty]['k'] if p.ty is not None else None
            c = self.cls(p.ty) if p.ty is not None else None
            texty = c == 'text' or any(v.op in ('str', 'cat', 'slice', 'chr', 'itoa', 'rrep') for v in vs)
            if texty:
                u = ()
                for v, s in zip(vs, ss):
                    u = iv_or(u, self.cs(s, v))
                if u != ALLCS:
                    if widen and len(u) > 40:
                        pass
                    else:
                        r.facts[('cs', p)] = u
                ivs = ()
                for v, s in zip(vs, ss):
                    ivs = iv_or(ivs, self.iv(s, textlen(v)))
                self.setiv(r, T('len', p), ivs, widen, lid, ss)
            elif k in ('int', 'char') or all(v.op in ('int', 'lin', 'len', 'ms', 'me', 'phi', 'sym') for v in vs) and any(v.op in ('int', 'lin', 'len') for v in vs):
                ivs = ()
                for v, s in zip(vs, ss):
                    ivs = iv_or(ivs, self.iv(s, v))
                self.setiv(r, p, ivs, widen, lid, ss)
            elif c == 'list':
                ivs = ()
                for v, s in zip(vs, ss):
                    ivs = iv_or(ivs, self.iv(s, self.models.llen(v)))
                self.setiv(r, T('llen', p), ivs, widen, lid, ss)
            elif k == 'adt':
                ivs = ()
                full = True
                for v, s in zip(vs, ss):
                    g = s.facts.get(T('discr', v))
                    if g is None:
                        full = False
                        break
                    ivs = iv_or(ivs, g)
                if full:
                    r.facts[T('discr', p)] = ivs
        return r

    def setiv(self, r, t, ivs, widen, lid, ss):
        if len(ivs) > 1 and widen:
            ivs = ((ivs[0][0], ivs[-1][1]),)
        if widen and lid is not None and ivs:
            # thresholds: drop unstable bounds
            old = ss[0].facts.get(t)
            lo, hi = ivs[0][0], ivs[-1][1]
            if old is not None:
                if hi > old[-1][1]:
                    hi = INF
                if lo < old[0][0]:
                    lo = -INF if lo < 0 else 0
                ivs = ((lo, hi),)
        b = self.base_iv(r, t)
        ivs = iv_and(b, ivs) if ivs else ivs
        if ivs != b:
            r.facts[t] = ivs
        else:
            r.facts.pop(t, None)

    def factval(self, s, k):
        """value of fact k in state s, derived if needed"""
        if isinstance(k, tuple):
            if k[0] == 'cs':
                c = self.cs(s, k[1])
                return c if c != ALLCS else None
            if k[0] == 'bd':
                return True if self.models.is_bd(s, k[1], k[2]) else None
            return s.facts.get(k)
        if k in s.facts:
            f = s.facts[k]
            return f
        if isinstance(k, Term):
            if k.op in ('ge0', 'eqi', 'in', 'not', 'and', 'or') or k.op in self.models.BOOLOPS:
                return self.truth(s, k)
            if k.op in ('discr',):
                v = k.args[0]
                if isinstance(v, Agg) and v.kind == 'adt':
                    return ((v.var, v.var),)
                return None
            if k.op == 'llen':
                n = self.models.llen(k.args[0])
                if n is not k:
                    return self.iv(s, n)
            if k.op == 'len':
                n = textlen(k.args[0])
                if n is not k:
                    return self.iv(s, n)
            if k.op in ('bool',):
                return k.args[0]
            v = self.iv(s, k)
            if v and v != ((-INF, INF),):
                return v
        return None

    def joinfact(self, a, b):
        if isinstance(a, bool) or isinstance(b, bool):
            return a if a is b else None
        if isinstance(a, tuple) and isinstance(b, tuple):
            return iv_or(a, b)
        return a if a == b else None

    # ---- blocks
    def run_block(self, body, fid, b, st):
        self.steps += 1
        if self.deadline is not None and self.steps & 63 == 0 and time.time() > self.deadline:
            raise Deadline()
        if self.steps > self.maxsteps:
            raise RuntimeError('step limit')
        blk = body.blocks[b]
        st = st.copy()
        for s in blk['s']:
            if s[0] == '=':
                dl, dp, dty = self.place(st, body, fid, s[1])
                v = self.rvalue(st, body, fid, s[2], dty)
                self.write(st, dl, dp, v)
            elif s[0] == 'sd':
                dl, dp, dty = self.place(st, body, fid, s[1])
                v = self.read(st, dl, dp)
                if isinstance(v, Agg) and v.kind == 'adt':
                    if v.var != s[2]:
                        v = A('adt', v.ty, s[2], v.f)
                elif dty is not None:
                    v = self.expand(v if isinstance(v, Term) else fresh('uninit', dty), s[2], dty)
                self.write(st, dl, dp, v)
        t = blk['t']
        k = t[0]
        if k == 'goto':
            return [(t[1], st)]
        if k == 'ret':
            return [('RET', st)]
        if k in ('unreachable', 'unwind', 'other'):
            return []
        if k == 'drop':
            self.models.on_drop(st, body, fid, t)
            return [(t[2], st)]
        if k == 'switch':
            return self.switch(body, fid, st, t)
        if k == 'assert':
            kind = t[3]
            if kind.startswith('Misaligned') or kind.startswith('NullPointer') or kind.startswith('InvalidEnum'):
                return [(t[4], st)]
            c = self.operand(st, body, fid, t[1])
            good, bad = self.branch(st, c) if t[2] else self.branch(st, c)[::-1]
            self.oblige('assert', kind, bad is None, bad, (c,))
            return [(t[4], good)] if good is not None else []
        if k == 'call':
            return self.call(body, fid, b, st, t)
        return []

    def switch(self, body, fid, st, t):
        v = self.operand(st, body, fid, t[1])
        tgt = {}
        tk = self.types[t[4]]['k']
        if tk == 'bool':
            out = []
            zero = None
            for val, b in t[2]:
                if val == 0:
                    zero = b
            one = t[3]
            for val, b in t[2]:
                if val == 1:
                    one = b
            if zero is None:
                zero = t[3]
            if not isinstance(v, Term):
                v = fresh('bool', t[4])
            a, c = self.branch(st, v)
            if a is not None:
                out.append((one, a))
            if c is not None:
                out.append((zero, c))
            return out
        if isinstance(v, Term) and v.op == 'int':
            for val, b in t[2]:
                if val == v.args[0]:
                    return [(b, st)]
            return [(t[3], st)]
        if not isinstance(v, Term):
            v = fresh('sw', t[4])
        allv = ()
        for val, b in t[2]:
            tgt.setdefault(b, []).append((val, val))
            allv = iv_or(allv, ((val, val),))
        out = []
        for b, ivs in tgt.items():
            s = st.copy()
            if b == t[3]:
                continue
            if self.assume_in(s, v, iv_norm(ivs)):
                out.append((b, s))
        rest = iv_not(allv)
        if t[3] in tgt:
            rest = iv_or(rest, iv_norm(tgt[t[3]]))
        if body.blocks[t[3]]['t'][0] != 'unreachable' or body.blocks[t[3]]['s']:
            s = st.copy()
            if self.assume_in(s, v, rest):
                out.append((t[3], s))
        return out

    def call(self, body, fid, b, st, t):
        args = [self.operand(st, body, fid, o) for o in t[2]]
        site = ('c', fid, b)
        dty = t[5]
        if t[1][0] == 'fn':
            res = self.call_callee(st, t[1][1], args, dty, site)
        else:
            f = self.operand(st, body, fid, t[1][1])
            res = self.call_value(st, f, args, dty, site)
        out = []
        if t[4] is None:
            return []
        for s, v in res:
            dl, dp, _ = self.place(s, body, fid, t[3])
            self.write(s, dl, dp, v)
            out.append((t[4], s))
        return out

    def call_callee(self, st, cal, args, dty, site):
        """-> [(state, value)]"""
        if 'ctor' in cal:
            ty = cal['ctor_ty']
            if self.is_cow(ty):
                return [(st, args[0])]
            return [(st, A('adt', ty, cal['ctor'], args))]
        decl = cal['decl']
        if decl in ('core::ops::function::FnOnce::call_once', 'core::ops::function::FnMut::call_mut', 'core::ops::function::Fn::call'):
            tup = args[1]
            if isinstance(tup, Agg) and tup.kind == 'tuple':
                a = list(tup.f)
            else:
                ts = self.types[cal['args'][1]].get('tys', [])
                a = [self.proj(tup, 0, n, x) for n, x in enumerate(ts)]
            return self.call_value(st, args[0], a, dty, site)
        path = cal.get('path', decl)
        if not self.dry:
            self.calls.setdefault(path, set()).add(self.stack[-1] if self.stack else '?')
        if self.on_call is not None:
            r = self.on_call(st, cal, args, dty, site)
            if r is not None:
                return r
        r = self.models.call(st, cal, args, dty, site)
        if r is not None:
            return r
        if 'inst' in cal:
            return self.call_inst(st, cal['inst'], args, dty, site, cal)
        return self.models.unknown(st, cal, args, dty, site)

    def call_inst(self, st, i, args, dty, site, cal=None):
        if self.opaque(i, cal):
            return self.opaque_call(st, i, args, dty)
        e = self.enum_role(i)
        if e is not None:
            r = self.enum_call(st, i, e, args, dty)
            if r is not None:
                return r
        if self.use_summaries and self.summarisable(i):
            r = self.summary_call(st, i, args, dty, site, cal)
            if r is not None:
                return r
        if self.F.insts[i].get('mir') is None:
            return self.models.unknown(st, cal or {'path': self.F.insts[i]['path'], 'decl': '?'}, args, dty, site)
        if len(self.stack) > 90 or self.stack.count(self.F.insts[i]['path']) > 8 and self.F.insts[i]['local']:
            self.fail('recursion', self.F.insts[i]['path'])
            return [(st, self.symval(fresh('rec', dty), dty))]
        body = self.F.body(i)
        if body.irreducible:
            self.fail('analysis', 'irreducible control flow')
        return self.run_body(body, args, st, (site, i))

    # ---- big text<->enum tables (checked to be inverse of each other)
    def enum_role(self, i):
        x = self.F.insts[i]
        r = x.get('_enum', 0)
        if r != 0:
            return r
        x['_enum'] = None
        if not x['local'] or not x.get('mir') or not (x['path'].endswith('FromStr>::from_str') or x['path'].endswith('AsRef<str>>::as_ref')
                                                      or x['path'].endswith('TryFrom<&str>>::try_from')):
            return None
        ty = None
        mir = x['mir']
        body = self.F.body(i)
        rt = self.types[body.locals[0]]
        if x['path'].endswith('as_ref'):
            a = self.types[body.locals[1]]
            ty = a.get('ty') if a['k'] == 'ref' else None
            kind = 'to'
        else:
            if rt['k'] == 'adt' and rt['path'] == 'core::result::Result':
                ty = rt['args'][0]
            kind = 'from'
        if ty is None:
            return None
        t = self.types[ty]
        if t['k'] != 'adt' or t.get('akind') != 'enum' or len(t['variants']) < 12 or any(v['fields'] for v in t['variants']):
            return None
        tab = self.F.enum_tables.get(ty)
        if tab is None:
            tab = self.F.enum_tables[ty] = self.enum_table(ty)
        if not tab:
            return None
        x['_enum'] = (kind, ty)
        return x['_enum']

    def enum_table(self, ty):
        fs = ts = None
        for i, x in enumerate(self.F.insts):
            if x['local'] and x.get('mir') and x['path'].endswith('FromStr>::from_str'):
                b = self.F.body(i)
                rt = self.types[b.locals[0]]
                if rt['k'] == 'adt' and rt.get('args') and rt['args'][0] == ty:
                    fs = i
            if x['local'] and x.get('mir') and x['path'].endswith('AsRef<str>>::as_ref'):
                b = self.F.body(i)
                a = self.types[b.locals[1]]
                if a['k'] == 'ref' and a['ty'] == ty:
                    ts = i
        if fs is None or ts is None:
            return False
        sub_ = AI(self.F)
        sub_.JOINCAP = 1000
        sub_.noenum = True
        save = [self.F.insts[k].get('_enum', 0) for k in (fs, ts)]
        self.F.insts[fs]['_enum'] = None
        self.F.insts[ts]['_enum'] = None
        try:
            fwd = {}
            _, outs = sub_.analyse(fs)
            okd = True
            for s, v in outs:
                if isinstance(v, Agg) and v.kind == 'adt' and v.var == 0:
                    lit = [k.args[1].args[0] for k, f in s.facts.items() if isinstance(k, Term) and k.op == 'eqs' and f is True and k.args[1].op == 'str']
                    if len(lit) != 1 or not isinstance(v.f[0], Agg):
                        okd = False
                        continue
                    fwd[lit[0]] = v.f[0].var
                elif not (isinstance(v, Agg) and v.var == 1):
                    okd = False
            back = {}
            n = len(self.types[ty]['variants'])
            for k in range(n):
                s2 = AI(self.F)
                _, o = s2.analyse(ts, args=[R(('V', A('adt', ty, k, ())))])
                if len(o) != 1 or not (isinstance(o[0][1], Term) and o[0][1].op == 'str'):
                    okd = False
                    break
                back[k] = o[0][1].args[0]
            self.F.enum_detail[ty] = (fwd, back)
            good = okd and len(back) == n and all(fwd.get(v) == k for k, v in back.items())
            if not good or len(fwd) != n:
                return False
            return {'fwd': fwd, 'back': back}
        finally:
            self.F.insts[fs]['_enum'] = 0
            self.F.insts[ts]['_enum'] = 0

    def enum_call(self, st, i, e, args, dty):
        kind, ty = e
        tab = self.F.enum_tables[ty]
        if kind == 'to':
            v = self.models.rd(st, args[0])
            if isinstance(v, Agg):
                return [(st, S(tab['back'][v.var]))]
            if isinstance(v, Term) and v.op == 'enumof':
                return [(st, v.args[0])]
            if isinstance(v, Term):
                t = T('enumtext', v, ty=self.types[dty]['ty'] if self.types[dty]['k'] == 'ref' else dty)
                if ('cs', t) not in st.facts:
                    st = st.copy()
                    u = ()
                    for w in tab['back'].values():
                        u = iv_or(u, cs_of(w))
                    st.facts[('cs', t)] = u
                    ls = [len(w.encode()) for w in tab['back'].values()]
                    self.assume_in(st, textlen(t), ((min(ls), max(ls)),))
                return [(st, t)]
            return None
        t = self.models.txt(st, args[0])
        if t.op == 'str':
            k = tab['fwd'].get(t.args[0])
            if k is None:
                return [(st, A('adt', dty, 1, (self.models.freshfield(dty, 1, 0, 'err'),)))]
            return [(st, A('adt', dty, 0, (A('adt', ty, k, ()),)))]
        if t.op == 'enumtext':
            return [(st, A('adt', dty, 0, (t.args[0],)))]
        out = []
        a, b = self.branch(st, T('isenum', t, ty, ty=self.models.bool_ty))
        if a is not None:
            out.append((a, A('adt', dty, 0, (T('enumof', t, ty=ty),))))
        if b is not None:
            out.append((b, A('adt', dty, 1, (self.models.freshfield(dty, 1, 0, 'err'),))))
        return out

    # ---- summaries: run a looping function once on formal arguments, replay
    CONSUMERS = ('count', 'find', 'any', 'all', 'collect', 'fold', 'for_each', 'last', 'max', 'min', 'position', 'find_map', 'sum', 'nth', 'extend')

    def summarisable(self, i):
        x = self.F.insts[i]
        r = x.get('_sum')
        if r is None:
            r = False
            if x['local'] and x.get('mir') and '{closure#' not in x['path'].rsplit('::', 1)[-1]:
                body = self.F.body(i)
                r = bool(body.loops) or len(body.blocks) >= 60 and all(self.smallarg(t) for t in body.locals[1:body.argc + 1])
                if not r:
                    for b in body.blocks:
                        t = b['t']
                        if t[0] == 'call' and t[1][0] == 'fn' and t[1][1].get('name') in self.CONSUMERS and 'iterator' in (t[1][1].get('trait') or '').lower() \
                                and not b['cleanup']:
                            r = True
                for n in range(body.argc):
                    if self.mutty(body.locals[n + 1]):
                        r = False
                if self.mutty(body.locals[0]):
                    r = False
            x['_sum'] = r
        return r

    def smallarg(self, ty):
        return self.types[ty]['k'] in ('int', 'bool', 'char') if ty is not None else False

    def mutty(self, ty, seen=None):
        if ty is None:
            return True
        seen = seen or set()
        if ty in seen:
            return False
        seen.add(ty)
        t = self.types[ty]
        k = t['k']
        if k == 'ref':
            return t['mut'] or self.mutty(t['ty'], seen)
        if k in ('slice', 'array'):
            return self.mutty(t['ty'], seen)
        if k == 'tuple':
            return any(self.mutty(x, seen) for x in t['tys'])
        if k == 'adt':
            return any(self.mutty(x, seen) for x in t.get('args', []) if x is not None and isinstance(x, int))
        return k in ('closure', 'dyn', 'fnptr', 'ptr')

    def plain(self, ty):
        return self.cls(ty) == 'text' or self.types[ty]['k'] in ('int', 'bool', 'char')

    def formalise(self, v, m, d=0):
        if d > 8:
            raise Unsummarisable
        if isinstance(v, Term):
            if v.op in ('int', 'bool', 'str'):
                return v
            if v.op in ('static', 'regex', 'lazy'):
                return v
            f = m.get(v)
            if f is None:
                f = m[v] = T('formal', len(m), v.ty, ty=v.ty)
            return f
        if isinstance(v, Agg):
            if v.kind in ('adt', 'tuple', 'cmap', 'cset', 'list'):
                if v.kind in ('cmap', 'cset'):
                    return v
                return A(v.kind, v.ty, v.var, [self.formalise(x, m, d + 1) for x in v.f])
            raise Unsummarisable
        raise Unsummarisable

    def summary_call(self, st, i, args, dty, site, cal):
        if i in self.in_summary:
            return None
        m = {}
        try:
            fa = []
            for n, a in enumerate(args):
                if isinstance(a, Ref):
                    fa.append(R(('V', self.formalise(self.deepval(st, a), m))))
                else:
                    dv = self.deepval(st, a)
                    if dv is not a and not isinstance(a, Term):
                        fa.append(self.formal_refs(st, a, m))
                    else:
                        fa.append(self.formalise(dv, m))
        except Unsummarisable:
            return None
        key = (i, tuple(fa))
        if key not in self.summaries:
            self.summaries[key] = None
            save = (self.failures, self.ok_obl, self.unknown, self.loops, self.dry, self.stack, self.log_base if hasattr(self, 'log_base') else None)
            self.failures, self.ok_obl, self.unknown, self.loops, self.dry = {}, {}, {}, [], 0
            self.in_summary.add(i)
            cap = self.JOINCAP
            if not self.F.body(i).loops and all(self.smallarg(t) for t in self.F.body(i).locals[1:self.F.body(i).argc + 1]):
                self.JOINCAP = 1000          # a large decision on a small value: exact inside, merged by shape afterwards
            try:
                outs = self.run_body(self.F.body(i), fa, State(), ('sum', i, len(self.summaries)))
                good = not self.failures and all(not s.log for s, v in outs)
                for s, v in outs:
                    out = []
                    refs_of(v, set(), out)
                    if any(l[0] in ('L', 'H', 'M') for l in out):
                        good = False
            finally:
                if self.JOINCAP != cap:
                    self.JOINCAP = cap
                    if 'outs' in locals():
                        outs = self.merge_values(outs)
                self.in_summary.discard(i)
                f2, o2, u2, l2 = self.failures, self.ok_obl, self.unknown, self.loops
                self.failures, self.ok_obl, self.unknown, self.loops, self.dry = save[:5]
            if good:
                rty = self.F.body(i).locals[0]
                if len(outs) > 1 and self.plain(rty):
                    sts = []
                    for s, v in outs:
                        s = s.copy()
                        s.mem = {('R', 0): v}
                        sts.append(s)
                    j = self.merge(sts, None)
                    outs = [(j, j.mem.pop(('R', 0)))]
                self.summaries[key] = outs
                for k, n in o2.items():
                    self.ok_obl[k] = self.ok_obl.get(k, 0) + n
                for k, n in u2.items():
                    self.unknown.setdefault(k, set()).update(n)
                self.loops.extend(l2)
        outs = self.summaries[key]
        if outs is None:
            return None
        actual = {f: a for a, f in m.items()}
        ck = T('ck', i, tuple(actual[f] for f in sorted(actual, key=lambda t: t.args[0])), tuple(fa))
        return self.replay(st, outs, actual, ck)

    def formal_refs(self, st, v, m, d=0):
        if d > 8:
            raise Unsummarisable
        if isinstance(v, Ref):
            return R(('V', self.formal_refs(st, self.read(st, v.loc, v.path), m, d + 1)))
        if isinstance(v, Agg) and v.kind in ('adt', 'tuple', 'list'):
            return A(v.kind, v.ty, v.var, [self.formal_refs(st, x, m, d + 1) for x in v.f])
        return self.formalise(v, m, d)

    def replay(self, st, outs, actual, ck):
        res = []
        for s, v in outs:
            leaves = set()
            memo = set()
            for x in [v] + list(s.facts) + list(s.lins):
                locals_of(x, leaves, memo)
            mm = dict(actual)
            for l in leaves:
                mm[l] = T('rs', ck, l, ty=l.ty)
            memo = {}
            n = st.copy()
            good = True
            for k, f in s.facts.items():
                k2 = subst(k, mm, memo)
                if isinstance(k2, tuple):
                    if k2[0] == 'cs':
                        n.facts[k2] = iv_and(self.cs(n, k2[1]), f)
                    else:
                        n.facts[k2] = f
                elif isinstance(f, bool):
                    if not isinstance(k2, Term) or not self.assume(n, k2, f):
                        good = False
                        break
                elif isinstance(f, tuple):
                    if k2.op == 'discr' and isinstance(k2.args[0], Agg):
                        continue
                    if not self.assume_in(n, k2, f):
                        good = False
                        break
            if not good:
                continue
            for l in s.lins:
                if not self.assume_ge0(n, subst(l, mm, memo)):
                    good = False
                    break
            if good:
                res.append((n, subst(v, mm, memo)))
        return res

    def opaque_call(self, st, i, args, dty):
        """congruent pure call"""
        self.opaque_used.setdefault(i, 0)
        self.opaque_used[i] += 1
        vals = tuple(self.deepval(st, a) for a in args)
        t = T('call', self.F.insts[i]['path'], i, vals, ty=dty)
        return [(st, self.symval(t, dty))]

    def deepval(self, st, v, d=0):
        """value with references resolved"""
        if isinstance(v, Ref) and d < 8:
            return self.deepval(st, self.read(st, v.loc, v.path), d + 1)
        if isinstance(v, Agg) and d < 8:
            return A(v.kind, v.ty, v.var, [self.deepval(st, x, d + 1) for x in v.f])
        return v

    def call_value(self, st, f, args, dty, site):
        n = 0
        selfref = None
        while isinstance(f, Ref):
            selfref = f
            f = self.read(st, f.loc, f.path)
            n += 1
        while isinstance(f, Term) and f.ty is not None:
            t = self.types[f.ty]
            if t['k'] == 'ref':
                f = self.deref(st, f) if hasattr(self, 'deref') else T('deref', f, ty=t['ty'])
            elif t['k'] == 'closure':
                f = self.expand(f, 0, f.ty)
            else:
                break
        if isinstance(f, Agg):
            if f.kind == 'closure':
                t = self.types[f.ty]
                i = t['inst']
                if self.F.insts[i].get('mir') is None:
                    r = self.models.call_ext_closure(st, f, args, dty, site)
                    if r is not None:
                        return r
                    return self.models.unknown(st, {'path': t['path'], 'decl': t['path']}, args, dty, site)
                body = self.F.body(i)
                envty = body.locals[1]
                if self.tk(envty) == 'ref':
                    if selfref is None:
                        cell = ('H', ('clo',) + (site,), f.ty)
                        st = st.copy()
                        st.mem[cell] = f
                        env = R(cell)
                    else:
                        env = selfref
                else:
                    env = f
                return self.call_inst(st, i, [env] + list(args), dty, site)
            if f.kind == 'fn':
                cal = self.types[f.ty]['fn']
                if dty is None and 'inst' in cal and self.F.insts[cal['inst']].get('mir'):
                    dty = self.F.body(cal['inst']).locals[0]
                return self.call_callee(st, cal, list(args), dty, site)
            if f.kind == 'parser':
                return self.models.nom_call(st, f, args, dty, site)
            if f.kind == 'fnv':
                cal = json.loads(f.f[0])
                return self.call_callee(st, cal, list(args), dty, site)
        return self.models.unknown(st, {'path': '?indirect', 'decl': '?indirect'}, [f] + list(args), dty, site)

    # ------------------------------------------------------------ entry
    def analyse(self, inst, args=None, st=None, setup=None):
        body = self.F.body(inst)
        if st is None:
            st = State()
        if args is None:
            args = []
            for n in range(body.argc):
                ty = body.locals[n + 1]
                args.append(self.symval(T('arg', n, ty, ty=ty), ty))
        if setup:
            setup(st, args)
        return args, self.run_body(body, args, st, ('root', inst))


# ---------------------------------------------------------------- helpers
SOFT = ('j', 'rep', 'todig', 'event', 'fileok', 'attr')
_inv = {}
HARD = set()     # loop variables that take a value given up


def invented(v, d=0):
    """does the value hold a symbol made where a value was given up"""
    if v in HARD:
        return True
    if v in _inv:
        return _inv[v]
    if d > 40:
        return False
    r = False
    if isinstance(v, Term):
        r = v.op == 'sym' and v.args[0] not in SOFT or v in HARD or any(invented(x, d + 1) for x in v.args if isinstance(x, (Term, Agg)))
    elif isinstance(v, Agg):
        r = any(invented(x, d + 1) for x in v.f if isinstance(x, (Term, Agg)))
    if d == 0:
        _inv[v] = r
    return r


def rep(piece, n):
    if isinstance(n, Term) and n.op == 'int' and 0 <= n.args[0] <= 64 and piece.op == 'str':
        return S(piece.args[0] * n.args[0])
    return T('rep', piece, n)


def has_phi(v, lid):
    o = set()
    collect_phi(v, lid, o)
    return bool(o)


def int_leaves(v, out, d):
    if isinstance(v, Term):
        if v.op in ('int', 'lin', 'fld', 'arg', 'shr', 'cast', 'sym', 'and', 'len', 'llen', 'sub', 'rs'):
            out.append(v)
    elif isinstance(v, Agg) and d < 4:
        for x in v.f:
            int_leaves(x, out, d + 1)
    elif isinstance(v, Ref) and v.loc[0] == 'V':
        int_leaves(v.loc[1], out, d + 1)


class Deadline(Exception):
    pass


class Unsummarisable(Exception):
    pass


def locals_of(v, out, memo):
    if isinstance(v, tuple):
        for x in v:
            locals_of(x, out, memo)
        return
    if not isinstance(v, Node) or v in memo:
        return
    memo.add(v)
    if isinstance(v, Term):
        if v.op in ('sym', 'phi', 'rs'):
            out.add(v)
            return
        for x in v.args:
            locals_of(x, out, memo)
    elif isinstance(v, Agg):
        for x in v.f:
            locals_of(x, out, memo)
    else:
        locals_of(v.loc, out, memo)


def child(v, e):
    if e == '*':
        return v.loc[1] if isinstance(v, Ref) and v.loc[0] == 'V' else None
    if isinstance(v, Agg) and e < len(v.f):
        return v.f[e]
    return None


def collect_phi(v, lid, out, memo=None):
    if isinstance(v, tuple):
        for x in v:
            collect_phi(x, lid, out)
        return
    if not isinstance(v, Node):
        return
    for t in all_phis(v):
        if t.args[0] == lid:
            out.add(t)


_PH = {}


def all_phis(v):
    """phi symbols inside an interned node (cached)"""
    r = _PH.get(v)
    if r is not None:
        return r
    s = set()
    if isinstance(v, Term):
        if v.op == 'phi':
            s.add(v)
        else:
            for a in v.args:
                _aph(a, s)
    elif isinstance(v, Agg):
        for a in v.f:
            _aph(a, s)
    else:
        _aph(v.loc, s)
        _aph(v.path, s)
    r = frozenset(s)
    _PH[v] = r
    return r


def _aph(a, s):
    if isinstance(a, Node):
        s |= all_phis(a)
    elif isinstance(a, tuple):
        for x in a:
            _aph(x, s)


_OL = {}


def all_olds(v):
    r = _OL.get(v)
    if r is not None:
        return r
    s = set()
    if isinstance(v, Term):
        if v.op == 'old':
            s.add(v.args[0].args[0])
        for a in v.args:
            _aol(a, s)
    elif isinstance(v, Agg):
        for a in v.f:
            _aol(a, s)
    else:
        _aol(v.loc, s)
        _aol(v.path, s)
    r = frozenset(s)
    _OL[v] = r
    return r


def _aol(a, s):
    if isinstance(a, Node):
        s |= all_olds(a)
    elif isinstance(a, tuple):
        for x in a:
            _aol(x, s)


def has_old(v, lid, memo=None):
    if isinstance(v, tuple):
        return any(has_old(x, lid) for x in v)
    if not isinstance(v, Node):
        return False
    return lid in all_olds(v)


def mention_any(v, ts):
    if not ts:
        return False
    if isinstance(v, tuple):
        return any(mention_any(x, ts) for x in v)
    if not isinstance(v, Node):
        return False
    return any(mentions(v, t) for t in ts)


def subst_state(s, m):
    r = State()
    memo = {}
    for k, v in s.mem.items():
        k2 = ('V', subst(k[1], m, memo)) if k[0] == 'V' else k
        r.mem[k2] = subst(v, m, memo)
    for k, v in s.facts.items():
        r.facts[subst(k, m, memo)] = v
    r.lins = frozenset(subst(l, m, memo) for l in s.lins)
    r.log = s.log
    return r


def refs_of(v, memo, out):
    if isinstance(v, tuple):
        for x in v:
            refs_of(x, memo, out)
        return
    if not isinstance(v, Node) or v in memo:
        return
    memo.add(v)
    if isinstance(v, Ref):
        if v.loc[0] in ('L', 'H', 'V', 'M'):
            out.append(v.loc)
        refs_of(v.loc, memo, out)
        refs_of(v.path, memo, out)
    elif isinstance(v, Agg):
        for x in v.f:
            refs_of(x, memo, out)
    else:
        for x in v.args:
            if isinstance(x, (Node, tuple)):
                refs_of(x, memo, out)


def repr_key(k):
    return (k[0], tuple(x.id if isinstance(x, Node) else x if isinstance(x, int) else repr(x) for x in k[1:]).__repr__())


def kindof(v):
    return type(v).__name__
