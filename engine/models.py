"""Models of the std / regex / nom / quick-xml / collection functions the
library calls.  Each model over-approximates the documented behaviour of the
external function; unmodelled functions return an unconstrained value."""
from core import *
import rx

ORD = range


def strip_ref(p):
    return p


def groups_of(re):
    """number of groups of a constant regular expression, the whole match included"""
    if isinstance(re, Term) and re.op == 'regex' and isinstance(re.args[0], Term) and re.args[0].op == 'str':
        return rx.groups(re.args[0].args[0])
    return None


def groups_of(re):
    """number of groups of a constant regular expression, the whole match included"""
    if isinstance(re, Term) and re.op == 'regex' and isinstance(re.args[0], Term) and re.args[0].op == 'str':
        return rx.groups(re.args[0].args[0])
    return None


class Models:
    BOOLOPS = {'eqs', 'pre', 'suf', 'has', 'mhas', 'matched', 'capset', 'eqv', 'in_list', 'ok', 'isnext', 'lany', 'fldb', 'isenum'}

    def __init__(self, ai):
        self.ai = ai
        self.F = ai.F
        self.types = ai.types
        self.bool_ty = self.F.tyby.get('bool')
        self.char_ty = self.F.tyby.get('char')
        self.usize = self.F.tyby.get('usize')
        self.parser_cs_cache = {}
        self.reg_conf = None

    # ------------------------------------------------------------ utilities
    def rd(self, st, v, d=0):
        while isinstance(v, Ref) and d < 10:
            v = self.ai.read(st, v.loc, v.path)
            d += 1
        return v

    def txt(self, st, v):
        v = self.rd(st, v)
        if isinstance(v, Term):
            return v
        if isinstance(v, Agg) and v.kind == 'list':
            return T('ofbytes', v)
        return fresh('text')

    def opt(self, dty, v=None):
        return A('adt', dty, 0, ()) if v is None else A('adt', dty, 1, (v,))

    def ok(self, dty, v):
        return A('adt', dty, 0, (v,))

    def err(self, dty, v=None):
        if v is None:
            v = self.freshfield(dty, 1, 0, 'err')
        return A('adt', dty, 1, (v,))

    def fty(self, dty, var, n=0):
        if dty is None:
            return None
        t = self.types[dty]
        if t['k'] == 'adt' and var < len(t['variants']):
            fs = t['variants'][var]['fields']
            if n < len(fs):
                return fs[n][1]
        return None

    def freshfield(self, dty, var, n, name):
        ty = self.fty(dty, var, n)
        t = fresh(name, ty)
        return self.ai.symval(t, ty) if ty is not None else t

    def sym(self, name, ty):
        t = fresh(name, ty)
        return self.ai.symval(t, ty) if ty is not None else t

    def fork(self, st, b):
        a, c = self.ai.branch(st, b)
        return a, c

    def canon(self, t, p):
        if t.op == 'slice':
            return t.args[0], add(t.args[1], p)
        return t, p

    def pos(self, st, t, p):
        """declare p a char-boundary position of t, 0<=p<=len"""
        b, q = self.canon(t, p)
        self.ai.assume_ge0(st, p)
        self.ai.assume_ge0(st, sub(textlen(t), p))
        st.facts[('bd', b, q)] = True

    def is_bd(self, st, t, p):
        if not isinstance(t, Term) or not isinstance(p, Term):
            return False
        b, q = self.canon(t, p)
        if q.op == 'int' and q.args[0] == 0:
            return True
        if q is textlen(b):
            return True
        if t.op == 'slice' and (q is t.args[1] or q is t.args[2]):
            # a slice value exists only with valid bounds
            return True
        if b.op == 'str' and q.op == 'int':
            try:
                b.args[0].encode()[:q.args[0]].decode()
                return True
            except UnicodeDecodeError:
                return False
        if ('bd', b, q) in st.facts:
            return True
        cs = self.ai.cs(st, b)
        if not cs or cs[-1][1] < 128:
            return True
        for k in st.facts:
            if isinstance(k, tuple) and k[0] == 'bd' and k[1] is b:
                d = sub(k[2], q)
                if d.op == 'int' and d.args[0] == 0:
                    return True
                if self.ai.prove(st, d) and self.ai.prove(st, sub(q, k[2])):
                    return True
                # ascii stretch between a known boundary and q
                if self.ai.prove(st, sub(q, k[2])):
                    c2 = self.ai.cs(st, slice_(b, k[2], q))
                    if not c2 or c2[-1][1] < 128:
                        return True
        if b.op == 'cat':
            off = I(0)
            for x in b.args:
                d = sub(q, off)
                if d.op == 'int' and d.args[0] == 0:
                    return True
                off = add(off, textlen(x))
        # prefix of known ascii text
        c2 = self.ai.cs(st, slice_(b, I(0), q))
        if not c2 or c2[-1][1] < 128:
            return True
        return False

    def charat(self, t, p):
        b, q = self.canon(t, p)
        return T('charat', b, q, ty=self.char_ty)

    def patset(self, st, pat):
        """char-set pattern -> (intervals) ; text pattern -> Term ; closure -> ('clo', f)"""
        v = self.rd(st, pat)
        if isinstance(v, Agg):
            if v.kind == 'list':
                u = ()
                for x in v.f:
                    u = iv_or(u, self.ai.iv(st, x))
                return u
            if v.kind in ('closure', 'fn'):
                return self.predset(st, pat)
            return None
        if isinstance(v, Term):
            if v.ty is not None and self.types[v.ty]['k'] == 'char' or v.op == 'charat':
                return self.ai.iv(st, v)
            if v.op == 'int':
                return ((v.args[0], v.args[0]),)
            return v
        return None

    def pred(self, st, f):
        """(may-true set, may-false set) of a char predicate"""
        key = ('pred', self.ai.deepval(st, f))
        r = self.parser_cs_cache.get(key)
        if r is not None:
            return r
        c = T('predchar', ty=self.char_ty)
        s = st.copy()
        self.ai.dry += 1
        yes = no = ()
        try:
            for s2, v in self.ai.call_value(s, f, [c], self.bool_ty, ('pred', key[1].id if isinstance(key[1], Node) else 0)):
                if not isinstance(v, Term):
                    yes = no = ALLCS
                    break
                a, b = self.ai.branch(s2, v)
                if a is not None:
                    yes = iv_or(yes, self.ai.iv(a, c))
                if b is not None:
                    no = iv_or(no, self.ai.iv(b, c))
        finally:
            self.ai.dry -= 1
        r = (yes, no)
        self.parser_cs_cache[key] = r
        return r

    def predset(self, st, f):
        return self.pred(st, f)[0]

    def show_cs(self, t):
        return ALLCS

    def lenof(self, st, v):
        v = self.rd(st, v)
        return textlen(v)

    # ------------------------------------------------------------ hooks used by the interpreter
    def booleq(self, a, b):
        if a is b:
            return TRUE
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return self.ai.neg(b)
        if b is FALSE:
            return self.ai.neg(a)
        return T('eqv', *sorted((a, b), key=lambda x: x.id))

    axioms_used = set()

    def pos_first(self, st, t):
        """interval of the first character, when the text has one"""
        if t.op == 'slice':
            return self.ai.iv(st, self.charat(t.args[0], t.args[1]))
        return self.ai.iv(st, self.charat(t, I(0)))

    def truth(self, st, b):
        op = b.op
        if op == 'eqs':
            return self.eqs_truth(st, b.args[0], b.args[1])
        if op == 'pre' and isinstance(b.args[1], Term):
            t, p = b.args
            if p.op == 'str' and p.args[0] == '':
                return True
            if t.op == 'str' and p.op == 'str':
                return t.args[0].startswith(p.args[0])
            if t.op == 'cat' and t.args[0] is p:
                return True
            if t.op == 'cat' and t.args[0].op == 'str' and p.op == 'str':
                a, q = t.args[0].args[0], p.args[0]
                if a.startswith(q):
                    return True
                if not q.startswith(a):
                    return False
            if p.op == 'str' and not iv_subset(cs_of(p.args[0]), self.ai.cs(st, t)):
                return False
            if self.ai.prove_false(st, sub(textlen(t), textlen(p))):
                return False
            return None
        if op == 'has' and isinstance(b.args[1], Term):
            t, p = b.args
            if p.op == 'str':
                if t.op == 'str':
                    return p.args[0] in t.args[0]
                if p.args[0] == '':
                    return True
                if not iv_subset(cs_of(p.args[0]), self.ai.cs(st, t)):
                    return False
                if t.op == 'cat' and any(x.op == 'str' and p.args[0] in x.args[0] for x in t.args):
                    return True
            return None
        if op == 'eqv':
            if b.args[0] is b.args[1]:
                return True
            return self.structeq(st, b.args[0], b.args[1])
        if op == 'capset':
            i = b.args[2]
            if i.op == 'int' and i.args[0] == 0:
                return True
            if self.ai.prove_false(st, addc(sub(T('caplen', b.args[0]), i), -1)):
                return False
            return None
        if op == 'mhas':
            return self.mhas_axiom(b.args[0], b.args[1])
        return None

    def mhas_axiom(self, m, k):
        """Database index agreement: every id listed in a map<int, list<text>> field is a key of the
        map<text, metadata> field of the same value.  (Established by C21 on the code that builds them.)"""
        if not (isinstance(m, Term) and isinstance(k, Term) and k.op == 'elt' and isinstance(k.args[0], Term) and k.args[0].op == 'mapget'):
            return None
        m2 = k.args[0].args[0]
        if not (isinstance(m2, Term) and m.op == m2.op == 'fld' and m.args[0] is m2.args[0] and m is not m2):
            return None
        if m.ty is None or m2.ty is None:
            return None
        a, b = self.types[m.ty], self.types[m2.ty]
        if 'HashMap' not in a.get('path', '') or 'HashMap' not in b.get('path', '') or not a.get('args') or not b.get('args'):
            return None
        ka, va, kb, vb = a['args'][0], a['args'][1], b['args'][0], b['args'][1]
        ai = self.ai
        if ai.cls(ka) != 'text' or self.types[kb]['k'] != 'int' or ai.cls(vb) != 'list':
            return None
        if ai.cls(ai.elemty(vb)) != 'text':
            return None
        va = self.types[va]
        if va['k'] != 'adt' or 'Metadata' not in va['s']:
            return None
        self.axioms_used.add('index-agreement')
        return True

    def structeq(self, st, a, b):
        if a is b:
            return True
        if isinstance(a, Agg) and isinstance(b, Agg) and a.kind == b.kind == 'adt':
            if a.var != b.var:
                return False
            if len(a.f) == len(b.f):
                rs = [self.structeq(st, x, y) for x, y in zip(a.f, b.f)]
                if all(r is True for r in rs):
                    return True
                if any(r is False for r in rs):
                    return False
            return None
        if isinstance(a, Term) and isinstance(b, Term):
            if a.op in ('int', 'lin') or b.op in ('int', 'lin'):
                return self.ai.truth(st, self.ai.eqi(st, a, b))
            if a.op == 'str' and b.op == 'str':
                return a.args[0] == b.args[0]
        return None

    def eqs(self, a, b):
        if a is b:
            return TRUE
        if a.op == 'str' and b.op == 'str':
            return B(a.args[0] == b.args[0])
        if a.op == 'str' and b.op != 'str':
            a, b = b, a
        elif b.op != 'str' and a.id > b.id:
            a, b = b, a
        return T('eqs', a, b, ty=self.bool_ty)

    def eqs_truth(self, st, a, b):
        if a is b:
            return True
        la, lb = textlen(a), textlen(b)
        if self.ai.prove_false(st, sub(la, lb)) or self.ai.prove_false(st, sub(lb, la)):
            return False
        if b.op == 'str':
            if not iv_subset(cs_of(b.args[0]), self.ai.cs(st, a)):
                return False
            if b.args[0] == '' and self.ai.truth(st, self.ai.eqi(st, la, I(0))):
                return True
            for k, f in st.facts.items():
                if f is True and isinstance(k, Term) and k.op == 'eqs' and k.args[0] is a and k.args[1].op == 'str':
                    return k.args[1].args[0] == b.args[0]
        return None

    def on_assume(self, st, b, val):
        ai = self.ai
        op = b.op
        if op == 'eqs' and val:
            a, c = b.args
            if not ai.assume_ge0(st, sub(textlen(a), textlen(c))) or not ai.assume_ge0(st, sub(textlen(c), textlen(a))):
                return False
            cs = iv_and(ai.cs(st, a), ai.cs(st, c))
            if a.op not in ('str',):
                st.facts[('cs', a)] = cs
            if c.op not in ('str',):
                st.facts[('cs', c)] = cs
            return True
        if op == 'eqs' and not val and b.args[1].op == 'str' and b.args[1].args[0] == '':
            return ai.assume_ge0(st, addc(textlen(b.args[0]), -1))
        if op == 'pre' and val:
            t, p = b.args
            if not ai.assume_ge0(st, sub(textlen(t), textlen(p))):
                return False
            self.pos(st, t, textlen(p))
            return True
        if op == 'suf' and val:
            t, p = b.args
            if not ai.assume_ge0(st, sub(textlen(t), textlen(p))):
                return False
            self.pos(st, t, sub(textlen(t), textlen(p)))
            return True
        if op == 'has':
            t, p = b.args
            if val and isinstance(p, Term):
                return ai.assume_ge0(st, sub(textlen(t), textlen(p)))
            cs = p if not isinstance(p, Term) else cs_of(p.args[0]) if p.op == 'str' and len(p.args[0]) == 1 else None
            if cs is not None:
                if val:
                    return ai.assume_ge0(st, addc(textlen(t), -1))
                st.facts[('cs', t)] = iv_sub(ai.cs(st, t), cs)
            return True
        if op == 'capset' and val:
            if b.args[2].op == 'int':
                ai.assume_ge0(st, addc(sub(T('caplen', b.args[0]), b.args[2]), -1))
            return True
        if op == 'mhas' and not val:
            return True
        return True

    def on_refine(self, st, x):
        """x got a tighter interval"""
        ai = self.ai
        if x.op == 'shr' and isinstance(x.args[1], Term) and x.args[1].op == 'int':
            k, n, b = x.args[1].args[0], ai.iv(st, x), ai.iv(st, x.args[0])
            if n and b and b[0][0] >= 0:
                return ai.assume_in(st, x.args[0], tuple((lo << k, ((hi + 1) << k) - 1) for lo, hi in n))
        if x.op == 'charat':
            # refine nothing else
            pass
        if x.op == 'llen':
            pass
        return True

    def struct_lins(self, st, x):
        """linear facts that hold for x by construction (each >= 0)"""
        out = []
        if x.op == 'ms' or x.op == 'me':
            re, t, g = x.args
            ms, me = T('ms', re, t, g, ty=self.usize), T('me', re, t, g, ty=self.usize)
            out += [sub(me, ms), sub(textlen(t), me)]
            if g.op != 'int' or g.args[0] != 0:
                z = I(0)
                out += [sub(ms, T('ms', re, t, z, ty=self.usize)), sub(T('me', re, t, z, ty=self.usize), me)]
        if x.op == 'nomp':
            out += [sub(textlen(x.args[1]), x)]
        if x.op == 'tsm' or x.op == 'find':
            out += [sub(textlen(x.args[1]), x)]
        return out

    # ------------------------------------------------------------ lists
    def llen(self, v):
        if isinstance(v, Agg):
            if v.kind == 'list':
                return I(len(v.f))
            if v.kind == 'arr':
                return I(len(v.f))
            return fresh('len', self.usize)
        if not isinstance(v, Term):
            return fresh('len', self.usize)
        if v.op == 'bytes':
            return textlen(v.args[0])
        if v.op == 'lmap':
            return self.llen(v.args[0])
        if v.op == 'lpush':
            return addc(self.llen(v.args[0]), 1)
        if v.op == 'lins':
            return addc(self.llen(v.args[0]), 1)
        if v.op == 'lset':
            return self.llen(v.args[0])
        if v.op == 'lslice':
            return sub(v.args[2], v.args[1])
        return T('llen', v, ty=self.usize)

    def anylen(self, st, a, ty):
        v = self.rd(st, a)
        if ty is not None and self.types[ty]['k'] in ('ref', 'ptr'):
            if self.types[self.types[ty]['ty']]['k'] == 'str':
                return textlen(v)
        return self.llen(v)

    def elt(self, st, v, idx, ety):
        if isinstance(v, Agg) and v.kind in ('list', 'arr'):
            if isinstance(idx, Term) and idx.op == 'int':
                if 0 <= idx.args[0] < len(v.f):
                    return v.f[idx.args[0]]
                return fresh('oob', ety)
            if v.f and all(x is v.f[0] for x in v.f):
                return v.f[0]
            return self.ai.symval(T('elt', v, idx, ty=ety), ety)
        if isinstance(v, Term):
            if v.op == 'bytes':
                b, q = self.canon(v.args[0], idx) if isinstance(idx, Term) else (v.args[0], fresh('i'))
                t = T('byteat', b, q, ty=self.F.tyby.get('u8'))
                return t
            if v.op == 'lmap':
                e = self.elt(st, v.args[0], idx, None)
                return subst(v.args[2], {v.args[1]: e})
            if v.op == 'lslice':
                return self.elt(st, v.args[0], add(v.args[1], idx), ety)
            if v.op == 'lpush' and isinstance(idx, Term):
                if idx is self.llen(v.args[0]):
                    return v.args[1]
        if ety is None and isinstance(v, Term) and v.ty is not None:
            ety = self.ai.elemty(v.ty)
        t = T('elt', v, idx, ty=ety)
        return self.ai.symval(t, ety) if ety is not None else t

    def lset(self, st, v, idx, val):
        if isinstance(v, Agg) and v.kind == 'list' and isinstance(idx, Term) and idx.op == 'int' and 0 <= idx.args[0] < len(v.f):
            f = list(v.f)
            f[idx.args[0]] = val
            return A('list', v.ty, 0, f)
        return T('lset', v, idx, val, ty=getattr(v, 'ty', None))

    def lslice(self, st, v, lo, hi):
        if isinstance(v, Agg) and v.kind == 'list' and lo.op == 'int' and hi.op == 'int':
            return A('list', v.ty, 0, v.f[lo.args[0]:hi.args[0]])
        if isinstance(v, Term) and v.op == 'bytes':
            return T('bytes', slice_(v.args[0], lo, hi))
        if isinstance(v, Term) and v.op == 'lslice':
            return T('lslice', v.args[0], add(v.args[1], lo), add(v.args[1], hi), ty=v.ty)
        return T('lslice', v, lo, hi, ty=getattr(v, 'ty', None))

    def push(self, v, x):
        if isinstance(v, Agg) and v.kind == 'list':
            if len(v.f) < 40:
                return A('list', v.ty, 0, v.f + (x,))
        return T('lpush', v, x, ty=getattr(v, 'ty', None))

    # ------------------------------------------------------------ maps
    def mkey(self, st, k):
        return self.ai.deepval(st, k)

    def mget(self, st, m, k, vty):
        """value stored under k (assumed present)"""
        if isinstance(m, Term) and m.op == 'minsert':
            e = self.structeq(st, m.args[1], k)
            if e:
                return m.args[2]
            if e is False:
                return self.mget(st, m.args[0], k, vty)
        if isinstance(m, Agg) and m.kind == 'cmap':
            for x in m.f:
                if x.f[0] is k:
                    return x.f[1]
        return self.ai.symval(T('mapget', m, k, ty=vty), vty)

    def mhas(self, st, m, k):
        if isinstance(m, Term):
            if m.op == 'mapempty':
                return FALSE
            if m.op == 'minsert':
                e = self.structeq(st, m.args[1], k)
                if e:
                    return TRUE
                if e is False:
                    return self.mhas(st, m.args[0], k)
        return T('mhas', m, k, ty=self.bool_ty)

    def minsert(self, st, m, k, v):
        if isinstance(m, Agg) and m.kind == 'cmap':
            if self.isconst(k) and self.isconst(v):
                fs = [x for x in m.f if x.f[0] is not k]
                if len(fs) != len(m.f):
                    fs = [A('tuple', None, 0, (k, v)) if x.f[0] is k else x for x in m.f]
                else:
                    fs.append(A('tuple', None, 0, (k, v)))
                return A('cmap', m.ty, 0, fs)
            if not m.f:
                m = T('mapempty', ty=m.ty)
        if isinstance(m, Term) and m.op == 'minsert' and m.args[1] is k:
            return T('minsert', m.args[0], k, v, ty=m.ty)
        return T('minsert', m, k, v, ty=getattr(m, 'ty', None))

    def isconst(self, v):
        if isinstance(v, Term):
            return v.op in ('int', 'bool', 'str')
        if isinstance(v, Agg):
            return v.kind in ('adt', 'tuple', 'list') and all(self.isconst(x) for x in v.f)
        return False

    def read_mapslot(self, st, loc):
        _, mref, key, vty = loc
        m = self.rd(st, mref)
        return self.mget(st, m, key, vty)

    def write_mapslot(self, st, loc, val):
        _, mref, key, vty = loc
        m = self.rd(st, mref)
        self.setref(st, mref, self.minsert(st, m, key, val))

    def setref(self, st, r, val):
        """write through the innermost reference"""
        v = r
        last = None
        d = 0
        while isinstance(v, Ref) and d < 10:
            last = v
            v = self.ai.read(st, v.loc, v.path)
            d += 1
        if last is not None:
            self.ai.write(st, last.loc, last.path, val)

    def cmap_fork(self, st, m, k):
        """constant map lookup -> [(state, value or None)]"""
        ai = self.ai
        out = []
        if isinstance(k, Term) and self.isconst(k):
            for x in m.f:
                if x.f[0] is k:
                    return [(st, x.f[1])]
            return [(st, None)]
        if isinstance(k, Term) and m.f and all(isinstance(x.f[0], Term) and x.f[0].op == 'int' for x in m.f):
            ks = iv_norm([(x.f[0].args[0], x.f[0].args[0]) for x in m.f])
            cur = ai.iv(st, k)
            hit = st.copy()
            if ai.assume_in(hit, k, ks):
                sel = ai.iv(hit, k)
                vals = [x.f[1] for x in m.f if iv_and(((x.f[0].args[0],) * 2,), sel)]
                vt = T('cmapget', m, k)
                if all(isinstance(v, Term) and v.op == 'int' for v in vals):
                    vt.ty = self.char_ty if vt.ty is None else vt.ty
                    hit.facts[vt] = iv_norm([(v.args[0],) * 2 for v in vals])
                if len(set(vals)) == 1:
                    vt = vals[0]
                out.append((hit, vt))
            miss = st.copy()
            if ai.assume_in(miss, k, iv_sub(cur, ks)):
                out.append((miss, None))
            return out
        a, b = self.fork(st, T('mhas', m, k, ty=self.bool_ty))
        if a is not None:
            out.append((a, T('mapget', m, k)))
        if b is not None:
            out.append((b, None))
        return out

    # ------------------------------------------------------------ aggregates of model kinds
    def proj_agg(self, v, var, idx, fty):
        return None

    def discr_agg(self, st, v, ty):
        return None

    def on_drop(self, st, body, fid, t):
        pass

    def join_chars(self, ss, vs):
        out = []
        ch = False
        for s, v in zip(ss, vs):
            t, p, last, seen, p0 = v.f
            if last is not None:
                seen = iv_or(seen, self.ai.iv(s, last))
                v = A('it', None, 'chars', (t, p, None, seen, p0))
                ch = True
            out.append(v)
        return out if ch else None

    def fold_chars(self, st, v):
        """forget the last char of char iterators (keep its set)"""
        if isinstance(v, Agg) and v.kind in ('it', 'adt', 'tuple', 'closure') and v.f:
            if v.kind == 'it' and v.var == 'chars':
                t, p, last, seen, p0 = v.f
                if last is not None:
                    return A('it', v.ty, 'chars', (t, p, None, iv_or(seen, self.ai.iv(st, last)), p0))
                return v
            fs = [self.fold_chars(st, x) for x in v.f]
            if any(a is not b for a, b in zip(fs, v.f)):
                return A(v.kind, v.ty, v.var, fs)
        return v

    # ------------------------------------------------------------ unknown calls
    PANICKY = ('unwrap', 'expect', 'panic', 'unreachable', 'todo', 'unimplemented', 'assert_failed', 'slice_index_fail',
               'unwrap_failed', 'expect_failed', 'panic_fmt', 'copy_from_slice', 'split_at', 'remove', 'swap_remove', 'insert_str', 'truncate_fail')

    def unknown(self, st, cal, args, dty, site):
        ai = self.ai
        path = cal.get('path', cal.get('decl', '?'))
        if self.types[dty]['k'] == 'never' if dty is not None else False:
            ai.fail('panic', path, st)
            return []
        if not ai.dry:
            ai.unknown.setdefault(path, set()).add(ai.where())
        for a in args:
            if isinstance(a, Ref) and a.loc in st.mem and self.maybe_mut(cal, args, a):
                st = st.copy() if False else st
                old = ai.read(st, a.loc, a.path)
                ai.write(st, a.loc, a.path, self.havoc(st, old))
        return [(st, self.sym('ext', dty))]

    def maybe_mut(self, cal, args, a):
        return True

    def havoc(self, st, old):
        if isinstance(old, Ref):
            return old
        ty = getattr(old, 'ty', None)
        if isinstance(old, Agg) and old.kind in ('closure', 'fn', 'parser'):
            return old
        if isinstance(old, Agg) and ty is None:
            return A(old.kind, None, old.var, [self.havoc(st, x) for x in old.f]) if old.kind == 'tuple' else fresh('havoc')
        return self.sym('havoc', ty)

    def call_ext_closure(self, st, f, args, dty, site):
        return None

    # ------------------------------------------------------------ dispatch
    def call(self, st, cal, args, dty, site):
        path = cal.get('path', cal['decl'])
        decl = cal['decl']
        f = PATHS.get(path) or PATHS.get(decl)
        if f is None:
            name = cal.get('name') or path.rsplit('::', 1)[-1]
            if cal.get('krate') not in ('phonenumber', 'crate') and not (('inst' in cal) and self.F.insts[cal['inst']]['local']):
                f = NAMES.get((cal.get('trait'), name))
                if f is None and path.startswith('<') is False:
                    for pre, tab in PREFIX:
                        if path.startswith(pre):
                            f = tab.get(name)
                            if f:
                                break
        if f is None:
            return None
        st = st.copy()
        r = f(self, st, args, dty, site, cal)
        if r is None or isinstance(r, list):
            return r
        return [(st, r)]

    # ------------------------------------------------------------ iterators
    def mkit(self, kind, *f):
        return A('it', None, kind, f)

    def into_it(self, st, v, ty=None):
        """iterator value of an IntoIterator"""
        raw = v
        if isinstance(v, Agg) and v.kind == 'it':
            return v
        if isinstance(v, Agg) and v.kind == 'adt' and v.ty is not None and self.types[v.ty].get('path', '').startswith('core::ops::range::Range'):
            p = self.types[v.ty]['path']
            if p.endswith('RangeInclusive'):
                return self.mkit('range', v.f[0], addc(v.f[1], 1))
            if p.endswith('RangeFrom'):
                return self.mkit('range', v.f[0], I(LENMAX * 4))
            return self.mkit('range', v.f[0], v.f[1])
        if isinstance(v, Agg) and v.kind == 'rangeinc':
            return self.mkit('range', v.f[0], addc(v.f[1], 1))
        if isinstance(v, Agg) and v.kind == 'caps':
            pass
        if isinstance(v, Ref):
            x = self.rd(st, v)
            if isinstance(x, Agg) and x.kind == 'it':
                # &mut I
                r = v
                while True:
                    y = self.ai.read(st, r.loc, r.path)
                    if isinstance(y, Ref):
                        r = y
                    else:
                        break
                return self.mkit('byref', r)
            if isinstance(x, Agg) and x.kind == 'adt' and x.ty is not None and self.types[x.ty].get('path', '').startswith('core::ops::range'):
                r = v
                return self.mkit('byref', r)
            ty0 = getattr(x, 'ty', None)
            if isinstance(x, Agg) and x.kind == 'cmap' or ty0 is not None and 'HashMap' in self.types[ty0].get('s', ''):
                return self.mkit('map', x, I(0), 'kv')
            if isinstance(x, Agg) and x.kind == 'list' or ty0 is not None and self.ai.cls(ty0) == 'list' or isinstance(x, Term):
                return self.mkit('list', x, I(0), self.llen(x), 1, ty0)
            if isinstance(x, Agg) and x.kind == 'adt':
                return self.mkit('opt', x, 1)
            return None
        if isinstance(v, Agg) and v.kind == 'list':
            return self.mkit('list', v, I(0), self.llen(v), 0, None)
        if isinstance(v, Agg) and v.kind == 'adt':
            return self.mkit('opt', v, 0)
        if isinstance(v, Term) and v.ty is not None:
            if self.ai.cls(v.ty) == 'list':
                return self.mkit('list', v, I(0), self.llen(v), 0, v.ty)
            if self.types[v.ty].get('path') == 'core::option::Option':
                return self.mkit('opt', v, 0)
        if isinstance(v, Term) and v.op in ('lmap', 'lpush', 'phi', 'elt'):
            return self.mkit('list', v, I(0), self.llen(v), 0, v.ty)
        return None

    def item_ref(self, byref, e, ety):
        """element as yielded by an iterator over references"""
        if not byref:
            return e
        if ety is not None and self.types[ety]['k'] in ('str', 'slice'):
            return e
        return R(('V', e))

    def it_next(self, st, it, site, depth=0):
        """-> [(state, iterator', item or None)]"""
        ai = self.ai
        k = it.var
        f = it.f
        if k == 'list':
            L, i, n, byref, lty = f
            ety = ai.elemty(lty) if lty is not None else None
            a, b = self.fork(st, ai.ge0(st, addc(sub(n, i), -1)))
            out = []
            if a is not None:
                out.append((a, self.mkit('list', L, addc(i, 1), n, byref, lty), self.item_ref(byref, self.elt(a, L, i, ety), ety)))
            if b is not None:
                out.append((b, it, None))
            return out
        if k == 'range':
            lo, hi = f
            a, b = self.fork(st, ai.ge0(st, addc(sub(hi, lo), -1)))
            out = []
            if a is not None:
                out.append((a, self.mkit('range', addc(lo, 1), hi), lo))
            if b is not None:
                out.append((b, it, None))
            return out
        if k == 'chars':
            t, p, last, seen, p0 = f
            if last is not None:
                seen = iv_or(seen, ai.iv(st, last))
            a, b = self.fork(st, ai.ge0(st, addc(sub(textlen(t), p), -1)))
            out = []
            if a is not None:
                c = self.charat(t, p)
                q = add(p, T('utf8len', c))
                self.pos(a, t, p)
                self.pos(a, t, q)
                if p is not p0:
                    sl = slice_(t, p0, p)
                    if sl.op == 'slice':
                        a.facts[('cs', sl)] = iv_and(ai.cs(a, sl), seen)
                # the whole text's charset bounds the char
                cur = iv_and(ai.iv(a, c), ai.cs(a, t))
                if cur:
                    if ai.assume_in(a, c, cur):
                        out.append((a, self.mkit('chars', t, q, c, seen, p0), c))
            if b is not None:
                s0 = slice_(t, p0, textlen(t))
                cs = iv_and(ai.cs(b, s0), seen)
                if s0.op not in ('str',):
                    b.facts[('cs', s0)] = cs
                if not cs:
                    # nothing was seen: the text is empty
                    if not ai.assume_ge0(b, sub(p0, textlen(t))):
                        return out
                out.append((b, self.mkit('chars', t, textlen(t), None, seen, p0), None))
            return out
        if k == 'char_indices':
            out = []
            base = f[0].f[1]
            for s, i2, x in self.it_next(st, f[0], site, depth + 1):
                out.append((s, self.mkit('char_indices', i2), None if x is None else A('tuple', None, 0, (base, x))))
            return out
        if k == 'bytes':
            return self.it_next(st, f[0], site, depth + 1) if False else self.opaque_next(st, it, self.F.tyby.get('u8'))
        if k == 'map':
            m, i, what = f
            if isinstance(m, Agg) and m.kind == 'cmap' and i.op == 'int':
                if i.args[0] < len(m.f):
                    e = m.f[i.args[0]]
                    kk, vv = R(('V', e.f[0])) if not self.istext(e.f[0]) else R(('V', e.f[0])), R(('V', e.f[1]))
                    item = A('tuple', None, 0, (kk, vv)) if what == 'kv' else kk if what == 'k' else vv
                    return [(st, self.mkit('map', m, addc(i, 1), what), item)]
                return [(st, it, None)]
            kt = vt = None
            if getattr(m, 'ty', None) is not None and self.types[m.ty].get('args'):
                kt, vt = (self.types[m.ty]['args'] + [None, None])[:2]
            a, b = self.fork(st, T('isnext', m, i, ty=self.bool_ty))
            out = []
            if a is not None:
                kk = ai.symval(T('mapkey', m, i, ty=kt), kt)
                vv = ai.symval(T('mapval', m, i, ty=vt), vt)
                kk, vv = R(('V', kk)), R(('V', vv))
                item = A('tuple', None, 0, (kk, vv)) if what == 'kv' else kk if what == 'k' else vv
                if what.startswith('into'):
                    pass
                out.append((a, self.mkit('map', m, addc(i, 1), what), item))
            if b is not None:
                out.append((b, it, None))
            return out
        if k == 'caps' and len(f) == 2 and isinstance(f[1], Term) and f[1].op == 'int' and isinstance(f[0], Agg) and f[0].kind == 'caps':
            n = groups_of(f[0].f[0])
            if n is not None:
                g = f[1].args[0]
                if g >= n:
                    return [(st, it, None)]
                nxt = self.mkit('caps', f[0], I(g + 1))
                re, t = f[0].f
                if g == 0:
                    return [(st, nxt, self.opt(None, self.mkmatch(st, re, t, I(0))))]
                a, b = self.fork(st, T('capset', re, t, I(g), ty=self.bool_ty))
                out = []
                if a is not None:
                    out.append((a, nxt, self.opt(None, self.mkmatch(a, re, t, I(g)))))
                if b is not None:
                    out.append((b, nxt, self.opt(None)))
                return out
        if k == 'opt':
            v, byref = f[0], f[1]
            if v is None:
                return [(st, it, None)]
            out = []
            for s, x in self.opt_cases(st, v):
                if x is None:
                    out.append((s, self.mkit('opt', None, 0), None))
                else:
                    out.append((s, self.mkit('opt', None, 0), R(('V', x)) if byref else x))
            return out
        if k == 'mapf':
            out = []
            for s, i2, x in self.it_next(st, f[0], site, depth + 1):
                if x is None:
                    out.append((s, self.mkit('mapf', i2, f[1]), None))
                else:
                    for s2, y in ai.call_value(s, f[1], [x], None, (site, 'mapf', depth)):
                        out.append((s2, self.mkit('mapf', i2, f[1]), y))
            return out
        if k in ('copied',):
            out = []
            for s, i2, x in self.it_next(st, f[0], site, depth + 1):
                out.append((s, self.mkit(k, i2), None if x is None else self.rd1(s, x)))
            return out
        if k == 'enum':
            out = []
            for s, i2, x in self.it_next(st, f[0], site, depth + 1):
                out.append((s, self.mkit('enum', i2, addc(f[1], 1)), None if x is None else A('tuple', None, 0, (f[1], x))))
            return out
        if k == 'skip':
            n = f[1]
            inner = f[0]
            if n.op == 'int' and n.args[0] == 0:
                return [(s, self.mkit('skip', i2, n), x) for s, i2, x in self.it_next(st, inner, site, depth + 1)]
            if n.op == 'int' and n.args[0] <= 4:
                work = [(st, inner, False)]
                for _ in range(n.args[0]):
                    nw = []
                    for s, i2, done in work:
                        if done:
                            nw.append((s, i2, True))
                        else:
                            for s2, i3, x in self.it_next(s, i2, site, depth + 1):
                                nw.append((s2, i3, x is None))
                    work = nw
                out = []
                for s, i2, done in work:
                    if done:
                        out.append((s, self.mkit('skip', i2, I(0)), None))
                    else:
                        out += [(s2, self.mkit('skip', i3, I(0)), x) for s2, i3, x in self.it_next(s, i2, site, depth + 1)]
                return out
            if inner.var == 'list':
                L, i, nn, byref, lty = inner.f
                return self.it_next(st, self.mkit('list', L, add(i, n), nn, byref, lty), site, depth + 1)
        if k == 'take':
            n = f[1]
            a, b = self.fork(st, ai.ge0(st, addc(n, -1)))
            out = []
            if a is not None:
                for s, i2, x in self.it_next(a, f[0], site, depth + 1):
                    out.append((s, self.mkit('take', i2, addc(n, -1)), x))
            if b is not None:
                out.append((b, it, None))
            return out
        if k == 'chain':
            a, b = f
            out = []
            if a is not None:
                for s, i2, x in self.it_next(st, a, site, depth + 1):
                    if x is not None:
                        out.append((s, self.mkit('chain', i2, b), x))
                    else:
                        for s2, i3, y in self.it_next(s, b, site, depth + 1):
                            out.append((s2, self.mkit('chain', None, i3), y))
                return out
            return [(s2, self.mkit('chain', None, i3), y) for s2, i3, y in self.it_next(st, b, site, depth + 1)]
        if k == 'zip':
            out = []
            for s, i2, x in self.it_next(st, f[0], site, depth + 1):
                if x is None:
                    out.append((s, self.mkit('zip', i2, f[1]), None))
                else:
                    for s2, i3, y in self.it_next(s, f[1], site, depth + 1):
                        out.append((s2, self.mkit('zip', i2, i3), None if y is None else A('tuple', None, 0, (x, y))))
            return out
        if k == 'take_while':
            out = []
            if f[2]:
                return [(st, it, None)]
            for s, i2, x in self.it_next(st, f[0], site, depth + 1):
                if x is None:
                    out.append((s, self.mkit('take_while', i2, f[1], 0), None))
                    continue
                for s2, r in ai.call_value(s, f[1], [R(('V', x))], self.bool_ty, (site, 'tw', depth)):
                    a, b = self.fork(s2, r)
                    if a is not None:
                        out.append((a, self.mkit('take_while', i2, f[1], 0), x))
                    if b is not None:
                        out.append((b, self.mkit('take_while', i2, f[1], 1), None))
            return out
        if k == 'byref':
            r = f[0]
            cur = ai.read(st, r.loc, r.path)
            inner = self.into_it(st, cur)
            if inner is None:
                return self.opaque_next(st, it, None)
            out = []
            for s, i2, x in self.it_next(st, inner, site, depth + 1):
                if isinstance(cur, Agg) and cur.kind == 'adt' and i2.var == 'range':
                    back = A('adt', cur.ty, cur.var, (i2.f[0], cur.f[1]))
                else:
                    back = i2
                s = s.copy()
                ai.write(s, r.loc, r.path, back)
                out.append((s, it, x))
            return out
        if k in ('filter', 'filter_map', 'flatten', 'flat_map', 'skip_while', 'peekable', 'rev', 'map_while'):
            return self.loop_next(st, it, site, depth)
        return self.opaque_next(st, it, f[-1] if k == 'ext' else None)

    def istext(self, v):
        return isinstance(v, Term) and (v.op in ('str', 'cat', 'slice', 'chr', 'rep', 'norm', 'itoa') or v.ty is not None and self.ai.cls(v.ty) == 'text')

    def rd1(self, st, v):
        return self.ai.read(st, v.loc, v.path) if isinstance(v, Ref) else v

    def opaque_next(self, st, it, ity):
        """item of an iterator we know nothing about; keyed on the iterator value so repeated evaluation agrees"""
        n = I(0)
        base = it
        if it.var == 'opq':
            base, n, ity = it.f
        a, b = self.fork(st, T('isnext', base, n, ty=self.bool_ty))
        out = []
        if a is not None:
            x = T('item', base, n, ty=ity)
            out.append((a, self.mkit('opq', base, addc(n, 1), ity), self.ai.symval(x, ity) if ity is not None else x))
        if b is not None:
            out.append((b, self.mkit('opq', base, n, ity), None))
        return out

    def opt_cases(self, st, v):
        """[(state, payload or None)] of an Option value"""
        ai = self.ai
        if isinstance(v, Agg) and v.kind == 'adt':
            return [(st, v.f[0] if v.var == 1 else None)]
        out = []
        ty = getattr(v, 'ty', None)
        d = ai.discr(st, v, ty)
        for val in (0, 1):
            s = st.copy()
            if ai.assume_in(s, d, ((val, val),)):
                pt = self.fty(ty, 1, 0) if ty is not None else None
                out.append((s, None if val == 0 else ai.proj(v, 1, 0, pt)))
        return out

    def loop_next(self, st, it, site, depth):
        ai = self.ai
        k, f = it.var, it.f
        if k == 'rev':
            inner = f[0]
            if inner.var == 'list':
                L, i, n, byref, lty = inner.f
                ety = ai.elemty(lty) if lty is not None else None
                a, b = self.fork(st, ai.ge0(st, addc(sub(n, i), -1)))
                out = []
                if a is not None:
                    j = addc(n, -1)
                    out.append((a, self.mkit('rev', self.mkit('list', L, i, j, byref, lty)), self.item_ref(byref, self.elt(a, L, j, ety), ety)))
                if b is not None:
                    out.append((b, it, None))
                return out
            if inner.var == 'range':
                lo, hi = inner.f
                a, b = self.fork(st, ai.ge0(st, addc(sub(hi, lo), -1)))
                out = []
                if a is not None:
                    out.append((a, self.mkit('rev', self.mkit('range', lo, addc(hi, -1))), addc(hi, -1)))
                if b is not None:
                    out.append((b, it, None))
                return out
            return self.opaque_next(st, it, None)
        if k == 'peekable':
            return [(s, self.mkit('peekable', i2), x) for s, i2, x in self.it_next(st, f[0], site, depth + 1)]
        if k == 'map_while':
            out = []
            for s, i2, x in self.it_next(st, f[0], site, depth + 1):
                if x is None:
                    out.append((s, self.mkit(k, i2, f[1]), None))
                    continue
                for s2, r in ai.call_value(s, f[1], [x], None, (site, 'mw', depth)):
                    for s3, y in self.opt_cases(s2, r):
                        out.append((s3, self.mkit(k, i2, f[1]), y))
            return out
        # looping adaptors
        cell = ('H', 0, ('it', site, depth, k))
        lid = ('loop', 0, ('it', site, depth, k))
        s0 = st.copy()
        s0.mem[cell] = it
        DONE = 'X'

        def step(sts):
            ex = {}
            backs = []
            for s in sts:
                cur = s.mem[cell]
                for s2, i2, x in self.filter_step(s, cur, site, depth):
                    s2 = s2.copy()
                    s2.mem[cell] = i2
                    if x is None:
                        s2.mem[('H', 0, 'item')] = self.opt(None)
                        ex.setdefault(DONE, []).append(s2)
                    elif x is SKIP:
                        backs.append(s2)
                    else:
                        s2.mem[('H', 0, 'item')] = self.opt(None, x)
                        ex.setdefault(DONE, []).append(s2)
            return ex, backs
        ex = ai.fix(lid, [s0], step, info=('iterator adaptor ' + k, ai.stack[-1] if ai.stack else ''))
        out = []
        for s in ai.dedupe(ex.get(DONE, [])):
            i2 = s.mem.pop(cell)
            x = s.mem.pop(('H', 0, 'item'))
            out.append((s, i2, x.f[0] if x.var == 1 else None))
        return out

    def filter_step(self, st, it, site, depth):
        """one inner step: item, None (exhausted) or SKIP"""
        ai = self.ai
        k, f = it.var, it.f
        out = []
        if k in ('flatten', 'flat_map'):
            inner, fn, cur = f
            if cur is not None:
                for s, c2, x in self.it_next(st, cur, site, depth + 1):
                    if x is None:
                        out.append((s, self.mkit(k, inner, fn, None), SKIP))
                    else:
                        out.append((s, self.mkit(k, inner, fn, c2), x))
                return out
            for s, i2, x in self.it_next(st, inner, site, depth + 1):
                if x is None:
                    out.append((s, self.mkit(k, i2, fn, None), None))
                    continue
                res = [(s, x)] if k == 'flatten' else ai.call_value(s, fn, [x], None, (site, 'fm', depth))
                for s2, y in res:
                    c = self.into_it(s2, y)
                    if c is None:
                        c = self.mkit('ext', y, None)
                    out.append((s2, self.mkit(k, i2, fn, c), SKIP))
            return out
        for s, i2, x in self.it_next(st, f[0], site, depth + 1):
            if x is None:
                out.append((s, self.mkit(k, i2, *f[1:]), None))
                continue
            if k == 'skip_while' and f[2]:
                out.append((s, self.mkit(k, i2, *f[1:]), x))
                continue
            arg = x if k == 'filter_map' else R(('V', x))
            for s2, r in ai.call_value(s, f[1], [arg], None if k == 'filter_map' else self.bool_ty, (site, 'pf', depth)):
                if k == 'filter_map':
                    for s3, y in self.opt_cases(s2, r):
                        out.append((s3, self.mkit(k, i2, *f[1:]), SKIP if y is None else y))
                    continue
                a, b = self.fork(s2, r)
                if k == 'skip_while':
                    if a is not None:
                        out.append((a, self.mkit(k, i2, f[1], 0), SKIP))
                    if b is not None:
                        out.append((b, self.mkit(k, i2, f[1], 1), x))
                else:
                    if a is not None:
                        out.append((a, self.mkit(k, i2, *f[1:]), x))
                    if b is not None:
                        out.append((b, self.mkit(k, i2, *f[1:]), SKIP))
        return out

    def consume(self, st, it, site, tag, on_item, acc=None, on_end=None):
        """drive an iterator: on_item(state, item, acc) -> [(state, ('stop', value) | ('go', acc'))]"""
        ai = self.ai
        cell = ('H', 0, ('con', site, tag))
        acell = ('H', 0, ('acc', site, tag))
        rcell = ('H', 0, 'res')
        lid = ('loop', 0, ('con', site, tag))
        s0 = st.copy()
        s0.mem[cell] = it
        if acc is not None:
            s0.mem[acell] = acc

        def step(sts):
            ex = {}
            backs = []
            for s in sts:
                cur = s.mem[cell]
                a = s.mem.get(acell)
                for s2, i2, x in self.it_next(s, cur, (site, tag)):
                    s2 = s2.copy()
                    s2.mem[cell] = i2
                    if x is None:
                        s2.mem[rcell] = self.opt(None, a if a is not None else UNIT)
                        s2.mem[rcell] = A('tuple', None, 0, (self.mkit('end'), a if a is not None else UNIT))
                        ex.setdefault('X', []).append(s2)
                        continue
                    for s3, (what, v) in on_item(s2, x, a):
                        s3 = s3.copy()
                        if what == 'stop':
                            s3.mem[rcell] = A('tuple', None, 0, (self.mkit('stop'), v))
                            ex.setdefault('X', []).append(s3)
                        else:
                            if v is not None:
                                s3.mem[acell] = v
                            backs.append(s3)
            return ex, backs
        ex = ai.fix(lid, [s0], step, info=('iterator consumer ' + tag, ai.stack[-1] if ai.stack else ''))
        out = []
        sts = ex.get('X', [])
        for s in sts:
            s.mem[('H', 0, 'fin')] = s.mem.pop(cell)
            s.mem.pop(acell, None)
        for s in ai.dedupe(sts):
            fin = s.mem.pop(('H', 0, 'fin'))
            r = s.mem.pop(rcell)
            out.append((s, fin, r.f[0].var == 'stop', r.f[1]))
        return out

    def writeback(self, st, arg, it):
        """arg is the &mut I the consumer was called with"""
        if isinstance(arg, Ref):
            r = arg
            while True:
                y = self.ai.read(st, r.loc, r.path)
                if isinstance(y, Ref):
                    r = y
                else:
                    break
            self.ai.write(st, r.loc, r.path, it)

    # ------------------------------------------------------------ formatting
    def fmt_text(self, st, fa, site):
        """Arguments -> [(state, text)]"""
        out = [(st, S(''))]
        if not (isinstance(fa, Agg) and fa.kind == 'fmtargs'):
            fa = self.rd(st, fa)
            if not (isinstance(fa, Agg) and fa.kind == 'fmtargs'):
                return [(st, fresh('fmt'))]
        for n, tok in enumerate(fa.f):
            nw = []
            for s, t in out:
                if isinstance(tok, Term):
                    nw.append((s, cat(t, tok)))
                else:
                    for s2, x in self.display(s, tok, (site, n)):
                        nw.append((s2, cat(t, x)))
            out = nw
        return out

    def display(self, st, tok, site):
        kind, val, ty, spec = tok.f
        ai = self.ai
        if kind == 'g':
            return [(st, fresh('dbg'))]
        v = val
        d = 0
        while isinstance(v, Ref) and d < 10:
            lastref = v
            v = ai.read(st, v.loc, v.path)
            if ty is not None and self.types[ty]['k'] in ('ref',):
                ty = self.types[ty]['ty']
            d += 1
        while ty is not None and self.types[ty]['k'] == 'ref':
            ty = self.types[ty]['ty']
        res = None
        cls = ai.cls(ty) if ty is not None else None
        tk = self.types[ty]['k'] if ty is not None else None
        if cls == 'text' or (ty is None and self.istext(v)):
            res = [(st, v if isinstance(v, Term) else fresh('text'))]
        elif tk == 'char':
            res = [(st, T('chr', v))]
            if isinstance(v, Term) and v.op == 'int':
                res = [(st, S(chr(v.args[0])))]
        elif tk == 'int':
            res = [(st, S(str(v.args[0])) if isinstance(v, Term) and v.op == 'int' else T('itoa', v))]
        elif ty is not None and cls == 'ptr':
            res = [(st, fresh('disp'))]
        elif ty is not None:
            imp = self.F.impl.get(ty, {}).get('Display')
            if imp is not None and 'inst' in imp and self.F.insts[imp['inst']].get('mir'):
                save = st.log
                s = st.copy()
                s.log = ()
                selfv = val if isinstance(val, Ref) else R(('V', val))
                while isinstance(selfv, Ref):
                    nx = ai.read(s, selfv.loc, selfv.path)
                    if isinstance(nx, Ref):
                        selfv = nx
                    else:
                        break
                fm = R(('V', T('fmtr', ty=None)))
                res = []
                for s2, r in ai.call_inst(s, imp['inst'], [selfv, fm], None, (site, 'disp')):
                    if any(e[0] == 'rep' for e in s2.log) and all(e[0] in ('w', 'rep') for e in s2.log):
                        t = cat(*[e[1] if e[0] == 'w' else T('reps', e[1], frozenset(cat(*[x[1] for x in q]) for q in e[2]), ty=None) for e in s2.log])
                    elif any(e[0] != 'w' for e in s2.log):
                        t = T('show', ty, v)
                    else:
                        t = cat(*[e[1] for e in s2.log]) if s2.log else S('')
                    s2 = s2.copy()
                    s2.log = save
                    if isinstance(r, Agg) and r.kind == 'adt' and r.var == 1:
                        continue
                    res.append((s2, t))
        if res is None:
            res = [(st, T('show', ty, v))]
        if spec:
            res = [(s, T('pad', t, *spec)) for s, t in res]
        return res

    # ------------------------------------------------------------ regex
    def rx(self, st, v):
        v = self.rd(st, v)
        return v

    def m_find(self, st, re, t, dty):
        a, b = self.fork(st, T('matched', re, t, ty=self.bool_ty))
        out = []
        if a is not None:
            m = self.mkmatch(a, re, t, I(0))
            out.append((a, self.opt(dty, m)))
        if b is not None:
            out.append((b, self.opt(dty)))
        return out

    def mkmatch(self, st, re, t, g):
        ms, me = T('ms', re, t, g, ty=self.usize), T('me', re, t, g, ty=self.usize)
        self.ai.assume_ge0(st, ms)
        self.ai.assume_ge0(st, sub(me, ms))
        self.ai.assume_ge0(st, sub(textlen(t), me))
        if isinstance(re, Term) and re.op == 'regex' and g.op == 'int' and g.args[0] == 0 and re.args[0].op == 'str':
            anc = self.regex_anchor(re.args[0].args[0])
            if 'start' in anc:
                self.ai.assume_in(st, ms, ((0, 0),))
        self.pos(st, t, ms)
        self.pos(st, t, me)
        return A('match', None, 0, (re, t, g))

    def regex_anchor(self, p):
        return ()

    def mstart(self, m):
        return T('ms', *m.f, ty=self.usize)

    def mend(self, m):
        return T('me', *m.f, ty=self.usize)

    # ------------------------------------------------------------ nom
    def nerr(self, dty, st=None):
        return self.err(dty)

    def nom_call(self, st, f, args, dty, site):
        """IResult of applying parser f to args[0]"""
        inp = self.txt(st, args[0])
        out = []
        for s, r in self.parse(st, f, inp, site):
            if r is None:
                out.append((s, self.err(dty)))
            else:
                rest, v = r
                tt = self.fty(dty, 0, 0)
                out.append((s, self.ok(dty, A('tuple', None, 0, (rest, v)))))
        return out

    def parse(self, st, f, i, site):
        """-> [(state, None | (rest text, output))]"""
        ai = self.ai
        k = f.var if isinstance(f, Agg) and f.kind == 'parser' else None
        st = st.copy()
        L = textlen(i)
        if k is None:
            res = []
            for s, r in ai.call_value(st, f, [i], None, (site, 'p')):
                for s2, x in self.result_cases(s, r):
                    res.append((s2, x))
            return res
        if k == 'oneof':       # char set
            cs = f.f[0]
            out = []
            a, b = self.fork(st, ai.ge0(st, addc(L, -1)))
            if a is not None:
                c = self.charat(i, I(0))
                base = iv_and(ai.iv(a, c), ai.cs(a, i))
                h = a.copy()
                if ai.assume_in(h, c, iv_and(base, cs)):
                    p = T('utf8len', c)
                    self.pos(h, i, p)
                    h.facts[('cs', slice_(i, I(0), p))] = ai.iv(h, c)
                    out.append((h, (slice_(i, p, L), c)))
                n = a.copy()
                if ai.assume_in(n, c, iv_sub(base, cs)):
                    out.append((n, None))
            if b is not None:
                out.append((b, None))
            return out
        if k == 'tag':
            a, b = self.fork(st, T('pre', i, f.f[0], ty=self.bool_ty) if f.f[1] == 0 else T('has', i, T('nocase', f.f[0]), ty=self.bool_ty))
            out = []
            if a is not None:
                n = textlen(f.f[0])
                if ai.assume_ge0(a, sub(L, n)):
                    self.pos(a, i, n)
                    out.append((a, (slice_(i, n, L), slice_(i, I(0), n))))
            if b is not None:
                out.append((b, None))
            return out
        if k in ('tw', 'tt'):
            yes, no = self.pred(st, f.f[0])
            if k == 'tt':
                yes, no = no, yes
            p = T('nomp', f, i, ty=self.usize)
            self.pos(st, i, p)
            pre = slice_(i, I(0), p)
            if pre.op not in ('str',):
                st.facts[('cs', pre)] = iv_and(ai.cs(st, pre), yes)
            out = []
            if f.f[1]:
                a, b = self.fork(st, ai.ge0(st, addc(p, -1)))
                if b is not None:
                    out.append((b, None))
                st = a
            if st is not None:
                a, b = self.fork(st, ai.ge0(st, addc(sub(L, p), -1)))
                if b is not None:
                    out.append((b, (S(''), i)))
                    b.facts[('cs', i)] = iv_and(ai.cs(b, i), yes)
                if a is not None:
                    c = self.charat(i, p)
                    if ai.assume_in(a, c, no):
                        out.append((a, (slice_(i, p, L), pre)))
            return out
        if k == 'alt':
            ps = f.f
            cur = [st]
            out = []
            for n, p in enumerate(ps):
                nxt = []
                for s in cur:
                    for s2, r in self.parse(s, p, i, (site, 'alt', n)):
                        if r is None:
                            nxt.append(s2)
                            # Err::Failure is not backtracked
                        else:
                            out.append((s2, r))
                cur = ai.dedupe(nxt)
            out += [(s, None) for s in cur]
            # a Failure of a sub-parser also fails the whole
            return out
        if k == 'opt':
            out = []
            for s, r in self.parse(st, f.f[0], i, (site, 'opt')):
                if r is None:
                    out.append((s, (i, self.opt(None))))
                else:
                    out.append((s, (r[0], self.opt(None, r[1]))))
            return out
        if k == 'recognize':
            out = []
            for s, r in self.parse(st, f.f[0], i, (site, 'rec')):
                if r is None:
                    out.append((s, None))
                else:
                    p = sub(L, textlen(r[0]))
                    self.pos(s, i, p)
                    out.append((s, (r[0], slice_(i, I(0), p))))
            return out
        if k == 'map':
            out = []
            for s, r in self.parse(st, f.f[0], i, (site, 'map')):
                if r is None:
                    out.append((s, None))
                else:
                    for s2, v in ai.call_value(s, f.f[1], [r[1]], None, (site, 'mapf')):
                        out.append((s2, (r[0], v)))
            return out
        if k == 'count' and f.f[1].op == 'int' and f.f[1].args[0] <= 8:
            cur = [(st, i, ())]
            out = []
            for n in range(f.f[1].args[0]):
                nxt = []
                for s, x, acc in cur:
                    for s2, r in self.parse(s, f.f[0], x, (site, 'cnt', n)):
                        if r is None:
                            out.append((s2, None))
                        else:
                            nxt.append((s2, r[0], acc + (r[1],)))
                cur = nxt
            out += [(s, (x, A('list', None, 0, acc))) for s, x, acc in cur]
            return out
        if k in ('many0', 'many1', 'count'):
            ccs, progress, may_fail_first = self.parser_cs(st, f.f[0], site)
            p = T('nomp', f, i, ty=self.usize)
            self.pos(st, i, p)
            pre = slice_(i, I(0), p)
            if pre.op not in ('str',):
                st.facts[('cs', pre)] = iv_and(ai.cs(st, pre), ccs)
            outl = T('manyout', f, i)
            res = []
            if k == 'many0':
                if not progress:
                    a, b = self.fork(st, T('ok', f, i, ty=self.bool_ty))
                    if b is not None:
                        res.append((b, None))
                    st = a
                res.append((st, (slice_(i, p, L), outl)))
            else:
                a, b = self.fork(st, T('ok', f, i, ty=self.bool_ty))
                if a is not None:
                    if progress:
                        ok = ai.assume_ge0(a, addc(p, -1))
                    res.append((a, (slice_(i, p, L), outl)))
                if b is not None:
                    res.append((b, None))
            return res
        a, b = self.fork(st, T('ok', f, i, ty=self.bool_ty))
        out = []
        if a is not None:
            p = T('nomp', f, i, ty=self.usize)
            self.pos(a, i, p)
            out.append((a, (slice_(i, p, L), T('nomout', f, i))))
        if b is not None:
            out.append((b, None))
        return out

    def result_cases(self, st, r):
        ai = self.ai
        if isinstance(r, Agg) and r.kind == 'adt':
            if r.var == 0:
                t = r.f[0]
                if isinstance(t, Agg) and t.kind == 'tuple':
                    return [(st, (t.f[0], t.f[1]))]
                return [(st, (fresh('rest'), fresh('out')))]
            return [(st, None)]
        d = ai.discr(st, r, getattr(r, 'ty', None))
        out = []
        a = st.copy()
        if ai.assume_in(a, d, ((0, 0),)):
            ty = getattr(r, 'ty', None)
            p = ai.proj(r, 0, 0, self.fty(ty, 0, 0))
            out.append((a, (ai.proj(p, 0, 0, None), ai.proj(p, 0, 1, None))))
        b = st.copy()
        if ai.assume_in(b, d, ((1, 1),)):
            out.append((b, None))
        return out

    def parser_cs(self, st, f, site):
        """(charset of what one application consumes, always consumes, _)"""
        key = ('pcs', self.ai.deepval(st, f))
        r = self.parser_cs_cache.get(key)
        if r is not None:
            return r
        ai = self.ai
        x = T('pinput', self.F.tyby.get('&str') and 0 or 0)
        s = State()
        s.mem = dict(st.mem)
        ai.dry += 1
        ccs = ()
        progress = True
        try:
            for s2, r2 in self.parse(s, f, x, (site, 'pcs')):
                if r2 is None:
                    continue
                p = sub(textlen(x), textlen(r2[0]))
                ccs = iv_or(ccs, ai.cs(s2, slice_(x, I(0), p)))
                if not ai.prove(s2, addc(p, -1)):
                    progress = False
        finally:
            ai.dry -= 1
        r = (ccs, progress, True)
        self.parser_cs_cache[key] = r
        return r


SKIP = object()
PATHS = {}
NAMES = {}
PREFIX = []

import stdmodels  # noqa: E402  (registers PATHS / NAMES / PREFIX)
