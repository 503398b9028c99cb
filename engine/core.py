"""Terms, values, facts and states of the abstract interpreter."""
import itertools

# ---------------------------------------------------------------- interning
_TAB = {}
_CNT = itertools.count(1)


class Node:
    __slots__ = ()


class Term(Node):
    """Uninterpreted / symbolic term. `ty` is advisory (type id)."""
    __slots__ = ('op', 'args', 'ty', 'id')

    def __repr__(self):
        return show(self)


class Agg(Node):
    """Structured value: kind in adt,tuple,array,closure,fn,iter,parser,fmtarg,fmtargs,map,..."""
    __slots__ = ('kind', 'ty', 'var', 'f', 'id')

    def __repr__(self):
        return show(self)


class Ref(Node):
    __slots__ = ('loc', 'path', 'id')

    def __repr__(self):
        return show(self)


def T(op, *args, ty=None):
    k = ('T', op, args)
    t = _TAB.get(k)
    if t is None:
        t = Term()
        t.op, t.args, t.ty, t.id = op, args, ty, next(_CNT)
        _TAB[k] = t
    elif ty is not None and (t.ty is None or op == 'phi'):
        t.ty = ty
    return t


def A(kind, ty, var, f):
    f = tuple(f)
    k = ('A', kind, ty, var, f)
    t = _TAB.get(k)
    if t is None:
        t = Agg()
        t.kind, t.ty, t.var, t.f, t.id = kind, ty, var, f, next(_CNT)
        _TAB[k] = t
    return t


def R(loc, path=()):
    k = ('R', loc, path)
    t = _TAB.get(k)
    if t is None:
        t = Ref()
        t.loc, t.path, t.id = loc, path, next(_CNT)
        _TAB[k] = t
    return t


_FRESH = itertools.count(1)


def fresh(name, ty=None):
    return T('sym', name, next(_FRESH), ty=ty)


def I(v):
    return T('int', v)


TRUE = T('bool', True)
FALSE = T('bool', False)


def B(v):
    return TRUE if v else FALSE


def S(s):
    return T('str', s)


UNIT = A('tuple', None, 0, ())


def show(v, d=0):
    if d > 7:
        return '..'
    if isinstance(v, Term):
        if v.op == 'int':
            return str(v.args[0])
        if v.op == 'bool':
            return str(v.args[0])
        if v.op == 'str':
            return repr(v.args[0])
        if v.op == 'lin':
            return '(' + ' + '.join([str(v.args[0])] + ['%s*%s' % (c, show(t, d + 1)) for t, c in v.args[1]]) + ')'
        if v.op in ('arg', 'formal'):
            return '%s(%s)' % (v.op, v.args[0])
        return v.op + '(' + ', '.join(show(a, d + 1) for a in v.args) + ')'
    if isinstance(v, Agg):
        if v.kind == 'adt':
            return 'adt%s#%s{' % (v.ty, v.var) + ', '.join(show(a, d + 1) for a in v.f) + '}'
        return v.kind + ('' if v.ty is None else str(v.ty)) + '[' + ', '.join(show(a, d + 1) for a in v.f) + ']'
    if isinstance(v, Ref):
        return '&' + show(v.loc, d + 1) + ''.join('.' + str(p) for p in v.path)
    if isinstance(v, tuple):
        return '(' + ','.join(show(a, d + 1) for a in v) + ')'
    return str(v)


# ---------------------------------------------------------------- intervals
MAXCP = 0x10FFFF
DIGITS = ((48, 57),)


def iv_norm(x):
    out = []
    for lo, hi in sorted(x):
        if lo > hi:
            continue
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return tuple(out)


def iv_and(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def iv_or(a, b):
    return iv_norm(tuple(a) + tuple(b))


INF = 1 << 200


def iv_not(a, lo=-INF, hi=INF):
    out = []
    p = lo
    for x, y in a:
        if p < x:
            out.append((p, x - 1))
        p = max(p, y + 1)
    if p <= hi:
        out.append((p, hi))
    return tuple(out)


def iv_sub(a, b):
    return iv_and(a, iv_not(b))


def iv_subset(a, b):
    return iv_and(a, b) == tuple(a)


def cs_of(s):
    return iv_norm([(ord(c), ord(c)) for c in s])


ALLCS = ((0, MAXCP),)

# ---------------------------------------------------------------- linear terms


def lin_parts(t):
    """-> (const, {term: coef})"""
    if t.op == 'int':
        return t.args[0], {}
    if t.op == 'lin':
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}


def lin_mk(c, d):
    d = {t: k for t, k in d.items() if k != 0}
    if not d:
        return I(c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return T('lin', c, tuple(sorted(d.items(), key=lambda x: x[0].id)))


def add(a, b, k=1):
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    d = dict(da)
    for t, c in db.items():
        d[t] = d.get(t, 0) + k * c
    return lin_mk(ca + k * cb, d)


def sub(a, b):
    return add(a, b, -1)


def addc(a, c):
    return add(a, I(c))


# ---------------------------------------------------------------- text
def slice_(base, lo, hi):
    """sub-text of base; positions in bytes of base"""
    if base.op == 'slice':
        b, l0, h0 = base.args
        return slice_(b, add(l0, lo), add(l0, hi))
    if lo.op == 'int' and lo.args[0] == 0 and hi is textlen(base):
        return base
    if base.op == 'str' and lo.op == 'int' and hi.op == 'int':
        bs = base.args[0].encode()
        try:
            return S(bs[lo.args[0]:hi.args[0]].decode())
        except UnicodeDecodeError:
            pass
    if lo is hi:
        return S('')
    return T('slice', base, lo, hi)


def textlen(t):
    if not isinstance(t, Term):
        return fresh('len')
    if t.op == 'str':
        return I(len(t.args[0].encode()))
    if t.op == 'slice':
        return sub(t.args[2], t.args[1])
    if t.op == 'cat':
        r = I(0)
        for x in t.args:
            r = add(r, textlen(x))
        return r
    if t.op == 'rep' and t.args[0].op == 'str' and len(t.args[0].args[0].encode()) == 1:
        return t.args[1]
    if t.op == 'norm' and t.args[0] is S(''):
        return I(0)
    if t.op == 'chr' and t.args[0].op == 'int':
        return I(len(chr(t.args[0].args[0]).encode()))
    return T('len', t)


def cat(*parts):
    out = []
    for p in parts:
        ps = p.args if p.op == 'cat' else (p,)
        for q in ps:
            if q.op == 'str' and q.args[0] == '':
                continue
            if q.op == 'chr' and q.args[0].op == 'int':
                q = S(chr(q.args[0].args[0]))
            if out and out[-1].op == 'str' and q.op == 'str':
                out[-1] = S(out[-1].args[0] + q.args[0])
            elif (out and out[-1].op == 'slice' and q.op == 'slice' and out[-1].args[0] is q.args[0]
                  and out[-1].args[2] is q.args[1]):
                out[-1] = slice_(q.args[0], out[-1].args[1], q.args[2])
            else:
                out.append(q)
    if not out:
        return S('')
    if len(out) == 1:
        return out[0]
    return T('cat', *out)


# ---------------------------------------------------------------- substitution
def subst(v, m, memo=None):
    if memo is None:
        memo = {}
    if v in m:
        return m[v]
    if not isinstance(v, (Node, tuple)):
        return v
    if v in memo:
        return memo[v]
    if isinstance(v, tuple):
        r = tuple(subst(x, m, memo) for x in v)
    elif isinstance(v, Term):
        if v.op in ('int', 'bool', 'str', 'sym'):
            r = v
        elif v.op == 'lin':
            r = I(v.args[0])
            for t, c in v.args[1]:
                r = add(r, subst(t, m, memo), c)
        elif v.op == 'slice':
            n = tuple(subst(x, m, memo) for x in v.args)
            r = v if n == v.args else slice_(*n)
        elif v.op == 'len':
            n = subst(v.args[0], m, memo)
            r = v if n is v.args[0] else textlen(n)
        elif v.op == 'cat':
            n = tuple(subst(x, m, memo) for x in v.args)
            r = v if n == v.args else cat(*n)
        else:
            n = tuple(subst(x, m, memo) for x in v.args)
            r = v if n == v.args else T(v.op, *n, ty=v.ty)
    elif isinstance(v, Agg):
        n = tuple(subst(x, m, memo) for x in v.f)
        r = v if n == v.f else A(v.kind, v.ty, v.var, n)
    else:
        r = R(subst(v.loc, m, memo), v.path)
    memo[v] = r
    return r


def mentions(v, t, memo=None):
    """does value v mention term t"""
    if v is t:
        return True
    if memo is None:
        memo = {}
    if isinstance(v, tuple):
        return any(mentions(x, t, memo) for x in v)
    if not isinstance(v, Node):
        return False
    if v in memo:
        return memo[v]
    memo[v] = False
    if isinstance(v, Term):
        r = any(mentions(x, t, memo) for x in v.args)
    elif isinstance(v, Agg):
        r = any(mentions(x, t, memo) for x in v.f)
    else:
        r = mentions(v.loc, t, memo)
    memo[v] = r
    return r


def subterms(v, out=None):
    if out is None:
        out = set()
    if isinstance(v, tuple):
        for x in v:
            subterms(x, out)
        return out
    if not isinstance(v, Node) or v in out:
        return out
    out.add(v)
    if isinstance(v, Term):
        for x in v.args:
            subterms(x, out)
    elif isinstance(v, Agg):
        for x in v.f:
            subterms(x, out)
    else:
        subterms(v.loc, out)
    return out


# ---------------------------------------------------------------- state
class State:
    __slots__ = ('mem', 'facts', 'lins', 'log', 'dead')

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.lins = frozenset()
        self.log = ()
        self.dead = False

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.lins = self.lins
        s.log = self.log
        return s


INT_RANGES = {}


def int_range(bits, signed):
    if signed:
        return ((-(1 << (bits - 1)), (1 << (bits - 1)) - 1),)
    return ((0, (1 << bits) - 1),)


LENMAX = (1 << 62)
