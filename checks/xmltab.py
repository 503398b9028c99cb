"""Decision tables of the loading code: what each loop pass does for each attribute and element name."""
from checks import loading
from checks.lib import *

LP = 'crate::metadata::loader::'
MP = {'Metadata': 'crate::metadata::metadata::Metadata', 'Descriptors': 'crate::metadata::metadata::Descriptors',
      'Descriptor': 'crate::metadata::descriptor::Descriptor', 'Format': 'crate::metadata::format::Format'}
OTHER = 'zzNotInTheSchema'


def adt(ctx, path):
    return next((i for i, t in enumerate(ctx.F.types) if t['k'] == 'adt' and t['path'] == path), None)


def okty(ctx, ty):
    """T of Result<T, _>"""
    t = ctx.F.types[ty]
    if t['k'] == 'adt' and t['path'] == 'core::result::Result':
        return t['args'][0]
    return None


def sig(ctx, i):
    b = ctx.F.body(i)
    return [b.locals[n] for n in range(1, b.argc + 1)], b.locals[0]


def tname(ctx, ty):
    return ctx.F.types[ty]['s']


def localfns(ctx):
    seen = set()
    for i, x in enumerate(ctx.F.insts):
        if x['local'] and x.get('mir') and ' as serde' not in x['path'] and '::_::' not in x['path']:
            yield i


def reader_fns(ctx):
    """one instance of every local function that gets the XML reader: path -> inst"""
    out = {}
    for i in localfns(ctx):
        a, r = sig(ctx, i)
        if any('quick_xml::reader::Reader<' in tname(ctx, t) for t in a) and okty(ctx, r) is not None:
            p = ctx.F.insts[i]['path']
            if p not in out or 'Cursor' in ''.join(tname(ctx, t) for t in a):
                out[p] = i
    return out


def derived(ctx):
    """clone and default of the loader's own structures: followed, not opaque"""
    return tuple(i for i in localfns(ctx) if ctx.F.insts[i]['path'].startswith('<' + LP) and
                 (' as core::clone::Clone>::clone' in ctx.F.insts[i]['path'] or ' as core::default::Default>::default' in ctx.F.insts[i]['path']))


def changes(ctx, k):
    """the function changes something it is given other than the reader and a byte buffer: a helper that is followed"""
    for t in sig(ctx, k)[0]:
        x = ctx.F.types[t]
        if x['k'] == 'ref' and x.get('mut') and 'quick_xml::reader::Reader<' not in x['s'] and 'alloc::vec::Vec<u8>' not in x['s']:
            return True
    return False


# ---- does a state allow that a text has a given value

def base(t):
    """strip conversions between bytes and text"""
    while isinstance(t, Term) and t.op in ('utf8', 'unescape', 'xbytes', 'xmlbytes', 'string', 'bytes') and isinstance(t.args[0], Term):
        t = t.args[0]
    return t


def inr(n, rs):
    return any(a <= n <= b for a, b in rs)


def lit(b):
    """constant text, or None"""
    if isinstance(b, Term) and b.op == 'str':
        return b.args[0]
    if isinstance(b, Agg) and b.kind in ('array', 'list') and all(isinstance(x, Term) and x.op == 'int' for x in b.f):
        try:
            return bytes(x.args[0] for x in b.f).decode()
        except (ValueError, UnicodeDecodeError):
            return None
    return None


def num(k):
    return k if isinstance(k, int) else k.args[0] if isinstance(k, Term) and k.op == 'int' else None


def allows(st, t, s):
    """(possible, exact): may the text t be s in this state; exact is False when some fact about t is not understood"""
    exact = True
    bs = s.encode()
    for q, v in st.facts.items():
        if isinstance(q, tuple):
            if len(q) >= 2 and base(q[1]) is t:
                if q[0] == 'cs':
                    if not all(inr(ord(c), v) for c in s):
                        return False, True
                elif q[0] != 'bd':
                    exact = False
            continue
        if not isinstance(q, Term):
            continue
        op = q.op
        if op in ('eqs', 'eqv') and any(base(x) is t for x in q.args[:2]):
            b = [lit(x) for x in q.args[:2] if base(x) is not t]
            if b and b[0] is not None:
                if (b[0] == s) != v:
                    return False, True
            else:
                exact = False
        elif op in ('len', 'llen') and base(q.args[0]) is t:
            if not inr(len(bs), v):
                return False, True
        elif op == 'elt' and base(q.args[0]) is t:
            k = num(q.args[1])
            if k is None:
                exact = False
            elif k >= len(bs) or not inr(bs[k], v):
                return False, True
        elif op in ('ok', 'discr', 'isnext'):
            continue
        elif op in ('pre', 'suf', 'bpre', 'bsuf') and base(q.args[0]) is t and lit(q.args[1]) is not None:
            x = lit(q.args[1])
            if (s.startswith(x) if op in ('pre', 'bpre') else s.endswith(x)) != v:
                return False, True
        elif any(x is t for x in terms(q)) and not any(isinstance(x, Term) and x.op in ('call', 'optmap') for x in terms(q)):
            exact = False
    return True, exact


def pinned_name(st, t):
    """the one text t must be in this state; False when it certainly may be one of infinitely many; None when some fact about it is not understood"""
    n, el, clear = None, {}, True
    for q, v in st.facts.items():
        if isinstance(q, tuple) or not isinstance(q, Term):
            continue
        if q.op in ('eqs', 'eqv') and any(base(x) is t for x in q.args[:2]):
            b = [lit(x) for x in q.args[:2] if base(x) is not t]
            if v and b and b[0] is not None:
                return b[0]
            if v:
                clear = False
        elif q.op in ('len', 'llen') and base(q.args[0]) is t:
            if len(v) == 1 and v[0][0] == v[0][1]:
                n = v[0][0]
        elif q.op == 'elt' and base(q.args[0]) is t:
            k = num(q.args[1])
            if k is None:
                clear = False
            elif len(v) == 1 and v[0][0] == v[0][1]:
                el[k] = v[0][0]
        elif q.op in ('pre', 'suf', 'bpre', 'bsuf', 'contains', 'preset', 'sufset') and base(q.args[0]) is t:
            continue
        elif q.op not in ('ok', 'discr', 'isnext') and any(x is t for x in terms(q)) and not any(isinstance(x, Term) and x.op in ('call', 'optmap') for x in terms(q)):
            clear = False
        elif q.op == 'call' and any(x is t for x in terms(q)):
            clear = False
    if n is not None and all(k in el for k in range(n)):
        return bytes(el[k] for k in range(n)).decode('latin1')
    return False if clear else None


KIND = {0: 'Start', 1: 'End', 2: 'Empty', 3: 'Text', 4: 'CData', 5: 'Comment', 6: 'Decl', 7: 'PI', 8: 'DocType', 9: 'GeneralRef', 10: 'Eof'}


def events(ctx, st, skip=()):
    """reader events the state knows about: [(event, set of kinds)]"""
    out = []
    for q, v in st.facts.items():
        if isinstance(q, Term) and q.op == 'discr':
            x = q.args[0]
            if isinstance(x, Term) and x.op == 'fld' and isinstance(x.args[0], Term) and x.args[0].op == 'sym' and x.args[0].args[0] == 'event' and x not in skip:
                out.append((x, {k for k in range(0, 11) if inr(k, v)}))
    return out


def ename(st, ev):
    """name term of the current event, as found in the state"""
    for q in st.facts:
        for x in terms(q):
            if isinstance(x, Term) and x.op == 'xname' and any(y is ev for y in terms(x)):
                return x
    return None


def attr_items(st):
    """attributes the state has taken from an element: [(item, key term, value term)]"""
    out = []
    for q, v in st.facts.items():
        if isinstance(q, Term) and q.op == 'isnext' and v is True and any(isinstance(x, Term) and x.op == 'xattrs' for x in terms(q.args[0])):
            out.append(q.args)
    return out


class Step:
    """one loop pass that returns to the head"""

    def __init__(self, kind, head, state, **kw):
        self.kind, self.head, self.state = kind, head, state
        self.__dict__.update(kw)


class Table:
    def __init__(self, ctx, i, deep):
        self.ctx, self.i = ctx, i
        self.path = ctx.F.insts[i]['path']
        a = loading.shallow(ctx, i, deep, only=lambda k: not changes(ctx, k))
        a.pair_heads = True
        self.r = r = Run(ctx, i, ai_=a, deadline=200)
        self.a = a
        self.bad = r.timeout or r.tainted
        self.attrs, self.events, self.other = [], [], []
        self.oks, self.errs, self.odd = [], [], []
        if self.bad:
            return
        for L in a.loops:
            for h, backs in L['pairs']:
                for s in backs:
                    self.step(L, h, s)
        for st, v in r.outs:
            v = a.deepval(st, v)
            while isinstance(v, Ref):
                v = a.read(st, v.loc, v.path)
            k = self.variant(st, v)
            (self.oks if k == 0 else self.errs if k == 1 else self.odd).append((st, v))

    def variant(self, st, v):
        if isinstance(v, Agg):
            return v.var
        if isinstance(v, Term):
            d = st.facts.get(T('discr', v))
            if d is not None and len(d) == 1 and d[0][0] == d[0][1]:
                return d[0][0]
            if v.op == 'call' and self.result_like(v):
                return 0 if d is None else None
        return None

    def result_like(self, v):
        return True

    def step(self, L, h, s):
        new = [q for q, v in s.facts.items() if h.facts.get(q) != v]
        items, evs, done = [], [], False
        for q in new:
            if isinstance(q, Term) and q.op == 'isnext' and any(isinstance(x, Term) and x.op == 'xattrs' for x in terms(q.args[0])):
                if s.facts[q] is True:
                    items.append(T('item', q.args[0], q.args[1]))
                elif s.facts[q] is False:
                    done = True
        old = [x for x, _ in events(self.ctx, h)]
        evs = [(x, k) for x, k in events(self.ctx, s, old)]
        if items and not done:
            it = items[-1]
            at = T('fld', it, 0, 0)
            self.attrs.append(Step('attr', h, s, item=it, key=T('fld', at, 0, 0), val=T('fld', at, 0, 1), loop=L))
        elif evs:
            ev, kinds = evs[-1]
            self.events.append(Step('event', h, s, ev=ev, kinds=kinds, name=ename(s, ev), loop=L))
        else:
            self.other.append(Step('other', h, s, loop=L))

    def names(self, steps, cands, of):
        """per candidate name the steps it may take: {name: [(step, exact)]}"""
        out = {n: [] for n in cands}
        for s in steps:
            t = of(s)
            for n in cands:
                if t is None:
                    out[n].append((s, True))
                    continue
                p, e = allows(s.state, base(t), n)
                if p:
                    out[n].append((s, e))
        return out


def origin(v):
    """(cell, path) a value was taken over from, through unchanged loops"""
    path = ()
    while isinstance(v, Term) and v.op == 'fld':
        path = (v.args[2],) + path
        if v.args[1] != 0:
            return None
        v = v.args[0]
    if isinstance(v, Term) and v.op == 'phi':
        return v.args[1], tuple(v.args[2]) + path
    return None


def norm(v):
    """Some(payload of x) is x"""
    if isinstance(v, Agg) and v.kind == 'adt' and v.var == 1 and len(v.f) == 1:
        x = v.f[0]
        if isinstance(x, Term) and x.op == 'fld' and x.args[1] == 1 and x.args[2] == 0:
            return x.args[0]
    return v


def at(v, path):
    for k in path:
        v = field_of(v, k)
        if v is None:
            return None
    return v


def leaves(ctx, ty, depth=0):
    """paths of the fields of a loader structure"""
    t = ctx.F.types[ty]
    if depth < 4 and t['k'] == 'adt' and t['path'].startswith(LP) and t['akind'] == 'struct':
        out = []
        for k, f in enumerate(t['variants'][0]['fields']):
            out += [(k,) + p for p in leaves(ctx, f[1], depth + 1)]
        return out
    return [()]


def isconst_none(v):
    return isinstance(v, Agg) and v.kind == 'adt' and v.var == 0 and not v.f


def empty(v):
    return isconst_none(v) or v is core.FALSE or isinstance(v, Agg) and v.kind in ('list', 'vec') and not v.f
