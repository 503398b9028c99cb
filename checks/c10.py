"""C10: digits and letters are normalised exactly"""
import unicodedata
from engine import relang
from checks import kernels as K
from checks import parsek as P
from checks import codek as C
from checks import loading
from checks import xmltab as X
from checks.lib import *

LEVEL = 'proof'
RULE = ('obligation = (decimal digit of a script, digit function), (pass of the mapping loop, character class, table of letters), (field of the record, exit of the normalising function), '
        '(exit of the calling code function, table of letters); discharged when the pass appends exactly what the character counts as, in order, nothing is lost, and the table with letters is used exactly for three letters or more')
EXPLAIN = ('The digit function is evaluated symbolically into ranges of characters with the exact result on each, compared with the Unicode database; the letter tables are evaluated from their initialisers; the mapping '
           'loop is analysed pass by pass as an inductive argument (what is appended for the character taken); the pattern that accepts letters is compared as an automaton.')
ASSUME = ['library models of strings, maps and character iterators are correct', 'the Unicode database of the analysing Python: later digits are accepted as runs of ten']

KEYS = dict(zip('ABCDEFGHIJKLMNOPQRSTUVWXYZ', '22233344455566677778889999'))
LETTERS = {c: d for k, d in KEYS.items() for c in (k, k.lower())}
DIGITS = {c: c for c in '0123456789'}
HI = 0x10ffff


def decimal(c):
    """value of a character as a decimal digit, None if it is none, 'new' for a character this Unicode database does not know"""
    ch = chr(c)
    if unicodedata.category(ch) == 'Cn':
        return 'new'
    return unicodedata.decimal(ch, None) if unicodedata.category(ch) == 'Nd' else None


class Bad(Exception):
    pass


class Eval:
    """values of terms when a variable stands for a given character"""

    def __init__(self, ctx, fns):
        self.ctx, self.fns, self.memo = ctx, fns, {}

    def table(self, inst):
        if inst not in self.memo:
            r = K.table(self.ctx, inst, [], deadline=60)
            self.memo[inst] = None if r.tainted or not r.outs else [(st, K.plain(r.a, st, v)) for st, v in r.outs], r
        return self.memo[inst]

    def apply(self, inst, c):
        """the result of a character function: ('some', value), ('none',), or a plain value"""
        t, r = self.table(inst)
        if t is None:
            raise Bad(r.why())
        arg = K.unstar(r.args[0])[0]
        for st, v in t:
            if self.holds(st, {arg: c, r.args[0]: c}):
                return self.value(v, {arg: c, r.args[0]: c})
        raise Bad('no exit for character %x' % c)

    def holds(self, st, env, maps=()):
        for q, v in st.facts.items():
            if not isinstance(q, Term):
                continue
            try:
                x = self.value(q, env, maps)
            except Bad:
                if any(k is y for k in env for y in terms(q)):
                    raise
                continue
            if isinstance(x, str) and len(x) == 1:
                x = ord(x)
            if isinstance(x, tuple):
                raise Bad('structured value in a condition')
            if isinstance(v, bool) or isinstance(x, bool):
                if isinstance(v, tuple):
                    v = v[0][0] == 1 if len(v) == 1 and v[0][0] == v[0][1] else None
                if v is not None and bool(x) != bool(v):
                    return False
            elif isinstance(v, tuple):
                if not any(a <= x <= b for a, b in v):
                    return False
            else:
                raise Bad('condition')
        return True

    def value(self, t, env, maps=()):
        if isinstance(t, Agg):
            if t.kind == 'adt' and t.var in (0, 1) and len(t.f) <= 1:
                return ('some', self.value(t.f[0], env, maps)) if t.f else ('none',)
            raise Bad('value')
        if isinstance(t, Ref):
            raise Bad('reference')
        for k, c in env.items():
            if t is k:
                return c
        op = t.op
        if op == 'int':
            return t.args[0]
        if op == 'bool':
            return bool(t.args[0])
        if op == 'lin':
            c = t.args[0]
            for x, k in t.args[1]:
                v = self.value(x, env, maps)
                if not isinstance(v, int):
                    raise Bad('sum')
                c += k * v
            return c
        if op == '*':
            return self.value(t.args[0], env, maps)
        if op == 'discr':
            v = self.value(t.args[0], env, maps)
            if isinstance(v, tuple):
                return 1 if v[0] == 'some' else 0
            raise Bad('discriminant')
        if op == 'fld':
            v = self.value(t.args[0], env, maps)
            if isinstance(v, tuple) and v[0] == 'some' and t.args[1] == 1:
                return v[1]
            raise Bad('field')
        if op == 'call' and t.args[1] in self.fns and len(t.args[2]) == 1:
            v = self.value(t.args[2][0], env, maps)
            return self.apply(t.args[1], v)
        if op in ('mhas', 'mapget'):
            m = [d for k, d in maps if k is K.unstar(t.args[0])[0] or k is t.args[0]]
            if len(m) != 1:
                raise Bad('map')
            v = chr(self.value(t.args[1], env, maps))
            if op == 'mhas':
                return v in m[0]
            if v not in m[0]:
                raise Bad('absent key')
            return ord(m[0][v])
        if op == 'not':
            return not self.value(t.args[0], env, maps)
        raise Bad(op)


def charfns(ctx):
    """functions from one character to an optional character, number or truth"""
    out = []
    for i in X.localfns(ctx):
        a, r = X.sig(ctx, i)
        if len(a) == 1 and K.base_name(ctx, a[0]) == 'char' and X.tname(ctx, r) in ('core::option::Option<char>', 'core::option::Option<u8>', 'core::option::Option<u32>', 'char', 'bool'):
            out.append(i)
    return out


def ranges(st, arg):
    """characters for which an exit is taken, or None when it depends on anything else"""
    v = None
    for q, x in st.facts.items():
        if not isinstance(q, core.Node):
            continue
        if q is arg and isinstance(x, tuple):
            v = x
        elif isinstance(q, Term) and not (q.op == 'discr'):
            return None
    return v or ((0, HI),)


def digits(ctx, res, fns, ev):
    """every function that gives a digit for a character of any script gives its value"""
    n = 0
    nd = [c for c in range(HI + 1) if decimal(c) is not None and decimal(c) != 'new']
    for i in fns:
        if X.tname(ctx, X.sig(ctx, i)[1]) != 'core::option::Option<char>':
            continue
        t, r = ev.table(i)
        name = ctx.F.insts[i]['path']
        if t is None:
            res.und('digits', '%s: %s' % (name, r.why()))
            continue
        arg = K.unstar(r.args[0])[0]
        table, bad = {}, None
        for st, v in t:
            rg = ranges(st, arg)
            if rg is None or not isinstance(v, Agg):
                bad = 'an exit depends on more than the character'
                break
            if v.var == 0:
                continue
            for a, b in rg:
                if b - a > 5000:
                    bad = 'a digit for a large range of characters'
                    break
                for c in range(a, b + 1):
                    try:
                        table[c] = ev.value(v.f[0], {arg: c, r.args[0]: c})
                    except Bad as x:
                        bad = str(x)
        if bad:
            res.und('digits', '%s: %s' % (name, bad))
            continue
        if not table or not all(isinstance(x, int) for x in table.values()) or table.get(0x661) is None:
            continue                    # not a function on digits
        n += 1
        res.ok()
        for c in sorted(set(nd) | set(table)):
            want, got = decimal(c), table.get(c)
            if 0xd800 <= c <= 0xdfff:
                continue
            if want == 'new':
                run = c - (got - 48)
                (res.ok if all(table.get(run + k) == 48 + k for k in range(10)) else
                 lambda: res.und('digits', '%s: character %x is not known to this Unicode database' % (name, c)))()
            elif want is None:
                res.bad('digits', '%s takes the character %x, which is not a decimal digit, for a digit' % (name, c))
            elif got is None:
                res.bad('digits', '%s gives no value for the decimal digit %x (%s)' % (name, c, unicodedata.name(chr(c), '?')))
            elif got != 48 + want:
                res.bad('digits', '%s gives the digit %s for %x (%s)' % (name, chr(got), c, unicodedata.name(chr(c), '?')))
            else:
                res.ok()
    return n


def mappers(ctx):
    """functions that map the characters of a text with a table"""
    out = []
    for i in X.localfns(ctx):
        a, r = X.sig(ctx, i)
        n = [K.base_name(ctx, t) for t in a]
        if len(a) == 2 and '{closure' not in ctx.F.insts[i]['path'] and sum(x.split('<')[0] in P.STR for x in n) == 1 and any('HashMap<char, char' in x for x in n) \
                and K.base_name(ctx, r).split('<')[0] in P.STR:
            out.append(i)
    return out


def cursors(a, s, src):
    """iterators over the text: place -> position"""
    out = {}

    def look(v, d=0):
        if isinstance(v, Agg) and d < 8:
            if v.kind == 'it' and v.var == 'chars' and len(v.f) > 1 and v.f[0] is src:
                return v.f[1]
            if v.kind == 'it':
                for x in v.f:
                    y = look(x, d + 1)
                    if y is not None:
                        return y
        return None
    for loc, v in s.mem.items():
        if isinstance(v, Agg):
            p = look(v)
            if p is not None:
                out[loc] = p
    return out


def taken(a, s, src, lo, hi, limit=3):
    """the characters between two positions, None if not that many"""
    out, p = [], lo
    while len(out) <= limit:
        if p is hi or is_zero(sub(p, hi)):
            return out
        ch = T('charat', src, p)
        out.append(ch)
        p = core.add(p, T('utf8len', ch))
    return None


def is_zero(t):
    return isinstance(t, Term) and t.op == 'int' and t.args[0] == 0


def texts(s):
    return {loc: v for loc, v in s.mem.items() if isinstance(v, Term)}


def origin(v, loc, lid):
    return isinstance(v, Term) and v.op == 'phi' and v.args[0] == lid and v.args[1] == loc


def pieces(v):
    """parts appended to a text"""
    if isinstance(v, Term) and v.op == 'cat':
        return list(v.args)
    return [v]


def same(x, y):
    return x is y


def appended(v, old):
    """what a pass appended to the text, None if it is not of that form"""
    if v is old:
        return []
    p = pieces(v)
    if p and p[0] is old:
        return p[1:]
    return None


def interesting(s_list, ev, fns):
    """characters that stand for all: everything between two of them behaves alike"""
    cs = set(range(0, 256)) | {0x2010, 0x30fc, 0xff0b, 0xff21, 0xff41, HI, 0xd7ff, 0xe000}
    for c in range(HI + 1):
        if decimal(c) not in (None, 'new'):
            cs |= {c - 1, c, c + 1}
    for s in s_list:
        for q, v in s.facts.items():
            if isinstance(q, Term) and isinstance(v, tuple) and q.op == 'charat':
                for a, b in v:
                    cs |= {a - 1, a, a + 1, b - 1, b, b + 1}
    return sorted(c for c in cs if 0 <= c <= HI and not 0xd800 <= c <= 0xdfff)


def counts_as(c, m):
    d = decimal(c)
    if d not in (None, 'new'):
        return chr(48 + d)
    return m.get(chr(c), '')


def text_of(ev, ps, env, maps):
    out = ''
    for p in ps:
        if isinstance(p, Term) and p.op == 'chr':
            out += chr(ev.value(p.args[0], env, maps))
        elif isinstance(p, Term) and p.op == 'str':
            out += p.args[0]
        else:
            raise Bad('piece')
    return out


TABLES = {'with letters': dict(DIGITS, **LETTERS), 'without letters': DIGITS}


def contribution(ev, res, key, s, chars, ps, m, what):
    """the pass appends what its characters count as, for every character and both tables"""
    n = 0
    for name, table in TABLES.items():
        if len(chars) != 1:
            raise Bad('%d characters in one pass' % len(chars))
        for c in interesting([s], ev, ev.fns):
            env, maps = {chars[0]: c}, [(m, table)]
            if not ev.holds(s, env, maps):
                continue
            if decimal(c) == 'new':
                continue
            n += 1
            got, want = text_of(ev, ps, env, maps), counts_as(c, table)
            if got != want:
                res.bad(key, '%s the character U+%04X (%s) counts as "%s" instead of "%s"' % (name, c, unicodedata.name(chr(c), '?'), got, want))
                return n
    res.ok()
    return n


def mapping(ctx, res, ev, inst):
    """the loop that maps the characters of a text"""
    key = 'mapping ' + ctx.F.insts[inst]['path'].split('::')[-1]
    a = loading.shallow(ctx, inst, only=lambda k: k in ev.fns)
    a.pair_heads = True
    r = Run(ctx, inst, ai_=a, deadline=100)
    if r.tainted or not r.outs:
        res.und(key, r.why() or 'no exit')
        return
    n = [K.base_name(ctx, t) for t in X.sig(ctx, inst)[0]]
    k = [j for j, x in enumerate(n) if x.split('<')[0] in P.STR][0]
    src, m = K.unstar(r.args[k])[0], K.unstar(r.args[1 - k])[0]
    appenders, plain, passes = {}, set(), 0
    inner = set()
    for L in a.loops:
        for h, backs in L['pairs']:
            hc = cursors(a, h, src)
            if not hc:
                continue
            for s in backs:
                sc = cursors(a, s, src)
                for loc, v in texts(h).items():
                    if origin(v, loc, L['id']) and loc in s.mem and appended(s.mem[loc], v):
                        inner.add((L['id'], loc))
    for L in a.loops:
        cells = {x[1] for x in inner if x != 'kept' and x[0] == L['id']}
        seen = False
        for h, backs in L['pairs']:
            hc = cursors(a, h, src)
            for s in backs:
                sc = cursors(a, s, src)
                pos = {(hc[x], sc[x]) for x in hc if x in sc}
                if not pos:
                    continue
                if len(pos) != 1:
                    res.und(key, 'several iterators over the text')
                    return
                lo, hi = next(iter(pos))
                if lo is hi:
                    continue
                chars = taken(a, s, src, lo, hi)
                seen = True
                try:
                    if cells:
                        if len(cells) != 1:
                            raise Bad('several texts are built')
                        if chars is None:
                            raise Bad('a pass that moves by an unknown distance')
                        loc = next(iter(cells))
                        ps = appended(s.mem.get(loc), h.mem.get(loc))
                        if ps is None:
                            raise Bad('the text is changed in another way than by appending')
                        passes += 1
                        contribution(ev, res, key, s, chars, ps, m, 'pass')
                    else:
                        passes += 1
                        outer(ev, res, key, a, h, s, src, m, chars, hi, L, inner)
                except Bad as x:
                    res.und(key, str(x)[:120])
        if seen:
            start(ev, res, key, a, L, src, m, cells, [x for x in a.loops if x is not L])
    res.coverage['passes of the mapping loops'] = res.coverage.get('passes of the mapping loops', 0) + passes
    if not passes:
        res.und(key, 'no pass over the characters of the text found')
        return
    for st, v in r.outs:
        v = K.plain(a, st, v)
        if (v is src or isinstance(v, Term) and K.unstar(v)[0] is src) and 'kept' in inner:
            res.ok()                        # unchanged: every pass that stored nothing took an ASCII digit
        elif isinstance(v, Term) and from_loop(a, v, inner):
            res.ok()
        else:
            res.und(key, 'the result is %s' % show(v)[:80])


def from_loop(a, v, inner):
    """is the value the text a loop built, possibly stored in an option by an outer loop"""
    root, p = K.unstar(v)
    if not (isinstance(root, Term) and root.op == 'phi'):
        return False
    if (root.args[0], root.args[1]) in inner:
        return True
    for L in a.loops:
        if L['id'] != root.args[0]:
            continue
        vals = []
        for h, backs in L['pairs']:
            for s in backs:
                x = s.mem.get(root.args[1])
                if x is not None and not origin(x, root.args[1], L['id']):
                    vals.append(x)
        return bool(vals) and all(isinstance(x, Agg) and x.var == 1 and len(x.f) == 1 and isinstance(x.f[0], Term) and x.f[0].op == 'phi' and (x.f[0].args[0], x.f[0].args[1]) in inner for x in vals)
    return False


def outer(ev, res, key, a, h, s, src, m, chars, hi, L, inner):
    """a pass of a loop that looks for the first character to map: it may keep nothing only of an ASCII digit"""
    stored = [loc for loc, v in s.mem.items() if loc in h.mem and v is not h.mem[loc] and loc not in cursors(a, s, src)]
    if chars is not None and len(chars) == 1 and not [x for x in stored if not trivial(s.mem[x])]:
        contribution(ev, res, key + ' prefix', s, chars, [T('chr', chars[0])], m, 'prefix')
        inner.add('kept')
        return
    if isinstance(hi, Term) and hi.op == 'len' and hi.args[0] is src:
        res.ok()                            # the rest was mapped by an inner loop
        return
    raise Bad('a pass that moves by an unknown distance')


def trivial(v):
    return isinstance(v, Agg) and not v.f


def start(ev, res, key, a, L, src, m, cells, others):
    """where a loop begins, the text built is the mapping of everything before"""
    prefixes = set()
    for O in others:
        for h, _ in O['pairs']:
            prefixes |= set(cursors(a, h, src).values())
    for s in L['entry']:
        cs = set(cursors(a, s, src).values())
        if not cs:
            continue
        if len(cs) != 1:
            res.und(key, 'several iterators')
            continue
        p = next(iter(cs))
        if not cells:
            if is_zero(p):
                res.ok()
            else:
                res.und(key, 'the loop begins at %s' % show(p)[:60])
            continue
        loc = next(iter(cells))
        ps = [x for x in pieces(s.mem.get(loc)) if not (isinstance(x, Term) and x.op == 'str' and x.args[0] == '')]
        try:
            base = core.I(0)
            if ps and isinstance(ps[0], Term) and ps[0].op == 'slice' and ps[0].args[0] is src and is_zero(ps[0].args[1]) and ps[0].args[2] in prefixes:
                base = ps[0].args[2]
                ps = ps[1:]
            elif any(x in prefixes for x in [p]) and False:
                pass
            chars = taken(a, s, src, base, p)
            if chars is None:
                raise Bad('the text before the loop is not recognised')
            if not chars:
                if ps:
                    raise Bad('text before the first character')
                res.ok()
                continue
            contribution(ev, res, key + ' first', s, chars, ps, m, 'first')
        except Bad as x:
            res.und(key, str(x)[:120])


def record(ctx, res, e, maps):
    """normalisation maps the texts of the record, each with the given table, and nothing else"""
    n = 0
    for i in e.norm:
        if '{closure' in ctx.F.insts[i]['path']:
            continue
        r = K.table(ctx, i, maps)
        if r.tainted or not r.outs:
            res.und('record', r.why() or 'no exit')
            continue
        w = P.where(e, i, e.path)
        arg, m = K.unstar(r.args[w])[0], K.unstar(r.args[1 - w])[0]

        def mapped(st, t, path):
            t = K.plain(r.a, st, t)
            if isinstance(t, Term) and t.op == 'call' and t.args[1] in maps:
                a = [K.unstar(K.plain(r.a, st, x)) for x in t.args[2]]
                got = [p for root, p in a if root is arg]
                if got == [path] and any(root is m for root, p in a):
                    return True
                return None
            if isinstance(t, Term) and K.unstar(t)[0] is arg:
                return False
            return None
        for st, v in r.outs:
            v = K.plain(r.a, st, v)
            if not (isinstance(v, Agg) and len(v.f) == len(e.names)):
                res.und('record', 'result not resolved')
                continue
            for k, name in enumerate(e.names):
                n += 1
                x = K.plain(r.a, st, v.f[k])
                what = 'field ' + name
                if k == e.n_national:
                    y = mapped(st, x, ((0, k),))
                    (res.ok if y else (lambda: res.bad(what, 'the national number is not normalised')) if y is False and K.unstar(x) == (arg, ((0, k),)) else (lambda: res.und(what, show(x)[:80])))()
                elif k in (e.n_prefix, e.n_extension):
                    has = [c[0][0] for q, c in st.facts.items() if isinstance(q, Term) and q.op == 'discr' and K.unstar(q.args[0]) == (arg, ((0, k),)) and isinstance(c, tuple) and len(c) == 1]
                    if isinstance(x, Agg) and x.var == 0:
                        if has == [0]:
                            res.ok()
                        elif has == [1]:
                            res.bad(what, 'it is lost')
                        else:
                            res.und(what, 'it may be lost')
                    elif isinstance(x, Agg) and x.var == 1:
                        y = mapped(st, x.f[0], ((0, k), (1, 0)))
                        (res.ok if y else (lambda: res.bad(what, 'it is not normalised')) if y is False else (lambda: res.und(what, show(x)[:80])))()
                    elif isinstance(x, Term) and K.unstar(x) == (arg, ((0, k),)) and has != [0]:
                        res.bad(what, 'it is not normalised')
                    else:
                        res.und(what, show(x)[:80])
                else:
                    y = isinstance(x, Term) and K.unstar(x) == (arg, ((0, k),))
                    (res.ok if y else lambda: res.und(what, 'changed to %s' % show(x)[:60]))()
    res.coverage['fields of normalised records'] = n


ALPHABET = ''.join(map(chr, range(0x20, 0x7f))) + '\u00e9\u0661\uff21'
_pat = {}


def asks_letters(pattern):
    """does the pattern accept exactly the texts with three ASCII letters or more: True, a text that tells, or None"""
    if pattern not in _pat:
        try:
            d = relang.differ(pattern, ALPHABET, 0, lambda s, c: min(3, s + (c.isascii() and c.isalpha())), lambda s: s == 3)
            _pat[pattern] = True if d is None else d
        except relang.Unknown:
            _pat[pattern] = None
    return _pat[pattern]


def cmap(m):
    if isinstance(m, Agg) and m.kind == 'cmap':
        out = {}
        for x in m.f:
            k, v = (x.f[0], x.f[1]) if isinstance(x, Agg) and len(x.f) == 2 else x if isinstance(x, tuple) else (None, None)
            if not (isinstance(k, Term) and k.op == 'int' and isinstance(v, Term) and v.op == 'int'):
                return None
            out[chr(k.args[0])] = chr(v.args[0])
        return out
    return None


def tables(ctx, res, e):
    """letters count exactly when there are three of them"""
    w = C.code_world(ctx, res, e)
    if w is None:
        return
    n, judged = 0, {}
    for st, v in w.r.outs:
        v = w.a.deepval(st, v)
        maps = {t.args[1] for q in list(st.facts) + [v] if isinstance(q, core.Node) for t in terms(q) if isinstance(t, Term) and t.op == 'norm'}
        for m in maps:
            d = cmap(m)
            if d is None:
                res.und('tables', 'the table is not a constant')
                continue
            kind = judged.get(m)
            if kind is None:
                if d == DIGITS:
                    kind = 'without letters'
                else:
                    kind = 'with letters'
                    for c in sorted(set(d) | set(TABLES[kind])):
                        if d.get(c) != TABLES[kind].get(c):
                            res.bad('table of letters', 'the character %r counts as %s instead of %s' % (c, d.get(c) or 'nothing', TABLES[kind].get(c) or 'nothing'))
                        else:
                            res.ok()
                judged[m] = kind
            n += 1
            ask = None
            for q, x in st.facts.items():
                if isinstance(q, Term) and q.op == 'matched' and isinstance(q.args[0], Term) and q.args[0].op == 'regex' and C.field_of(q.args[1], w.num) == ((0, e.n_national),):
                    y = asks_letters(q.args[0].args[0].args[0] if isinstance(q.args[0].args[0], Term) else q.args[0].args[0])
                    if y is True:
                        ask = x
                    elif y is not None and ask is None:
                        ask = ('wrong', y)
            if ask is True or ask is False:
                want = 'with letters' if ask else 'without letters'
                (res.ok if kind == want else lambda: res.bad('choice', 'a number %s three letters is read with the table %s' % ('with' if ask else 'without', kind)))()
            elif isinstance(ask, tuple):
                res.bad('choice', 'the pattern that accepts letters judges "%s" wrongly' % ask[1])
            elif C.known(w, st):
                res.bad('choice', 'the table %s is used without asking for letters' % kind)
            else:
                res.und('choice', 'not known whether there are letters')
    res.coverage['exits with a table'] = n
    if len(judged) < 2:
        res.und('choice', 'fewer than two tables found')
    if not n:
        res.und('choice', 'no exit uses a table')


def check(ctx, res):
    e = P.full(ctx, res)
    if e is None:
        return
    fns = charfns(ctx)
    ev = Eval(ctx, set(fns))
    if digits(ctx, res, fns, ev) == 0:
        res.und('digits', 'no function from a character to a digit found')
    maps = mappers(ctx)
    if not maps:
        res.und('mapping', 'no function that maps the characters of a text found')
    for i in maps:
        mapping(ctx, res, ev, i)
    record(ctx, res, e, set(maps))
    tables(ctx, res, e)
