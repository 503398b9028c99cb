"""C19: what the metadata document says reaches the accessor of the same meaning, and no other"""
from checks import xmltab as X, loading
from checks.xmltab import norm, origin, empty
from checks.lib import *

LEVEL = 'proof'
RULE = ('obligation = (accessor), (field of the compiled form), (loader function, attribute or element name, field); discharged when the accessor returns that field unchanged, '
        'the builder fills the field from exactly one loader field with the expected conversion, and every pass of the loader for that name sets exactly the loader fields '
        'that lead to the accessors of the same meaning, to the value read')
EXPLAIN = ('Three tables are computed by abstract interpretation: accessor to compiled field, compiled field to loader field (the builders found by their types), and per loader loop and '
           'name the loader fields each pass changes and what it puts there. They are composed and compared with the documented meaning of each name.')
ASSUME = ['library models are correct', 'derived Clone and Default are what the derive macros produce (they are interpreted)', 'the XML reader reports what the document contains']

M, DS, D, FM = (X.MP[k] for k in ('Metadata', 'Descriptors', 'Descriptor', 'Format'))
DESCS = {'generalDesc': 'general', 'fixedLine': 'fixed_line', 'mobile': 'mobile', 'tollFree': 'toll_free', 'premiumRate': 'premium_rate', 'sharedCost': 'shared_cost',
         'personalNumber': 'personal_number', 'voip': 'voip', 'pager': 'pager', 'uan': 'uan', 'emergency': 'emergency', 'voicemail': 'voicemail',
         'noInternationalDialling': 'no_international'}
ATTRS = {'id': 'id', 'countryCode': 'country_code', 'internationalPrefix': 'international_prefix', 'preferredInternationalPrefix': 'preferred_international_prefix',
         'nationalPrefix': 'national_prefix', 'preferredExtnPrefix': 'preferred_extension_prefix', 'nationalPrefixForParsing': 'national_prefix_for_parsing',
         'nationalPrefixTransformRule': 'national_prefix_transform_rule', 'mainCountryForCode': 'is_main_country_for_code', 'leadingDigits': 'leading_digits',
         'mobileNumberPortableRegion': 'is_mobile_number_portable'}
DEFAULTS = {'nationalPrefixFormattingRule': 'national_prefix', 'nationalPrefixOptionalWhenFormatting': 'is_national_prefix_optional', 'carrierCodeFormattingRule': 'domestic_carrier'}
INT, BOOL = {'countryCode'}, {'mainCountryForCode', 'mobileNumberPortableRegion', 'nationalPrefixOptionalWhenFormatting'}
TYPES = {'FixedLine': 'fixed_line', 'Mobile': 'mobile', 'TollFree': 'toll_free', 'PremiumRate': 'premium_rate', 'SharedCost': 'shared_cost', 'PersonalNumber': 'personal_number',
         'Voip': 'voip', 'Pager': 'pager', 'Uan': 'uan', 'Emergency': 'emergency', 'Voicemail': 'voicemail', 'ShortCode': 'short_code', 'StandardRate': 'standard_rate',
         'Carrier': 'carrier', 'NoInternational': 'no_international'}


def precise(v):
    """nothing invented inside: what the XML reader delivers is known input"""
    if isinstance(v, Term):
        if v.op == 'call' or v.op == 'item' and any(isinstance(x, Term) and x.op == 'xattrs' for x in terms(v)):
            return True
        if v.op in IMPRECISE:
            return v.op == 'sym' and v.args[0] in ('event', 'buf')
        return all(precise(x) for x in v.args)
    return all(precise(x) for x in (v.f if isinstance(v, Agg) else v if isinstance(v, tuple) else ()))


def pinned(st, t):
    d = st.facts.get(T('discr', t))
    if d is None:
        for q, w in st.facts.items():
            if isinstance(q, Term) and q.op == 'discr':
                x = q.args[0]
                while isinstance(x, Term) and x.op == 'optmap':
                    x = x.args[0]
                if x is t:
                    d = w
    return d[0][0] if d is not None and len(d) == 1 and d[0][0] == d[0][1] else None


# ---- 1. accessor -> field

def accessor(ctx, res, path):
    """field index the accessor returns"""
    i = inst_of(ctx, path)
    if i is None:
        res.und('accessor ' + path, 'not found')
        return None
    r = Run(ctx, i, ai_=loading.shallow(ctx, i, only=lambda k: False), deadline=60)
    name = path.split('::', 3)[-1]
    if r.tainted or not r.outs:
        res.und('accessor ' + name, r.why())
        return None
    self_ = T('*', r.args[0]) if False else None
    got, vague, blank = set(), [], []
    for st, v in r.outs:
        v = strip(r.a, st, v)
        k = selffield(v)
        if k is not None:
            got.add(k)
        elif isinstance(v, Agg) and v.kind == 'adt' and not v.f:
            blank.append((st, v))
        else:
            vague.append(show(v)[:80])
    if vague or len(got) > 1 and False:
        res.und('accessor ' + name, ' '.join(vague[:2]))
        return None
    if len(got) != 1:
        res.bad('accessor ' + name, 'the accessor %s does not return one field of the value (%s)' % (name, sorted(got)))
        return None
    k = got.pop()
    for st, v in blank:
        ok = any(isinstance(q, Term) and q.op == 'discr' and selffield(q.args[0]) == k and w == ((0, 0),) for q, w in st.facts.items())
        if not ok:
            res.bad('accessor ' + name, 'the accessor %s can return nothing although the value is present' % name)
            return None
    for st, v in r.outs:
        if not blank and False:
            pass
    res.ok()
    return k


def strip(a, st, v):
    """look through references and Some(payload)"""
    for _ in range(8):
        if isinstance(v, Ref):
            v = v.loc[1] if v.loc[0] == 'V' and not v.path else a.read(st, v.loc, v.path)
        elif isinstance(v, Agg) and v.kind == 'adt' and v.var == 1 and len(v.f) == 1:
            x = v.f[0]
            while isinstance(x, Ref):
                x = x.loc[1] if x.loc[0] == 'V' and not x.path else a.read(st, x.loc, x.path)
            if isinstance(x, Term) and x.op == 'fld' and x.args[1] == 1 and x.args[2] == 0:
                return x.args[0]
            return v
        else:
            return v
    return v


def selffield(v):
    if isinstance(v, Term) and v.op == 'fld' and v.args[1] == 0 and isinstance(v.args[0], Term) and (v.args[0].op == 'arg' or v.args[0].op != 'fld' and
       any(isinstance(x, Term) and x.op == 'arg' and x.args[0] == 0 for x in terms(v.args[0])) and not v.args[0].op == 'call'):
        return v.args[2]
    return None


# ---- 2. compiled field -> loader field

class Builders:
    def __init__(self, ctx, res):
        self.ctx, self.res = ctx, res
        self.by = {}
        want = {(X.LP + 'Metadata', M): 'meta', (X.LP + 'Descriptor', D): 'desc', (X.LP + 'Format', FM): 'fmt'}
        self.kind = {}
        for i in X.localfns(ctx):
            a, r = X.sig(ctx, i)
            o = X.okty(ctx, r)
            if o is None or not a:
                continue
            last, on = X.tname(ctx, a[-1]), X.tname(ctx, o)
            k = want.get((last, on))
            if k is None and on == 'regex::regex::string::Regex' and last in ('alloc::string::String', '&str', '&alloc::string::String'):
                k = 'regex'
            if k is None and ctx.F.types[o]['k'] == 'adt' and ctx.F.types[o]['path'] == 'core::option::Option' and len(a) == 1 and \
               ctx.F.types[a[0]]['k'] == 'adt' and ctx.F.types[a[0]]['path'] == 'core::option::Option':
                k = 'swap'
            if k:
                self.kind[i] = k
        self.checked = {}
        self.runs = {}

    def swap_ok(self, i):
        """Option<Result<T>> -> Result<Option<T>> as documented"""
        r = Run(self.ctx, i, ai_=loading.shallow(self.ctx, i), deadline=30)
        if r.tainted:
            return None
        x = r.args[0]
        y = T('fld', x, 1, 0)
        for st, v in r.outs:
            d = pinned(st, x)
            if not isinstance(v, Agg):
                return None
            if d == 0:
                good = v.var == 0 and X.isconst_none(v.f[0])
            elif d == 1 and pinned(st, y) == 0:
                good = v.var == 0 and isinstance(v.f[0], Agg) and v.f[0].var == 1 and v.f[0].f[0] is T('fld', y, 0, 0)
            elif d == 1 and pinned(st, y) == 1:
                good = v.var == 1 and v.f[0] is T('fld', y, 1, 0)
            else:
                return None
            if not good:
                return False
        return True

    def regex_ok(self, i):
        r = Run(self.ctx, i, ai_=loading.shallow(self.ctx, i), deadline=30)
        if r.tainted:
            return None
        oks = [(st, v) for st, v in r.outs if isinstance(v, Agg) and v.var == 0]
        if not oks:
            return None
        for st, v in oks:
            x = v.f[0]
            if not (isinstance(x, Term) and x.op == 'regex'):
                return None
            t = x.args[0]
            if not (isinstance(t, Term) and t.op == 'arg'):
                return False if precise(t) else None
            if ('ignore_whitespace', True) not in tuple(x.args[1] or ()):
                return False
        return True

    def conv(self, i):
        k = self.kind.get(i)
        if k in ('swap', 'regex') and i not in self.checked:
            ok = self.swap_ok(i) if k == 'swap' else self.regex_ok(i)
            self.checked[i] = ok
            name = self.ctx.F.insts[i]['path']
            if ok is None:
                self.res.und('conversion ' + name, 'form not recognised')
            elif not ok:
                self.res.bad('conversion ' + name, '%s does not hand on what it is given (%s)' % (name, 'an optional result' if k == 'swap' else 'a pattern compiled ignoring white space'))
            else:
                self.res.ok()
        return k

    def fields(self, kind):
        """field of the compiled form -> (loader field, conversions)"""
        if kind in self.runs:
            return self.runs[kind]
        ctx, res = self.ctx, self.res
        out = self.runs[kind] = {}
        fs = [i for i, k in self.kind.items() if k == kind]
        paths = {ctx.F.insts[i]['path'] for i in fs}
        if len(paths) != 1:
            res.und('builder ' + kind, 'found %s' % sorted(paths))
            return out
        i = fs[0]
        r = Run(ctx, i, ai_=loading.shallow(ctx, i, only=lambda k: k in self.kind), deadline=120)
        name = ctx.F.insts[i]['path']
        if r.tainted:
            res.und('builder ' + name, r.why())
            return out
        self.r, self.arg = r, r.args[-1]
        oks = [(st, r.a.deepval(st, v)) for st, v in r.outs]
        oks = [(st, v) for st, v in oks if isinstance(v, Agg) and v.var == 0]
        if not oks:
            res.und('builder ' + name, 'no success exit recognised')
            return out
        lty = X.sig(ctx, i)[0][-1]
        lf = [f[0] for f in ctx.F.types[lty]['variants'][0]['fields']]
        mty = X.okty(ctx, X.sig(ctx, i)[1])
        for p in self.leaves(mty):
            vals = []
            for st, v in oks:
                x = v.f[0]
                for k in p:
                    x = field_of(x, k) if isinstance(x, Agg) else T('fld', x, 0, k)
                vals.append((st, x))
            self.one(kind, name, mty, lf, p, vals, out)
        return out

    def leaves(self, ty):
        t = self.ctx.F.types[ty]
        out = []
        for k, f in enumerate(t['variants'][0]['fields']):
            u = self.ctx.F.types[f[1]]
            if u['k'] == 'adt' and u['path'] == DS:
                out += [(k,) + q for q in self.leaves(f[1])]
            else:
                out.append((k,))
        return out

    def fname(self, ty, p):
        t = self.ctx.F.types[ty]
        f = t['variants'][0]['fields'][p[0]]
        return f[0] if len(p) == 1 else f[0] + '.' + self.fname(f[1], p[1:])

    def one(self, kind, name, mty, lf, p, vals, out):
        res = self.res
        what = '%s %s' % (kind, self.fname(mty, p))
        srcs, blanks, vague = set(), [], []
        for st, v in vals:
            s = self.source(st, v)
            if s == 'blank':
                blanks.append((st, v))
            elif s is None:
                m = self.mentions(v)
                vague.append((st, v, m))
            else:
                srcs.add(s)
        ks = {k for k, _ in srcs}
        if not srcs and not vague:
            # a constant in every success exit
            res.bad('field ' + what, 'the field %s of the compiled metadata is a constant (%s), whatever was loaded' % (self.fname(mty, p), show(vals[0][1])[:40])) \
                if not self.never(lf, p, mty) else res.ok()
            return
        flags = {q.args[2] for st, v in blanks if v in (core.TRUE, core.FALSE) for q, w in st.facts.items()
                 if isinstance(q, Term) and q.op == 'fld' and q.args[0] is self.arg and w is (v is core.TRUE)}
        for st, v, m in vague:
            if precise(v) and m and len(m) == 1 and flags and not flags & m:
                res.bad('field ' + what, 'the field %s of the compiled metadata also depends on the loaded %s' % (self.fname(mty, p), lf[min(m)]))
                return
            if precise(v) and m and len(m) == 1 and len(ks | m) == 1:
                res.und('field ' + what, 'conversion not recognised: %s' % show(v)[:100])
                return
            if precise(v) and ks and (not m or m - ks):
                res.bad('field ' + what, 'the field %s of the compiled metadata can be made from %s instead of the loaded %s' % (
                    self.fname(mty, p), ', '.join(lf[k] for k in sorted(m)) or 'a constant', lf[min(ks)]))
                return
            res.und('field ' + what, 'not recognised: %s' % show(v)[:100])
            return
        if len(ks) > 1:
            res.bad('field ' + what, 'the field %s of the compiled metadata is filled from several loaded fields: %s' % (self.fname(mty, p), ', '.join(lf[k] for k in sorted(ks))))
            return
        k = ks.pop()
        for st, v in blanks:
            x = T('fld', self.arg, 0, k)
            if v in (core.TRUE, core.FALSE) or pinned(st, x) != 0:
                res.bad('field ' + what, 'the field %s of the compiled metadata can be %s although %s was loaded' % (self.fname(mty, p), show(v)[:30], lf[k]))
                return
        convs = {c for _, c in srcs}
        for c in convs:
            for w, m in (('reordered', 'in another order'), ('dropped', 'with elements left out')):
                if w in c:
                    res.bad('field ' + what, 'the list %s of the compiled metadata is filled from %s %s' % (self.fname(mty, p), lf[k], m))
                    return
        out[p] = (k, convs)
        res.ok()

    def never(self, lf, p, mty):
        return False

    def mentions(self, v):
        out = set()
        for x in terms(v):
            if isinstance(x, Term) and x.op == 'fld' and x.args[0] is self.arg:
                out.add(x.args[2])
        return out

    def source(self, st, v, depth=0):
        """(loader field, conversions) of a value; 'blank' for a constant nothing; None when not recognised"""
        if depth > 12:
            return None
        a = self.r.a
        while isinstance(v, Ref):
            v = v.loc[1] if v.loc[0] == 'V' and not v.path else a.read(st, v.loc, v.path)
        if v in (core.TRUE, core.FALSE):
            return 'blank'
        if isinstance(v, Term):
            if v.op == 'fld' and v.args[0] is self.arg:
                return v.args[2], ()
            if v.op == 'fld' and v.args[1] == 1 and v.args[2] == 0:
                return self.source(st, v.args[0], depth + 1)
            if v.op == 'fld' and v.args[1] == 0 and v.args[2] == 0 and isinstance(v.args[0], Term) and v.args[0].op == 'call':
                return self.call(st, v.args[0], depth)
            if v.op == 'fld' and v.args[1] == 0 and v.args[2] == 0 and isinstance(v.args[0], Term) and (v.args[0].op == 'optmap' or v.args[0].op == 'fld' and v.args[0].args[1] == 1):
                return self.source(st, v.args[0], depth + 1)  # the success payload of a converted value
            if v.op == 'call':
                return self.call(st, v, depth)
            if v.op == 'optmap':
                c = self.conv(v.args[1])
                s = self.source(st, v.args[0], depth + 1)
                return (s[0], s[1] + (c,)) if c and isinstance(s, tuple) else None
            if v.op == 'cat':
                s = [self.source(st, x, depth + 1) for x in v.args if not (isinstance(x, Term) and x.op == 'str')]
                lits = [x.args[0] if isinstance(x, Term) and x.op == 'str' else None for x in v.args]
                return (s[0][0], s[0][1] + (('wrap', tuple(lits)),)) if len(s) == 1 and isinstance(s[0], tuple) else None
            if v.op == 'phi':
                return self.collected(st, v, depth)
            return None
        if isinstance(v, Agg) and v.kind == 'adt':
            if v.var == 1 and len(v.f) == 1:
                return self.source(st, v.f[0], depth + 1)
            if not v.f and v.var == 0:
                return 'blank'
        if isinstance(v, Agg) and v.kind == 'list' and not v.f:
            return 'empty'
        if isinstance(v, Agg) and v.kind == 'adt' and v.f:
            x = self.copied(st, v)
            return self.source(st, x, depth + 1) if x is not None else None
        return None

    def copied(self, st, v):
        """the value whose fields were copied one by one into v"""
        for f in v.f:
            f = norm(f)
            if isinstance(f, Term) and f.op == 'fld' and f.args[1] == v.var:
                return f.args[0] if self.same(st, v, f.args[0]) else None
        return None

    def same(self, st, v, x):
        v = norm(v)
        if v is x:
            return True
        if isinstance(v, Agg) and v.kind == 'adt':
            if len(self.ctx.F.types[v.ty]['variants']) > 1 and pinned(st, x) != v.var:
                return False
            return all(self.same(st, f, T('fld', x, v.var, k)) for k, f in enumerate(v.f))
        return False

    def call(self, st, t, depth):
        c = self.conv(t.args[1])
        if c is None:
            return None
        args = t.args[2]
        s = self.source(st, args[-1], depth + 1)
        if c == 'swap' and s == 'blank':
            return s
        if isinstance(s, tuple):
            return (s[0], s[1] + ((c,) if c != 'swap' else ()))
        return None

    def collected(self, st, v, depth):
        """list built by a loop from the elements of a loaded list"""
        loc, path = v.args[1], v.args[2]
        got = set()
        for L in self.r.a.loops:
            if L['id'] != v.args[0]:
                continue
            for s in L['backs']:
                x = s.mem.get(loc)
                for k in path:
                    x = field_of(x, k) if x is not None else None
                if x is None:
                    continue
                if x is v:
                    got.add('dropped')
                    continue
                y = x.args[1] if isinstance(x, Term) and x.op == 'lpush' else x.f[-1] if isinstance(x, Agg) and x.kind == 'list' and x.f else None
                if y is None:
                    return None
                got.add(self.element(s, y))
        if len(got) == 2 and 'dropped' in got:
            got.discard('dropped')
            x = got.pop()
            return (x[0], x[1] + ('dropped',)) if isinstance(x, tuple) else None
        if len(got) == 1:
            x = got.pop()
            return x if isinstance(x, tuple) else None
        return None

    def forward(self, i):
        """whether a list index counts up from the first element"""
        if isinstance(i, Term) and i.op == 'int':
            return True
        ps = {x for x in terms(i) if isinstance(x, Term) and x.op == 'phi'}
        if len(ps) != 1:
            return False if any(isinstance(x, Term) and x.op == 'llen' for x in terms(i)) else None
        p = ps.pop()
        got = set()
        for L in self.r.a.loops:
            if L['id'] == p.args[0]:
                for s in L['entry']:
                    x = s.mem.get(p.args[1])
                    for k in p.args[2]:
                        x = field_of(x, k) if x is not None else None
                    got.add('up' if isinstance(x, Term) and x.op == 'int' and x.args[0] == 0 else 'down' if any(isinstance(y, Term) and y.op == 'llen' for y in terms(x)) else None)
        return {'up': True, 'down': False}.get(got.pop()) if len(got) == 1 else None

    def element(self, st, y):
        """source of an element pushed: conversion of the item taken from the list of a field"""
        c = ()
        while isinstance(y, Term) and y.op == 'fld' and y.args[1] == 0 and y.args[2] == 0 and isinstance(y.args[0], Term) and y.args[0].op == 'call':
            k = self.conv(y.args[0].args[1])
            if k is None:
                return None
            c = (k,) + c
            y = y.args[0].args[2][-1]
        while isinstance(y, Ref):
            y = y.loc[1] if y.loc[0] == 'V' and not y.path else self.r.a.read(st, y.loc, y.path)
        ms = self.mentions(y)
        if isinstance(y, Term) and y.op in ('item', 'elt', 'litem') and len(ms) == 1:
            f = self.forward(y.args[1])
            if f is not None:
                return ms.pop(), c + (() if f else ('reordered',))
        return None


# ---- 3. names -> loader fields

def check(ctx, res):
    acc = {}
    for n in sorted(set(ATTRS.values())) + ['formats', 'international_formats', 'descriptors']:
        acc['m', n] = accessor(ctx, res, M + '::' + n)
    for n in sorted(set(DESCS.values()) | set(TYPES.values())):
        acc['ds', n] = accessor(ctx, res, DS + '::' + n)
    for n in ('national_number', 'possible_length', 'possible_local_length', 'example'):
        acc['d', n] = accessor(ctx, res, D + '::' + n)
    for n in ('pattern', 'format', 'leading_digits', 'national_prefix', 'is_national_prefix_optional', 'domestic_carrier'):
        acc['f', n] = accessor(ctx, res, FM + '::' + n)
    b = Builders(ctx, res)
    B = {k: b.fields(k) for k in ('meta', 'desc', 'fmt')}
    # accessor -> loader field
    L = {}
    for (w, n), k in acc.items():
        if k is None or n == 'descriptors':
            continue
        if w == 'ds':
            p = (acc['m', 'descriptors'], k) if acc['m', 'descriptors'] is not None else None
            s = B['meta'].get(p)
        else:
            s = B[{'m': 'meta', 'd': 'desc', 'f': 'fmt'}[w]].get((k,))
        if s is not None:
            L[w, n] = s[0]
    res.coverage['accessor_to_loader_field'] = {'%s.%s' % k: v for k, v in L.items()}
    res.sample('%d accessors traced to loader fields' % len(L))
    names(ctx, res, L)


class Names:
    """what one loader function does for each name"""

    def __init__(self, ctx, res, kind, i, deep):
        self.ctx, self.res, self.kind = ctx, res, kind
        self.t = X.Table(ctx, i, deep)
        self.name = self.t.path.split('::')[-1]
        self.fixed, self.const = {}, set()
        self.ok = not self.t.bad and not self.t.odd and self.t.oks
        if not self.ok:
            res.und('loader ' + self.name, 'not fully analysed')

    def paths(self, sel):
        """leaf paths of the result -> (cell, path) they are taken from; sel picks the part of the success value"""
        out = {}
        for st, v in self.t.oks:
            for p, x in sel(self.t, st, v):
                o = origin(norm(x))
                if o is not None:
                    out.setdefault(p, set()).add(o)
                elif isinstance(norm(x), Agg) and empty(norm(x)) or norm(x) is core.FALSE:
                    out.setdefault(p, set())
                    self.fixed.setdefault(p, 'nothing')
                elif argpath(norm(x)) is not None:
                    out.setdefault(p, set()).add(show(x)[:60])
                    self.fixed.setdefault(p, 'what it starts with')
                else:
                    out.setdefault(p, set()).add(show(x)[:60])
        return out

    def cell(self, st, src):
        loc, path = src
        v = st.mem.get(loc)
        if v is None:
            return None
        for k in path:
            v = field_of(v, k) if isinstance(v, Agg) else T('fld', v, 0, k)
            if v is None:
                return None
        return norm(v)


def struct_leaves(ctx, v, ty):
    for p in X.leaves(ctx, ty):
        x = v
        for k in p:
            x = field_of(x, k) if isinstance(x, Agg) else T('fld', x, 0, k)
        yield p, x


def value_of(n, step, v, texts, accept=None):
    """what the new value of a field is: ('attr'|'text'|'elem', conversion) or None"""
    v = norm(v)
    if isinstance(v, Agg) and v.kind == 'adt' and v.var == 1 and len(v.f) == 1:
        v = v.f[0]
    if isinstance(v, Ref):
        return None
    raw = step.__dict__.get('val')
    if isinstance(v, Term):
        if raw is not None and v.op in ('utf8', 'unescape') and X.base(v) is raw:
            return 'attr', 'text'
        if raw is not None and v.op == 'parseint' and X.base(v.args[0]) is raw:
            return 'attr', 'int'
        if v.op == 'fld' and v.args[1] == 0 and isinstance(v.args[0], Term) and v.args[0].op == 'call':
            return 'call', v.args[0].args[1]
    return None


def kind_of(ctx, i):
    o = X.tname(ctx, X.okty(ctx, X.sig(ctx, i)[1]))
    lm, ld, lf = X.LP + 'Metadata', X.LP + 'Descriptor', X.LP + 'Format'
    vec, opt = 'alloc::vec::Vec<%s>', 'core::option::Option<%s>'
    return {lm: 'territory', ld: 'descriptor', '(%s, %s)' % (lf, opt % lf): 'format', '(%s, %s)' % (vec % lf, vec % lf): 'formats', vec % lm: 'list',
            'alloc::string::String': 'text', '()': 'skip'}.get(o)


def names(ctx, res, L):
    RAW.clear()
    fns, deep = X.reader_fns(ctx), X.derived(ctx)
    kinds = {}
    for p, i in fns.items():
        kinds.setdefault(kind_of(ctx, i), []).append(i)
    N = {}
    inst = {}
    for k in ('territory', 'descriptor', 'format', 'formats', 'text'):
        if len(kinds.get(k, [])) != 1:
            res.und('loader of ' + k, '%d functions of that type' % len(kinds.get(k, [])))
            continue
        n = Names(ctx, res, k, kinds[k][0], deep)
        if n.ok:
            N[k] = n
    # any instance of the same function may appear in the calls
    call = {}
    for k, v in kinds.items():
        for i in v:
            for j in X.localfns(ctx):
                if ctx.F.insts[j]['path'] == ctx.F.insts[i]['path']:
                    call[j] = k
    lens = {j: 'lengths' for j in X.localfns(ctx) if X.okty(ctx, X.sig(ctx, j)[1]) is not None and X.tname(ctx, X.okty(ctx, X.sig(ctx, j)[1])) == 'alloc::vec::Vec<u16>'
            and len(X.sig(ctx, j)[0]) == 1}
    call.update(lens)
    res.coverage['loader_functions'] = {k: [n.t.path, '%d attribute passes, %d event passes, %d success exits' % (len(n.t.attrs), len(n.t.events), len(n.t.oks))] for k, n in N.items()}
    lf = {k: [f[0] for f in ctx.F.types[X.adt(ctx, X.LP + k)]['variants'][0]['fields']] for k in ('Metadata', 'Descriptor', 'Format')}
    inherit = {}
    if 'format' in N:
        format_fn(ctx, res, N['format'], L, call, lf, inherit)
    if 'descriptor' in N:
        descriptor_fn(ctx, res, N['descriptor'], L, call, lf)
    if 'territory' in N:
        territory_fn(ctx, res, N['territory'], L, call, lf, inherit)
    if 'formats' in N:
        formats_fn(ctx, res, N['formats'], call)
    if 'text' in N:
        text_fn(ctx, res, N['text'])
    for i in kinds.get('list', []):
        list_fn(ctx, res, Names(ctx, res, 'list', i, deep), call)
    if RAW:
        res.bad('entities in attributes', 'the value of an attribute is taken without decoding entity references (&amp; and the like), in ' + ', '.join(sorted(RAW)))
    elif N:
        res.ok()


def resolved(res, n, srcs, what):
    """cells the fields of the result are taken from; a field that is not taken from one cell is left undecided"""
    out = {}
    for p, o in srcs.items():
        if len(o) == 1 and isinstance(next(iter(o)), tuple):
            out[p] = next(iter(o))
        elif o and not (len(o) == 1 and p in n.fixed):
            res.und('%s result %s' % (n.name, p), 'taken from %s' % sorted(map(str, o))[:3])
        elif len(o) <= 1 and p in n.fixed:
            n.const.add(p)
    return out


def passes(res, n, steps, cands, of, src, expect, label, check_value, fname):
    """for each name: exactly the expected fields change, to the expected value.
    expect[name] = set of result paths; a name without entry must change nothing"""
    tab = n.t.names(steps, cands, of)
    for c in cands:
        want = expect.get(c, set())
        if not tab[c]:
            if c in expect:
                res.bad('%s %s %s' % (n.name, label, c), 'the %s %s is not accepted by the loader function %s' % (label, c, n.name))
            continue
        done = True
        for s, exact in tab[c]:
            hit = set()
            for p, o in src.items():
                new, old = n.cell(s.state, o), n.cell(s.head, o)
                if new is None or new is old or origin(new) == o:
                    continue
                hit.add(p)
                if p not in want:
                    k = '%s %s %s' % (n.name, label, c)
                    m = 'the %s %s also changes %s, to %s (in %s)' % (label, c, fname(p), show(new)[:60], n.name)
                    (res.bad if exact and precise(new) else res.und)(k, m)
                    done = False
                else:
                    why = check_value(c, p, s, new)
                    if why:
                        k = '%s %s %s' % (n.name, label, c)
                        if why[0] == 'bad' and exact and precise(new):
                            res.bad(k, 'the %s %s sets %s %s (in %s)' % (label, c, fname(p), why[1], n.name))
                        else:
                            res.und(k, '%s: %s' % (fname(p), why[1]))
                        done = False
            for p in want - hit:
                same = n.cell(s.state, src[p]) if p in src else None
                if p in src and check_value(c, p, s, same) is None and same is not None and origin(same) is None:
                    continue
                k = '%s %s %s' % (n.name, label, c)
                if p not in src and p not in n.const:
                    continue
                m = 'the %s %s does not reach %s (in %s)' % (label, c, fname(p), n.name)
                (res.bad if exact else res.und)(k, m)
                done = False
        if done:
            res.ok(max(1, len(want)))


RAW = set()


def undecoded(v, raw):
    """the text of the attribute occurs without its entity references decoded"""
    if isinstance(v, Term) and v.op == 'unescape':
        return False
    if isinstance(v, Term) and v.op == 'utf8':
        return X.base(v) is raw
    xs = v.args if isinstance(v, Term) else v.f if isinstance(v, Agg) else v if isinstance(v, tuple) else ()
    return any(undecoded(x, raw) for x in xs)


def attr_value(call):
    def f(c, p, s, new):
        if c in BOOL:
            if new in (core.TRUE, core.FALSE):
                for lit, v in (('true', core.TRUE), ('false', core.FALSE)):
                    ok, exact = X.allows(s.state, X.base(s.val), lit)
                    if ok and new is not v:
                        return ('bad' if exact else 'und'), 'to %s for the value "%s"' % (show(new), lit)
                return None
            return 'und', 'to ' + show(new)[:60]
        if undecoded(new, s.val):
            RAW.add(c)
        got = value_of(None, s, new, call)
        if got == ('attr', 'int' if c in INT else 'text'):
            return None
        if got is None and c in ('national', 'localOnly'):
            return 'und', show(new)[:60]
        if got is not None and got[0] == 'call' and call.get(got[1]) == 'lengths' and c in ('national', 'localOnly'):
            return None
        new = norm(new)
        w = new.f[0] if isinstance(new, Agg) and len(new.f) == 1 else new
        ms = any(x is s.val for x in terms(new)) and not (isinstance(w, Term) and w.op in ('slice', 'cat', 'lower', 'upper', 'replace', 'trim'))
        return ('und' if ms else 'bad'), 'to %s instead of its value' % show(new)[:60]
    return f


def calls_of(call, kind):
    """the new value is the result of the loader function of that kind for this element"""
    def f(c, p, s, new):
        got = value_of(None, s, new, call)
        if got is None or got[0] != 'call':
            return ('und' if any(isinstance(x, Term) and x.op == 'call' for x in terms(new)) else 'bad'), 'to %s instead of what the element contains' % show(new)[:60]
        k = call.get(got[1])
        if k != kind:
            return 'und', 'result of %s' % k
        return None
    return f


def ev_name(s):
    return s.name


def starts(n, kind='Start'):
    code = {v: k for k, v in X.KIND.items()}[kind]
    return [s for s in n.t.events if code in s.kinds and s.name is not None]


def ok_value(t, st, v):
    return v.f[0] if isinstance(v, Agg) and len(v.f) == 1 else None


def initial(n, src):
    """values of the cells before the first loop"""
    first = n.t.r.a.loops[0] if n.t.r.a.loops else None
    out = {}
    done = set()
    for L in n.t.r.a.loops:
        for s in L['entry']:
            for p, o in src.items():
                if p in done:
                    continue
                v = n.cell(s, o)
                if v is not None and origin(v) is None:
                    out.setdefault(p, v)
    return out


def format_fn(ctx, res, n, L, call, lf, inherit):
    ty = X.adt(ctx, X.LP + 'Format')

    def nat(t, st, v):
        yield from struct_leaves(ctx, at0(v, 0), ty)

    def intl(t, st, v):
        w = at0(v, 1)
        if isinstance(w, Agg) and w.kind == 'adt' and w.var == 1:
            yield from struct_leaves(ctx, w.f[0], ty)
    src = resolved(res, n, n.paths(nat), 'national')
    isrc = resolved(res, n, n.paths(intl), 'international')
    kf = L.get(('f', 'format'))
    for p, o in isrc.items():
        if p != (kf,) and p in src and o != src[p]:
            res.bad('%s international %s' % (n.name, lf['Format'][p[0]]), 'the international form of a format takes %s from elsewhere than the national form' % lf['Format'][p[0]])
        else:
            res.ok()
    want = {a: {(L['f', f],)} for a, f in dict(DEFAULTS, pattern='pattern').items() if ('f', f) in L}
    fname = lambda p: 'Format.' + lf['Format'][p[0]] if p != 'intl' else 'the international format'
    passes(res, n, n.t.attrs, sorted(want) + [X.OTHER], lambda s: s.key, src, want, 'attribute', attr_value(call), fname)
    src2 = dict(src)
    if (kf,) in isrc and isrc[(kf,)] != src.get((kf,)):
        src2['intl'] = isrc[(kf,)]
    we = {'leadingDigits': {(L['f', 'leading_digits'],)} if ('f', 'leading_digits') in L else set(), 'format': {(kf,), 'intl'}, 'intlFormat': {'intl'}}
    cv = calls_of(call, 'text')

    def value(c, p, s, new):
        if p == 'intl' and c == 'intlFormat' and X.isconst_none(new):
            tx = [x for q in s.state.facts for x in terms(q) if isinstance(x, Term) and x.op == 'fld' and isinstance(x.args[0], Term) and x.args[0].op == 'call' and call.get(x.args[0].args[1]) == 'text']
            if tx and X.allows(s.state, X.base(tx[0]), 'NA') == (True, True) and X.allows(s.state, X.base(tx[0]), '$1 $2') == (False, True):
                return None
            return 'bad', 'to nothing although its text is not NA'
        if c == 'leadingDigits':
            if isinstance(new, Term) and new.op == 'lpush':
                return cv(c, p, s, new.args[1])
            if isinstance(new, Agg) and new.kind == 'list' and len(new.f) == 1 and cv(c, p, s, new.f[0]) is None:
                return 'bad', 'to the last one only'
            return 'und', show(new)[:60]
        if p == 'intl' and c == 'intlFormat':
            w = cv(c, p, s, new)
            if w is None:
                x = norm(new)
                x = x.f[0] if isinstance(x, Agg) else x
                if X.allows(s.state, X.base(x), 'NA')[0]:
                    return 'bad', 'to the text NA'
            return w
        return cv(c, p, s, new)
    passes(res, n, starts(n), sorted(we) + [X.OTHER], ev_name, src2, we, 'element', value, fname)
    # what a format starts from: the defaults of its territory
    for p, v in initial(n, src).items():
        q = argpath(v)
        if q is not None:
            inherit[p] = q
        elif not empty(v):
            res.und('%s initial %s' % (n.name, lf['Format'][p[0]]), show(v)[:80])
    for w in sorted(DEFAULTS.values()):
        if ('f', w) in L:
            if (L['f', w],) in inherit:
                res.ok()
            else:
                v = initial(n, src).get((L['f', w],))
                (res.bad if v is not None and empty(v) else res.und)('default of ' + w, 'a format does not start from the default its territory gives for %s' % lf['Format'][L['f', w]])


def argpath(v):
    """path of fields from an argument"""
    path = ()
    while isinstance(v, Term) and v.op == 'fld' and v.args[1] == 0:
        path = (v.args[2],) + path
        v = v.args[0]
    if path and isinstance(v, Term) and any(isinstance(x, Term) and x.op == 'arg' for x in terms(v)) and v.op not in ('call',):
        return path
    return None


def at0(v, k):
    v = v.f[0]
    return v.f[k] if isinstance(v, Agg) else T('fld', v, 0, k)


def descriptor_fn(ctx, res, n, L, call, lf):
    ty = X.adt(ctx, X.LP + 'Descriptor')
    src = resolved(res, n, n.paths(lambda t, st, v: struct_leaves(ctx, v.f[0], ty)), 'result')
    fname = lambda p: 'Descriptor.' + lf['Descriptor'][p[0]]
    want = {a: {(L['d', f],)} for a, f in (('national', 'possible_length'), ('localOnly', 'possible_local_length')) if ('d', f) in L}
    passes(res, n, n.t.attrs, sorted(want) + [X.OTHER], lambda s: s.key, src, want, 'attribute', attr_value(call), fname)
    want = {a: {(L['d', f],)} for a, f in (('nationalNumberPattern', 'national_number'), ('exampleNumber', 'example')) if ('d', f) in L}
    passes(res, n, starts(n), sorted(want) + [X.OTHER], ev_name, src, want, 'element', calls_of(call, 'text'), fname)
    for p, v in initial(n, src).items():
        q = argpath(v)
        if q is None and not empty(v):
            res.und('%s initial %s' % (n.name, fname(p)), show(v)[:80])
        else:
            res.ok()


def territory_fn(ctx, res, n, L, call, lf, inherit):
    ty = X.adt(ctx, X.LP + 'Metadata')
    src = resolved(res, n, n.paths(lambda t, st, v: struct_leaves(ctx, v.f[0], ty)), 'result')

    def fname(p):
        return 'Metadata.' + lf['Metadata'][p[0]] + ''.join('.%d' % k for k in p[1:])
    want = {a: {(L['m', f],)} for a, f in ATTRS.items() if ('m', f) in L}
    for a, f in DEFAULTS.items():
        if ('f', f) in L and (L['f', f],) in inherit:
            want[a] = {inherit[(L['f', f],)]}
    passes(res, n, n.t.attrs, sorted(want) + [X.OTHER], lambda s: s.key, src, want, 'attribute', attr_value(call), fname)
    want = {e: {(L['ds', f],)} for e, f in DESCS.items() if ('ds', f) in L}
    passes(res, n, starts(n), sorted(want) + ['references', 'areaCodeOptional', X.OTHER], ev_name, src, want, 'element', calls_of(call, 'descriptor'), fname)
    if ('m', 'formats') in L and ('m', 'international_formats') in L:
        a, b = (L['m', 'formats'],), (L['m', 'international_formats'],)

        def value(c, p, s, new):
            if isinstance(new, Term) and new.op == 'fld' and isinstance(new.args[0], Term) and new.args[0].op == 'fld' and isinstance(new.args[0].args[0], Term) and new.args[0].args[0].op == 'call':
                if call.get(new.args[0].args[0].args[1]) != 'formats':
                    return 'und', show(new)[:60]
                if new.args[2] != (0 if p == a else 1):
                    return 'bad', 'to the %s formats' % ('international' if new.args[2] else 'national')
                return None
            return 'und', show(new)[:60]
        passes(res, n, starts(n), ['availableFormats'], ev_name, src, {'availableFormats': {a, b}}, 'element', value, fname)
    for p, v in initial(n, src).items():
        if empty(v):
            res.ok()
        else:
            (res.bad if precise(v) else res.und)('%s initial %s' % (n.name, fname(p)), 'a territory starts with %s in %s' % (show(v)[:60], fname(p)))


def formats_fn(ctx, res, n, call):
    src = resolved(res, n, n.paths(lambda t, st, v: [((k,), at0(v, k)) for k in (0, 1)]), 'result')
    for s in starts(n):
        if not X.allows(s.state, X.base(s.name), 'numberFormat')[0]:
            continue
        vals = {}
        for p, o in src.items():
            new, old = n.cell(s.state, o), n.cell(s.head, o)
            vals[p] = None if new is old or origin(new) == o else new
        res_call = None
        for q, w in s.state.facts.items():
            if isinstance(q, Term) and q.op == 'discr' and isinstance(q.args[0], Term) and q.args[0].op == 'fld' and isinstance(q.args[0].args[0], Term) and \
               q.args[0].args[0].op == 'fld' and isinstance(q.args[0].args[0].args[0], Term) and q.args[0].args[0].args[0].op == 'call':
                res_call = (q.args[0], w)
        for p, want in (((0,), 'national'), ((1,), 'international')):
            v = vals.get(p)
            key = 'formats %s' % want
            if p not in src:
                continue
            if v is None:
                if want == 'international' and res_call is not None and res_call[1] == ((0, 0),):
                    res.ok()
                else:
                    res.bad(key, 'a format element is not added to the %s formats' % want) if want == 'national' or res_call is not None and res_call[1] == ((1, 1),) else res.und(key, 'not recognised')
                continue
            if not (isinstance(v, Term) and v.op == 'lpush'):
                res.und(key, show(v)[:80])
                continue
            x = v.args[1]
            which = None
            y = x
            if isinstance(y, Term) and y.op == 'fld' and y.args[1] == 1 and isinstance(y.args[0], Term):
                y = y.args[0]
            if isinstance(y, Term) and y.op == 'fld' and y.args[1] == 0 and isinstance(y.args[0], Term) and y.args[0].op == 'fld' and isinstance(y.args[0].args[0], Term) and \
               y.args[0].args[0].op == 'call' and call.get(y.args[0].args[0].args[1]) == 'format':
                which = y.args[2]
            if which is None:
                res.und(key, show(x)[:80])
            elif which != p[0]:
                res.bad(key, 'the %s formats get the %s form of a format element' % (want, ('national', 'international')[which]))
            else:
                res.ok()


def text_fn(ctx, res, n):
    """the text of an element is all its text, in order"""
    src = resolved(res, n, n.paths(lambda t, st, v: [((), v.f[0])]), 'result')
    if () not in src:
        return
    o = src[()]
    for s in n.t.events:
        new, old = n.cell(s.state, o), n.cell(s.head, o)
        kinds = {X.KIND[k] for k in s.kinds}
        if kinds == {'Text'}:
            good = isinstance(new, Term) and new.op == 'cat' and len(new.args) == 2 and new.args[0] is old and any(x is s.ev for x in terms(new.args[1]))
            if good:
                res.ok()
            else:
                lost = isinstance(new, Term) and new.op == 'utf8' and any(x is s.ev for x in terms(new))
                (res.bad if new is old or origin(new) == o or lost else res.und)('text ' + n.name, 'the text of an element becomes %s' % show(new)[:80])
        elif not (new is old or origin(new) == o):
            res.und('text ' + n.name, 'event %s changes the text' % sorted(kinds))
        else:
            res.ok()
    for p, v in initial(n, src).items():
        if isinstance(v, Term) and v.op == 'str' and v.args[0] == '' or textlen(v) == 0:
            res.ok()
        else:
            res.und('text initial', show(v)[:60])


def list_fn(ctx, res, n, call):
    """every territory read is added to the list, and nothing else"""
    if not n.ok:
        return
    src = resolved(res, n, n.paths(lambda t, st, v: [((), v.f[0])]), 'result')
    if () not in src:
        return
    o = src[()]
    for s in n.t.events:
        new, old = n.cell(s.state, o), n.cell(s.head, o)
        same = new is old or origin(new) == o
        read = [q for q, v in s.state.facts.items() if q not in s.head.facts and isinstance(q, Term) and q.op == 'discr' and isinstance(q.args[0], Term) and
                q.args[0].op == 'call' and call.get(q.args[0].args[1]) in ('territory', 'list')]
        key = '%s list' % n.name
        if not read:
            if same:
                res.ok()
            else:
                (res.bad if precise(new) else res.und)(key, 'the list of territories changes although none was read: %s' % show(new)[:80])
            continue
        c = read[-1].args[0]
        if same:
            res.bad(key, 'a territory that was read is not added to the list (in %s)' % n.name)
        elif isinstance(new, Term) and new.op == 'lpush' and call.get(c.args[1]) == 'territory' and new.args[1] is T('fld', c, 0, 0) and (new.args[0] is old or origin(new.args[0]) == o):
            res.ok()
        elif isinstance(new, Term) and new.op in ('lext', 'lcat') and call.get(c.args[1]) == 'list' and any(x is T('fld', c, 0, 0) for x in terms(new)) and \
                (new.args[0] is old or origin(new.args[0]) == o):
            res.ok()
        else:
            res.und(key, show(new)[:100])
