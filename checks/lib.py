"""Helpers shared by the checks."""
import os, signal, sys, time
import ai, core
from core import T, A, R, I, S, Term, Agg, Ref, show, cat, textlen, sub, add, addc


def inst_of(ctx, path):
    f = ctx.F.bypath.get(path)
    if f is not None and f.get('inst') is not None:
        return f['inst']
    for i, x in enumerate(ctx.F.insts):
        if x['path'] == path and x.get('mir'):
            return i
    return None


def find_impl(ctx, trait, selfs, name):
    """inst of <Self as Trait>::name for a local type (paths as printed by the driver)"""
    for i, x in enumerate(ctx.F.insts):
        if x['local'] and x.get('mir') and x['path'].endswith('>::' + name):
            p = x['path']
            if p.startswith('<' + selfs) and (' as ' + trait) in p:
                return i
    return None


def api(ctx):
    """public non-derived functions that have a body"""
    for f in ctx.F.fns:
        if f.get('reachable') and not f.get('derived'):
            yield f


class Run:
    """one analysis of one function, everything the checks look at"""

    def __init__(self, ctx, inst, args=None, st=None, setup=None, deadline=600, ai_=None):
        a = ai_ or ai.AI(ctx.F)
        self.a = a
        a.deadline = time.time() + deadline
        self.timeout = False
        t = time.time()

        def late(*_):
            raise ai.Deadline()
        old = signal.signal(signal.SIGALRM, late)
        signal.setitimer(signal.ITIMER_REAL, deadline + 5)
        try:
            self.args, self.outs = a.analyse(inst, args=args, st=st, setup=setup)
        except ai.Deadline:
            self.timeout = True
            self.args, self.outs = [], []
        except RecursionError:
            self.timeout = True
            self.args, self.outs = [], []
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
        self.secs = time.time() - t
        self.unknown = a.unknown
        self.analysis_fail = [f for f in a.failures.values() if f.kind == 'analysis']
        self.failures = [f for f in a.failures.values() if f.kind != 'analysis']

    @property
    def tainted(self):
        return bool(self.timeout or self.analysis_fail or self.unknown)

    def why(self):
        w = []
        if self.timeout:
            w.append('budget exhausted')
        w += [str(f)[:200] for f in self.analysis_fail]
        w += ['no model for ' + u for u in self.unknown]
        return '; '.join(w)[:500]


def walk(v, f, memo=None):
    """visit every node inside a value"""
    if memo is None:
        memo = set()
    if isinstance(v, (tuple, frozenset)):
        for x in v:
            walk(x, f, memo)
        return
    if not isinstance(v, core.Node) or v in memo:
        return
    memo.add(v)
    f(v)
    if isinstance(v, Term):
        walk(v.args, f, memo)
    elif isinstance(v, Agg):
        walk(v.f, f, memo)
    else:
        walk(v.loc, f, memo)


def terms(v):
    out = []
    walk(v, out.append)
    return out


IMPRECISE = ('sym', 'j', 'phi', 'old', 'rs')


def precise(v):
    """no invented symbols inside"""
    return not any(isinstance(x, Term) and x.op in IMPRECISE for x in terms(v))


# ---------------------------------------------------------------- bit provenance
def bits(a, st, t, w=64, d=0):
    """list of w bits of an unsigned integer term: 0, 1 or (atom, bit); None when not decidable"""
    F = a.F
    if d > 40 or not isinstance(t, Term):
        return None
    if t.op == 'int':
        return [(t.args[0] >> i) & 1 for i in range(w)] if t.args[0] >= 0 else None
    if t.op == 'lin':
        acc = [(t.args[0] >> i) & 1 for i in range(w)] if t.args[0] >= 0 else None
        if acc is None:
            return None
        for x, c in t.args[1]:
            if c <= 0 or c & (c - 1):
                return None
            b = bits(a, st, x, w, d + 1)
            if b is None:
                return None
            k = c.bit_length() - 1
            if any(z != 0 for z in b[w - k:]) and k:
                return None
            b = [0] * k + b[:w - k]
            if any(p != 0 and q != 0 for p, q in zip(acc, b)):
                return None
            acc = [p if p != 0 else q for p, q in zip(acc, b)]
        return acc
    if t.op in ('and', 'or', 'xor') and len(t.args) == 2:
        x, y = bits(a, st, t.args[0], w, d + 1), bits(a, st, t.args[1], w, d + 1)
        if x is None or y is None:
            return None
        out = []
        for p, q in zip(x, y):
            if t.op == 'and':
                r = 0 if p == 0 or q == 0 else q if p == 1 else p if q == 1 or p == q else None
            elif t.op == 'or':
                r = q if p == 0 else p if q == 0 else 1 if p == 1 or q == 1 else p if p == q else None
            else:
                r = q if p == 0 else p if q == 0 else 0 if p == q else None
            if r is None:
                return None
            out.append(r)
        return out
    if t.op in ('shl', 'shr') and isinstance(t.args[1], (Term, int)):
        k = t.args[1].args[0] if isinstance(t.args[1], Term) and t.args[1].op == 'int' else t.args[1] if isinstance(t.args[1], int) else None
        x = bits(a, st, t.args[0], w, d + 1)
        if k is None or x is None or not 0 <= k < w:
            return None
        if t.op == 'shl':
            return [0] * k + x[:w - k]
        return x[k:] + [0] * k
    if t.op == 'trunc':
        x = bits(a, st, t.args[0], w, d + 1)
        return None if x is None else x[:t.args[1]] + [0] * (w - t.args[1])
    n = w
    if t.ty is not None and a.types[t.ty]['k'] == 'int':
        n = min(w, a.types[t.ty]['bits'])
    v = a.iv(st, t)
    if v and v[0][0] >= 0:
        n = min(n, max(v[-1][1].bit_length(), 0))
    elif v and v[0][0] < 0:
        return None
    return [(t, i) for i in range(n)] + [0] * (w - n)


def exact_bits(atom, n, w=64):
    return [(atom, i) for i in range(n)] + [0] * (w - n)


def field_of(v, i):
    while isinstance(v, Ref) and v.loc[0] == 'V' and not v.path:
        v = v.loc[1]
    return v.f[i] if isinstance(v, Agg) and i < len(v.f) else None


def variant(ctx, ty, i):
    try:
        return ctx.F.types[ty]['variants'][i]['name']
    except Exception:
        return '?'


def vname(ctx, v):
    """variant name of an enum value, if known"""
    while isinstance(v, Ref) and v.loc[0] == 'V' and not v.path:
        v = v.loc[1]
    if isinstance(v, Agg) and v.kind == 'adt' and v.ty is not None:
        return variant(ctx, v.ty, v.var)
    return None
