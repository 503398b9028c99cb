"""Models of individual library functions, registered by path."""
from core import *
import models as MM
from models import PATHS, NAMES, PREFIX, groups_of


def P(*paths):
    def d(f):
        for p in paths:
            PATHS[p] = f
        return f
    return d


def N(trait, *names):
    def d(f):
        for n in names:
            NAMES[(trait, n)] = f
        return f
    return d


def prefixed(pre):
    tab = {}
    PREFIX.append((pre, tab))

    def reg(*names):
        def d(f):
            for n in names:
                tab[n] = f
            return f
        return d
    return reg


STR = prefixed('core::str::<impl str>')
ASTR = prefixed('alloc::str::<impl str>')
STRING = prefixed('alloc::string::String')
VEC = prefixed('alloc::vec::Vec')
SLICE = prefixed('core::slice::<impl [T]>')
ASLICE = prefixed('alloc::slice::<impl [T]>')
CHAR = prefixed('core::char::methods::<impl char>')
HMAP = prefixed('std::collections::hash::map::HashMap')
HSET = prefixed('std::collections::hash::set::HashSet')
REGEX = prefixed('regex::regex::string::Regex')
CAPS = prefixed('regex::regex::string::Captures')
MATCH = prefixed('regex::regex::string::Match')
RXB = prefixed('regex::builders::string::RegexBuilder')
ITER = 'core::iter::traits::iterator::Iterator'


# ================================================================ panics
@P('core::option::unwrap_failed', 'core::option::expect_failed', 'core::result::unwrap_failed',
   'core::result::unwrap_failed::unwrap_failed_inner', 'core::panicking::panic', 'core::panicking::panic_fmt',
   'core::panicking::panic_explicit', 'core::panicking::unreachable_display', 'core::panicking::panic_display',
   'core::panicking::assert_failed', 'core::panicking::panic_bounds_check', 'std::panicking::begin_panic',
   'std::process::exit', 'std::process::abort', 'core::panicking::panic_nounwind', 'core::panicking::panic_str_2015',
   'core::panicking::panic_str_literal', 'alloc::alloc::handle_alloc_error', 'core::intrinsics::abort')
def _panic(M, st, args, dty, site, cal):
    M.ai.fail('panic', cal.get('path', cal['decl']).rsplit('::', 1)[-1].replace('unwrap_failed_inner', 'unwrap_failed'), st)
    return []


# ================================================================ identity-like conversions
def ident(M, st, args, dty, site, cal):
    """value behind the reference (Deref / AsRef / Borrow / Clone of plain values)"""
    v = args[0]
    c = M.ai.cls(dty) if dty is not None else None
    tk = M.types[dty]['k'] if dty is not None else None
    if c in ('text', 'list'):
        x = M.rd(st, v)
        if c == 'text' and isinstance(x, Agg):
            return fresh('text', dty)
        return x
    if tk == 'ref':
        # &Arc<T> -> &T , &Box<T> -> &T
        if isinstance(v, Ref):
            x = M.ai.read(st, v.loc, v.path)
            if isinstance(x, Ref):
                return x
            return v
        return v
    x = M.rd1(st, v)
    return x


@P('<alloc::string::String as core::clone::Clone>::clone', '<alloc::vec::Vec<T, A> as core::clone::Clone>::clone',
   '<regex::regex::string::Regex as core::clone::Clone>::clone', 'alloc::slice::<impl [T]>::to_vec',
   '<T as alloc::slice::<impl [T]>::to_vec_in::ConvertVec>::to_vec', 'alloc::string::String::as_str',
   'alloc::string::String::as_mut_str', 'alloc::string::String::into_boxed_str', 'alloc::str::<impl str>::to_owned',
   'alloc::str::<impl str>::into_string', 'alloc::vec::Vec::<T, A>::as_slice', 'alloc::slice::<impl [T]>::into_vec',
   '<alloc::rcs::arc::Arc<T, A> as core::clone::Clone>::clone', '<alloc::sync::Arc<T, A> as core::clone::Clone>::clone',
   'alloc::borrow::Cow::<\'_, B>::into_owned', 'core::hint::black_box')
def _id(M, st, args, dty, site, cal):
    return ident(M, st, args, dty, site, cal)


def clone_generic(M, st, args, dty, site, cal):
    return M.rd1(st, args[0])


for t_, n_ in (('core::clone::Clone', 'clone'), ('core::ops::deref::Deref', 'deref'), ('core::ops::deref::DerefMut', 'deref_mut'),
               ('core::convert::AsRef', 'as_ref'), ('core::borrow::Borrow', 'borrow'), ('alloc::borrow::ToOwned', 'to_owned')):
    NAMES[(t_, n_)] = None


def n_clone(M, st, args, dty, site, cal):
    if 'inst' in cal and M.F.insts[cal['inst']].get('mir') and not is_ext_clone(M, cal):
        return None
    return M.rd1(st, args[0]) if M.ai.cls(dty) not in ('text', 'list') else M.rd(st, args[0])


def is_ext_clone(M, cal):
    return False


NAMES[('core::clone::Clone', 'clone')] = n_clone


def n_deref(M, st, args, dty, site, cal):
    if 'inst' in cal and M.F.insts[cal['inst']].get('mir') and M.ai.cls(dty) not in ('text', 'list'):
        return None
    path = cal.get('path', '')
    if 'once_cell' in path or 'LazyLock' in path:
        return lazy_deref(M, st, args, dty, site, cal)
    if 'quick_xml' in path:
        v = M.rd(st, args[0])
        t = T('xmlbytes', v, ty=dty)
        return M.ai.symval(t, dty)
    return ident(M, st, args, dty, site, cal)


for t_, n_ in (('core::ops::deref::Deref', 'deref'), ('core::ops::deref::DerefMut', 'deref_mut'),
               ('core::convert::AsRef', 'as_ref'), ('core::borrow::Borrow', 'borrow'), ('alloc::borrow::ToOwned', 'to_owned')):
    NAMES[(t_, n_)] = n_deref


def lazy_deref(M, st, args, dty, site, cal):
    r = args[0]
    v = M.rd(st, r)
    if isinstance(v, Agg) and v.kind == 'lazy':
        f = v.f[0]
        key = ('lazyval', r.loc if isinstance(r, Ref) else v)
        hit = M.ai.static_cache.get(key)
        p = M.types[dty]['ty'] if dty is not None and M.types[dty]['k'] == 'ref' else None
        if hit is None and p is not None and M.types[p]['k'] == 'adt' and M.types[p]['local']:
            # a table of the crate's own type (the bundled database): any value of that type
            hit = M.ai.symval(T('lazy', str(r.loc[1]) if isinstance(r, Ref) else '?', ty=p), p)
            M.ai.static_cache[key] = hit
        if hit is None:
            M.ai.dry += 1
            save = M.ai.opaque
            M.ai.opaque = lambda i, c: False
            try:
                outs = M.ai.call_value(State(), f, [], None, ('lazy', key))
            finally:
                M.ai.dry -= 1
                M.ai.opaque = save
            if len(outs) == 1:
                hit = outs[0][1]
                if isinstance(hit, Ref):
                    hit = M.ai.read(outs[0][0], hit.loc, hit.path) if hit.loc[0] != 'V' else hit
            else:
                hit = None
            if hit is None:
                p = M.types[dty]['ty']
                hit = M.ai.symval(T('lazy', str(r.loc[1]) if isinstance(r, Ref) else '?', ty=p), p)
            M.ai.static_cache[key] = hit
        return R(('V', hit))
    p = M.types[dty]['ty'] if dty is not None and M.types[dty]['k'] == 'ref' else None
    if isinstance(v, Term):
        return R(('V', M.ai.symval(T('lazyof', v, ty=p), p)))
    return None


PATHS['<once_cell::sync::Lazy<T, F> as core::ops::deref::Deref>::deref'] = lazy_deref
PATHS['once_cell::sync::Lazy::<T, F>::force'] = lazy_deref


@P('once_cell::sync::Lazy::<T, F>::new', 'once_cell::sync::Lazy::<T>::new', 'std::sync::LazyLock::<T, F>::new')
def _lazynew(M, st, args, dty, site, cal):
    return A('lazy', None, 0, (args[0],))


@N('core::convert::Into', 'into')
def _into(M, st, args, dty, site, cal):
    if 'inst' in cal and M.F.insts[cal['inst']].get('mir'):
        return None
    if M.ai.cls(dty) in ('text', 'list'):
        return M.rd(st, args[0])
    return None


@N('core::convert::From', 'from')
def _from(M, st, args, dty, site, cal):
    if 'inst' in cal and M.F.insts[cal['inst']].get('mir'):
        return None
    c = M.ai.cls(dty)
    if c == 'text':
        x = M.rd(st, args[0])
        if isinstance(x, Term):
            if x.ty is not None and M.types[x.ty]['k'] == 'char':
                return T('chr', x)
            return x
    if c == 'list':
        x = M.rd(st, args[0])
        if M.istext(x):
            return T('bytes', x)
        return x
    if M.types[dty]['k'] == 'int' or M.types[dty]['k'] == 'char':
        x = M.rd(st, args[0])
        if isinstance(x, Term):
            if x.op == 'bool':
                return I(1 if x.args[0] else 0)
            if x.ty is not None and M.types[x.ty]['k'] == 'bool':
                return T('ite', x, I(1), I(0))
            return x
    return None


@N('core::convert::TryFrom', 'try_from')
def _tryfrom(M, st, args, dty, site, cal):
    return int_try(M, st, args, dty)


@N('core::convert::TryInto', 'try_into')
def _tryinto(M, st, args, dty, site, cal):
    return int_try(M, st, args, dty)


def int_try(M, st, args, dty):
    t = M.fty(dty, 0, 0)
    if t is None or M.types[t]['k'] not in ('int', 'char'):
        return None
    x = M.rd(st, args[0])
    if not isinstance(x, Term):
        return None
    rng = int_range(M.types[t]['bits'], M.types[t]['signed']) if M.types[t]['k'] == 'int' else ((0, 0xD7FF), (0xE000, MAXCP))
    out = []
    a, b = M.fork(st, T('in', x, rng))
    if a is not None:
        out.append((a, M.ok(dty, x)))
    if b is not None:
        out.append((b, M.err(dty)))
    return out


# ================================================================ comparison
@N('core::cmp::PartialEq', 'eq', 'ne')
def _eq(M, st, args, dty, site, cal):
    name = cal.get('name')
    if 'inst' in cal and M.F.insts[cal['inst']].get('mir') and name == 'eq':
        return None
    a, b = M.rd(st, args[0]), M.rd(st, args[1])
    sty = cal.get('self_ty')
    ty = cal.get('impl_ty', sty)
    d = 0
    while ty is not None and M.types[ty]['k'] == 'ref' and d < 5:
        ty = M.types[ty]['ty']
        d += 1
    if ty is None:
        ty = getattr(a, 'ty', None)
    r = None
    c = M.ai.cls(ty) if ty is not None else None
    tk = M.types[ty]['k'] if ty is not None else None
    if c == 'text' or M.istext(a) and M.istext(b):
        if isinstance(a, Term) and isinstance(b, Term):
            r = M.eqs(a, b)
    elif tk in ('int', 'char') and isinstance(a, Term) and isinstance(b, Term):
        r = M.ai.eqi(st, a, b)
    elif tk == 'bool' and isinstance(a, Term) and isinstance(b, Term):
        r = M.booleq(a, b)
    elif tk == 'adt' and M.types[ty]['akind'] == 'enum' and all(not v['fields'] for v in M.types[ty]['variants']):
        r = M.ai.eqi(st, M.ai.discr(st, a, ty), M.ai.discr(st, b, ty))
    elif tk == 'adt' and M.types[ty].get('local') or tk == 'adt' and M.types[ty].get('path', '').startswith('core::'):
        imp = M.F.impl.get(ty, {}).get('PartialEq')
        if imp is not None and 'inst' in imp and M.F.insts[imp['inst']].get('mir'):
            ra = args[0]
            outs = M.ai.call_inst(st, imp['inst'], [unref(M, st, args[0]), unref(M, st, args[1])], M.bool_ty, (site, 'eq'))
            return [(s, M.ai.neg(v) if name == 'ne' and isinstance(v, Term) else v) for s, v in outs]
    elif c == 'list':
        r = list_eq(M, st, a, b)
    elif tk == 'adt' and M.types[ty].get('path') == 'regex::regex::string::Match':
        r = T('eqv', a, b, ty=M.bool_ty)
    if r is None and isinstance(a, Agg) and isinstance(b, Agg) and a.kind == b.kind and a.kind in ('adt', 'tuple') and a.var == b.var and len(a.f) == len(b.f) and \
            (a.kind == 'tuple' or M.types[ty].get('path', '').startswith('core::ops::range::')):
        r = TRUE
        for k, (x, y) in enumerate(zip(a.f, b.f)):
            t = M.types[ty]['tys'][k] if tk == 'tuple' else (M.types[ty].get('args') or [None])[0] if tk == 'adt' else None
            x, y = M.rd(st, x), M.rd(st, y)
            if isinstance(x, Term) and isinstance(y, Term) and t is not None and M.types[t]['k'] in ('int', 'char'):
                q = M.ai.eqi(st, x, y)
            elif M.istext(x) and M.istext(y):
                q = M.eqs(x, y)
            else:
                r = None
                break
            r = [q] if r is TRUE else r + [q]
        if isinstance(r, list):
            outs = []
            for q in r:
                yes, no = M.fork(st, q)
                if no is not None:
                    outs.append((no, TRUE if name == 'ne' else FALSE))
                st = yes
                if st is None:
                    break
            if st is not None:
                outs.append((st, FALSE if name == 'ne' else TRUE))
            return outs
    if r is None:
        da, db = M.ai.deepval(st, a), M.ai.deepval(st, b)
        r = TRUE if da is db else T('eqv', *sorted((da, db), key=lambda x: x.id), ty=M.bool_ty) if isinstance(da, Node) and isinstance(db, Node) else fresh('eq', M.bool_ty)
    return M.ai.neg(r) if name == 'ne' else r


def unref(M, st, v):
    """innermost reference"""
    while isinstance(v, Ref):
        x = M.ai.read(st, v.loc, v.path)
        if isinstance(x, Ref):
            v = x
        else:
            break
    return v


def list_eq(M, st, a, b):
    if a is b:
        return TRUE
    if isinstance(a, Agg) and isinstance(b, Agg):
        if len(a.f) != len(b.f):
            return FALSE
        a, b = b, a
    for x, y in ((a, b), (b, a)):
        if isinstance(y, Agg) and y.kind == 'list' and all(isinstance(e, Term) and e.op == 'int' for e in y.f) and isinstance(x, Term):
            if x.op == 'bytes':
                try:
                    return M.eqs(x.args[0], S(bytes(e.args[0] for e in y.f).decode()))
                except (UnicodeDecodeError, ValueError):
                    pass
            r = M.ai.eqi(st, M.llen(x), I(len(y.f)))
            for n, e in enumerate(y.f):
                q = M.ai.eqi(st, M.elt(st, x, I(n), M.F.tyby.get('u8')), e)
                r = T('and', r, q, ty=M.bool_ty)
            return r
    if isinstance(a, Term) and isinstance(b, Term) and a.op == 'bytes' and b.op == 'bytes':
        return M.eqs(a.args[0], b.args[0])
    return T('eqv', *sorted((a, b), key=lambda x: x.id), ty=M.bool_ty)


@N('core::cmp::Ord', 'max', 'min')
def _maxmin(M, st, args, dty, site, cal):
    a, b = args
    if isinstance(a, Term) and isinstance(b, Term) and M.types[dty]['k'] == 'int':
        c = M.ai.ge0(st, sub(a, b))
        x, y = M.fork(st, c)
        mx = cal['name'] == 'max'
        out = []
        if x is not None:
            out.append((x, a if mx else b))
        if y is not None:
            out.append((y, b if mx else a))
        return out
    return None


# ================================================================ str
@STR('len')
@STRING('len')
def _len(M, st, args, dty, site, cal):
    return textlen(M.txt(st, args[0]))


@STR('is_empty')
@STRING('is_empty')
def _isempty(M, st, args, dty, site, cal):
    return M.ai.eqi(st, textlen(M.txt(st, args[0])), I(0))


@STR('as_bytes', 'as_bytes_mut')
@STRING('as_bytes', 'into_bytes')
def _asbytes(M, st, args, dty, site, cal):
    return T('bytes', M.txt(st, args[0]))


@STR('as_str')
def _asstr(M, st, args, dty, site, cal):
    return M.txt(st, args[0])


@STR('chars')
def _chars(M, st, args, dty, site, cal):
    return M.mkit('chars', M.txt(st, args[0]), I(0), None, (), I(0))


@STR('char_indices')
def _char_indices(M, st, args, dty, site, cal):
    return M.mkit('char_indices', M.mkit('chars', M.txt(st, args[0]), I(0), None, (), I(0)))


@STR('bytes')
def _bytes(M, st, args, dty, site, cal):
    t = M.txt(st, args[0])
    return M.mkit('list', T('bytes', t), I(0), textlen(t), 0, None)


@STR('is_char_boundary')
def _icb(M, st, args, dty, site, cal):
    t = M.txt(st, args[0])
    if M.is_bd(st, t, args[1]) and M.ai.prove(st, sub(textlen(t), args[1])):
        return TRUE
    return fresh('icb', M.bool_ty)


def set_at(M, st, t, p, cs):
    """fork on: char at p exists and in cs -> (yes states, no states)"""
    ai = M.ai
    yes, no = [], []
    a, b = M.fork(st, ai.ge0(st, addc(sub(textlen(t), p), -1)))
    if b is not None:
        no.append(b)
    if a is not None:
        c = M.charat(t, p)
        cur = iv_and(ai.iv(a, c), ai.cs(a, t))
        y = a.copy()
        if ai.assume_in(y, c, iv_and(cur, cs)):
            M.pos(y, t, add(p, T('utf8len', c)))
            yes.append((y, add(p, T('utf8len', c))))
        n = a.copy()
        if ai.assume_in(n, c, iv_sub(cur, cs)):
            no.append(n)
    return yes, no


def starts(M, st, t, pat):
    """-> ([(state, end of match)], [states without])"""
    ps = M.patset(st, pat)
    if isinstance(ps, Term):
        a, b = M.fork(st, T('pre', t, ps, ty=M.bool_ty))
        if t.op == 'str' and ps.op == 'str':
            pass
        y = []
        if a is not None:
            if M.ai.assume_ge0(a, sub(textlen(t), textlen(ps))):
                M.pos(a, t, textlen(ps))
                y.append((a, textlen(ps)))
        return y, [b] if b is not None else []
    if isinstance(ps, tuple):
        if t.op == 'str':
            s = t.args[0]
            if s and iv_and(((ord(s[0]),) * 2,), ps) and len(ps) == 1 and ps[0][0] == ps[0][1]:
                return [(st, I(len(s[0].encode())))], []
            if not s or not iv_and(((ord(s[0]),) * 2,), ps):
                return [], [st]
        return set_at(M, st, t, I(0), ps)
    a, b = M.fork(st, fresh('starts', M.bool_ty))
    y = []
    if a is not None:
        p = fresh('plen', M.usize)
        M.pos(a, t, p)
        y.append((a, p))
    return y, [b]


@STR('starts_with')
def _starts(M, st, args, dty, site, cal):
    t = M.txt(st, args[0])
    y, n = starts(M, st, t, args[1])
    return [(s, TRUE) for s, _ in y] + [(s, FALSE) for s in n]


def ends(M, st, t, pat):
    ps = M.patset(st, pat)
    if isinstance(ps, Term):
        if t.op == 'str' and ps.op == 'str':
            return ([(st, sub(textlen(t), textlen(ps)))], []) if t.args[0].endswith(ps.args[0]) else ([], [st])
        a, b = M.fork(st, T('suf', t, ps, ty=M.bool_ty))
        y = []
        if a is not None:
            y.append((a, sub(textlen(t), textlen(ps))))
        return y, [b] if b is not None else []
    key = T('sufset', t, ps, ty=M.bool_ty) if isinstance(ps, tuple) else fresh('ends', M.bool_ty)
    a, b = M.fork(st, key)
    y = []
    if a is not None:
        p = T('find', key, t, ty=M.usize)
        M.pos(a, t, p)
        if M.ai.assume_ge0(a, addc(sub(textlen(t), p), -1)):
            y.append((a, p))
    return y, [b] if b is not None else []


@STR('ends_with')
def _ends(M, st, args, dty, site, cal):
    t = M.txt(st, args[0])
    y, n = ends(M, st, t, args[1])
    return [(s, TRUE) for s, _ in y] + [(s, FALSE) for s in n]


@STR('strip_prefix')
def _strip_prefix(M, st, args, dty, site, cal):
    t = M.txt(st, args[0])
    y, n = starts(M, st, t, args[1])
    return [(s, M.opt(dty, slice_(t, p, textlen(t)))) for s, p in y] + [(s, M.opt(dty)) for s in n]


@STR('strip_suffix')
def _strip_suffix(M, st, args, dty, site, cal):
    t = M.txt(st, args[0])
    y, n = ends(M, st, t, args[1])
    return [(s, M.opt(dty, slice_(t, I(0), p))) for s, p in y] + [(s, M.opt(dty)) for s in n]


def has(M, st, t, pat):
    ps = M.patset(st, pat)
    if ps is None:
        ps = fresh('pat')
    if isinstance(ps, tuple) and len(ps) == 1 and ps[0][0] == ps[0][1]:
        ps = S(chr(ps[0][0]))
    if isinstance(ps, tuple):
        cs = M.ai.cs(st, t)
        if not iv_and(cs, ps):
            return ps, FALSE
        if iv_subset(cs, ps):
            return ps, M.ai.ge0(st, addc(textlen(t), -1))
    return ps, T('has', t, ps, ty=M.bool_ty)


@STR('contains')
def _contains(M, st, args, dty, site, cal):
    t = M.txt(st, args[0])
    return has(M, st, t, args[1])[1]


def found(M, st, t, ps, last=False):
    """position facts of the first/last match of ps in t"""
    p = T('rfind' if last else 'find', ps, t, ty=M.usize)
    if isinstance(ps, Term):
        n = textlen(ps)
    else:
        n = T('utf8len', M.charat(t, p))
    M.pos(st, t, p)
    M.pos(st, t, add(p, n))
    cs = cs_of(ps.args[0]) if isinstance(ps, Term) and ps.op == 'str' and len(ps.args[0]) == 1 else ps if isinstance(ps, tuple) else None
    if cs is not None:
        c = M.charat(t, p)
        M.ai.assume_in(st, c, cs)
        if not last:
            pre = slice_(t, I(0), p)
            st.facts[('cs', pre)] = iv_sub(M.ai.cs(st, pre), cs)
        else:
            suf = slice_(t, add(p, n), textlen(t))
            st.facts[('cs', suf)] = iv_sub(M.ai.cs(st, suf), cs)
    return p, n


@STR('find', 'rfind')
def _find(M, st, args, dty, site, cal):
    t = M.txt(st, args[0])
    ps, h = has(M, st, t, args[1])
    a, b = M.fork(st, h)
    out = []
    if a is not None:
        p, n = found(M, a, t, ps, cal['name'] == 'rfind')
        out.append((a, M.opt(dty, p)))
    if b is not None:
        out.append((b, M.opt(dty)))
    return out


@STR('split_once', 'rsplit_once')
def _split_once(M, st, args, dty, site, cal):
    t = M.txt(st, args[0])
    ps, h = has(M, st, t, args[1])
    a, b = M.fork(st, h)
    out = []
    if a is not None:
        p, n = found(M, a, t, ps, cal['name'] == 'rsplit_once')
        out.append((a, M.opt(dty, A('tuple', None, 0, (slice_(t, I(0), p), slice_(t, add(p, n), textlen(t)))))))
    if b is not None:
        out.append((b, M.opt(dty)))
    return out


@STR('split_at')
def _split_at(M, st, args, dty, site, cal):
    t, p = M.txt(st, args[0]), args[1]
    check_slice(M, st, t, I(0), p)
    return A('tuple', None, 0, (slice_(t, I(0), p), slice_(t, p, textlen(t))))


@STR('split', 'rsplit', 'splitn', 'split_terminator', 'lines', 'split_whitespace', 'split_inclusive', 'split_ascii_whitespace', 'rsplitn', 'matches')
def _split(M, st, args, dty, site, cal):
    t = M.txt(st, args[0])
    ps = M.patset(st, args[-1]) if len(args) > 1 else None
    return M.mkit('split', t, ps if isinstance(ps, (Term, tuple)) else None, M.F.tyby.get('&str'))


@STR('trim_start_matches', 'trim_start', 'trim_left_matches')
def _tsm(M, st, args, dty, site, cal):
    ai = M.ai
    t = M.txt(st, args[0])
    if len(args) > 1:
        ps = M.patset(st, args[1])
        if isinstance(ps, Term) and ps.op == 'str' and len(ps.args[0]) == 1:
            ps = cs_of(ps.args[0])
    else:
        ps = WS
    if t.op == 'str' and isinstance(ps, tuple):
        s = t.args[0]
        while s and iv_and(((ord(s[0]),) * 2,), ps):
            s = s[1:]
        return S(s)
    p = T('tsm', ps if isinstance(ps, (Term, tuple)) else fresh('pat'), t, ty=M.usize)
    M.pos(st, t, p)
    out = []
    if isinstance(ps, tuple):
        pre = slice_(t, I(0), p)
        st.facts[('cs', pre)] = iv_and(ai.cs(st, pre), ps)
        a, b = M.fork(st, ai.ge0(st, addc(sub(textlen(t), p), -1)))
        if a is not None:
            c = M.charat(t, p)
            if ai.assume_in(a, c, iv_sub(iv_and(ai.iv(a, c), ai.cs(a, t)), ps)):
                out.append((a, slice_(t, p, textlen(t))))
        if b is not None:
            b.facts[('cs', t)] = iv_and(ai.cs(b, t), ps)
            out.append((b, S('')))
        return out
    return slice_(t, p, textlen(t))


WS = iv_norm([(9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029),
              (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)])


@STR('trim_end_matches', 'trim_end', 'trim_right_matches')
def _tem(M, st, args, dty, site, cal):
    t = M.txt(st, args[0])
    ps = M.patset(st, args[1]) if len(args) > 1 else WS
    p = T('tsm', T('end', ps if isinstance(ps, (Term, tuple)) else fresh('pat')), t, ty=M.usize)
    M.pos(st, t, p)
    if isinstance(ps, tuple):
        suf = slice_(t, p, textlen(t))
        if suf.op == 'slice':
            st.facts[('cs', suf)] = iv_and(M.ai.cs(st, suf), ps)
    return slice_(t, I(0), p)


@STR('trim', 'trim_matches')
def _trim(M, st, args, dty, site, cal):
    t = M.txt(st, args[0])
    ps = M.patset(st, args[1]) if len(args) > 1 else WS
    k = ps if isinstance(ps, (Term, tuple)) else fresh('pat')
    p = T('tsm', k, t, ty=M.usize)
    q = T('tsm', T('end', k), t, ty=M.usize)
    M.pos(st, t, p)
    M.pos(st, t, q)
    M.ai.assume_ge0(st, sub(q, p))
    return slice_(t, p, q)


@ASTR('replace', 'replacen')
def _replace(M, st, args, dty, site, cal):
    t = M.txt(st, args[0])
    ps = M.patset(st, args[1])
    rep = M.txt(st, args[2])
    if isinstance(ps, tuple):
        ps = S(chr(ps[0][0])) if len(ps) == 1 and ps[0][0] == ps[0][1] else T('set', ps)
    if ps is None:
        ps = fresh('pat')
    if t.op == 'str' and isinstance(ps, Term) and ps.op == 'str' and rep.op == 'str' and cal['name'] == 'replace':
        return S(t.args[0].replace(ps.args[0], rep.args[0]))
    return T('srep', t, ps, rep, ty=M.F.tyby.get('alloc::string::String'))


@ASTR('to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'repeat')
def _lower(M, st, args, dty, site, cal):
    t = M.txt(st, args[0])
    if t.op == 'str' and cal['name'] != 'repeat':
        return S(t.args[0].lower() if 'lower' in cal['name'] else t.args[0].upper())
    if cal['name'] == 'repeat' and t.op == 'str' and args[1].op == 'int' and args[1].args[0] < 100:
        return S(t.args[0] * args[1].args[0])
    if cal['name'] == 'repeat' and t.op == 'str' and len(t.args[0].encode()) == 1:
        return T('rep', t, args[1]) if isinstance(args[1], Term) else fresh('repeat', dty)
    r = T(cal['name'], *[t] + list(args[1:]), ty=dty)
    if cal['name'] == 'repeat':
        st.facts[('cs', r)] = M.ai.cs(st, t)
        n = textlen(t)
        if n.op == 'int' and isinstance(args[1], Term):
            L = sub(T('len', r), add(I(0), args[1], n.args[0]))
            M.ai.assume_ge0(st, L)
            M.ai.assume_ge0(st, add(I(0), L, -1))
    return r


@STR('to_ascii_lowercase', 'to_ascii_uppercase')
def _lower2(M, st, args, dty, site, cal):
    return _lower(M, st, args, dty, site, cal)


@STR('eq_ignore_ascii_case')
def _eic(M, st, args, dty, site, cal):
    return T('has', M.txt(st, args[0]), T('nocase', M.txt(st, args[1])), ty=M.bool_ty)


@STR('get')
def _strget(M, st, args, dty, site, cal):
    t = M.txt(st, args[0])
    lo, hi = range_of(M, st, args[1], textlen(t))
    if lo is None:
        return None
    if M.ai.prove(st, sub(hi, lo)) and M.ai.prove(st, sub(textlen(t), hi)) and M.is_bd(st, t, lo) and M.is_bd(st, t, hi):
        return M.opt(dty, slice_(t, lo, hi))
    a = st.copy()
    out = []
    if M.ai.assume_ge0(a, sub(hi, lo)) and M.ai.assume_ge0(a, sub(textlen(t), hi)):
        M.pos(a, t, lo)
        M.pos(a, t, hi)
        out.append((a, M.opt(dty, slice_(t, lo, hi))))
    # none: why not
    for L in (addc(sub(lo, hi), -1), addc(sub(hi, textlen(t)), -1)):
        b = st.copy()
        if M.ai.assume_ge0(b, L):
            out.append((b, M.opt(dty)))
    for x in (lo, hi):
        b = st.copy()
        if not M.is_bd(st, t, x) and M.ai.assume_ge0(b, sub(hi, lo)) and M.ai.assume_ge0(b, sub(textlen(t), hi)):
            b.facts[('nbd', *M.canon(t, x))] = True
            out.append((b, M.opt(dty)))
    return out


def range_of(M, st, r, n):
    v = M.rd(st, r)
    if isinstance(v, Agg) and v.kind == 'adt' and v.ty is not None:
        p = M.types[v.ty].get('path', '').rsplit('::', 1)[-1]
        if p == 'Range':
            return v.f[0], v.f[1]
        if p == 'RangeTo':
            return I(0), v.f[0]
        if p == 'RangeFrom':
            return v.f[0], n
        if p == 'RangeFull':
            return I(0), n
        if p == 'RangeInclusive':
            return v.f[0], addc(v.f[1], 1)
        if p == 'RangeToInclusive':
            return I(0), addc(v.f[0], 1)
    if isinstance(v, Agg) and v.kind == 'rangeinc':
        return v.f[0], addc(v.f[1], 1)
    return None, None


@P('core::ops::range::RangeInclusive::<Idx>::new')
def _ri(M, st, args, dty, site, cal):
    return A('rangeinc', None, 0, tuple(args))


def check_slice(M, st, t, lo, hi):
    ai = M.ai
    n = textlen(t)
    ok1 = ai.prove(st, sub(hi, lo)) and ai.prove(st, lo)
    ok2 = ai.prove(st, sub(n, hi))
    ok3 = M.is_bd(st, t, lo) and M.is_bd(st, t, hi)
    msg = 'text slice'
    ai.oblige('slice-order', msg, ok1, st, (lo, hi))
    ai.oblige('slice-bounds', msg, ok2, st, (n, hi))
    ai.oblige('slice-char-boundary', msg, ok3, st, (t, lo, hi))
    if not ok1 and not ai.assume_ge0(st, sub(hi, lo)):
        return False
    if not ok2 and not ai.assume_ge0(st, sub(n, hi)):
        return False
    b, q = M.canon(t, lo)
    if q.op != 'int' or q.args[0]:
        st.facts[('bd', b, q)] = True
    b, q = M.canon(t, hi)
    st.facts[('bd', b, q)] = True
    return True


@N('core::ops::index::Index', 'index')
def _index(M, st, args, dty, site, cal):
    if 'inst' in cal and M.F.insts[cal['inst']].get('mir'):
        return None
    return do_index(M, st, args, dty, site, cal)


@N('core::ops::index::IndexMut', 'index_mut')
def _indexm(M, st, args, dty, site, cal):
    if 'inst' in cal and M.F.insts[cal['inst']].get('mir'):
        return None
    return do_index(M, st, args, dty, site, cal)


def do_index(M, st, args, dty, site, cal):
    ai = M.ai
    v = M.rd(st, args[0])
    cls = ai.cls(dty) if dty is not None else None
    self_ty = cal.get('impl_ty', cal.get('self_ty'))
    scls = ai.cls(self_ty) if self_ty is not None else None
    spath = M.types[self_ty].get('path', '') if self_ty is not None else ''
    if 'HashMap' in spath or 'BTreeMap' in spath:
        k = M.mkey(st, args[1])
        h = M.mhas(st, v, k)
        ok = ai.truth(st, h) is True
        ai.oblige('map-index', 'key present', ok, st, (h,))
        if not ok and not ai.assume(st, h, True):
            return []
        vty = M.types[dty]['ty'] if dty is not None and M.types[dty]['k'] == 'ref' else None
        return R(('V', M.mget(st, v, k, vty)))
    if 'Captures' in spath:
        g = args[1]
        c = M.rd(st, args[0])
        ok = False
        ai.oblige('capture-index', 'group set', ok, st, (c,))
        return fresh('cap', dty)
    if scls == 'text' or isinstance(v, Term) and M.istext(v) and scls != 'list':
        t = M.txt(st, args[0])
        lo, hi = range_of(M, st, args[1], textlen(t))
        if lo is None or not isinstance(lo, Term) or not isinstance(hi, Term):
            ai.oblige('slice-bounds', 'text slice', False)
            return fresh('sub', dty)
        if not check_slice(M, st, t, lo, hi):
            return []
        return slice_(t, lo, hi)
    # list
    idx = M.rd(st, args[1])
    n = M.llen(v)
    if isinstance(idx, Term):
        ok = ai.prove(st, addc(sub(n, idx), -1)) and ai.prove(st, idx)
        ai.oblige('index-bounds', 'element index', ok, st, (n, idx))
        if not ok and not ai.assume_ge0(st, addc(sub(n, idx), -1)):
            return []
        ety = M.types[dty]['ty'] if dty is not None and M.types[dty]['k'] == 'ref' else None
        if isinstance(args[0], Ref):
            r = unref(M, st, args[0])
            return R(r.loc, r.path + (('i', idx, ety),)) if cal.get('name') == 'index_mut' else M.item_ref(1, M.elt(st, v, idx, ety), ety)
        return M.item_ref(1, M.elt(st, v, idx, ety), ety)
    lo, hi = range_of(M, st, args[1], n)
    if lo is None:
        ai.oblige('index-bounds', 'slice', False)
        return fresh('sub', dty)
    ok = ai.prove(st, sub(hi, lo)) and ai.prove(st, sub(n, hi)) and ai.prove(st, lo)
    ai.oblige('index-bounds', 'slice', ok, st, (n, lo, hi))
    return M.lslice(st, v, lo, hi)


@STR('parse')
def _parse(M, st, args, dty, site, cal):
    ai = M.ai
    t = M.txt(st, args[0])
    ty = M.fty(dty, 0, 0)
    return parse_to(M, st, t, ty, dty, site)


@N('core::str::traits::FromStr', 'from_str')
def _fromstr(M, st, args, dty, site, cal):
    if 'inst' in cal and M.F.insts[cal['inst']].get('mir'):
        return None
    return _parse(M, st, args, dty, site, cal)


PATHS['core::num::<impl u64>::from_str_radix'] = None
PATHS.pop('core::num::<impl u64>::from_str_radix')


def parse_to(M, st, t, ty, dty, site):
    ai = M.ai
    tt = M.types[ty]
    if tt['k'] == 'int':
        rng = int_range(tt['bits'], tt['signed'])
        if t.op == 'itoa' and iv_subset(ai.iv(st, t.args[0]), rng):
            return [(st, M.ok(dty, t.args[0]))]
        out = []
        signs = cs_of('+-') if tt['signed'] else cs_of('+')
        for c in '+-':
            x = M.pos_first(st, t)
            if x is not None and not iv_and(x, cs_of(c)) or ai.truth(st, T('pre', t, S(c), ty=M.bool_ty)) is False:
                signs = iv_sub(signs, cs_of(c))
        okst = st.copy()
        okcs = iv_or(DIGITS, signs)
        cs = ai.cs(okst, t)
        v = T('parseint', t, ty, ty=ty)
        feasible = ai.assume_ge0(okst, addc(textlen(t), -1))
        if feasible:
            ncs = iv_and(cs, okcs)
            if not iv_and(ncs, DIGITS):
                feasible = False
            elif t.op == 'str':
                try:
                    val = int(t.args[0])
                    feasible = iv_subset(((val, val),), rng)
                    v = I(val)
                except ValueError:
                    feasible = False
            elif ncs != cs:
                okst.facts[('cs', t)] = ncs
        ln = ai.iv(st, textlen(t))
        hi = ln[-1][1] if ln else 0
        sure = iv_subset(cs, DIGITS) and ai.prove(st, addc(textlen(t), -1)) and hi < 40 and 10 ** hi - 1 <= rng[-1][1]
        if feasible:
            if v.op == 'parseint':
                if iv_subset(ncs, DIGITS) or not tt['signed']:
                    b = iv_and(rng, ((0, 10 ** min(hi, 40) - 1),))
                    ai.assume_in(okst, v, b)
            if t.op != 'str' and not sure:
                okst.facts[T('ok', T('parseint', t, ty, ty=ty), ty=M.bool_ty)] = True
            out.append((okst, M.ok(dty, v)))
        if t.op == 'str':
            sure = feasible
        if not sure:
            if t.op != 'str':
                st = st.copy()
                st.facts[T('ok', T('parseint', t, ty, ty=ty), ty=M.bool_ty)] = False
            out.append((st, M.err(dty)))
        return out
    if tt['k'] == 'bool':
        out = []
        for s_, b_ in (('true', TRUE), ('false', FALSE)):
            s = st.copy()
            if ai.assume(s, M.eqs(t, S(s_)), True):
                out.append((s, M.ok(dty, b_)))
        s = st.copy()
        if ai.assume(s, M.eqs(t, S('true')), False) and ai.assume(s, M.eqs(t, S('false')), False):
            out.append((s, M.err(dty)))
        return out
    if ai.cls(ty) == 'text':
        return [(st, M.ok(dty, t))]
    imp = M.F.impl.get(ty, {}).get('FromStr')
    if imp is not None and 'inst' in imp and M.F.insts[imp['inst']].get('mir'):
        return ai.call_inst(st, imp['inst'], [t], dty, (site, 'fromstr'), imp)
    a, b = M.fork(st, T('ok', T('parse', t, ty), ty=M.bool_ty))
    out = []
    if a is not None:
        out.append((a, M.ok(dty, ai.symval(T('parseval', t, ty, ty=ty), ty))))
    if b is not None:
        out.append((b, M.err(dty)))
    return out


@P('core::str::converts::from_utf8', 'alloc::string::String::from_utf8')
def _from_utf8(M, st, args, dty, site, cal):
    v = M.rd(st, args[0])
    if isinstance(v, Term) and v.op == 'bytes':
        return M.ok(dty, v.args[0])
    a, b = M.fork(st, T('ok', T('utf8', v), ty=M.bool_ty))
    out = []
    if a is not None:
        t = T('utf8', v, ty=M.F.tyby.get('&str'))
        L = sub(T('len', t), M.llen(v))
        if M.llen(v).op != 'int' or True:
            M.ai.assume_ge0(a, L)
            M.ai.assume_ge0(a, add(I(0), L, -1))
        out.append((a, M.ok(dty, t)))
    if b is not None:
        out.append((b, M.err(dty)))
    return out


@P('quick_xml::escape::unescape')
def _unescape(M, st, args, dty, site, cal):
    """text with entity references decoded, or an error"""
    v = M.rd(st, args[0])
    if isinstance(v, Term) and v.op == 'str' and '&' not in v.args[0]:
        return M.ok(dty, v)
    a, b = M.fork(st, T('ok', T('unescape', v), ty=M.bool_ty))
    out = []
    if a is not None:
        t = T('unescape', v, ty=M.F.tyby.get('&str'))
        out.append((a, M.ok(dty, t)))
    if b is not None:
        out.append((b, M.err(dty)))
    return out


@P('alloc::string::String::from_utf8_lossy')
def _lossy(M, st, args, dty, site, cal):
    v = M.rd(st, args[0])
    return T('lossy', v, ty=dty)


# ================================================================ String
@P('<alloc::string::String as core::default::Default>::default')
@STRING('new', 'with_capacity')
def _snew(M, st, args, dty, site, cal):
    return S('')


def setstr(M, st, r, v):
    M.setref(st, r, v)


@STRING('push')
def _spush(M, st, args, dty, site, cal):
    c = args[1]
    setstr(M, st, args[0], cat(M.txt(st, args[0]), T('chr', c) if not (isinstance(c, Term) and c.op == 'int') else S(chr(c.args[0]))))
    return UNIT


@STRING('push_str')
def _spushs(M, st, args, dty, site, cal):
    setstr(M, st, args[0], cat(M.txt(st, args[0]), M.txt(st, args[1])))
    return UNIT


@STRING('clear')
def _sclear(M, st, args, dty, site, cal):
    setstr(M, st, args[0], S(''))
    return UNIT


@STRING('truncate')
def _strunc(M, st, args, dty, site, cal):
    t, n = M.txt(st, args[0]), args[1]
    a, b = M.fork(st, M.ai.ge0(st, sub(textlen(t), n)))
    out = []
    if a is not None:
        ok = M.is_bd(a, t, n)
        M.ai.oblige('slice-char-boundary', 'truncate', ok, a, (t, n))
        setstr(M, a, args[0], slice_(t, I(0), n))
        out.append((a, UNIT))
    if b is not None:
        out.append((b, UNIT))
    return out


@STRING('drain', 'replace_range')
def _sdrain(M, st, args, dty, site, cal):
    t = M.txt(st, args[0])
    lo, hi = range_of(M, st, args[1], textlen(t))
    if lo is None:
        M.ai.oblige('slice-bounds', 'drain', False)
        setstr(M, st, args[0], fresh('drained'))
        return fresh('drain', dty)
    if not check_slice(M, st, t, lo, hi):
        return []
    mid = S('') if cal['name'] == 'drain' else M.txt(st, args[2])
    setstr(M, st, args[0], cat(slice_(t, I(0), lo), mid, slice_(t, hi, textlen(t))))
    return M.mkit('chars', slice_(t, lo, hi), I(0), None, (), I(0)) if cal['name'] == 'drain' else UNIT


@STRING('split_off')
def _ssplitoff(M, st, args, dty, site, cal):
    t, p = M.txt(st, args[0]), args[1]
    if not check_slice(M, st, t, p, textlen(t)):
        return []
    setstr(M, st, args[0], slice_(t, I(0), p))
    return slice_(t, p, textlen(t))


@STRING('insert', 'insert_str')
def _sinsert(M, st, args, dty, site, cal):
    t, p = M.txt(st, args[0]), args[1]
    if not check_slice(M, st, t, I(0), p):
        return []
    x = M.txt(st, args[2]) if cal['name'] == 'insert_str' else T('chr', args[2])
    setstr(M, st, args[0], cat(slice_(t, I(0), p), x, slice_(t, p, textlen(t))))
    return UNIT


@STRING('pop')
def _spop(M, st, args, dty, site, cal):
    t = M.txt(st, args[0])
    a, b = M.fork(st, M.ai.ge0(st, addc(textlen(t), -1)))
    out = []
    if a is not None:
        p = T('rfind', T('last'), t, ty=M.usize)
        M.pos(a, t, p)
        c = M.charat(t, p)
        setstr(M, a, args[0], slice_(t, I(0), p))
        out.append((a, M.opt(dty, c)))
    if b is not None:
        out.append((b, M.opt(dty)))
    return out


@STRING('remove')
def _sremove(M, st, args, dty, site, cal):
    t, p = M.txt(st, args[0]), args[1]
    ok = M.ai.prove(st, addc(sub(textlen(t), p), -1)) and M.is_bd(st, t, p)
    M.ai.oblige('index-bounds', 'remove', ok, st, tuple(args))
    if not M.ai.assume_ge0(st, addc(sub(textlen(t), p), -1)):
        return []
    c = M.charat(t, p)
    q = add(p, T('utf8len', c))
    M.pos(st, t, q)
    setstr(M, st, args[0], cat(slice_(t, I(0), p), slice_(t, q, textlen(t))))
    return c


@STRING('reserve', 'shrink_to_fit')
@VEC('reserve', 'shrink_to_fit', 'reserve_exact')
def _unit(M, st, args, dty, site, cal):
    return UNIT


@STRING('capacity')
@VEC('capacity')
def _cap(M, st, args, dty, site, cal):
    return fresh('cap', M.usize)


@N('alloc::string::ToString', 'to_string')
def _tostring(M, st, args, dty, site, cal):
    if 'inst' in cal and M.F.insts[cal['inst']].get('mir'):
        return None
    ty = cal.get('self_ty')
    if ty is None:
        ty = (cal.get('iargs') or cal.get('args') or [None])[0]
    return M.display(st, A('fmtarg', None, 'd', ('d', args[0], ty, None)), (site, 'ts'))


@N('core::ops::arith::Add', 'add')
def _sadd(M, st, args, dty, site, cal):
    if M.ai.cls(dty) == 'text':
        return cat(M.txt(st, args[0]), M.txt(st, args[1]))
    return None


@N('core::ops::arith::AddAssign', 'add_assign')
def _saddas(M, st, args, dty, site, cal):
    v = M.rd(st, args[0])
    if M.istext(v):
        setstr(M, st, args[0], cat(v, M.txt(st, args[1])))
        return UNIT
    return None


# ================================================================ char
def charpred(cs):
    def f(M, st, args, dty, site, cal):
        c = M.rd(st, args[0])
        if not isinstance(c, Term):
            return fresh('cp', M.bool_ty)
        if c.op == 'int':
            return B(bool(iv_and(((c.args[0],) * 2,), cs)))
        return T('in', c, cs, ty=M.bool_ty)
    return f


import unicodedata


def _uni(pred):
    out = []
    lo = None
    for i in range(0x110000):
        if 0xD800 <= i < 0xE000:
            ok = False
        else:
            ok = pred(chr(i))
        if ok and lo is None:
            lo = i
        if not ok and lo is not None:
            out.append((lo, i - 1))
            lo = None
    return tuple(out)


UP, LO, DG = (65, 90), (97, 122), (48, 57)
for n_, cs_ in (('is_ascii_digit', (DG,)), ('is_ascii_alphabetic', (UP, LO)), ('is_ascii_alphanumeric', (DG, UP, LO)),
                ('is_ascii_uppercase', (UP,)), ('is_ascii_lowercase', (LO,)), ('is_ascii_hexdigit', (DG, (65, 70), (97, 102))),
                ('is_ascii', ((0, 127),)), ('is_ascii_whitespace', ((9, 10), (12, 13), (32, 32))),
                ('is_ascii_punctuation', ((33, 47), (58, 64), (91, 96), (123, 126))), ('is_ascii_control', ((0, 31), (127, 127))),
                ('is_ascii_graphic', ((33, 126),)), ('is_whitespace', WS)):
    CHAR(n_)(charpred(cs_))
    PATHS['core::num::<impl u8>::' + n_] = charpred(cs_)
    PATHS['core::char::methods::<impl char>::' + n_] = charpred(cs_)
_LAZY_CS = {}


def lazycs(name, pred):
    def f(M, st, args, dty, site, cal):
        cs = _LAZY_CS.get(name)
        if cs is None:
            cs = _LAZY_CS[name] = _uni(pred)
        return charpred(cs)(M, st, args, dty, site, cal)
    CHAR(name)(f)


lazycs('is_numeric', lambda c: unicodedata.category(c) in ('Nd', 'Nl', 'No'))
lazycs('is_alphabetic', lambda c: c.isalpha())
lazycs('is_alphanumeric', lambda c: c.isalpha() or unicodedata.category(c) in ('Nd', 'Nl', 'No'))

for pre in ('<char as nom::traits::AsChar>::', '<u8 as nom::traits::AsChar>::'):
    PATHS[pre + 'is_dec_digit'] = charpred((DG,))
    PATHS[pre + 'is_hex_digit'] = charpred((DG, (65, 70), (97, 102)))
    PATHS[pre + 'is_oct_digit'] = charpred(((48, 55),))
    PATHS[pre + 'is_alphanum'] = (lambda M, st, args, dty, site, cal: PREFIX_CHAR_ALNUM(M, st, args, dty, site, cal))
    PATHS[pre + 'is_alpha'] = charpred((UP, LO))
    PATHS[pre + 'is_space'] = charpred(((9, 9), (32, 32)))
    PATHS[pre + 'as_char'] = lambda M, st, args, dty, site, cal: M.rd(st, args[0])
    PATHS[pre + 'len'] = lambda M, st, args, dty, site, cal: T('utf8len', M.rd(st, args[0]))


def PREFIX_CHAR_ALNUM(M, st, args, dty, site, cal):
    # nom: AsChar::is_alphanum for char is is_alpha (ascii) || is_dec_digit
    return charpred((DG, UP, LO))(M, st, args, dty, site, cal)


@CHAR('len_utf8')
def _lenutf8(M, st, args, dty, site, cal):
    c = args[0]
    if c.op == 'int':
        return I(len(chr(c.args[0]).encode()))
    return T('utf8len', c)


@CHAR('to_digit')
def _todigit(M, st, args, dty, site, cal):
    c, r = args
    if r.op == 'int' and r.args[0] == 10 and isinstance(c, Term):
        a, b = M.fork(st, T('in', c, DIGITS, ty=M.bool_ty))
        out = []
        if a is not None:
            out.append((a, M.opt(dty, addc(c, -48))))
        if b is not None:
            out.append((b, M.opt(dty)))
        return out
    a, b = M.fork(st, fresh('todig', M.bool_ty))
    x = M.freshfield(dty, 1, 0, 'dig')
    if r.op == 'int' and isinstance(x, Term):
        M.ai.assume_in(a, x, ((0, r.args[0] - 1),))
    return [(a, M.opt(dty, x)), (b, M.opt(dty))]


@CHAR('from_digit', 'from_u32')
@P('core::char::convert::from_digit', 'core::char::from_digit', 'core::char::methods::<impl char>::from_digit')
def _fromdigit(M, st, args, dty, site, cal):
    if len(args) == 2 and args[1].op == 'int' and args[1].args[0] == 10:
        a, b = M.fork(st, T('in', args[0], ((0, 9),), ty=M.bool_ty))
        out = []
        if a is not None:
            out.append((a, M.opt(dty, addc(args[0], 48))))
        if b is not None:
            out.append((b, M.opt(dty)))
        return out
    a, b = M.fork(st, T('ok', T('fromdig', *args), ty=M.bool_ty))
    return [(a, M.opt(dty, T('fromdigv', *args, ty=M.char_ty))), (b, M.opt(dty))]


@CHAR('to_lowercase', 'to_uppercase')
def _clower(M, st, args, dty, site, cal):
    c = args[0]
    if isinstance(c, Term) and c.op == 'int':
        s = chr(c.args[0])
        s = s.lower() if cal['name'] == 'to_lowercase' else s.upper()
        return M.mkit('list', A('list', None, 0, [I(ord(x)) for x in s]), I(0), I(len(s)), 0, None)
    return M.mkit('ext', T(cal['name'], c), M.char_ty)


@CHAR('to_ascii_lowercase', 'to_ascii_uppercase')
def _calower(M, st, args, dty, site, cal):
    c = M.rd(st, args[0])
    if isinstance(c, Term) and c.op == 'int':
        s = chr(c.args[0])
        return I(ord(s.lower() if 'lower' in cal['name'] else s.upper()) if s.isascii() else c.args[0])
    return T(cal['name'], c, ty=M.char_ty)


# ================================================================ integers
def num(name):
    def d(f):
        for t in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize'):
            PATHS['core::num::<impl %s>::%s' % (t, name)] = f
        return f
    return d


@num('pow')
def _pow(M, st, args, dty, site, cal):
    a, b = args
    if a.op == 'int' and b.op == 'int':
        return I(a.args[0] ** b.args[0])
    bv = M.ai.iv(st, b)
    if a.op == 'int' and bv and bv[-1][1] <= 64:
        v = T('pow', a, b, ty=dty)
        rng = int_range(M.types[dty]['bits'], M.types[dty]['signed'])
        ok = a.args[0] ** bv[-1][1] <= rng[-1][1]
        M.ai.oblige('assert', 'Overflow(pow)', ok, st, (a, b))
        M.ai.assume_in(st, v, ((a.args[0] ** bv[0][0], max(a.args[0] ** bv[-1][1], 1)),))
        return v
    M.ai.oblige('assert', 'Overflow(pow)', False)
    return fresh('pow', dty)


def checked(base):
    def f(M, st, args, dty, site, cal):
        t = M.fty(dty, 1, 0)
        tt = M.types[t]
        v = M.ai.arith(st, base, args[0], args[1], tt, t)
        rng = int_range(tt['bits'], tt['signed'])
        out = []
        inr = T('and', T('ge0', addc(v, -rng[0][0])), T('ge0', add(I(rng[0][1]), v, -1)))
        if base == 'Mul' and v.op == 'mul':
            inr = fresh('fits', M.bool_ty)
        a, b = M.fork(st, inr)
        if a is not None:
            out.append((a, M.opt(dty, v)))
        if b is not None:
            out.append((b, M.opt(dty)))
        return out
    return f


for b_ in ('Add', 'Sub', 'Mul'):
    num('checked_' + b_.lower())(checked(b_))


def sat(base):
    def f(M, st, args, dty, site, cal):
        tt = M.types[dty]
        v = M.ai.arith(st, base, args[0], args[1], tt, dty)
        rng = int_range(tt['bits'], tt['signed'])
        lo = st.copy()
        out = []
        a, b = M.fork(st, M.ai.ge0(st, addc(v, -rng[0][0])))
        if b is not None:
            out.append((b, I(rng[0][0])))
        if a is not None:
            c, d = M.fork(a, M.ai.ge0(a, add(I(rng[0][1]), v, -1)))
            if c is not None:
                out.append((c, v))
            if d is not None:
                out.append((d, I(rng[0][1])))
        return out
    return f


for b_ in ('Add', 'Sub', 'Mul'):
    num('saturating_' + b_.lower())(sat(b_))


def wrapping(base):
    def f(M, st, args, dty, site, cal):
        return M.ai.binop(st, base, args[0], args[1], dty)
    return f


for b_ in ('Add', 'Sub', 'Mul', 'Shl', 'Shr'):
    num('wrapping_' + b_.lower())(wrapping(b_))


@num('abs_diff')
def _absdiff(M, st, args, dty, site, cal):
    a, b = M.fork(st, M.ai.ge0(st, sub(args[0], args[1])))
    out = []
    if a is not None:
        out.append((a, sub(args[0], args[1])))
    if b is not None:
        out.append((b, sub(args[1], args[0])))
    return out


# ================================================================ Vec / slices
@P('<alloc::vec::Vec<T> as core::default::Default>::default')
@VEC('new', 'with_capacity')
def _vnew(M, st, args, dty, site, cal):
    return A('list', dty, 0, ())


@VEC('len')
@SLICE('len')
def _vlen(M, st, args, dty, site, cal):
    return M.llen(M.rd(st, args[0]))


@VEC('is_empty')
@SLICE('is_empty')
def _vempty(M, st, args, dty, site, cal):
    return M.ai.eqi(st, M.llen(M.rd(st, args[0])), I(0))


@VEC('push')
def _vpush(M, st, args, dty, site, cal):
    v = M.rd(st, args[0])
    M.setref(st, args[0], M.push(v, args[1]))
    return UNIT


@VEC('pop')
def _vpop(M, st, args, dty, site, cal):
    v = M.rd(st, args[0])
    n = M.llen(v)
    ety = M.fty(dty, 1, 0)
    a, b = M.fork(st, M.ai.ge0(st, addc(n, -1)))
    out = []
    if a is not None:
        if isinstance(v, Agg) and v.kind == 'list':
            M.setref(a, args[0], A('list', v.ty, 0, v.f[:-1]))
            out.append((a, M.opt(dty, v.f[-1])))
        elif v.op == 'lpush':
            M.setref(a, args[0], v.args[0])
            out.append((a, M.opt(dty, v.args[1])))
        else:
            M.setref(a, args[0], T('lslice', v, I(0), addc(n, -1), ty=v.ty))
            out.append((a, M.opt(dty, M.elt(a, v, addc(n, -1), ety))))
    if b is not None:
        out.append((b, M.opt(dty)))
    return out


@VEC('insert')
def _vinsert(M, st, args, dty, site, cal):
    v = M.rd(st, args[0])
    n = M.llen(v)
    ok = M.ai.prove(st, sub(n, args[1]))
    M.ai.oblige('index-bounds', 'insert', ok, st, (n, args[1]))
    if not ok and not M.ai.assume_ge0(st, sub(n, args[1])):
        return []
    if isinstance(v, Agg) and v.kind == 'list' and args[1].op == 'int':
        f = list(v.f)
        f.insert(args[1].args[0], args[2])
        M.setref(st, args[0], A('list', v.ty, 0, f))
    else:
        M.setref(st, args[0], T('lins', v, args[1], args[2], ty=getattr(v, 'ty', None)))
    return UNIT


@VEC('remove', 'swap_remove')
def _vremove(M, st, args, dty, site, cal):
    v = M.rd(st, args[0])
    n = M.llen(v)
    ok = M.ai.prove(st, addc(sub(n, args[1]), -1))
    M.ai.oblige('index-bounds', 'remove', ok, st, tuple(args))
    if not ok and not M.ai.assume_ge0(st, addc(sub(n, args[1]), -1)):
        return []
    e = M.elt(st, v, args[1], dty)
    t = T('lrem', v, args[1], ty=getattr(v, 'ty', None))
    L = sub(T('llen', t), addc(n, -1))
    M.ai.assume_ge0(st, L)
    M.ai.assume_ge0(st, add(I(0), L, -1))
    M.setref(st, args[0], t)
    return e


@VEC('clear')
def _vclear(M, st, args, dty, site, cal):
    v = M.rd(st, args[0])
    M.setref(st, args[0], A('list', getattr(v, 'ty', None), 0, ()))
    return UNIT


@VEC('truncate', 'dedup', 'retain', 'sort', 'drain', 'append')
@SLICE('sort', 'sort_unstable', 'reverse', 'sort_by', 'sort_by_key', 'sort_unstable_by', 'swap')
@ASLICE('sort', 'sort_by', 'sort_by_key')
def _vperm(M, st, args, dty, site, cal):
    v = M.rd(st, args[0])
    t = fresh(cal['name'], getattr(v, 'ty', None))
    if cal['name'] == 'append' and getattr(v, 'ty', None) is not None and isinstance(v, Node):
        x = M.rd(st, args[1])
        if isinstance(x, Agg) and x.kind == 'list' and isinstance(v, Agg) and v.kind == 'list':
            t = A('list', v.ty, 0, v.f + x.f)
        elif isinstance(x, Node):
            t = T('lcat', v, x, ty=v.ty)
            L = sub(T('llen', t), add(M.llen(v), M.llen(x)))
            M.ai.assume_ge0(st, L)
            M.ai.assume_ge0(st, add(I(0), L, -1))
    if cal['name'] not in ('truncate', 'dedup', 'retain', 'drain', 'append'):
        L = sub(T('llen', t), M.llen(v))
        M.ai.assume_ge0(st, L)
        M.ai.assume_ge0(st, add(I(0), L, -1))
    if cal['name'] == 'swap':
        n = M.llen(v)
        M.ai.oblige('index-bounds', 'swap', M.ai.prove(st, addc(sub(n, args[1]), -1)) and M.ai.prove(st, addc(sub(n, args[2]), -1)))
    M.setref(st, args[0], t)
    if cal['name'] == 'append':
        M.setref(st, args[1], A('list', None, 0, ()))
    return UNIT if cal['name'] != 'drain' else M.sym('drain', dty)


@VEC('extend_from_slice', 'extend')
@N('core::iter::traits::collect::Extend', 'extend')
def _vextend(M, st, args, dty, site, cal):
    v = M.rd(st, args[0])
    x = M.rd(st, args[1])
    ty = getattr(v, 'ty', None)
    tp = M.types[ty].get('path', '') if ty is not None else ''
    if isinstance(v, Agg) and v.kind == 'cmap' or tp.endswith('HashMap'):
        it = x if isinstance(x, Agg) and x.kind == 'it' else M.into_it(st, args[1])
        if isinstance(v, Agg) and isinstance(x, Agg) and x.kind == 'cmap':
            m = v
            for e in x.f:
                m = M.minsert(st, m, e.f[0], e.f[1])
            M.setref(st, args[0], m)
            return UNIT
        if isinstance(v, Agg) and it is not None and it.var == 'map' and isinstance(it.f[0], Agg):
            m = v
            for e in it.f[0].f[it.f[1].args[0]:]:
                m = M.minsert(st, m, e.f[0], e.f[1])
            M.setref(st, args[0], m)
            return UNIT
        M.setref(st, args[0], fresh('extended', ty))
        return UNIT
    if isinstance(v, Agg) and v.kind == 'cset' or tp.endswith('HashSet'):
        M.setref(st, args[0], fresh('extended', ty))
        return UNIT
    if ty is not None and M.ai.cls(ty) == 'text' or M.istext(v):
        M.setref(st, args[0], fresh('extended', ty))
        return UNIT
    if isinstance(x, Agg) and x.kind == 'list' and isinstance(v, Agg) and v.kind == 'list':
        M.setref(st, args[0], A('list', v.ty, 0, v.f + x.f))
        return UNIT
    # run the iterator
    it = M.into_it(st, args[1])
    if it is None or cal['name'] == 'extend_from_slice':
        t = T('lcat', v, x if isinstance(x, Node) else fresh('x'), ty=ty)
        L = sub(T('llen', t), add(M.llen(v), M.llen(x)))
        M.ai.assume_ge0(st, L)
        M.ai.assume_ge0(st, add(I(0), L, -1))
        M.setref(st, args[0], t)
        return UNIT
    s = drive(M, st, it, site)
    out = []
    for s2, _ in s:
        t = T('lext', v, it, ty=ty)
        M.ai.assume_ge0(s2, sub(T('llen', t), M.llen(v)))
        M.setref(s2, args[0], t)
        out.append((s2, UNIT))
    return out


def drive(M, st, it, site):
    r = M.consume(st, it, site, 'drive', lambda s, x, a: [(s, ('go', None))])
    return [(s, fin) for s, fin, stop, v in r]


@SLICE('iter', 'iter_mut', 'chunks', 'windows')
def _iter(M, st, args, dty, site, cal):
    if cal['name'] in ('chunks', 'windows'):
        return M.mkit('ext', fresh('chunks'), None)
    v = M.rd(st, args[0])
    lty = getattr(v, 'ty', None)
    if lty is None:
        sty = cal.get('self_ty')
        lty = sty if sty is not None and M.ai.cls(sty) == 'list' else None
    if cal['name'] == 'iter_mut':
        M.setref(st, args[0], fresh('mutiter', lty))   # whatever the loop makes of the elements
    return M.mkit('list', v, I(0), M.llen(v), 1, lty)


@SLICE('contains')
def _lcontains(M, st, args, dty, site, cal):
    v = M.rd(st, args[0])
    x = M.rd(st, args[1])
    if isinstance(v, Agg) and v.kind == 'list':
        if not v.f:
            return FALSE
        r = FALSE
        if all(isinstance(e, Term) for e in v.f) and isinstance(x, Term):
            for e in v.f:
                q = M.eqs(e, x) if M.istext(e) or M.istext(x) else M.ai.eqi(st, e, x)
                r = q if r is FALSE else T('or', r, q, ty=M.bool_ty) if q is not FALSE else r
            return r
    return T('in_list', M.ai.deepval(st, x), v, ty=M.bool_ty)


@SLICE('first', 'last', 'get', 'first_mut', 'last_mut', 'get_mut')
@VEC('first', 'last', 'get')
def _lget(M, st, args, dty, site, cal):
    v = M.rd(st, args[0])
    n = M.llen(v)
    name = cal['name'].replace('_mut', '')
    pt = M.fty(dty, 1, 0)
    ety = M.types[pt]['ty'] if pt is not None and M.types[pt]['k'] == 'ref' else None
    if name == 'get':
        idx = args[1]
        if not isinstance(idx, Term):
            lo, hi = range_of(M, st, idx, n)
            if lo is None:
                return None
            a = st.copy()
            out = []
            if M.ai.assume_ge0(a, sub(hi, lo)) and M.ai.assume_ge0(a, sub(n, hi)):
                out.append((a, M.opt(dty, M.lslice(a, v, lo, hi))))
            if not (M.ai.prove(st, sub(hi, lo)) and M.ai.prove(st, sub(n, hi))):
                out.append((st, M.opt(dty)))
            return out
    else:
        idx = I(0) if name == 'first' else addc(n, -1)
    cond = M.ai.ge0(st, addc(sub(n, idx), -1)) if name == 'get' else M.ai.ge0(st, addc(n, -1))
    a, b = M.fork(st, cond)
    out = []
    if a is not None:
        e = M.elt(a, v, idx, ety)
        if cal['name'].endswith('_mut') and isinstance(args[0], Ref):
            r = unref(M, st, args[0])
            out.append((a, M.opt(dty, R(r.loc, r.path + (('i', idx, ety),)))))
        else:
            out.append((a, M.opt(dty, M.item_ref(1, e, ety))))
    if b is not None:
        out.append((b, M.opt(dty)))
    return out


@SLICE('split_first', 'split_last')
def _splitfirst(M, st, args, dty, site, cal):
    v = M.rd(st, args[0])
    n = M.llen(v)
    a, b = M.fork(st, M.ai.ge0(st, addc(n, -1)))
    out = []
    if a is not None:
        if cal['name'] == 'split_first':
            e, rest = M.elt(a, v, I(0), M.ai.elemty(v.ty) if getattr(v, 'ty', None) is not None else None), M.lslice(a, v, I(1), n)
        else:
            e, rest = M.elt(a, v, addc(n, -1), M.ai.elemty(v.ty) if getattr(v, 'ty', None) is not None else None), M.lslice(a, v, I(0), addc(n, -1))
        out.append((a, M.opt(dty, A('tuple', None, 0, (M.item_ref(1, e, None), rest)))))
    if b is not None:
        out.append((b, M.opt(dty)))
    return out


@SLICE('starts_with', 'ends_with')
def _lstarts(M, st, args, dty, site, cal):
    a, b = M.rd(st, args[0]), M.rd(st, args[1])
    if isinstance(a, Term) and a.op == 'bytes' and isinstance(b, Agg):
        try:
            s = S(bytes(e.args[0] for e in b.f).decode())
            return T('pre' if cal['name'] == 'starts_with' else 'suf', a.args[0], s, ty=M.bool_ty)
        except Exception:
            pass
    return T('bpre' if cal['name'] == 'starts_with' else 'bsuf', a, b, ty=M.bool_ty)


@P('alloc::boxed::Box::<T>::new', 'alloc::rcs::arc::Arc::<T>::new', 'alloc::sync::Arc::<T>::new', 'alloc::rcs::rc::Rc::<T>::new')
def _boxnew(M, st, args, dty, site, cal):
    if M.ai.cls(dty) in ('text', 'list'):
        return args[0]
    return R(('V', args[0]))


@P('alloc::boxed::Box::<T>::new_uninit', 'alloc::boxed::box_new_uninit')
def _boxuninit(M, st, args, dty, site, cal):
    cell = ('H', 0, ('box', site))
    st.mem[cell] = fresh('uninit')
    return R(cell)


@P('alloc::boxed::box_assume_init_into_vec_unsafe')
def _boxvec(M, st, args, dty, site, cal):
    v = args[0]
    x = M.ai.read(st, v.loc, v.path) if isinstance(v, Ref) else v
    d = 0
    while isinstance(x, Agg) and x.kind != 'list' and x.f and d < 6:
        x = x.f[-1]
        d += 1
    if isinstance(v, Ref):
        st.mem.pop(v.loc, None)
    if isinstance(x, Agg) and x.kind == 'list':
        return A('list', dty, 0, x.f)
    return M.sym('vec', dty)


@P('alloc::vec::from_elem')
def _fromelem(M, st, args, dty, site, cal):
    if args[1].op == 'int' and args[1].args[0] <= 16:
        return A('list', dty, 0, [args[0]] * args[1].args[0])
    t = fresh('vec', dty)
    L = sub(T('llen', t), args[1])
    M.ai.assume_ge0(st, L)
    M.ai.assume_ge0(st, add(I(0), L, -1))
    return t


@P('core::mem::take')
def _take(M, st, args, dty, site, cal):
    v = M.rd1(st, args[0])
    c = M.ai.cls(dty)
    if c == 'text':
        M.ai.write(st, args[0].loc, args[0].path, S(''))
    elif c == 'list':
        M.ai.write(st, args[0].loc, args[0].path, A('list', dty, 0, ()))
    else:
        return None
    return v


@P('core::mem::replace')
def _mreplace(M, st, args, dty, site, cal):
    v = M.rd1(st, args[0])
    M.ai.write(st, args[0].loc, args[0].path, args[1])
    return v


@P('core::mem::swap')
def _mswap(M, st, args, dty, site, cal):
    a, b = M.rd1(st, args[0]), M.rd1(st, args[1])
    M.ai.write(st, args[0].loc, args[0].path, b)
    M.ai.write(st, args[1].loc, args[1].path, a)
    return UNIT


@P('core::mem::drop', 'core::mem::forget')
def _mdrop(M, st, args, dty, site, cal):
    return UNIT


@P('core::intrinsics::arith_offset', 'core::intrinsics::offset')
def _aoff(M, st, args, dty, site, cal):
    return fresh('ptr', dty)


# ================================================================ maps
@HMAP('get', 'get_mut', 'get_key_value')
def _mapget(M, st, args, dty, site, cal):
    m = M.rd(st, args[0])
    k = M.mkey(st, args[1])
    pt = M.fty(dty, 1, 0)
    vty = M.types[pt]['ty'] if pt is not None and M.types[pt]['k'] == 'ref' else None
    if isinstance(m, Agg) and m.kind == 'cmap':
        return [(s, M.opt(dty) if v is None else M.opt(dty, R(('V', v)))) for s, v in M.cmap_fork(st, m, k)]
    a, b = M.fork(st, M.mhas(st, m, k))
    out = []
    if a is not None:
        if cal['name'] == 'get_mut':
            out.append((a, M.opt(dty, R(('M', unref(M, st, args[0]), k, vty)))))
        else:
            v = M.mget(a, m, k, vty)
            out.append((a, M.opt(dty, M.item_ref(1, v, vty))))
    if b is not None:
        out.append((b, M.opt(dty)))
    return out


@HMAP('contains_key')
def _mapck(M, st, args, dty, site, cal):
    m = M.rd(st, args[0])
    k = M.mkey(st, args[1])
    if isinstance(m, Agg) and m.kind == 'cmap':
        return [(s, B(v is not None)) for s, v in M.cmap_fork(st, m, k)]
    return M.mhas(st, m, k)


@HMAP('insert')
def _mapinsert(M, st, args, dty, site, cal):
    m = M.rd(st, args[0])
    k = M.mkey(st, args[1])
    M.setref(st, args[0], M.minsert(st, m, k, args[2]))
    if not M.ai.dry and not (isinstance(m, Agg)):
        pass
    return M.sym('prev', dty)


@HMAP('new', 'with_capacity', 'with_hasher', 'with_capacity_and_hasher', 'default')
def _mapnew(M, st, args, dty, site, cal):
    return A('cmap', dty, 0, ())


@P('<std::collections::hash::map::HashMap<K, V, S> as core::default::Default>::default')
def _mapdef(M, st, args, dty, site, cal):
    return A('cmap', dty, 0, ())


@P('<std::collections::hash::set::HashSet<T, S> as core::default::Default>::default')
def _setdef(M, st, args, dty, site, cal):
    return A('cset', dty, 0, ())


@HMAP('len', 'is_empty')
def _maplen(M, st, args, dty, site, cal):
    m = M.rd(st, args[0])
    if isinstance(m, Agg) and m.kind == 'cmap':
        return I(len(m.f)) if cal['name'] == 'len' else B(not m.f)
    return T('count', m, ty=M.usize) if cal['name'] == 'len' else T('mhas', m, T('any'), ty=M.bool_ty)


@HMAP('iter', 'keys', 'values', 'into_iter', 'values_mut', 'into_values', 'into_keys', 'iter_mut')
def _mapiter(M, st, args, dty, site, cal):
    m = M.rd(st, args[0])
    w = {'iter': 'kv', 'keys': 'k', 'values': 'v', 'into_iter': 'kv', 'values_mut': 'v', 'into_values': 'v', 'into_keys': 'k', 'iter_mut': 'kv'}[cal['name']]
    if cal['name'].endswith('_mut'):
        M.setref(st, args[0], fresh('mutiter', getattr(m, 'ty', None)))
    return M.mkit('map', m, I(0), w)


@HMAP('entry')
def _mapentry(M, st, args, dty, site, cal):
    k = M.mkey(st, args[1])
    return A('mentry', None, 0, (unref(M, st, args[0]), k))


@HMAP('remove')
def _mapremove(M, st, args, dty, site, cal):
    m = M.rd(st, args[0])
    k = M.mkey(st, args[1])
    M.setref(st, args[0], fresh('removed', getattr(m, 'ty', None)))
    a, b = M.fork(st, M.mhas(st, m, k))
    out = []
    if a is not None:
        out.append((a, M.opt(dty, M.mget(a, m, k, M.fty(dty, 1, 0)))))
    if b is not None:
        out.append((b, M.opt(dty)))
    return out


ENTRY = prefixed('std::collections::hash::map::Entry')


@ENTRY('or_insert_with', 'or_insert', 'or_default')
def _orinsert(M, st, args, dty, site, cal):
    e = args[0]
    if not (isinstance(e, Agg) and e.kind == 'mentry'):
        return None
    mref, k = e.f
    m = M.rd(st, mref)
    vty = M.types[dty]['ty'] if dty is not None and M.types[dty]['k'] == 'ref' else None
    a, b = M.fork(st, M.mhas(st, m, k))
    out = []
    if a is not None:
        out.append((a, R(('M', mref, k, vty))))
    if b is not None:
        if cal['name'] == 'or_insert':
            vals = [(b, args[1])]
        elif cal['name'] == 'or_default':
            c = M.ai.cls(vty) if vty is not None else None
            vals = [(b, S('') if c == 'text' else A('list', vty, 0, ()) if c == 'list' else fresh('dflt', vty))]
        else:
            vals = M.ai.call_value(b, args[1], [], vty, (site, 'oiw'))
        for s, v in vals:
            s = s.copy()
            M.setref(s, mref, M.minsert(s, M.rd(s, mref), k, v))
            out.append((s, R(('M', mref, k, vty))))
    return out


@HSET('insert')
def _setinsert(M, st, args, dty, site, cal):
    m = M.rd(st, args[0])
    k = M.mkey(st, args[1])
    if isinstance(m, Agg) and m.kind == 'cset' and M.isconst(k):
        if k in m.f:
            return FALSE
        M.setref(st, args[0], A('cset', m.ty, 0, m.f + (k,)))
        return TRUE
    M.setref(st, args[0], T('sinsert', m, k, ty=getattr(m, 'ty', None)))
    return fresh('setins', M.bool_ty)


@HSET('new', 'with_hasher', 'with_capacity_and_hasher', 'default')
def _setnew(M, st, args, dty, site, cal):
    return A('cset', dty, 0, ())


@HSET('contains')
def _setcontains(M, st, args, dty, site, cal):
    m = M.rd(st, args[0])
    k = M.mkey(st, args[1])
    if isinstance(m, Agg) and m.kind == 'cset' and isinstance(k, Term) and all(isinstance(x, Term) and x.op == 'int' for x in m.f):
        return T('in', k, iv_norm([(x.args[0],) * 2 for x in m.f]), ty=M.bool_ty)
    return M.mhas(st, m, k)


@HSET('iter')
def _setiter(M, st, args, dty, site, cal):
    m = M.rd(st, args[0])
    if isinstance(m, Agg) and m.kind == 'cset':
        return M.mkit('list', A('list', None, 0, m.f), I(0), I(len(m.f)), 1, None)
    return M.mkit('map', m, I(0), 'k')


@N('core::default::Default', 'default')
def _default(M, st, args, dty, site, cal):
    if 'inst' in cal and M.F.insts[cal['inst']].get('mir'):
        return None
    c = M.ai.cls(dty)
    t = M.types[dty]
    if c == 'text':
        return S('')
    if c == 'list':
        return A('list', dty, 0, ())
    if t['k'] == 'int' or t['k'] == 'char':
        return I(0)
    if t['k'] == 'bool':
        return FALSE
    if t['k'] == 'tuple' and not t['tys']:
        return UNIT
    if t['k'] == 'adt':
        p = t['path']
        if p.endswith('::HashMap') or p.endswith('::BTreeMap'):
            return A('cmap', dty, 0, ())
        if p.endswith('::HashSet') or p.endswith('::BTreeSet'):
            return A('cset', dty, 0, ())
        if p == 'core::option::Option':
            return A('adt', dty, 0, ())
    return None


# ================================================================ regex
@REGEX('new')
def _rxnew(M, st, args, dty, site, cal):
    p = M.txt(st, args[0])
    return build_rx(M, st, p, (), dty)


def build_rx(M, st, p, flags, dty):
    v = T('regex', p, flags, ty=M.fty(dty, 0, 0))
    if p.op == 'str':
        import rx
        if rx.valid(p.args[0], flags):
            return M.ok(dty, v)
        return M.err(dty)
    a, b = M.fork(st, T('ok', T('rxok', p, flags), ty=M.bool_ty))
    out = []
    if a is not None:
        out.append((a, M.ok(dty, v)))
    if b is not None:
        out.append((b, M.err(dty)))
    return out


@RXB('new')
def _rxbnew(M, st, args, dty, site, cal):
    return A('rxb', None, 0, (M.txt(st, args[0]), ()))


@RXB('case_insensitive', 'ignore_whitespace', 'multi_line', 'dot_matches_new_line', 'swap_greed', 'unicode', 'size_limit', 'dfa_size_limit', 'nest_limit', 'octal', 'crlf')
def _rxbflag(M, st, args, dty, site, cal):
    b = M.rd(st, args[0])
    v = args[1]
    if isinstance(b, Agg) and b.kind == 'rxb':
        flag = (cal['name'], v.args[0] if isinstance(v, Term) and v.op in ('bool', 'int') else 'sym')
        fl = tuple(x for x in b.f[1] if x[0] != flag[0])
        if flag[1] is not False:
            fl = tuple(sorted(fl + (flag,)))
        M.setref(st, args[0], A('rxb', None, 0, (b.f[0], fl)))
    return unref(M, st, args[0])


@RXB('build')
def _rxbbuild(M, st, args, dty, site, cal):
    b = M.rd(st, args[0])
    if isinstance(b, Agg) and b.kind == 'rxb':
        return build_rx(M, st, b.f[0], b.f[1], dty)
    return None


def rxof(M, st, v):
    v = M.rd(st, v)
    return v


@REGEX('is_match')
def _rxismatch(M, st, args, dty, site, cal):
    return T('matched', rxof(M, st, args[0]), M.txt(st, args[1]), ty=M.bool_ty)


@REGEX('find')
def _rxfind(M, st, args, dty, site, cal):
    return M.m_find(st, rxof(M, st, args[0]), M.txt(st, args[1]), dty)


@REGEX('captures')
def _rxcaptures(M, st, args, dty, site, cal):
    re, t = rxof(M, st, args[0]), M.txt(st, args[1])
    a, b = M.fork(st, T('matched', re, t, ty=M.bool_ty))
    out = []
    if a is not None:
        M.mkmatch(a, re, t, I(0))
        out.append((a, M.opt(dty, A('caps', None, 0, (re, t)))))
    if b is not None:
        out.append((b, M.opt(dty)))
    return out


@REGEX('captures_len')
def _rxcaplen(M, st, args, dty, site, cal):
    return caplen(M, rxof(M, st, args[0]))


def caplen(M, re):
    n = groups_of(re)
    return T('caplen', re, ty=M.usize) if n is None else I(n)


@REGEX('as_str')
def _rxasstr(M, st, args, dty, site, cal):
    re = rxof(M, st, args[0])
    if isinstance(re, Term) and re.op == 'regex':
        return re.args[0]
    return T('rxsrc', re, ty=M.F.tyby.get('&str'))


@REGEX('replace', 'replace_all', 'replacen')
def _rxreplace(M, st, args, dty, site, cal):
    re, t = rxof(M, st, args[0]), M.txt(st, args[1])
    rep = M.rd(st, args[-1])
    if isinstance(rep, Agg) and rep.kind in ('closure', 'fn'):
        rep = T('repfn', M.ai.deepval(st, rep))
    if not isinstance(rep, Term):
        rep = fresh('rep')
    op = 'rrep' if cal['name'] == 'replace' else 'rrepall'
    return T(op, re, t, rep, ty=M.F.tyby.get('alloc::string::String'))


@REGEX('find_iter', 'captures_iter', 'split', 'splitn')
def _rxiter(M, st, args, dty, site, cal):
    return M.mkit('ext', T(cal['name'], rxof(M, st, args[0]), M.txt(st, args[1])), None)


@CAPS('len')
def _capslen(M, st, args, dty, site, cal):
    c = M.rd(st, args[0])
    if isinstance(c, Agg) and c.kind == 'caps':
        return caplen(M, c.f[0])
    return fresh('caplen', M.usize)


@CAPS('get')
def _capsget(M, st, args, dty, site, cal):
    c = M.rd(st, args[0])
    return capget(M, st, c, args[1], dty)


@CAPS('get_match')
def _capsgetm(M, st, args, dty, site, cal):
    c = M.rd(st, args[0])
    return M.mkmatch(st, c.f[0], c.f[1], I(0))


@CAPS('name')
def _capsname(M, st, args, dty, site, cal):
    c = M.rd(st, args[0])
    return capget(M, st, c, T('group', M.txt(st, args[1])), dty)


def capget(M, st, c, g, dty):
    if not (isinstance(c, Agg) and c.kind == 'caps'):
        return None
    re, t = c.f
    a, b = M.fork(st, T('capset', re, t, g, ty=M.bool_ty))
    out = []
    if a is not None:
        out.append((a, M.opt(dty, M.mkmatch(a, re, t, g))))
    if b is not None:
        out.append((b, M.opt(dty)))
    return out


@CAPS('iter')
def _capsiter(M, st, args, dty, site, cal):
    c = M.rd(st, args[0])
    return M.mkit('caps', c, I(0))


@MATCH('start')
def _mstart(M, st, args, dty, site, cal):
    m = M.rd(st, args[0])
    return M.mstart(m) if isinstance(m, Agg) and m.kind == 'match' else fresh('ms', M.usize)


@MATCH('end')
def _mend(M, st, args, dty, site, cal):
    m = M.rd(st, args[0])
    return M.mend(m) if isinstance(m, Agg) and m.kind == 'match' else fresh('me', M.usize)


@MATCH('len')
def _mlen(M, st, args, dty, site, cal):
    m = M.rd(st, args[0])
    return sub(M.mend(m), M.mstart(m))


@MATCH('is_empty')
def _mempty(M, st, args, dty, site, cal):
    m = M.rd(st, args[0])
    return M.ai.eqi(st, M.mend(m), M.mstart(m))


@MATCH('range')
def _mrange(M, st, args, dty, site, cal):
    m = M.rd(st, args[0])
    return A('adt', dty, 0, (M.mstart(m), M.mend(m)))


@MATCH('as_str')
def _masstr(M, st, args, dty, site, cal):
    m = M.rd(st, args[0])
    if isinstance(m, Agg) and m.kind == 'match':
        return slice_(m.f[1], M.mstart(m), M.mend(m))
    return fresh('mstr', dty)


# ================================================================ iterators
@N('core::iter::traits::collect::IntoIterator', 'into_iter')
def _intoiter(M, st, args, dty, site, cal):
    if 'inst' in cal and M.F.insts[cal['inst']]['local']:
        return None
    v = args[0]
    if isinstance(v, Agg) and v.kind in ('it',):
        return v
    r = M.into_it(st, v)
    if r is None:
        sty = cal.get('self_ty')
        if isinstance(v, Ref):
            x = M.rd(st, v)
            if isinstance(x, Term):
                return M.mkit('ext', x, None)
        return M.mkit('ext', v, None)
    if r.var == 'byref':
        return v
    return r


def getit(M, st, v):
    x = M.rd1(st, v) if isinstance(v, Ref) else v
    while isinstance(x, Ref):
        x = M.rd1(st, x)
    it = M.into_it(st, x)
    if it is None and isinstance(x, Term) and x.ty is not None:
        return M.mkit('ext', x, None)
    return it


@N(ITER, 'next')
def _next(M, st, args, dty, site, cal):
    if 'inst' in cal and M.F.insts[cal['inst']].get('mir') and M.F.insts[cal['inst']]['local']:
        return None
    r = unref(M, st, args[0])
    cur = M.ai.read(st, r.loc, r.path) if isinstance(r, Ref) else r
    it = M.into_it(st, cur) if not (isinstance(cur, Agg) and cur.kind == 'it') else cur
    isrange = isinstance(cur, Agg) and cur.kind == 'adt' and it is not None and it.var == 'range'
    ity = M.fty(dty, 1, 0)
    if it is None:
        if isinstance(cur, Term):
            it = M.mkit('ext', cur, ity)
        else:
            return None
    if it.var in ('ext', 'split') and (it.f[-1] is None):
        it = M.mkit(it.var, *(it.f[:-1] + (ity,)))
    out = []
    for s, i2, x in M.it_next(st, it, site):
        s = s.copy()
        if isinstance(r, Ref):
            if isrange and i2.var == 'range':
                s_lo = i2.f[0]
                M.ai.write(s, r.loc, r.path, A('adt', cur.ty, cur.var, (s_lo,) + cur.f[1:]))
            else:
                M.ai.write(s, r.loc, r.path, i2)
        out.append((s, M.opt(dty) if x is None else M.opt(dty, x)))
    return out


def adaptor(kind, nargs=1):
    def f(M, st, args, dty, site, cal):
        it = getit(M, st, args[0]) if not isinstance(args[0], Ref) else M.into_it(st, args[0])
        if it is None:
            return M.mkit('ext', fresh('it'), None)
        extra = list(args[1:])
        if kind == 'take_while':
            return M.mkit(kind, it, extra[0], 0)
        if kind == 'skip_while':
            return M.mkit(kind, it, extra[0], 0)
        if kind == 'flatten':
            return M.mkit(kind, it, None, None)
        if kind == 'flat_map':
            return M.mkit(kind, it, extra[0], None)
        if kind == 'enum':
            return M.mkit(kind, it, I(0))
        if kind in ('chain', 'zip'):
            o = M.into_it(st, extra[0])
            if o is None:
                o = M.mkit('ext', extra[0], None)
            return M.mkit(kind, it, o)
        return M.mkit(kind, it, *extra)
    return f


for n_, k_ in (('map', 'mapf'), ('filter', 'filter'), ('filter_map', 'filter_map'), ('flatten', 'flatten'), ('flat_map', 'flat_map'),
               ('skip', 'skip'), ('take', 'take'), ('enumerate', 'enum'), ('rev', 'rev'), ('zip', 'zip'), ('chain', 'chain'),
               ('take_while', 'take_while'), ('skip_while', 'skip_while'), ('copied', 'copied'), ('cloned', 'copied'),
               ('peekable', 'peekable'), ('map_while', 'map_while')):
    NAMES[(ITER, n_)] = adaptor(k_)


@N(ITER, 'by_ref')
def _byref(M, st, args, dty, site, cal):
    return args[0]


@N(ITER, 'fuse', 'inspect')
def _fuse(M, st, args, dty, site, cal):
    return args[0]


def consumer_arg(M, st, v):
    """(iterator, reference to write the remainder back to or None)"""
    if isinstance(v, Ref):
        r = unref(M, st, v)
        cur = M.ai.read(st, r.loc, r.path)
        it = M.into_it(st, cur)
        return it, r
    return M.into_it(st, v), None


def finish(M, s, r, fin):
    if r is not None:
        cur = M.ai.read(s, r.loc, r.path)
        if isinstance(cur, Agg) and cur.kind == 'adt' and fin.var == 'range':
            fin = A('adt', cur.ty, cur.var, (fin.f[0],) + cur.f[1:])
        M.ai.write(s, r.loc, r.path, fin)


@N(ITER, 'any', 'all')
def _any(M, st, args, dty, site, cal):
    it, r = consumer_arg(M, st, args[0])
    f = args[1]
    isany = cal['name'] == 'any'
    if it is None:
        return fresh('any', M.bool_ty)

    def on(s, x, a):
        out = []
        for s2, v in M.ai.call_value(s, f, [x], M.bool_ty, (site, 'anyf')):
            t, e = M.fork(s2, v) if isinstance(v, Term) else (s2, s2.copy())
            for q, val in ((t, True), (e, False)):
                if q is None:
                    continue
                if val == isany:
                    out.append((q, ('stop', B(isany))))
                else:
                    out.append((q, ('go', None)))
        return out
    out = []
    for s, fin, stop, v in M.consume(st, it, site, 'any', on):
        finish(M, s, r, fin)
        out.append((s, B(isany) if stop else B(not isany)))
    return out


@N(ITER, 'find', 'find_map', 'position')
def _ifind(M, st, args, dty, site, cal):
    it, r = consumer_arg(M, st, args[0])
    f = args[1]
    name = cal['name']
    if it is None:
        return None

    def on(s, x, a):
        out = []
        arg = R(('V', x)) if name == 'find' else x
        for s2, v in M.ai.call_value(s, f, [arg], M.bool_ty if name != 'find_map' else None, (site, 'findf')):
            if name == 'find_map':
                for s3, y in M.opt_cases(s2, v):
                    out.append((s3, ('go', None) if y is None else ('stop', y)))
                continue
            t, e = M.fork(s2, v) if isinstance(v, Term) else (s2, s2.copy())
            if t is not None:
                out.append((t, ('stop', x if name == 'find' else a)))
            if e is not None:
                out.append((e, ('go', addc(a, 1) if name == 'position' else None)))
        return out
    out = []
    for s, fin, stop, v in M.consume(st, it, site, name, on, acc=I(0) if name == 'position' else None):
        finish(M, s, r, fin)
        out.append((s, M.opt(dty, v) if stop else M.opt(dty)))
    return out


@N(ITER, 'count', 'last', 'for_each', 'max', 'min', 'nth')
def _count(M, st, args, dty, site, cal):
    it, r = consumer_arg(M, st, args[0])
    name = cal['name']
    if it is None:
        return None
    if name == 'count':
        if it.var == 'list':
            return sub(it.f[2], it.f[1])

        def on(s, x, a):
            return [(s, ('go', addc(a, 1)))]
        out = []
        for s, fin, stop, v in M.consume(st, it, site, 'count', on, acc=I(0)):
            finish(M, s, r, fin)
            # the number of chars consumed never exceeds the bytes consumed
            src = it
            while src.var in ('take_while', 'mapf', 'filter', 'enum', 'char_indices'):
                src = src.f[0]
            if src.var == 'chars' and isinstance(v, Term):
                M.ai.assume_ge0(s, sub(sub(textlen(src.f[0]), src.f[1]), v))
            out.append((s, v))
        return out
    if name == 'for_each':
        def on2(s, x, a):
            return [(s2, ('go', None)) for s2, v in M.ai.call_value(s, args[1], [x], None, (site, 'fe'))]
        return [(s, UNIT) for s, fin, stop, v in M.consume(st, it, site, 'for_each', on2)]
    if name == 'nth' and isinstance(args[1], Term) and args[1].op == 'int' and args[1].args[0] <= 6:
        work = [(st, it, None, False)]
        for _ in range(args[1].args[0] + 1):
            nw = []
            for s, i2, x, done in work:
                if done:
                    nw.append((s, i2, None, True))
                else:
                    for s2, i3, y in M.it_next(s, i2, (site, 'nth')):
                        nw.append((s2, i3, y, y is None))
            work = nw
        out = []
        for s, i2, x, done in work:
            s = s.copy()
            finish(M, s, r, i2)
            out.append((s, M.opt(dty) if x is None else M.opt(dty, x)))
        return out
    out = []
    for s, fin in drive(M, st, it, site):
        finish(M, s, r, fin)
        a, b = M.fork(s, fresh('some', M.bool_ty))
        out.append((a, M.opt(dty, M.freshfield(dty, 1, 0, name))))
        out.append((b, M.opt(dty)))
    return out


@N(ITER, 'fold', 'try_fold')
def _fold(M, st, args, dty, site, cal):
    it, r = consumer_arg(M, st, args[0])
    if it is None or cal['name'] == 'try_fold':
        return None

    def on(s, x, a):
        return [(s2, ('go', v)) for s2, v in M.ai.call_value(s, args[2], [a, x], dty, (site, 'fold'))]
    return [(s, v) for s, fin, stop, v in M.consume(st, it, site, 'fold', on, acc=args[1])]


@N(ITER, 'sum', 'product')
def _sum(M, st, args, dty, site, cal):
    it, r = consumer_arg(M, st, args[0])
    if it is None:
        return None
    return [(s, fresh('sum', dty)) for s, fin in drive(M, st, it, site)]


@N(ITER, 'size_hint')
def _sizehint(M, st, args, dty, site, cal):
    return M.sym('hint', dty)


def template(M, st, it, site):
    """(source list, index var, element term) when the iterator is a pure map over a whole list"""
    fs = []
    cur = it
    while cur.var in ('mapf', 'copied'):
        fs.append(cur)
        cur = cur.f[0]
    if cur.var != 'list' or not (isinstance(cur.f[1], Term) and cur.f[1].op == 'int' and cur.f[1].args[0] == 0):
        return None
    L, i, n, byref, lty = cur.f
    if n is not M.llen(L) or isinstance(L, Agg):
        return None
    ety = M.ai.elemty(lty) if lty is not None else M.ai.elemty(L.ty) if getattr(L, 'ty', None) is not None else None
    iv = T('ivar', L)
    if ety is not None:
        iv.ty = ety
    e = M.ai.symval(iv, ety)
    x = M.item_ref(byref, e, ety)
    s = st.copy()
    before = dict(s.mem)
    for a in reversed(fs):
        if a.var == 'copied':
            x = M.rd1(s, x)
            continue
        outs = M.ai.call_value(s, a.f[1], [x], None, (site, 'tmpl'))
        if len(outs) != 1:
            return None
        s, x = outs[0]
    if s.mem != before or s.log != st.log:
        return None
    return L, iv, x


@N(ITER, 'collect')
@N('core::iter::traits::collect::FromIterator', 'from_iter')
def _collect(M, st, args, dty, site, cal):
    ai = M.ai
    if 'inst' in cal and M.F.insts[cal['inst']].get('mir'):
        return None
    it, r = consumer_arg(M, st, args[0])
    t = M.types[dty]
    c = ai.cls(dty)
    if it is None:
        return M.sym('collect', dty)
    if c == 'list':
        tm = template(M, st, it, site)
        if tm is not None:
            L, iv, x = tm
            if x is iv:
                return L
            if isinstance(x, Ref) and x.loc == ('V', iv):
                return T('lmap', L, iv, x, ty=dty)
            if isinstance(x, Node) and not (isinstance(x, Ref) and x.loc[0] != 'V'):
                return T('lmap', L, iv, x, ty=dty)
        if isinstance(it.f[0], Agg) and it.var == 'list':
            L, i, n, byref, lty = it.f
            if i.op == 'int' and n.op == 'int' and L.kind == 'list':
                return A('list', dty, 0, [M.item_ref(byref, e, None) for e in L.f[i.args[0]:n.args[0]]])
        acc = A('list', dty, 0, ())

        def on(s, x, a):
            return [(s, ('go', M.push(a, x)))]
        out = []
        for s, fin, stop, v in M.consume(st, it, site, 'collect', on, acc=acc):
            out.append((s, v))
        return out
    if c == 'text':
        ity = None

        def on(s, x, a):
            x = M.rd(s, x)
            if M.istext(x):
                p = x
            else:
                p = T('chr', x) if isinstance(x, Term) else fresh('text')
            return [(s, ('go', cat(a, p)))]
        out = []
        for s, fin, stop, v in M.consume(st, it, site, 'collect', on, acc=S('')):
            out.append((s, v))
        return out
    if t['k'] == 'adt' and t['path'] in ('core::result::Result', 'core::option::Option'):
        isres = t['path'].endswith('Result')
        good, bad = (0, 1) if isres else (1, 0)
        inner = M.fty(dty, good, 0)
        ic = ai.cls(inner) if inner is not None else None

        def on(s, x, a):
            out = []
            for var in (good, bad):
                for s2, y in cases(M, s, x, var):
                    if var == good:
                        if ic == 'list':
                            out.append((s2, ('go', M.push(a, y))))
                        elif ic == 'text':
                            yv = M.rd(s2, y)
                            out.append((s2, ('go', cat(a, yv if M.istext(yv) else T('chr', yv)))))
                        else:
                            out.append((s2, ('go', None)))
                    else:
                        out.append((s2, ('stop', y)))
            return out
        acc = A('list', inner, 0, ()) if ic == 'list' else S('') if ic == 'text' else UNIT
        out = []
        for s, fin, stop, v in M.consume(st, it, site, 'collectr', on, acc=acc):
            if stop:
                out.append((s, A('adt', dty, bad, (v,) if isres else ())))
            else:
                if ic not in ('list', 'text'):
                    v = M.sym('collect', inner)
                out.append((s, A('adt', dty, good, (v,))))
        return out
    # maps, sets
    if t['k'] == 'adt' and t['path'].endswith('HashMap'):
        src = it
        key = T('collected', src, ty=dty)
        return [(s, key) for s, fin in drive(M, st, it, site)]
    return [(s, M.sym('collect', dty)) for s, fin in drive(M, st, it, site)]


def cases(M, st, v, var):
    """states in which enum value v has variant var, with field 0 (or None)"""
    if isinstance(v, Agg) and v.kind == 'adt':
        return [(st, v.f[0] if v.f else None)] if v.var == var else []
    ty = getattr(v, 'ty', None)
    d = M.ai.discr(st, v, ty)
    s = st.copy()
    if M.ai.assume_in(s, d, ((var, var),)):
        return [(s, M.ai.proj(v, var, 0, M.fty(ty, var, 0) if ty is not None else None))]
    return []


# ================================================================ fmt
@P('core::fmt::rt::Argument::<\'_>::new_display', 'core::fmt::rt::Argument::<\'_>::new_lower_exp')
def _argd(M, st, args, dty, site, cal):
    ty = (cal.get('iargs') or cal.get('args') or [None])[0]
    return A('fmtarg', None, 'd', ('d', args[0], ty, None))


@P('core::fmt::rt::Argument::<\'_>::new_debug')
def _argg(M, st, args, dty, site, cal):
    return A('fmtarg', None, 'g', ('g', args[0], None, None))


@P('core::fmt::rt::Argument::<\'_>::from_usize')
def _argu(M, st, args, dty, site, cal):
    return A('fmtarg', None, 'd', ('d', args[0], M.usize, None))


@P('core::fmt::Arguments::<\'a>::from_str', 'core::fmt::Arguments::<\'a>::new_const', 'core::fmt::Arguments::<\'_>::from_str')
def _argfromstr(M, st, args, dty, site, cal):
    v = M.rd(st, args[0])
    if isinstance(v, Agg) and v.kind == 'list':
        return A('fmtargs', None, 0, [x for x in v.f])
    return A('fmtargs', None, 0, (M.txt(st, args[0]),))


@P('core::fmt::Arguments::<\'a>::new', 'core::fmt::Arguments::<\'_>::new')
def _argnew(M, st, args, dty, site, cal):
    tmpl = M.rd(st, args[0])
    ar = M.rd(st, args[1])
    toks = []
    if not (isinstance(tmpl, Agg) and tmpl.kind == 'list' and isinstance(ar, Agg) and ar.kind == 'list'):
        return A('fmtargs', None, 0, (fresh('fmt'),))
    bs = [x.args[0] for x in tmpl.f]
    i = 0
    nxt = 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            toks.append(S(bytes(bs[i:i + b]).decode()))
            i += b
            continue
        if b == 0x80:
            n = bs[i] | bs[i + 1] << 8
            i += 2
            toks.append(S(bytes(bs[i:i + n]).decode()))
            i += n
            continue
        flags = b & 0x3f
        spec = []
        if flags & 1:
            v = int.from_bytes(bytes(bs[i:i + 4]), 'little')
            i += 4
            spec.append(('f', v))
        if flags & 2:
            v = int.from_bytes(bytes(bs[i:i + 2]), 'little')
            i += 2
            spec.append(('w', v))
        if flags & 4:
            v = int.from_bytes(bytes(bs[i:i + 2]), 'little')
            i += 2
            spec.append(('p', v))
        if flags & 8:
            nxt = int.from_bytes(bytes(bs[i:i + 2]), 'little')
            i += 2
        if flags & 0x30:
            spec.append(('x', flags))
        a = ar.f[nxt] if nxt < len(ar.f) else fresh('fmtarg')
        nxt += 1
        if isinstance(a, Agg) and a.kind == 'fmtarg':
            k, v, ty, _ = a.f
            # width/precision given by another argument
            sp = []
            for kind, val in spec:
                sp.append((kind, val))
            sp = tuple(sp)
            wargs = tuple(x for x in ar.f) if sp and any(True for _ in sp) else ()
            toks.append(A('fmtarg', None, k, (k, v, ty, (sp,) + tuple(y.f[1] for y in ar.f if isinstance(y, Agg) and y.kind == 'fmtarg' and y is not a) if sp else None)))
        else:
            toks.append(fresh('fmtarg'))
    return A('fmtargs', None, 0, toks)


@P('core::fmt::Formatter::<\'a>::write_fmt')
def _wfmt(M, st, args, dty, site, cal):
    out = []
    for s, t in M.fmt_text(st, args[1], site):
        s = s.copy()
        if not (t.op == 'str' and t.args[0] == ''):
            s.log = s.log + (('w', t),)
        out.append((s, M.ok(dty, UNIT)))
    return out


@P('core::fmt::Formatter::<\'a>::write_str', '<core::fmt::Formatter<\'_> as core::fmt::Write>::write_str', 'core::fmt::Formatter::<\'a>::pad')
def _wstr(M, st, args, dty, site, cal):
    st.log = st.log + (('w', M.txt(st, args[1])),)
    return M.ok(dty, UNIT)


@P('<core::fmt::Formatter<\'_> as core::fmt::Write>::write_char', 'core::fmt::Formatter::<\'a>::write_char')
def _wchar(M, st, args, dty, site, cal):
    c = args[1]
    st.log = st.log + (('w', S(chr(c.args[0])) if c.op == 'int' else T('chr', c)),)
    return M.ok(dty, UNIT)


@P('core::fmt::Write::write_str')
def _wwstr(M, st, args, dty, site, cal):
    v = M.rd(st, args[0])
    if M.istext(v):
        M.setref(st, args[0], cat(v, M.txt(st, args[1])))
        return M.ok(dty, UNIT)
    return _wstr(M, st, args, dty, site, cal)


@P('core::fmt::Write::write_fmt')
def _wwfmt(M, st, args, dty, site, cal):
    v = M.rd(st, args[0])
    if M.istext(v):
        out = []
        for s, t in M.fmt_text(st, args[1], site):
            s = s.copy()
            M.setref(s, args[0], cat(v, t))
            out.append((s, M.ok(dty, UNIT)))
        return out
    return _wfmt(M, st, args, dty, site, cal)


@N('core::fmt::Display', 'fmt')
def _dfmt(M, st, args, dty, site, cal):
    if 'inst' in cal and M.F.insts[cal['inst']].get('mir'):
        return None
    ty = cal.get('self_ty')
    if ty is None:
        ty = cal.get('impl_ty')
    out = []
    for s, t in M.display(st, A('fmtarg', None, 'd', ('d', args[0], ty, None)), (site, 'df')):
        s = s.copy()
        s.log = s.log + (('w', t),)
        out.append((s, M.ok(dty, UNIT)))
    return out


@P('alloc::fmt::format')
def _format(M, st, args, dty, site, cal):
    return M.fmt_text(st, args[0], site)


@P('core::hint::must_use')
def _mustuse(M, st, args, dty, site, cal):
    return args[0]


@P('thiserror::display::AsDisplay::as_display', '<&T as thiserror::display::AsDisplay<\'a>>::as_display')
def _asdisp(M, st, args, dty, site, cal):
    return args[0]


@P('<T as thiserror::aserror::AsDynError<\'a>>::as_dyn_error')
def _asdyn(M, st, args, dty, site, cal):
    return args[0]


for n_ in range(1, 6):
    pass


def _dbg(M, st, args, dty, site, cal):
    st.log = st.log + (('w', fresh('dbg')),)
    return M.ok(dty, UNIT)


DBG = prefixed('core::fmt::Formatter')
for n_ in ('debug_c_like_enum_write_str', 'debug_struct_field1_finish', 'debug_struct_field2_finish', 'debug_struct_field3_finish',
           'debug_struct_field4_finish', 'debug_struct_field5_finish', 'debug_struct_fields_finish', 'debug_tuple_field1_finish',
           'debug_tuple_field2_finish', 'debug_tuple_fields_finish', 'debug_tuple_field3_finish'):
    DBG(n_)(_dbg)


# ================================================================ hashing
@N('core::hash::Hash', 'hash')
def _hash(M, st, args, dty, site, cal):
    if 'inst' in cal and M.F.insts[cal['inst']].get('mir'):
        return None
    st.log = st.log + (('h', M.ai.deepval(st, args[0])),)
    return UNIT


@N('core::hash::Hasher', 'write_isize', 'write_usize', 'write_u8', 'write_u16', 'write_u32', 'write_u64', 'write_str', 'write_length_prefix', 'write')
def _hwrite(M, st, args, dty, site, cal):
    st.log = st.log + (('h', M.ai.deepval(st, args[1])),)
    return UNIT


# ================================================================ nom
def parser(kind, *f):
    return A('parser', None, kind, f)


@P('nom::branch::alt')
def _alt(M, st, args, dty, site, cal):
    v = args[0]
    if isinstance(v, Agg):
        return parser('alt', *v.f)
    return parser('x', v)


@P('nom::combinator::opt')
def _nopt(M, st, args, dty, site, cal):
    return parser('opt', args[0])


@P('nom::combinator::recognize')
def _nrec(M, st, args, dty, site, cal):
    return parser('recognize', args[0])


@P('nom::combinator::map')
def _nmap(M, st, args, dty, site, cal):
    return parser('map', args[0], args[1])


@P('nom::multi::many0')
def _many0(M, st, args, dty, site, cal):
    return parser('many0', args[0])


@P('nom::multi::many1')
def _many1(M, st, args, dty, site, cal):
    return parser('many1', args[0])


@P('nom::multi::count')
def _ncount(M, st, args, dty, site, cal):
    return parser('count', args[0], args[1])


@P('nom::character::complete::char')
def _nchar(M, st, args, dty, site, cal):
    c = args[0]
    return parser('oneof', ((c.args[0],) * 2,)) if c.op == 'int' else parser('x', c)


@P('nom::character::complete::one_of')
def _noneof(M, st, args, dty, site, cal):
    v = M.rd(st, args[0])
    if isinstance(v, Term) and v.op == 'str':
        return parser('oneof', cs_of(v.args[0]))
    if isinstance(v, Agg) and v.kind == 'list':
        return parser('oneof', M.patset(st, v))
    return parser('x', v)


@P('nom::character::complete::none_of')
def _nnoneof(M, st, args, dty, site, cal):
    v = M.rd(st, args[0])
    if isinstance(v, Term) and v.op == 'str':
        return parser('oneof', iv_and(iv_not(cs_of(v.args[0])), ALLCS))
    return parser('x', v)


@P('nom::character::complete::satisfy')
def _nsatisfy(M, st, args, dty, site, cal):
    return parser('oneof', M.pred(st, args[0])[0])


@P('nom::bytes::complete::tag')
def _ntag(M, st, args, dty, site, cal):
    return parser('tag', M.txt(st, args[0]), 0)


@P('nom::bytes::complete::tag_no_case')
def _ntagnc(M, st, args, dty, site, cal):
    return parser('tag', M.txt(st, args[0]), 1)


@P('nom::bytes::complete::take_while')
def _ntw(M, st, args, dty, site, cal):
    return parser('tw', args[0], 0)


@P('nom::bytes::complete::take_while1')
def _ntw1(M, st, args, dty, site, cal):
    return parser('tw', args[0], 1)


@P('nom::bytes::complete::take_till')
def _ntt(M, st, args, dty, site, cal):
    return parser('tt', args[0], 0)


@P('nom::bytes::complete::take_till1')
def _ntt1(M, st, args, dty, site, cal):
    return parser('tt', args[0], 1)


@P('nom::error::make_error', 'nom::error::Error::<I>::new')
def _mkerr(M, st, args, dty, site, cal):
    return A('adt', dty, 0, tuple(args))


# ================================================================ io / xml: opaque, see loader analysis
@P('quick_xml::events::BytesEnd::<\'a>::name', 'quick_xml::events::BytesStart::<\'a>::name')
def _xname(M, st, args, dty, site, cal):
    v = M.rd(st, args[0])
    return M.ai.symval(T('xname', v, ty=dty), dty)


@P('quick_xml::name::QName::<\'a>::into_inner')
def _xinner(M, st, args, dty, site, cal):
    v = M.rd(st, args[0])
    return T('xbytes', v, ty=dty)


@P('quick_xml::events::BytesStart::<\'a>::attributes')
def _xattrs(M, st, args, dty, site, cal):
    v = M.rd(st, args[0])
    return M.mkit('ext', T('xattrs', v), None)


@P('quick_xml::reader::buffered_reader::<impl quick_xml::reader::Reader<R>>::read_event_into')
def _xread(M, st, args, dty, site, cal):
    t = fresh('event', dty)
    M.setref(st, args[1], fresh('buf', getattr(M.rd(st, args[1]), 'ty', None)))
    return M.ai.symval(t, dty)


@P('quick_xml::reader::Reader::<R>::from_reader')
def _xfrom(M, st, args, dty, site, cal):
    return M.sym('reader', dty)


@P('alloc::io::buffered::bufreader::BufReader::<R>::new', 'std::io::BufReader::<R>::new', 'std::io::buffered::bufreader::BufReader::<R>::new',
   'core::io::cursor::Cursor::<T>::new', 'std::io::Cursor::<T>::new', 'std::io::cursor::Cursor::<T>::new')
def _bufreader(M, st, args, dty, site, cal):
    return M.ai.symval(T('reader', args[0] if isinstance(args[0], Node) else fresh('x'), ty=dty), dty)


@P('std::fs::File::open')
def _fopen(M, st, args, dty, site, cal):
    a, b = M.fork(st, fresh('fileok', M.bool_ty))
    return [(a, M.ok(dty, M.freshfield(dty, 0, 0, 'file'))), (b, M.err(dty))]


@P('postcard::de::from_bytes')
def _pc(M, st, args, dty, site, cal):
    t = T('postcard', M.rd(st, args[0]) if isinstance(M.rd(st, args[0]), Node) else fresh('x'), ty=M.fty(dty, 0, 0))
    return M.ok(dty, M.ai.symval(t, M.fty(dty, 0, 0)))


@P('<quick_xml::errors::Error as core::convert::From<quick_xml::escape::EscapeError>>::from',
   '<quick_xml::errors::Error as core::convert::From<quick_xml::encoding::EncodingError>>::from',
   '<quick_xml::errors::Error as core::convert::From<quick_xml::events::attributes::AttrError>>::from')
def _xerr(M, st, args, dty, site, cal):
    return M.sym('xmlerror', dty)
