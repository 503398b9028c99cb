"""C25: values survive serialisation"""
import re
from checks.lib import *

LEVEL = 'proof'
RULE = ('obligation = public serialisable type, field, variant, attribute; discharged when both directions are derived from the same definition, every attribute '
        'treats both directions alike, and no two names coincide after renaming')
EXPLAIN = ('The serde implementations and helper attributes of every local type are read from the type-checked program; derived implementations of both directions '
           'visit the same fields in the same order, so a round trip can only lose something through an attribute, a hand-written direction, a field whose type loses '
           'something, or two parts with the same external name.')
ASSUME = ['serde derive generates mutually inverse code for one definition without asymmetric attributes', 'the serialisation format of the user keeps what serde hands it']
MAIN = ['crate::phone_number::PhoneNumber', 'crate::country::Code', 'crate::country::Source', 'crate::country::Id', 'crate::national_number::NationalNumber',
        'crate::extension::Extension', 'crate::carrier::Carrier', 'crate::phone_number::Type']
LOSSY = {'skip': 'is left out', 'skip_serializing': 'is left out when written', 'skip_deserializing': 'is ignored when read', 'skip_serializing_if': 'is sometimes left out when written',
         'flatten': None, 'untagged': 'is read back by trying the alternatives in order', 'other': 'reads several names as one', 'getter': None,
         'serialize_with': None, 'deserialize_with': None, 'with': None, 'into': None, 'from': None, 'try_from': None, 'remote': None}


def words(n):
    return re.sub(r'(?<!^)(?=[A-Z])', '_', n)


def rename(rule, n, variant):
    if rule in ('lowercase',):
        return n.lower() if variant else n
    if rule in ('UPPERCASE',):
        return n.upper()
    if variant:
        sn = words(n).lower()
    else:
        sn = n
    if rule == 'snake_case':
        return sn
    if rule == 'SCREAMING_SNAKE_CASE':
        return sn.upper()
    if rule == 'kebab-case':
        return sn.replace('_', '-')
    if rule == 'SCREAMING-KEBAB-CASE':
        return sn.upper().replace('_', '-')
    pc = ''.join(w[:1].upper() + w[1:] for w in sn.split('_'))
    if variant and rule == 'PascalCase':
        return n
    if rule == 'PascalCase':
        return pc
    if rule == 'camelCase':
        return (n if variant else pc)[:1].lower() + (n if variant else pc)[1:]
    return None


def split_args(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '([{':
            d += 1
        if c in ')]}':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def check(ctx, res):
    F = ctx.F
    imp = {}
    for n in F.j['impls']:
        t = n['trait'] or ''
        if t.endswith('ser::Serialize') or t == 'serde::Serialize':
            imp.setdefault(n['self'], {})['w'] = n['derived']
        elif t.endswith('de::Deserialize') or t == 'serde::Deserialize':
            imp.setdefault(n['self'], {})['r'] = n['derived']
    attrs = {}
    for a in F.j['attrs']:
        if a['attr'] == 'serde':
            attrs.setdefault(a['on'], []).extend(split_args(a['args']))
    tys = {t['path']: t for t in F.types if t['k'] == 'adt' and t['local']}
    for m in MAIN:
        if m in tys and m not in imp:
            res.bad('not serialisable ' + m, '%s can no longer be serialised and read back' % m)
    types = 0
    for p, d in sorted(imp.items()):
        if '::_::' in p or '__Field' in p or p not in tys:
            continue
        types += 1
        if set(d) != {'w', 'r'}:
            res.bad('one way ' + p, '%s can only be %s' % (p, 'written' if 'w' in d else 'read'))
            continue
        if not (d['w'] and d['r']):
            res.und('hand written ' + p, '%s: %s is hand written' % (p, 'Serialize' if not d['w'] else 'Deserialize'))
            continue
        res.ok()
        t = tys[p]
        rule = None
        for a in attrs.get(p, []):
            rule = attr(res, p, a, p, rule)
        en = t['akind'] == 'enum'
        names = {}
        for w in t['variants']:
            wp = p + '::' + w['name']
            nm = rename(rule, w['name'], True) if rule and en else w['name']
            for a in attrs.get(wp, []) if en else []:
                nm = attr(res, wp, a, wp, nm, True)
            if en:
                if nm is None:
                    res.und('rename ' + wp, 'rename rule not understood')
                elif nm in names:
                    res.bad('same name ' + wp, '%s and %s are both written as %r: one is read back as the other' % (names[nm], w['name'], nm))
                else:
                    names[nm] = w['name']
                    res.ok()
            fn = {}
            for f, fty, pub in w['fields']:
                fp = (wp if en else p) + '::' + f
                nm = rename(rule, f, False) if rule and not en else f
                for a in attrs.get(fp, []):
                    nm = attr(res, fp, a, fp, nm, True)
                if nm in fn:
                    res.bad('same name ' + fp, 'the fields %s and %s of %s have the same external name %r' % (fn[nm], f, p, nm))
                fn[nm] = f
                # the type of the field itself must survive
                if fty is not None:
                    lossy(F, res, imp, fp, fty)
    res.coverage.update(types=types, attributes=sum(len(v) for v in attrs.values()))
    if types < 5:
        res.und('floor', 'fewer serialisable types than expected')
    res.sample('types with both directions derived: ' + ', '.join(sorted(p for p in imp if p in tys))[:400])


def attr(res, where, a, key, cur, name=False):
    k = re.split(r'[\s=(]', a, 1)[0]
    if k in ('rename', 'rename_all', 'rename_all_fields'):
        m = re.match(r'\w+\s*=\s*"([^"]*)"$', a)
        if m:
            res.ok()
            return m.group(1) if (k == 'rename') == name or k == 'rename_all' and not name else cur
        m = dict(re.findall(r'(serialize|deserialize)\s*=\s*"([^"]*)"', a))
        if len(m) == 2 and m['serialize'] == m['deserialize']:
            res.ok()
            return m['serialize']
        res.bad('asymmetric name ' + key, '%s is written and read under different names (%s)' % (where, a))
        return cur
    if k in LOSSY:
        if LOSSY[k]:
            res.bad('%s on %s' % (k, key), '%s %s (serde(%s)): a value does not survive the round trip in every format' % (where, LOSSY[k], a))
        else:
            res.und('%s on %s' % (k, key), 'serde(%s) not analysed' % a)
        return cur
    if k in ('default', 'deny_unknown_fields', 'alias', 'bound', 'crate', 'transparent', 'borrow', 'expecting'):
        res.ok()
        return cur
    res.und('%s on %s' % (k, key), 'serde(%s) not analysed' % a)
    return cur


def lossy(F, res, imp, fp, ty, d=0):
    t = F.types[ty]
    if d > 6:
        return
    if t['k'] in ('int', 'bool', 'char', 'str'):
        res.ok()
        return
    if t['k'] == 'float':
        res.und('float ' + fp, 'a float need not survive every format')
        return
    if t['k'] == 'adt':
        if t['local']:
            if t['path'] in imp:
                res.ok()
            else:
                res.und('field ' + fp, t['path'] + ' has no derived serialisation')
            return
        if t['path'] in ('alloc::string::String', 'core::option::Option', 'alloc::vec::Vec', 'alloc::boxed::Box'):
            for x in t['args'][:1] if t['path'] != 'alloc::string::String' else []:
                if t['path'] == 'core::option::Option' and F.types[x]['k'] == 'adt' and F.types[x]['path'] == 'core::option::Option':
                    res.bad('nested option ' + fp, '%s nests options: the inner absence is lost in self-describing formats' % fp)
                lossy(F, res, imp, fp, x, d + 1)
            if t['path'] == 'alloc::string::String':
                res.ok()
            return
    if t['k'] == 'tuple':
        for x in t['tys']:
            lossy(F, res, imp, fp, x, d + 1)
        return
    res.und('field ' + fp, 'type %s not classified' % t['s'])
