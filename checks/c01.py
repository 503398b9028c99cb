"""C01: parsing never panics"""
from checks import panics

LEVEL = 'proof'
RULE = ('obligation = one panic edge (failed unwrap or expect, explicit panic, overflow or bounds assertion, slice bound, slice character boundary, missing map key, '
        'missing capture group) in a function reachable from the public parsing functions; discharged when the facts that hold on every path refute it')
EXPLAIN = ('The public functions that take a text and return a number, or that judge a text, are interpreted abstractly over all texts, default regions and databases, '
           'with library calls modelled and local calls followed. An edge that is not refuted is a violation when its condition is about program values, and '
           'undecided when it is about a symbol the analysis invented.')
ASSUME = ['library models are correct', 'the region and code indexes of a database agree (decided by C21)', 'memory suffices and texts are shorter than 2^62 bytes']


def want(ctx, f):
    i = f['inst']
    r = panics.ret_adts(ctx, i)
    k = panics.arg_kinds(ctx, i)
    if any(x.startswith('crate::metadata::database') or x.startswith('crate::metadata::loader') for x in r):
        return False
    if any(x.endswith('PhoneNumber') for x in r) and any('Result' in x for x in r):
        return True
    b = ctx.F.body(i)
    textish = k and (k[-1] in ('str', 'param') or 'String' in k[-1]) or f['path'].endswith('is_viable')
    return bool(textish and (ctx.F.types[b.locals[0]]['k'] == 'bool' or any('Result' in x for x in r)) and not any(x.startswith('crate::') for x in k))


def check(ctx, res):
    panics.check(ctx, res, panics.roots(ctx, want), 4)
