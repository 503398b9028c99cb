"""C02: querying and formatting never panic"""
from checks import panics, c01

LEVEL = 'proof'
RULE = c01.RULE.replace('the public parsing functions', 'any public function other than parsing and loading')
EXPLAIN = ('Every public function and trait method that is not a parsing or loading entry point is interpreted abstractly over all numbers, modes and databases. '
           'An edge that is not refuted is a violation when its condition is about program values, undecided when it is about a symbol the analysis invented.')
ASSUME = c01.ASSUME + ['writing into the caller\'s formatter does not panic']


def want(ctx, f):
    r = panics.ret_adts(ctx, f['inst'])
    if any(x.startswith('crate::metadata::database::Database') or x.startswith('crate::metadata::loader') or x.endswith('error::LoadMetadata') for x in r):
        return False
    return not c01.want(ctx, f)


def check(ctx, res):
    panics.check(ctx, res, panics.roots(ctx, want), 60)
