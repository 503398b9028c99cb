"""C15: the validation outcomes are classified consistently"""
from checks.lib import *

LEVEL = 'proof'
RULE = 'obligation = (outcome, predicate); discharged when abstract interpretation of the predicate on that outcome gives the documented constant'
EXPLAIN = 'Each public predicate of the validation outcome is interpreted on each variant; the three results must form the documented classification.'
P = 'crate::validator::Validation'
POSS = {'IsPossible', 'IsPossibleLocalOnly'}
LEN = {'TooShort', 'InvalidLength', 'TooLong'}


def check(ctx, res):
    t = next((t for t in ctx.F.types if t['k'] == 'adt' and t['path'] == P), None)
    if t is None:
        res.und('anchor', P + ' not found')
        return
    ty = ctx.F.types.index(t)
    for name, want in (('is_possible', lambda v: v in POSS), ('is_invalid', lambda v: v not in POSS), ('is_invalid_length', lambda v: v in LEN)):
        i = inst_of(ctx, P + '::' + name)
        if i is None:
            res.und('anchor ' + name, 'predicate not found')
            continue
        for k, w in enumerate(t['variants']):
            v = A('adt', ty, k, ())
            byref = ctx.F.types[ctx.F.body(i).locals[1]]['k'] == 'ref'
            r = Run(ctx, i, args=[R(('V', v)) if byref else v])
            if r.tainted or not r.outs:
                res.und('%s of %s' % (name, w['name']), r.why())
                continue
            for st, o in r.outs:
                if o not in (core.TRUE, core.FALSE):
                    res.und('%s of %s' % (name, w['name']), show(o)[:100])
                elif (o is core.TRUE) == want(w['name']):
                    res.ok()
                else:
                    res.bad('%s of %s' % (name, w['name']), '%s() of the outcome %s is %s' % (name, w['name'], o is core.TRUE))
    res.sample('%d outcomes x 3 predicates evaluated' % len(t['variants']))
    res.coverage['outcomes'] = [w['name'] for w in t['variants']]
