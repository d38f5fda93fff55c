from common import *
import group, group_cases, params as PR
SOURCES = ['inst_fields'] + [PR.FILES[c] + '_' + g for c in PR.FILES for g in ('g1', 'g2')]
TRUSTED = TB
ASSUMPTIONS = ASSUME + ['field and tower operations satisfy their contracts (C01, C02, C05)',
                        'inputs are group elements of odd prime order (a point of order 2 or 4 cannot occur; for Edwards curves the addition denominators are then nonzero and a non-identity sum has nonzero coordinates)',
                        'edwards add() is called on non-identity elements only, as its comment demands',
                        'the chord-tangent / Edwards formulas with the published coefficients are the group law (mathematics)']
BOUNDED = 'pairs among identity, small and random multiples of the generator in random representations (z random, 0/1/p-1 coefficients), all addition routines'


def tasks(env):
    return group.law_tasks(env)


def cases(rng, tier):
    yield 'drv_groups', group_cases.c08(rng, 20 if tier == 'quick' else 300)
