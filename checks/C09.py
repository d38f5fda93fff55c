from common import *
import group, group_cases, params as PR
SOURCES = ['inst_fields'] + [PR.FILES[c] + '_' + g for c in PR.FILES for g in ('g1', 'g2')]
TRUSTED = TB
ASSUMPTIONS = ASSUME + ['field and tower operations satisfy their contracts (C01, C02, C05, C06)', 'group elements have odd prime order; on Edwards curves non-identity elements have nonzero coordinates',
                        'multiplication by a multi-limb integer satisfies its contract (C10)', 'an endomorphism that sends the generator of the cyclic group to q times itself multiplies every element by q']
ENUMERATED = [(r'\[lengths ', 'list lengths listed in the name'), (r'batch_to_special_all_non_zeros: ', 'list lengths up to the stated one')]
BOUNDED = 'random points, representations and perturbed coordinates for every predicate and normalisation; batch normalisation of lists without identities is proved for every length (below 2^40); with identities in the list it is discharged for every element value and the enumerated lengths'


def tasks(env):
    return group.rep_tasks(env)


def cases(rng, tier):
    yield 'drv_groups', group_cases.c09(rng, 40 if tier == 'quick' else 500)


def replay(name, length):
    return group_cases.replay_batch(name, length)
