from common import *
import finalexp, pair_cases, params as PR
PAIRING = [PR.FILES[c] + s for c in PR.FILES for s in ('_pairing', '_pp')]
SOURCES = PAIRING
TRUSTED = TB
ASSUMPTIONS = ASSUME + ['the target-field operations satisfy their contracts (C05, C06)', 'the multiplicative group of a field of size q^k has order q^k-1']
BOUNDED = 'one, random and extreme target-field elements against exact exponentiation'


def tasks(env):
    return finalexp.c14_tasks(env)


def cases(rng, tier):
    yield 'drv_pair', pair_cases.c14(rng, 6 if tier == 'quick' else 60)
