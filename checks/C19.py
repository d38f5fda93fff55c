from common import *
import rand, rand_cases, params as PR
SOURCES = ['inst_fields', 'inst_util'] + ['algebra/fields/binary/gf%d' % k for k in (32, 64, 128, 192, 256)] + [PR.FILES[c] + s for c in PR.FILES for s in ('_g1', '_g2')]
TRUSTED = TB + ['z3 4.8.12', 'std::random_device and randombytes_buf return arbitrary words; SHA512_Init/Update/Final compute a function of the message']
ASSUMPTIONS = ASSUME + ['conversion of a reduced integer to a field element, scalar multiplication and comparison satisfy their contracts (C01, C08, C09, C10, C18)', 'the generators are those of C03']
BOUNDED = 'random sources replaced by chosen words (all zeros, all ones, the modulus and its neighbours) in the real library'


def tasks(env):
    return rand.c19_tasks(env)


def cases(rng, tier):
    yield 'drv_rand', rand_cases.c19(rng, 4 if tier == 'quick' else 60)
