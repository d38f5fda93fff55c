from common import *
import rootbatch, util_cases
SOURCES = ['inst_fields', 'inst_util', 'inst_binary', 'common/utils'] + ['algebra/fields/binary/gf%d' % k for k in (32, 64, 128, 192, 256)]
TRUSTED = TB + ['z3 4.8.12']
ASSUMPTIONS = ASSUME + ['field multiplication, squaring and inversion satisfy their contracts (C01, C02, C05, C07)', 'root_of_unity has order exactly 2^s and multiplicative_generator has order p-1 (C03)']
ENUMERATED = [(r'\[lengths |batch_invert: ', 'list lengths listed in the name')]
BOUNDED = 'batch inversion is proved for every element value and every list length (below 2^40); roots of unity are proved for every 64-bit size; all are also run on random inputs against exact arithmetic'


def tasks(env):
    return rootbatch.c18_tasks(env)


def cases(rng, tier):
    yield 'drv_fields', util_cases.c18(rng, 40 if tier == 'quick' else 400)


def replay(name, length):
    return util_cases.replay_binv(name, length) if 'batch_invert' in name else []
