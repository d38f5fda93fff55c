from common import *
import binary, binary_cases, powers
SOURCES = ['inst_binary'] + ['algebra/fields/binary/gf%d' % k for k in (32, 64, 128, 192, 256)]
TRUSTED = TB + ['PCLMULQDQ and SSE2 intrinsics mean what the Intel manual says', 'GMP mpn_set_str']
ASSUMPTIONS = ASSUME + ['the five published polynomials are irreducible (checked by C03)']
BOUNDED = 'binary fields: random, sparse, dense and extreme operands against integer polynomial arithmetic'


def tasks(env):
    return binary.binary_tasks(env) + binary.power_tasks(env)


def cases(rng, tier):
    yield 'drv_fields', binary_cases.cases(rng, 40 if tier == 'quick' else 600)


replay = binary_cases.replay
