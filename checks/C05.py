from common import *
import towers, ext_cases
SOURCES = ['inst_fields']
TRUSTED = TB
ASSUMPTIONS = ASSUME + ['Fp_model operations satisfy their contracts (property C01, C02)', 'each tower is a field, so the norm of a nonzero element is nonzero (constants checked by C03)']
BOUNDED = 'random and corner-case coefficients (0, 1, p-1, extreme Montgomery words, sparse elements), every extension field and operation'


def tasks(env):
    return towers.make(env)


def cases(rng, tier):
    yield 'drv_fields', ext_cases.c05(rng, 30 if tier == 'quick' else 400)
