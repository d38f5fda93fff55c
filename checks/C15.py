from common import *
import pairtask, pair_cases
from C13 import SOURCES
TRUSTED = TB + ['two Miller functions with the same divisor have the same reduced value up to the constants shown to be killed']
ASSUMPTIONS = ASSUME + ['field and tower operations satisfy their contracts (C01, C05, C06)', 'to_affine_coordinates and mul_by_q satisfy their contracts (C09)', 'the final exponentiation satisfies its contract (C14)',
                        'the points lie in the prime-order subgroups and are not the identity']
BOUNDED = 'random quadruples and sextuples in random representations, with repeated arguments'


def tasks(env):
    return pairtask.c15_tasks(env)


def cases(rng, tier):
    yield 'drv_pair', pair_cases.c15(rng, 8 if tier == 'quick' else 40)
