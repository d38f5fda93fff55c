from common import *
import pairtask, pair_cases, params as PR
SOURCES = [PR.FILES[c] + s for c in PR.FILES for s in ('_pairing', '_pp', '_g1', '_g2')]
TRUSTED = TB + ['the theorems that a Miller function with the ate, optimal ate or Tate divisor, raised to a multiple of (q^k-1)/r prime to r, is bilinear and non-degenerate (Hess-Smart-Vercauteren, Vercauteren; hypotheses checked numerically)']
ASSUMPTIONS = ASSUME + ['field and tower operations satisfy their contracts (C01, C05, C06)', 'to_affine_coordinates and mul_by_q satisfy their contracts (C09)', 'the final exponentiation satisfies its contract (C14)',
                        'the points lie in the prime-order subgroups and are not the identity', 'multiples l Q of a generator with l not 0, +-m modulo r have x-coordinates different from that of m Q']
BOUNDED = 'random, extreme and small multiples of the generators in random representations against exact powers in the target field'


def tasks(env):
    return pairtask.c13_tasks(env)


def cases(rng, tier):
    yield 'drv_pair', pair_cases.c13(rng, 8 if tier == 'quick' else 64)
