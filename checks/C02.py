from common import *
import limbs, ext6, ext_cases
SOURCES = ['inst_fields']
TRUSTED = TB + ['z3 (linear real arithmetic)']
ASSUMPTIONS = ASSUME + ['GMP mpn_gcdext (nonzero operand below the prime: g = 1, |s| <= p/2 + 1, s*u = 1 mod p) and mpn_tdiv_qr satisfy their manual',
                        'ring operations satisfy their contracts (C01); find_wnaf satisfies its contract (proved under C10)',
                        'power(base, vector) is discharged for vectors of 0 to 4 words']
BOUNDED = 'inverses of extreme representations, exponents with extreme words, squares of every 2-power order'


def tasks(env):
    return limbs.make_inverse(env) + ext6.make_prime(env)


def cases(rng, tier):
    yield 'drv_fields', ext_cases.c02(rng, 12 if tier == 'quick' else 200)
