from common import *
import limbs, ext_cases
SOURCES = ['inst_fields']
TRUSTED = TB + ['z3 (linear real arithmetic)', 'documented semantics of the x86-64 instructions used (mov, add, adc, sub, sbb, mul, cmp, xor, conditional jumps)']
ASSUMPTIONS = ASSUME + ['GMP mpn_add_n, mpn_sub_n, mpn_sub, mpn_sub_1, mpn_add_1, mpn_mul_n, mpn_addmul_1, mpn_cmp, mpn_copyi, mpn_zero satisfy their manual',
                        'operands are reduced representatives (type invariant of Fp_model, re-established by every operation)',
                        'the inline assembly modifies only registers and memory it declares or that the surrounding code does not rely on']
BOUNDED = 'reduced, extreme and carry-boundary Montgomery words in every prime field, every operation, aliased and in-place forms'


def tasks(env):
    return limbs.make(env)


def cases(rng, tier):
    yield 'drv_fields', ext_cases.c01(rng, 60 if tier == 'quick' else 1500)
