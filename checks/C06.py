from common import *
import ext6, ext_cases
SOURCES = ['inst_fields']
TRUSTED = TB
ASSUMPTIONS = ASSUME + ['Fp_model operations satisfy their contracts (C01); tower products and squares (C05)',
                        'find_wnaf satisfies its contract (proved under C10)',
                        'power(base, vector) is discharged for vectors of 0 to 4 words',
                        'x^p on a tower over F_p is the ring homomorphism fixed by the images of the generators (Frobenius); those images are recomputed from the defining relations']
BOUNDED = 'Frobenius powers 0..12 and huge, cyclotomic elements, sparse operands, exponents with extreme words, squares of every 2-power order'


def tasks(env):
    return ext6.make_all(env)


def cases(rng, tier):
    yield 'drv_fields', ext_cases.c06(rng, 8 if tier == 'quick' else 80)
