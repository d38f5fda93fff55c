from common import *
import stream, utilfn, util_cases
SOURCES = ['inst_fields', 'inst_util', 'inst_binary', 'common/utils'] + ['algebra/fields/binary/gf%d' % k for k in (32, 64, 128, 192, 256)]
TRUSTED = TB + ['GMP mpn_cmp, mpn_zero, mpn_set_str and the mpz functions used by bigint by contract', 'z3 4.8.12']
ASSUMPTIONS = ASSUME + ['field elements convert to and from their canonical integer as proved by C01', 'word counts and shift widths within the documented domains: widths 1..63 for two\'s complement, 0..64 for bit reversal and word packing, n <= 2^63 for rounding to a power of two',
                        'decimal text is nonempty, has digits only, no superfluous leading zero, and fits (the library asserts the rest)']
ENUMERATED = [(r'pack_|convert_bit_vector|convert_field_element_vector|int_list_to_bits|serialize_bit_vector', 'the list lengths, word sizes and chunk sizes enumerated')]
BOUNDED = 'the functions on single words and on multi-limb integers are proved for every value; the list conversions are proved for every bit value of enumerated list lengths and word sizes; all are also run on random inputs against exact integers'


def tasks(env):
    return utilfn.c17_tasks(env) + stream.bitvec_tasks(env, [stream.BITIO])


def cases(rng, tier):
    n = 30 if tier == 'quick' else 400
    yield 'drv_util', util_cases.c17(rng, n)
    yield 'drv_fields', util_cases.c17_fields(rng, n)
