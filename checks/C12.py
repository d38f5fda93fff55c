from common import *
import multiexp, boscoster, multi_cases
SOURCES = ['inst_groups', 'common/utils']
TRUSTED = TB + ['std::vector<bool> element access by contract', 'GMP mpn_sub_n and mpn_cmp by contract', 'z3 4.8.12']
ASSUMPTIONS = ASSUME + ['group addition satisfies the group law (C08)', 'scalar multiplication satisfies its contract (C10)', 'as_bigint of a field scalar is its canonical integer (C01)', 'the build has no OpenMP (MULTICORE off) and no USE_MIXED_ADDITION, as configured']
ENUMERATED = [(r'\[lengths |multi_exp_inner naive\w*, \d+ terms|inner_product over .*, \d+ terms|mixed_addition \w+, \d+ terms|bos_coster start', 'list lengths in the name'), (r'multi_exp \w+, 0\.\.9 terms', 'list lengths 0..9, 1..11 chunks'), (r'\[1\.\.\d+ chunks\]', 'the chunk counts in the name (every list length)'), (r'BDLO12, \d+ terms', 'list and bit lengths in the name'), (r'bos_coster iteration', 'the heap size in the name')]
BOUNDED = 'lists of up to 70 terms with identity, repeated, opposite elements and zero, one, maximal, equal scalars for every method, chunk count and group; the deductive part proves the naive methods, the inner product and the chunking for every list length (below 2^40), and covers every element and scalar for the enumerated list lengths of the other methods'


def tasks(env):
    return multiexp.c12_tasks(env) + boscoster.bos_tasks(env)


def cases(rng, tier):
    yield 'drv_multi', multi_cases.c12(rng, 6 if tier == 'quick' else 60)


def replay(name, wit):
    return list(multi_cases.replay(name, wit)) if isinstance(wit, int) else []
