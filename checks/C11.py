from common import *
import tables, multi_cases
SOURCES = ['inst_groups']
TRUSTED = TB
ASSUMPTIONS = ASSUME + ['group addition satisfies the group law (C08)', 'as_bigint of a field scalar is its canonical integer (C01)',
                        'the scalar fits in the scalar size the table was built for']
ENUMERATED = [(r'\[lengths |batch_exp\w* \d+ scalars', 'list lengths in the name'), (r'(get_window_table|windowed_exp) size', 'the scalar size and window in the name')]
BOUNDED = 'tables, single, batch and coefficient exponentiation for random windows and sizes against exact affine arithmetic; the deductive part covers every base and scalar for the enumerated window and scalar sizes (windows 1..8 quick, 1..14 thorough) ; the batch forms are proved for every list length (below 2^40)'


def tasks(env):
    return tables.c11_tasks(env)


def cases(rng, tier):
    yield 'drv_multi', multi_cases.c11(rng, 6 if tier == 'quick' else 40)


def replay(name, wit):
    return list(multi_cases.replay(name, wit)) if isinstance(wit, int) else []
