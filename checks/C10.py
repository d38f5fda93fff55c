from common import *
import scalarmul, wnaf, multi_cases
SOURCES = ['inst_groups']
TRUSTED = TB + ['GMP mpn_sub_1, mpn_add_1, mpn_rshift by contract', 'z3 4.8.12']
ASSUMPTIONS = ASSUME + ['group addition, doubling and subtraction satisfy the group law (C08): elements of the one cyclic group are compared as integer multiples of the base', 'as_bigint of a field scalar is its canonical integer (C01)',
                        'fixed-window multiplication is proved for windows 1..10; every window the library itself chooses lies in that range', 'find_wnaf is proved for windows 1..61']
ENUMERATED = [(r'fixed_window_wnaf_exp<\d+> window', 'the window size in the name (1..10)')]
BOUNDED = 'extreme and random scalars of every instantiated width, every group, every algorithm, against exact affine arithmetic'


def tasks(env):
    return scalarmul.c10_tasks(env) + wnaf.wnaf_tasks(env)


def cases(rng, tier):
    yield 'drv_multi', multi_cases.c10(rng, 8 if tier == 'quick' else 80)


def replay(name, w):
    if isinstance(w, dict) and 'w' in w:
        # the counterexample is a mid-loop state: running value c; the scalar c reaches it at once
        yield 'drv_multi', multi_cases.naf_case(w['n'], w['w'], w['c'])
