from common import *
import stream, io_cases, util_cases, params as PR
SOURCES = ['inst_io', 'common/utils'] + ['algebra/fields/binary/gf%d' % k for k in (32, 64, 128, 192, 256)] + [PR.FILES[c] + s for c in PR.FILES for s in ('_g1', '_g2', '_pairing')]
TRUSTED = TB + ['standard stream members by contract (unformatted read/write, decimal output and input of integers, default format flags)']
ASSUMPTIONS = ASSUME + ['field operations, square roots and normalisation satisfy their contracts (C01, C04, C05, C09)', 'encodings judged: the built one (binary, Montgomery words, compressed points), text, text with plain integers and uncompressed points, binary with plain integers, binary uncompressed', 'vectors of every length: element operators by contract (own obligations), the destination has room (growth of std::vector is executed for lengths 0..4)']
ENUMERATED = [(r'^(?!.*every length)(\[[^]]*\] )?(vector |vector of|bit vector)|vector operator', 'vector lengths 0..4 (bit vectors up to 130)')]
BOUNDED = 'the round trip is proved for every value and vectors of every length; two vectors in one stream for the lengths 0 to 4; also run on zero, extreme and random values of every type, several in one stream, through string streams'


def tasks(env):
    return stream.c16_tasks(env)


def cases(rng, tier):
    import build
    yield 'drv_io', io_cases.c16(rng, 8 if tier == 'quick' else 120)
    yield 'drv_pair', io_cases.prec(rng, 1 if tier == 'quick' else 6)
    yield 'drv_util', util_cases.bitio(rng)
    yield 'drv_io', io_cases.long_vectors(rng, [9, 100, 4096])
    yield 'drv_io@text', io_cases.long_vectors(rng, [100])
    for v in ('text', 'textplain') if tier == 'quick' else [x for x in build.VARIANTS if x]:
        yield 'drv_io@' + v, io_cases.c16(rng, 4 if tier == 'quick' else 40)
        yield 'drv_pair@' + v, io_cases.prec(rng, 1 if tier == 'quick' else 3)


def replay(name, lens):
    return io_cases.replay_vector(name, lens) if isinstance(lens, list) else []
