"""Differential cases for the helpers and conversions (C17, C18)."""
import re, random
import params as PR, native
from native import Case, enc, hexint, corner, elem, mont
from ext_cases import EXT
import binary, binary_cases

TAPS = {v[0]: v[1] for v in binary.FIELDS.values()}

U = 1 << 64


def u64(x):
    return (x % U).to_bytes(8, 'little').hex()


def words64(rng):
    r = [0, 1, 2, 3, 4, 5, 7, 8, 9, U - 1, U - 2, 1 << 63, (1 << 63) - 1, (1 << 63) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1]
    for k in range(64):
        r += [1 << k, (1 << k) - 1, ((1 << k) + 1) % U]
    return sorted(set(r)) + [rng.getrandbits(rng.randrange(1, 65)) for _ in range(60)]


def clog2(n):
    return 0 if n <= 1 else (n - 1).bit_length()


def bitio(rng):
    r = []
    for ln in (0, 1, 2, 3, 7, 8, 9, 63, 64, 65, 130):
        for k in (1, 2, 3, 5):
            s = ''.join(rng.choice('01') for _ in range(ln)) or '-'
            # read back over longer, shorter and equal old contents
            r.append(Case('int bitio %s %d' % (s, k), [s] * k + ['1', '1'], 'bit vectors serialised and read back'))
    return r


def c17(rng, n):
    out = []
    A = lambda line, want, what: out.append(Case(line, want, what))
    W = words64(rng)
    for x in W:
        if 1 <= x <= 1 << 63:
            A('int pow2 %d' % x, [u64(1 << clog2(x))], 'get_power_of_two')
        if x <= 1 << 63:
            A('int rnd2 %d' % x, [u64(1 << clog2(x))], 'round_to_next_power_of_2')
        A('int ispow2 %d' % x, ['1' if x and not x & (x - 1) else '0'], 'is_power_of_2')
        A('int log2 %d' % x, [u64(clog2(x))], 'log2')
        for l in {0, 1, 2, 63, 64, rng.randrange(65)}:
            A('int rev %d %d' % (x, l), [u64(sum(((x >> i) & 1) << (l - 1 - i) for i in range(l)))], 'bitreverse')
        for w in {1, 8, 31, 32, 33, 62, 63, rng.randrange(1, 64)}:
            v = x % (1 << w)
            s = v - (1 << w) if v >> (w - 1) else v
            if -(1 << 31) <= s < 1 << 31:
                A('int fromtc %d %d' % (v, w), [str(s)], 'from_twos_complement')
                A('int totc %d %d' % (s, w), [u64(v)], 'to_twos_complement')
    for k in range(64):
        A('int exp2 %d' % k, [u64(1 << k)], 'exp2')
    A('int little', ['1'], 'is_little_endian')
    I = [s for s in ([0, 1, 2, 3, 7, 8, 9, 63, 64, 253, 254, (1 << 63) - 1, (1 << 63) - 2, 1 << 62] + [rng.getrandbits(rng.randrange(1, 64)) for _ in range(12)])]
    I = I + [-i for i in I if i] + [-(1 << 63)]
    for x in I:
        for y in I:
            if (x, y) != (-(1 << 63), -1):
                A('int divceil %d %d' % (x, y), [str(-((-x) // y)) if y else 'throw'], 'div_ceil')
    for k in range(4):
        for w in (0, 1, 2, 8, 31, 32, 33, 63, 64):
            xs = [rng.choice(W) for _ in range(k)]
            s = ''.join(bin(x % (1 << w) + (1 << w))[3:] for x in xs if w)
            A('int i2b %d %d %s' % (w, k, ' '.join(map(str, xs))), [s or '-'], 'int_list_to_bits')
    out += bitio(rng)
    for nn in range(1, 7):
        top = 1 << (64 * nn)
        V = [0, 1, 2, top - 1, top - 2, top >> 1, (top >> 1) - 1] + [x << (64 * i) for i in range(nn) for x in (1, U - 1, 1 << 63)] + [rng.getrandbits(rng.randrange(1, 64 * nn + 1)) for _ in range(20 + n)]
        t = lambda b: '1' if b else '0'
        for x in V:
            h = hexint(x, nn)
            A('b%d info %s' % (nn, h), [t(x == 0), t(x % 2 == 0), str(x.bit_length()), str(64 * nn), u64(x), str(x), h, h, hexint(0, nn)], 'bigint accessors')
            A('b%d bits %s' % (nn, h), [''.join(str((x >> i) & 1) for i in range(64 * nn + 3)), '0', '0'], 'test_bit')
            A('b%d str %d' % (nn, x), [h], 'decimal text')
            y = rng.choice(V + [x, x ^ (1 << rng.randrange(64 * nn)), (x + 1) % top])
            A('b%d cmp %s %s' % (nn, h, hexint(y, nn)), [t(x == y), t(x != y), t(x < y), t(y < x), '0', h, hexint(y, nn)], 'comparison')
        for x in W[:40]:
            A('b%d ctor %d' % (nn, x), [hexint(x, nn), hexint(1, nn), hexint(0, nn)], 'constructors')
    return out


def c17_fields(rng, n):
    out = []
    A = lambda line, want, what: out.append(Case(line, want, what))
    for mod, (p, L) in PR.PRIMES.items():
        nb = p.bit_length()
        cap = nb - 1
        E = lambda x: enc(mod, x % p)
        for i in range(n):
            ln = rng.choice([0, 1, 2, 63, 64, 65, cap - 1, cap, cap + 1, 2 * cap, 2 * cap + 1, rng.randrange(0, 800)])
            bs = [rng.getrandbits(1) for _ in range(ln)] if rng.random() < 0.8 else [1] * ln
            s = ''.join(map(str, bs)) or '-'
            c = rng.choice([1, 2, 63, 64, 65, cap - 1, cap, 0])
            k = c or cap
            ch = [sum(b << j for j, b in enumerate(bs[q:q + k])) for q in range(0, ln, k)]
            A('%s packbits %s %d' % (mod, s, c), [str(len(ch))] + [E(x) for x in ch], 'pack_bit_vector')
            A('%s bits2vec %s' % (mod, s), [str(ln)] + [E(b) for b in bs], 'bit vector to elements')
            if ln <= nb:
                A('%s frombits %s' % (mod, s), [E(sum(b << j for j, b in enumerate(bs)))], 'bits to element')
            w = rng.choice([1, 2, 7, 8, 31, 32, 33, 63, 64])
            m = rng.choice([0, 1, 2, cap // w, cap // w + 1, 2 * cap // w + 1, rng.randrange(20)])
            vs = [rng.choice([0, U - 1, rng.getrandbits(64)]) for _ in range(m)]
            bs = [(v >> j) & 1 for v in vs for j in range(w)]
            ch = [sum(b << j for j, b in enumerate(bs[q:q + cap])) for q in range(0, len(bs), cap)]
            A('%s packint %d %d %s' % (mod, w, m, ' '.join(map(str, vs))), [str(len(ch))] + [E(x) for x in ch], 'pack_int_vector')
            x = corner(rng, mod)
            full = ''.join(str((x >> j) & 1) for j in range(nb))
            k = rng.choice([0, 1, 63, 64, nb - 1, nb])
            A('%s tobits %s %d' % (mod, E(x), k), [full, full[:k] or '-', E(x), full + full], 'element to bits')
            A('%s getword %s %d' % (mod, E(x), i % L), [str((x >> (64 * (i % L))) % U)], 'word of an element')
            h = [int.from_bytes(bytes.fromhex(E(x))[8 * j:8 * j + 8], 'little') for j in range(L)]
            A('%s words %s' % (mod, E(x)), [str(L)] + [u64(v) for v in h] + [E(x), '1'], 'words of an element')
            ws = [rng.choice([0, U - 1, rng.getrandbits(64)]) for _ in range(L)]
            if rng.random() < 0.4:
                v = p + rng.choice([-1, 0, 1])
                ws = [(v >> (64 * j)) % U for j in range(L)]
            v = sum(q << (64 * j) for j, q in enumerate(ws)) % (1 << nb)
            if i % 3 == 2:
                ws = [rng.getrandbits(64) for _ in range(rng.choice([1, 2, 5]))] + ws
            A('%s from_words %d %s' % (mod, len(ws), ' '.join(map(str, ws))), [v.to_bytes(8 * L, 'little').hex() if v < p else None, '1' if v < p else '0'], 'words to element')
        A('%s logsize' % mod, [str(nb), str(nb - 1)], 'size of the field')
    for mod, cls in EXT:
        L = PR.PRIMES[mod][1]
        for i in range(max(3, n // 4)):
            e = enc(mod, elem(rng, mod, cls))
            h = [e[16 * j:16 * j + 16] for j in range(len(e) // 16)]
            A('%s:%s words %s' % (mod, cls, e), [str(len(h))] + h + [e, '1'], 'words of an element')
    for g in (64, 128, 192, 256):
        for i in range(n):
            x = rng.getrandbits(g)
            h = hexint(x, g // 64)
            ws = [h[16 * j:16 * j + 16] for j in range(g // 64)]
            A('gf%d getword %s %d' % (g, h, i % (g // 64)), [str((x >> (64 * (i % (g // 64)))) % U)], 'word of an element')
            A('gf%d words %s' % (g, h), [str(len(ws))] + ws + [h, '1'], 'words of an element')
        A('gf%d logsize' % g, [str(g), str(g)], 'size of the field')
    return out


def c18(rng, n):
    out = []
    A = lambda line, want, what: out.append(Case(line, want, what))
    for mod, (p, L) in PR.PRIMES.items():
        s = ((p - 1) & -(p - 1)).bit_length() - 1

        def order(k, mod=mod, p=p):
            def f(t):
                if t[0] != '1':
                    return 'refused'
                w = native.dec(mod, 'Fp_model', t[1])
                if w is None:
                    return 'the returned root is not reduced'
                if pow(w, 1 << k, p) != 1 or (k and pow(w, 1 << (k - 1), p) == 1):
                    return 'order of the returned root is not 2^%d' % k
            return f
        for k in range(64):
            A('%s root %d' % (mod, 1 << k), order(k) if k <= s else ['0'], 'root of unity')
        for x in words64(rng):
            if x & (x - 1) or not x:
                A('%s root %d' % (mod, x), ['0'] if x else (lambda t: None if t[0] == '0' else 'order zero served'), 'root of unity')

        def shift(t, mod=mod, p=p, s=s):
            w = native.dec(mod, 'Fp_model', t[0])
            if w is None:
                return 'the shift is not reduced'
            return 'the shift is in the subgroup of order 2^%d' % s if pow(w, 1 << s, p) == 1 else None
        A('%s coset' % mod, shift, 'coset shift')
    for mod, cls in [(m, 'Fp_model') for m in PR.PRIMES] + EXT:
        for ln in list(range(0, 9)) + [rng.randrange(9, 40) for _ in range(max(1, n // 20))] + ([255, 256, 1000, 2049] if cls == 'Fp_model' else [130]):
            out.append(binv(rng, mod, cls, ln))
    for g in (32, 64, 128, 192, 256):
        for ln in list(range(0, 9)) + [130, 1025]:
            out.append(binv_gf(rng, g, ln))
    return out


def binv(rng, mod, cls, ln):
    ty = mod if cls == 'Fp_model' else mod + ':' + cls
    v = []
    while len(v) < ln:
        e = elem(rng, mod, cls)
        if any(PR.flat(e)):
            v.append(rng.choice(v) if v and rng.random() < 0.15 else e)

    def check(t):
        if int(t[0]) != len(v) or len(t) != len(v) + 1:
            return 'length'
        for i, (h, e) in enumerate(zip(t[1:], v)):
            x = native.dec(mod, cls, h)
            if x is None or PR.mul(mod, cls, x, e) != PR.one(mod, cls):
                return 'element %d is not the inverse' % i
    return Case('%s binv %d %s' % (ty, ln, ' '.join(enc(mod, e) for e in v)), check, 'batch inversion')


def binv_gf(rng, g, ln):
    v = [rng.choice([1, (1 << g) - 1, rng.getrandbits(g) or 1]) for _ in range(ln)]

    def check(t):
        if int(t[0]) != len(v) or len(t) != len(v) + 1:
            return 'length'
        for i, (q, e) in enumerate(zip(t[1:], v)):
            if binary_cases.mul(int.from_bytes(bytes.fromhex(q), 'little'), e, g, TAPS[g]) != 1:
                return 'element %d is not the inverse' % i
    return Case('gf%d binv %d %s' % (g, ln, ' '.join(x.to_bytes(g // 8, 'little').hex() for x in v)), check, 'batch inversion')


def replay_binv(name, ln):
    rng = random.Random(ln)
    mm = re.match(r'(\w+)<\d+l, (?:libff::)?(\w+)> ', name)
    if mm:
        return [('drv_fields', binv(rng, mm.group(2), mm.group(1), ln))]
    mm = re.match(r'gf(\d+) ', name)
    return [('drv_fields', binv_gf(rng, int(mm.group(1)), ln))] if mm else []
