"""differential cases for the binary fields against integer polynomial arithmetic"""
from native import Case
from binary import FIELDS, words


def clm(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        b >>= 1
    return r


def red(x, n, taps):
    f = (1 << n) | sum(1 << t for t in taps)
    while x.bit_length() > n:
        x ^= f << (x.bit_length() - 1 - n)
    return x


def mul(a, b, n, taps):
    return red(clm(a, b), n, taps)


def pw(a, e, n, taps):
    r = 1
    while e:
        if e & 1:
            r = mul(r, a, n, taps)
        a = mul(a, a, n, taps)
        e >>= 1
    return r


def hx(v, n):
    return v.to_bytes(n // 8, 'little').hex()


def pick(rng, n):
    k = rng.randrange(9)
    if k == 0:
        return rng.choice([0, 1, 2, 3, 2 ** n - 1, 2 ** (n - 1), 2 ** n - 2, 1 << 31])
    if k == 1:
        return 1 << rng.randrange(n)
    if k == 2:
        return (1 << rng.randrange(n)) | (1 << rng.randrange(n))
    if k == 3:
        return (2 ** n - 1) ^ (1 << rng.randrange(n))
    if k == 4:
        return ((2 ** 64 - 1) << rng.randrange(max(1, n - 63))) & (2 ** n - 1)
    if k == 5:
        w = 32 if n == 32 else 64
        return sum((rng.getrandbits(w) if rng.random() < 0.5 else rng.choice([0, 2 ** w - 1, 1 << (w - 1)])) << (w * i) for i in range(n // w))
    return rng.getrandbits(n)


def ops(ty, a, b, bit=None):
    """every operation on the operands a, b"""
    n, taps = FIELDS[ty]
    out = []
    M = lambda a, b: mul(a, b, n, taps)
    H = lambda v: hx(v, n)
    C = lambda line, want, what: out.append(Case('%s %s' % (ty, line), want, ty + ' ' + what))
    A, B = H(a), H(b)
    x, p = H(a ^ b), H(M(a, b))
    C('add %s %s' % (A, B), [x, x, x, A, B], 'addition')
    C('sub %s %s' % (A, B), [x, x, x, A, B], 'subtraction')
    C('mul %s %s' % (A, B), [p, p, p, A, B], 'multiplication')
    z, s = H(0), H(M(a, a))
    C('alias %s' % A, [z, z, s, z, z, s], 'aliased operands')
    C('neg %s' % A, [A, A], 'negation')
    C('sqr %s' % A, [s, s, s, A], 'squaring')
    for c in (b, a) + (() if bit is None else (a ^ (1 << bit),)):
        e = '1' if a == c else '0'
        C('eq %s %s' % (A, H(c)), [e, '1' if e == '0' else '0', e, '1' if a == 0 else '0', '1' if c == 0 else '0'], 'comparison')
    w = [str((a >> (64 * i)) & (2 ** 64 - 1)) for i in range(max(1, n // 64))]
    C('words %s' % A, [str(len(w))] + [hx(int(v), 64) for v in w] + [A, '1'], 'words')
    return out


def replay(name, wit):
    """verifier counterexample -> cases on the real code"""
    ty = name.split()[0]
    n, taps = FIELDS[ty]
    w = words(n)[0]
    g = lambda c: sum(wit.get('%s%d' % (c, i), 0) << (w * i) for i in range(n // w))
    out = ops(ty, g('a'), g('b'), 0)
    if any(k[0] == 'w' for k in wit):
        ws = [wit.get('w%d' % i, 0) for i in range(max(1, n // 64))]
        v = sum(x << (64 * i) for i, x in enumerate(ws)) & (2 ** n - 1)
        out.append(Case('%s from_words %d %s' % (ty, len(ws), ' '.join(map(str, ws))), [hx(v, n), '1'], ty + ' from_words'))
    return [('drv_fields', c) for c in out]


def cases(rng, N):
    out = []
    for ty, (n, taps) in FIELDS.items():
        M = lambda a, b: mul(a, b, n, taps)
        H = lambda v: hx(v, n)
        inv = lambda a: pw(a, 2 ** n - 2, n, taps)
        C = lambda line, want, what: out.append(Case('%s %s' % (ty, line), want, ty + ' ' + what))
        for _ in range(N):
            a, b = pick(rng, n), pick(rng, n)
            out += ops(ty, a, b, rng.randrange(n))
        corner = [0, 1, 2, 3, 4, 5, 7, 2 ** n - 1, 2 ** (n - 1), 2 ** n - 2, 1 << 32 % n, 1 << 31, (1 << 32) - 1, 1 << n // 2]
        for k in range(len(corner) + max(8, N // 5)):
            a = corner[k] if k < len(corner) else pick(rng, n)
            A = H(a)
            if a:
                v = inv(a)
                C('inv %s' % A, [H(v), H(v), H(v), A], 'inversion')
            C('sqrt %s' % A, [H(pw(a, 2 ** (n - 1), n, taps))], 'square root')
            k = rng.choice([0, 1, 2, 3, 2 ** 64 - 1, 2 ** 63, rng.getrandbits(64), rng.getrandbits(5)])
            r = H(pw(a, k, n, taps))
            C('powu %s %d' % (A, k), [r, r, r], 'power')
            for L, op in ((1, 'pow1'), (4, 'pow4')):
                k = rng.choice([0, 1, 2 ** (64 * L) - 1, 1 << (64 * L - 1), rng.getrandbits(64 * L), rng.getrandbits(64 * L - 64 + 3)])
                r = H(pw(a, k, n, taps))
                C('%s %s %s' % (op, A, hx(k, 64 * L)), [r, r, r], 'power')
        C('const %s' % H(5), [H(0), H(1), H(0)], 'constants')
        for _ in range(6):
            w = [rng.getrandbits(64) for _ in range(max(1, n // 64))]
            v = sum(x << (64 * i) for i, x in enumerate(w)) & (2 ** n - 1)
            C('from_words %d %s' % (len(w), ' '.join(map(str, w))), [H(v), '1'], 'from_words')
    return out
