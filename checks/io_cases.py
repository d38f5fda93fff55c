"""Differential cases for the stream operators (C16)."""
import params as PR, native
from native import Case, enc, elem
from group_cases import pt, encT, rep, pool, sqrt, nz
import pair_cases


def layout(rng):
    return [rng.choice([0, 1, 2, 3, 4, 7]) for _ in range(rng.choice([0, 1, 2]))], rng.choice([1, 2, 3])


def line(ty, vs, es):
    return '%s io %d %s %d %s' % (ty, len(vs), ' '.join('%d %s' % (len(v), ' '.join(v)) for v in vs), len(es), ' '.join(es))


def mkwant(vs, es, same):
    def vecs():
        out = []
        for v in vs:
            out += [str(len(v))] + v
        return out
    exp = vecs() + es + ['1', '2'] + es + vecs() + es

    def f(t):
        if len(t) != len(exp):
            return 'expected %d values, got %s' % (len(exp), ' '.join(t)[:300])
        for i, (a, b) in enumerate(zip(t, exp)):
            if a != b and not (len(b) > 20 and same(a, b)):
                return 'value %d: expected %s got %s' % (i, b[:150], a[:150])
        return None
    return f


def values(rng, gen, ty, n, out, same=lambda a, b: False):
    for _ in range(n):
        lens, k = layout(rng)
        vs, es = [[gen() for _ in range(m)] for m in lens], [gen() for _ in range(k)]
        out.append(Case(line(ty, vs, es), mkwant(vs, es, same), 'values written and read back'))


def hexw(rng, size):
    x = rng.random()
    if x < 0.15:
        return bytes(size).hex()
    if x < 0.3:
        return (b'\xff' * size).hex()
    if x < 0.6:
        # bytes that look like white space, digits or end of input
        return bytes(rng.choice([0, 9, 10, 13, 26, 32, 45, 48, 49, 57, 255]) for _ in range(size)).hex()
    if x < 0.8:
        return rng.randrange(1 << rng.randrange(1, 8 * size + 1)).to_bytes(size, 'little').hex()
    return rng.getrandbits(8 * size).to_bytes(size, 'little').hex()


def cube_root(rng, m, c, a):
    """a cube root in the extension, or None (only where the cubes are found by a plain power)"""
    q = PR.PRIMES[m][0] ** len(PR.flat(a))
    if q % 3 == 2:
        return PR.power(m, c, a, pow(3, -1, q - 1))
    one = PR.one(m, c)
    if PR.power(m, c, a, (q - 1) // 3) != one:
        return None
    s, t = 0, q - 1
    while t % 3 == 0:
        s, t = s + 1, t // 3
    x = PR.power(m, c, a, pow(3, -1, t))
    # x^3 = a * e with e in the 3-part: search it
    while True:
        z = nz(rng, m, c)
        if PR.power(m, c, z, (q - 1) // 3) != one:
            break
    g = PR.power(m, c, z, t)
    for _ in range(3 ** min(s, 8)):
        if PR.mul(m, c, PR.mul(m, c, x, x), x) == a:
            return x
        x = PR.mul(m, c, x, g)
    return None


def odd_points(rng, cv):
    """points of the curve whose y has a zero first coefficient (they need not lie in the subgroup)"""
    m, c = cv.mod, cv.cls
    k = len(PR.flat(PR.one(m, c)))
    if k == 1:
        return []
    out = []
    M = lambda x, y: PR.mul(m, c, x, y)
    for tries in range(40):
        y = [0] * k
        y[rng.randrange(1, k)] = rng.randrange(1, PR.PRIMES[m][0])
        y = PR.unflat(m, c, y)
        if cv.model == 'inv':
            # x^2 = (1 - y^2)/(a - d y^2)
            y2 = M(y, y)
            x = sqrt(rng, m, c, M(PR.sub(m, c, PR.one(m, c), y2), PR.inv(m, c, PR.sub(m, c, cv.a, M(cv.b, y2)))))
        elif not any(PR.flat(cv.a)):
            x = cube_root(rng, m, c, PR.sub(m, c, M(y, y), cv.b))
        else:
            return []
        if x is not None and any(PR.flat(x)):
            out += [(x, y), (x, PR.sub(m, c, PR.zero(m, c), y))]
            if len(out) >= 4:
                break
    return out


def c16(rng, n):
    out = []
    for mod, (q, L) in PR.PRIMES.items():
        values(rng, lambda: enc(mod, elem(rng, mod, 'Fp_model')), mod, n, out)
    for mod, tw in PR.TOWERS.items():
        for c in tw:
            if c != 'Fp_model':
                values(rng, lambda: enc(mod, elem(rng, mod, c)), mod + ':' + c, n, out)
    for g, sz in (('gf32', 4), ('gf64', 8), ('gf128', 16), ('gf192', 24), ('gf256', 32)):
        values(rng, lambda: hexw(rng, sz), g, n, out)
    for k in range(1, 7):
        values(rng, lambda: hexw(rng, 8 * k), 'big%d' % k, max(4, n // 2), out)
    for name, cv in PR.CURVES.items():
        L = pool(rng, cv, 10)
        odd = odd_points(rng, cv)

        def gen(cv=cv, L=L, odd=odd):
            x = rng.random()
            P = rng.choice(odd) if odd and x < 0.3 else rng.choice(L)
            return encT(cv, rep(rng, cv, P if P is None or x < 0.6 else cv.neg(P)))

        def same(a, b, cv=cv):
            return pt(cv, a) == pt(cv, b) != 'bad'
        values(rng, gen, name, n, out, same)
    for _ in range(n):
        a, b = [''.join(rng.choice('01') for _ in range(rng.choice([0, 1, 2, 7, 8, 9, 33]))) or '-' for _ in range(2)]
        out.append(Case('bool io %s %s' % (a, b), [a, b, a, '1', '2'], 'bit vectors written and read back'))
    return out


def prec(rng, n):
    out = []
    for name in pair_cases.CURVES:
        c1, c2 = [PR.CURVES[x] for x in pair_cases.CURVES[name][:2]]
        for _ in range(n):
            a, b = [pair_cases.point(rng, c, pair_cases.scalar(rng, c1.r)) for c in (c1, c2)]
            for op in ['prec'] + (['tprec'] if name == 'edwards' else []):
                out.append(Case('%s %s %s %s' % (name, op, a, b), ['1'] * (5 if op == 'prec' else 4), 'precomputation written and read back'))
    return out


def long_vectors(rng, lens, only=None):
    """vectors of the given lengths"""
    out = []

    def add(ty, gen, lim=1 << 20):
        if only is not None and ty != only:
            return
        a, b = gen(), gen()
        for n in lens:
            if n <= lim:
                out.append(Case('%s len %d %s %s' % (ty, n, a, b), [str(n), '1', '1'] * 2 + ['1', '2'], 'a vector of %d elements written and read back' % n))
    for mod, (q, L) in PR.PRIMES.items():
        add(mod, lambda: enc(mod, elem(rng, mod, 'Fp_model')))
    for mod, tw in PR.TOWERS.items():
        for c in tw:
            if c != 'Fp_model':
                add(mod + ':' + c, lambda: enc(mod, elem(rng, mod, c)))
    for g, sz in (('gf32', 4), ('gf64', 8), ('gf128', 16), ('gf192', 24), ('gf256', 32)):
        add(g, lambda: hexw(rng, sz))
    for k in range(1, 7):
        add('big%d' % k, lambda: hexw(rng, 8 * k))
    for name, cv in PR.CURVES.items():
        L = pool(rng, cv, 6)
        add(name, lambda: encT(cv, rep(rng, cv, rng.choice(L))), 5000)
    return out


VAR = {'text': '@text', 'text, plain integers, uncompressed': '@textplain', 'binary, plain integers': '@plain', 'binary, uncompressed': '@full'}


LONG = []


def replay_vector(name, lens):
    """the native cases for an obligation on vectors of every length (very long ones for the first few obligations only)"""
    import re, random
    mm = re.match(r'(?:\[(.*?)\] )?vector of ([^:]*)', name)
    if not mm:
        return []
    t = mm.group(2)
    w = t.split(' ')
    ty = 'big' + t[7:-1] if t.startswith('bigint<') else w[1] if w[0] == 'Fp' else '%s:%s' % (w[1], w[0]) if len(w) > 1 else t
    if len(LONG) >= 6:
        lens = [n for n in lens if n <= 5000]
    LONG.append(name)
    return [('drv_io' + VAR.get(mm.group(1), ''), c) for c in long_vectors(random.Random(7), lens, ty)]
