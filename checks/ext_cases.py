"""bounded differential cases for the extension fields (C05, C06)"""
import params as PR
from native import *

EXT = [(mod, cls) for mod in PR.TOWERS for cls in PR.TOWERS[mod]]
SUBS = {}


def subclasses(mod, cls):
    r = []
    s = PR.TOWERS[mod][cls][0]
    while s != 'Fp_model':
        r.append(s)
        s = PR.TOWERS[mod][s][0]
    return ['Fp_model'] + r


def c05(rng, n):
    out = []
    for mod, cls in EXT:
        ty = mod + ':' + cls
        E = lambda x: enc(mod, x)
        for i in range(n):
            a, b = elem(rng, mod, cls), elem(rng, mod, cls)
            if rng.random() < 0.15:
                b = PR.neg(mod, cls, a)
            s, d, m = PR.add(mod, cls, a, b), PR.sub(mod, cls, a, b), PR.mul(mod, cls, a, b)
            A, B = E(a), E(b)
            for op, v in (('add', s), ('sub', d), ('mul', m)):
                V = E(v)
                out.append(Case('%s %s %s %s' % (ty, op, A, B), [V, V, V, A, B], op))
            z = PR.zero(mod, cls)
            sq = PR.mul(mod, cls, a, a)
            S2 = E(sq)
            dbl = E(PR.add(mod, cls, a, a))
            Z = E(z)
            out.append(Case('%s alias %s' % (ty, A), [dbl, Z, S2, dbl, Z, S2], 'aliased operands'))
            out.append(Case('%s neg %s' % (ty, A), [E(PR.neg(mod, cls, a)), A], 'negation'))
            out.append(Case('%s sqr %s' % (ty, A), [S2, S2, S2, A], 'squaring'))
            if cls in ('Fp2_model', 'Fp12_2over3over2_model'):
                out.append(Case('%s sqv %s' % (ty, A), [S2, S2], 'squaring variants'))
            bb = rng.choice([b, a, a, z, z])
            # nearly equal: change one coefficient
            if rng.random() < 0.5:
                l = PR.flat(a)
                k = rng.randrange(len(l))
                l[k] = (l[k] + 1) % PR.PRIMES[mod][0]
                bb = PR.unflat(mod, cls, l)
            t = lambda q: '1' if q else '0'
            out.append(Case('%s eq %s %s' % (ty, A, E(bb)), [t(a == bb), t(a != bb), t(a == bb), t(a == z), t(bb == z)], 'comparison'))
            for sc in subclasses(mod, cls):
                if cls.startswith('Fp6_2over3') and sc == 'Fp3_model':
                    continue
                x = elem(rng, mod, sc)
                out.append(Case('%s s:%s %s %s' % (ty, sc, E(x), A), [E(PR.mul(mod, cls, PR.embed(mod, cls, x, sc), a))], 'scalar product'))
        one = E(PR.one(mod, cls))
        out.append(Case('%s const %s' % (ty, E(elem(rng, mod, cls))), [E(PR.zero(mod, cls)), one, E(PR.zero(mod, cls))], 'constants'))
        for i in range(max(2, n // 3)):
            a = elem(rng, mod, cls)
            if a == PR.zero(mod, cls):
                a = PR.one(mod, cls)

            def chk(t, a=a, mod=mod, cls=cls):
                if len(t) != 4 or t[0] != t[1] or t[1] != t[2] or t[3] != enc(mod, a):
                    return 'inverse/invert disagree or operand changed'
                v = dec(mod, cls, t[0])
                if v is None or PR.mul(mod, cls, v, a) != PR.one(mod, cls):
                    return 'a * inverse(a) != 1'
            out.append(Case('%s inv %s' % (ty, E(a)), chk, 'inverse'))
    return out


_fr = {}


def frob(mod, cls, a, j):
    """a^(p^j) by linearity on the monomial basis (exact)"""
    k = PR.deg(mod, cls)
    j %= k
    key = (mod, cls, j)
    if key not in _fr:
        p = PR.PRIMES[mod][0]
        im = []
        for i in range(k):
            l = [0] * k
            l[i] = 1
            b = PR.unflat(mod, cls, l)
            im.append(b if j == 0 else PR.power(mod, cls, b, p) if j == 1 else frob(mod, cls, frob(mod, cls, b, j - 1), 1))
        _fr[key] = im
    r = PR.zero(mod, cls)
    p = PR.PRIMES[mod][0]
    acc = [0] * k
    for c, b in zip(PR.flat(a), _fr[key]):
        if c:
            acc = [x + c * y for x, y in zip(acc, PR.flat(b))]
    return PR.unflat(mod, cls, [x % p for x in acc])


def cyclo(mod, cls, f):
    """map a nonzero element into the cyclotomic subgroup"""
    k = PR.deg(mod, cls)
    t = PR.mul(mod, cls, frob(mod, cls, f, k // 2), PR.inv(mod, cls, f))
    if k == 12:
        t = PR.mul(mod, cls, frob(mod, cls, t, 2), t)
    elif k == 6:
        t = PR.mul(mod, cls, frob(mod, cls, t, 1), t)
    return t


CYCLS = ('Fp4_model', 'Fp6_2over3_model', 'Fp12_2over3over2_model')
FR_OF = {'alt_bn128_modulus_q': 'alt_bn128_modulus_r', 'bls12_381_modulus_q': 'bls12_381_modulus_r', 'edwards_modulus_q': 'edwards_modulus_r', 'mnt46_modulus_A': 'mnt46_modulus_B', 'mnt46_modulus_B': 'mnt46_modulus_A'}


def exps(rng, limbs):
    b = 64 * limbs
    r = rng.random()
    if r < 0.1:
        return 0
    if r < 0.2:
        return rng.choice([1, 2, 3, 4, 5])
    if r < 0.4:
        return rng.choice([(1 << b) - 1, (1 << b) - 2, 1 << (b - 1), (1 << (b - 1)) + 1, (1 << b) - rng.randrange(1, 1 << 20)])
    if r < 0.6:
        return sum(rng.choice([0, (1 << 64) - 1, 1, 1 << 63, rng.randrange(1 << 64)]) << (64 * i) for i in range(limbs))
    return rng.getrandbits(rng.randrange(1, b + 1))


def powers(rng, n, types, out):
    for mod, cls in types:
        ty = mod + ':' + cls if cls != 'Fp_model' else mod
        E = lambda x: enc(mod, x)
        for i in range(n):
            a = elem(rng, mod, cls)
            e = exps(rng, 1)
            V = E(PR.power(mod, cls, a, e))
            out.append(Case('%s powu %s %d' % (ty, E(a), e), [V, V, V], 'power (unsigned long)'))
            out.append(Case('%s pow1 %s %s' % (ty, E(a), hexint(e, 1)), [V, V, V], 'power (bigint)'))
            if PR.deg(mod, cls) <= 6 or i < 2:
                e = exps(rng, 4)
                V = E(PR.power(mod, cls, a, e))
                out.append(Case('%s pow4 %s %s' % (ty, E(a), hexint(e, 4)), [V, V, V], 'power (bigint)'))
            if cls == 'Fp_model':
                e = exps(rng, 6)
                V = E(PR.power(mod, cls, a, e))
                out.append(Case('%s pow6 %s %s' % (ty, E(a), hexint(e, 6)), [V, V, V], 'power (bigint)'))
                e = exps(rng, 1)
                out.append(Case('%s powull %s %d' % (ty, E(a), e), [E(PR.power(mod, cls, a, e))], 'power (unsigned long long)'))
                k = rng.randrange(0, 4)
                ws = [exps(rng, 1) for _ in range(k)]
                e = sum(w << (64 * (k - 1 - q)) for q, w in enumerate(ws))
                out.append(Case('%s powv %s %d %s' % (ty, E(a), k, ' '.join(map(str, ws))), [E(PR.power(mod, cls, a, e))], 'power (vector)'))


def sqrts(rng, n, types, out):
    for mod, cls in types:
        ty = mod + ':' + cls if cls != 'Fp_model' else mod
        p = PR.PRIMES[mod][0]
        q = p**PR.deg(mod, cls)
        s, t = 0, q - 1
        while t % 2 == 0:
            t //= 2
            s += 1
        # an element of order exactly 2^s: needs a non-residue
        g = None
        if PR.deg(mod, cls) <= 3:
            one = PR.one(mod, cls)
            while True:
                c = elem(rng, mod, cls)
                if c != PR.zero(mod, cls) and PR.power(mod, cls, c, (q - 1) // 2) != one:
                    break
            g = PR.power(mod, cls, c, t)
        k = n if PR.deg(mod, cls) <= 3 else max(2, n // 4)
        roots = [PR.zero(mod, cls), PR.one(mod, cls)] + [elem(rng, mod, cls) for _ in range(k)]
        if g is not None:
            # squares whose t-part has every 2-power order
            for i in range(1, s + 1):
                roots.append(PR.power(mod, cls, g, 2**(s - i)))
        for x in roots:
            a = PR.mul(mod, cls, x, x)

            def chk(tk, a=a, mod=mod, cls=cls):
                v = dec(mod, cls, tk[0]) if len(tk) == 1 else None
                if v is None or PR.mul(mod, cls, v, v) != a:
                    return 'sqrt(a)^2 != a'
            out.append(Case('%s sqrt %s' % (ty, enc(mod, a)), chk, 'square root'))


def c06(rng, n):
    out = []
    for mod, cls in EXT:
        ty = mod + ':' + cls
        E = lambda x: enc(mod, x)
        k = PR.deg(mod, cls)
        for j in list(range(0, 13)) + [rng.getrandbits(63) for _ in range(3)] + [2**64 - 1, 2**64 - 2]:
            a = elem(rng, mod, cls, 0)
            out.append(Case('%s frob %s %d' % (ty, E(a), j), [E(frob(mod, cls, a, j))], 'Frobenius'))
        if cls in CYCLS:
            sub, d, g = PR.TOWERS[mod][cls][:3]
            for i in range(n):
                a = elem(rng, mod, cls)
                out.append(Case('%s uninv %s' % (ty, E(a)), [E(frob(mod, cls, a, k // 2))], 'unitary inverse'))
                s = elem(rng, mod, sub)
                gd = PR.gen(mod, cls, g)
                pr = PR.power(mod, cls, gd, d)
                w = PR.mul(mod, cls, PR.embed(mod, cls, s, sub), pr)
                out.append(Case('%s nr %s' % (ty, enc(mod, s)), [enc(mod, w[0])], 'multiplication by the non-residue'))
                if a == PR.zero(mod, cls):
                    continue
                x = cyclo(mod, cls, a)
                if i == 0:
                    x = PR.one(mod, cls)
                out.append(Case('%s cycsq %s' % (ty, E(x)), [E(PR.mul(mod, cls, x, x))], 'cyclotomic squaring'))
                e = exps(rng, 1)
                out.append(Case('%s cycexp1 %s %s' % (ty, E(x), hexint(e, 1)), [E(PR.power(mod, cls, x, e))], 'cyclotomic exponentiation'))
                if i < n // 3 + 2:
                    e = exps(rng, 4)
                    out.append(Case('%s cycexp4 %s %s' % (ty, E(x), hexint(e, 4)), [E(PR.power(mod, cls, x, e))], 'cyclotomic exponentiation'))
                r = FR_OF[mod]
                e = corner(rng, r)
                if i < n // 3 + 2:
                    out.append(Case('%s powf %s %s' % (ty, E(a), enc(r, e)), [E(PR.power(mod, cls, a, e))], 'power by a field element'))
        for i in range(n):
            a = elem(rng, mod, cls)
            if cls == 'Fp12_2over3over2_model':
                L = [elem(rng, mod, 'Fp2_model') for _ in range(3)]
                z = PR.zero(mod, 'Fp2_model')
                for meth, b in (('mul_by_024', ((L[0], z, L[2]), (z, L[1], z))), ('mul_by_045', ((L[1], z, z), (z, L[0], L[2])))):
                    out.append(Case('%s %s %s %s %s %s' % (ty, meth, E(a), enc(mod, L[0]), enc(mod, L[1]), enc(mod, L[2])), [E(PR.mul(mod, cls, a, b))], meth))
            elif cls == 'Fp4_model':
                b = ((corner(rng, mod), 0), elem(rng, mod, 'Fp2_model'))
                out.append(Case('%s mul_by_023 %s %s' % (ty, E(a), E(b)), [E(PR.mul(mod, cls, a, b))], 'mul_by_023'))
            elif cls == 'Fp6_2over3_model':
                b = ((0, 0, corner(rng, mod)), elem(rng, mod, 'Fp3_model'))
                out.append(Case('%s mul_by_2345 %s %s' % (ty, E(a), E(b)), [E(PR.mul(mod, cls, a, b))], 'mul_by_2345'))
    powers(rng, n, EXT, out)
    sqrts(rng, n, EXT, out)
    return out




def sqrt_mod(w, p):
    """a square root of the quadratic residue w (Cipolla)"""
    t = 1
    while pow((t * t - w) % p, (p - 1) // 2, p) != p - 1:
        t += 1
    c = (t * t - w) % p
    r, b, e = (1, 0), (t, 1), (p + 1) // 2
    mul = lambda x, y: ((x[0] * y[0] + x[1] * y[1] * c) % p, (x[0] * y[1] + x[1] * y[0]) % p)
    while e:
        if e & 1:
            r = mul(r, b)
        b = mul(b, b)
        e >>= 1
    return r[0]


def c01(rng, n):
    out = []
    for mod in PR.PRIMES:
        p, nl = PR.PRIMES[mod]
        R = 1 << (64 * nl)
        E = lambda x: enc(mod, x)
        raw = lambda v: (v % p).to_bytes(8 * nl, 'little').hex()
        for i in range(n):
            a, b = corner(rng, mod), corner(rng, mod)
            r = rng.random()
            if r < 0.2:
                # sums and differences of representations at the boundary
                ra = a * R % p
                rb = (p - ra + rng.choice([0, 1, -1, 2, 1 << 64, -(1 << 64)])) % p
                b = rb * pow(R, -1, p) % p
            elif r < 0.3:
                b = a
            s, d, m = (a + b) % p, (a - b) % p, a * b % p
            A, Bb = E(a), E(b)
            for op, v in (('add', s), ('sub', d), ('mul', m)):
                V = E(v)
                out.append(Case('%s %s %s %s' % (mod, op, A, Bb), [V, V, V, A, Bb], op))
            out.append(Case('%s alias %s' % (mod, A), [E(2 * a % p), E(0), E(a * a % p)] * 2, 'aliased operands'))
            out.append(Case('%s neg %s' % (mod, A), [E(-a % p), A], 'negation'))
            if rng.random() < 0.4:
                # a square whose representation lies next to the modulus or to a limb boundary
                for dd in range(40):
                    w = rng.choice([p - rng.getrandbits(rng.choice([2, 30, 60])) - 1, rng.getrandbits(rng.choice([2, 30, 60])), (p >> 64 << 64) + rng.getrandbits(40)]) % p * pow(R, -1, p) % p
                    if pow(w, (p - 1) // 2, p) == 1 and w:
                        a = sqrt_mod(w, p)
                        A = E(a)
                        break
            S2 = E(a * a % p)
            out.append(Case('%s sqr %s' % (mod, A), [S2, S2, S2, A], 'squaring'))
            bb = rng.choice([b, a, 0, (a + 1) % p, (a * R % p ^ (1 << rng.randrange(64 * nl - 8))) % p * pow(R, -1, p) % p])
            t = lambda q: '1' if q else '0'
            out.append(Case('%s eq %s %s' % (mod, A, E(bb)), [t(a == bb), t(a != bb), t(a == bb), t(a == 0), t(bb == 0)], 'comparison'))
            v = rng.choice([rng.getrandbits(64 * nl), R - 1, R - rng.randrange(1, 1 << 70), 0, p, p - 1, p + 1, 2 * p % R, exps(rng, nl)])
            out.append(Case('%s frombig %s' % (mod, hexint(v, nl)), [E(v % p)], 'conversion from an integer'))
            out.append(Case('%s asbig %s' % (mod, A), [hexint(a, nl), hexint(a & (2**64 - 1), 1)], 'conversion to an integer'))
            x = rng.choice([0, 1, -1, 2**63 - 1, -2**63 + 1, rng.getrandbits(63), -rng.getrandbits(63), -(1 << 32), 1 << 32])
            out.append(Case('%s fromlong %d' % (mod, x), [E(x % p)], 'conversion from long'))
            x = exps(rng, 1)
            out.append(Case('%s fromulong %d' % (mod, x), [E(x % p)] * 2, 'conversion from unsigned long'))
            out.append(Case('%s mulred %s %s' % (mod, A, hexint(v, nl)), [raw(a * R * v * pow(R, -1, p))], 'Montgomery product'))
        out.append(Case('%s const %s' % (mod, E(corner(rng, mod))), [E(0), E(1), E(0)], 'constants'))
    return out


def c02(rng, n):
    out = []
    T = [(mod, 'Fp_model') for mod in PR.PRIMES]
    powers(rng, n, T, out)
    sqrts(rng, n, T, out)
    for mod in PR.PRIMES:
        p, nl = PR.PRIMES[mod]
        R = 1 << (64 * nl)
        for i in range(2 * n):
            a = corner(rng, mod) or 1
            if i % 3 == 0:
                # inverse of a representation close to p/2, p, or a power of two
                ra = rng.choice([p // 2, p - 1, p // 2 + 1, p // 3, 1 << rng.randrange(p.bit_length() - 1), p - (1 << rng.randrange(p.bit_length() - 1))]) + rng.choice([-1, 0, 1])
                a = ra * pow(R, -1, p) % p or 1
            V, A = enc(mod, pow(a, -1, p)), enc(mod, a)
            out.append(Case('%s inv %s' % (mod, A), [V, V, V, A], 'inverse'))
            out.append(Case('%s frob %s %d' % (mod, A, exps(rng, 1)), [A], 'Frobenius'))
    return out
