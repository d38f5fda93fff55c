"""Postconditions of the parameter initialisers, decided exactly on the state
the real initialisation code leaves behind (the initialisers take no input, so
their one execution per initialisation order is the whole input space)."""
import re, math
import build, certs, params as PR, oblig
from native import dec, unmont
P, R, U = oblig.PROVED, oblig.REFUTED, oblig.UNDECIDED
ORDERS = ['abe46', '64eba', '46abe46', 'e6b4a', 'a', 'b', 'e', '4', '6']
CLS_RE = re.compile(r'^libff::(\w+)<(\d+)l?, (?:\([^()]*\)\s*)?libff::(\w+)>::(\w+)$')


def demangle(names):
    import subprocess
    o = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
    return dict(zip(names, o))


class State:
    """the library's static objects after one initialisation order, by source name"""

    def __init__(self, order):
        img, _ = build.image(order)
        self.order = order
        self.rep = build.reported(order)
        dm = demangle(list(img))
        self.v = {}
        for k, d in dm.items():
            m = CLS_RE.match(d)
            if m:
                self.v[(m.group(3), m.group(1), m.group(4))] = img[k]
            elif d.startswith('libff::'):
                self.v[d[7:]] = img[k]

    def raw(self, key):
        if key not in self.v:
            raise KeyError('object %s not found' % (key,))
        return self.v[key]

    def big(self, key):
        return int.from_bytes(self.raw(key), 'little')

    def fe(self, key, mod, cls):
        """field element(s); None marks a non-reduced coefficient"""
        return dec(mod, cls, self.raw(key).hex())

    def arr(self, key, mod, cls):
        b = self.raw(key)
        n = PR.tsize(mod, cls)
        return [dec(mod, cls, b[i:i + n].hex()) for i in range(0, len(b), n)]


def odd(n):
    s = 0
    while n % 2 == 0:
        n //= 2
        s += 1
    return s, n


def field_obls(S, mod):
    """prime field"""
    p, n = PR.PRIMES[mod]
    K = lambda f: (mod, 'Fp_model', f)
    yield 'modulus is the published prime', S.big(mod) == p and certs.prime(p), hex(S.big(mod))
    yield 'num_bits', S.big(K('num_bits')) == p.bit_length(), S.big(K('num_bits'))
    yield 'euler = (p-1)/2', S.big(K('euler')) == (p - 1) // 2, ''
    s, t = odd(p - 1)
    yield 's: p-1 = 2^s t', S.big(K('s')) == s, S.big(K('s'))
    yield 't odd part of p-1', S.big(K('t')) == t, ''
    yield '(t-1)/2', S.big(K('t_minus_1_over_2')) == (t - 1) // 2, ''
    yield 'inv = -1/p mod 2^64', (S.big(K('inv')) * p + 1) % (1 << 64) == 0, hex(S.big(K('inv')))
    Rm = 1 << (64 * n)
    yield 'Rsquared', S.big(K('Rsquared')) == Rm * Rm % p, ''
    yield 'Rcubed', S.big(K('Rcubed')) == Rm * Rm * Rm % p, ''
    nqr = S.fe(K('nqr'), mod, 'Fp_model')
    yield 'nqr is a quadratic non-residue', nqr is not None and pow(nqr, (p - 1) // 2, p) == p - 1, nqr
    yield 'nqr_to_t = nqr^t', S.fe(K('nqr_to_t'), mod, 'Fp_model') == pow(nqr or 0, t, p), ''
    g = S.fe(K('multiplicative_generator'), mod, 'Fp_model')
    yield 'multiplicative_generator has order p-1', g and all(pow(g, (p - 1) // f, p) != 1 for f in certs.factors(p)), g
    w = S.fe(K('root_of_unity'), mod, 'Fp_model')
    yield 'root_of_unity has order exactly 2^s', w and pow(w, 1 << (s - 1), p) == p - 1, w
    yield 'root_of_unity = multiplicative_generator^t', w == pow(g or 0, t, p), w
    r = S.rep
    pre = mod + '/Fp_model.'
    I = lambda k: int.from_bytes(r[pre + k], 'little')
    F = lambda k: dec(mod, 'Fp_model', r[pre + k].hex())
    yield 'ceil_size_in_bits', I('ceil_size_in_bits') == p.bit_length(), I('ceil_size_in_bits')
    yield 'floor_size_in_bits', I('floor_size_in_bits') == p.bit_length() - 1, I('floor_size_in_bits')
    yield 'extension_degree', I('extension_degree') == 1, ''
    yield 'field_char', I('field_char') == p, ''
    yield 'num_limbs', I('num_limbs') == n == -(-p.bit_length() // 64), ''
    yield 'modulus_is_valid', I('modulus_is_valid') == 1, ''
    yield 'zero()', F('zero') == 0, ''
    yield 'one()', F('one') == 1, ''
    yield 'arithmetic_generator() generates the additive group', bool(F('arithmetic_generator')), ''
    gg = F('geometric_generator')
    yield 'geometric_generator() has large order', gg is not None and gg > 1 and gg != p - 1, gg


FROB = {'Fp2_model': ('Fp_model', 2), 'Fp3_model': ('Fp_model', 3), 'Fp4_model': ('Fp_model', 4), 'Fp6_2over3_model': ('Fp_model', 6),
        'Fp6_3over2_model': ('Fp2_model', 3), 'Fp12_2over3over2_model': ('Fp2_model', 6)}


def ext_obls(S, mod, cls):
    """extension field cls over modulus mod"""
    p, n = PR.PRIMES[mod]
    k = PR.deg(mod, cls)
    K = lambda f: (mod, cls, f)
    Q = p ** k
    sub, d, gname, _ = PR.TOWERS[mod][cls]
    base, m = FROB[cls]
    # the non-residue the arithmetic multiplies by: generator^d of this level
    genrel = PR._genrel(mod, cls)
    nr = S.fe(K('non_residue'), mod, base)
    one = lambda c: PR.one(mod, c)
    pw = lambda c, a, e: PR.power(mod, c, a, e)
    if base == sub:
        yield 'non_residue defines the published extension', nr == genrel, nr
    elif cls in ('Fp12_2over3over2_model',):
        # w^2 = v, v^3 = non_residue
        yield 'non_residue defines the published extension', nr == PR._genrel(mod, 'Fp6_3over2_model'), nr
    else:
        yield 'non_residue defines the published extension', nr == PR._genrel(mod, sub), nr
    # irreducibility of X^d - genrel over the subfield
    qs = p ** PR.deg(mod, sub)
    for ell in (2, 3):
        if d % ell == 0:
            ok = (qs - 1) % ell == 0 and pw(sub, genrel, (qs - 1) // ell) != one(sub)
            yield 'X^%d - non_residue is irreducible (no %d-th root)' % (d, ell), ok, ''
    s, t = odd(Q - 1)
    yield 'euler', S.big(K('euler')) == (Q - 1) // 2, ''
    yield 's', S.big(K('s')) == s, S.big(K('s'))
    yield 't', S.big(K('t')) == t, ''
    yield '(t-1)/2', S.big(K('t_minus_1_over_2')) == (t - 1) // 2, ''
    nqr = S.fe(K('nqr'), mod, cls)
    mone = PR.neg(mod, cls, one(cls))
    yield 'nqr is a quadratic non-residue', nqr is not None and pw(cls, nqr, (Q - 1) // 2) == mone, nqr
    nt = S.fe(K('nqr_to_t'), mod, cls)
    yield 'nqr_to_t = nqr^t', nqr is not None and nt == pw(cls, nqr, t), ''
    c1 = S.arr(K('Frobenius_coeffs_c1'), mod, base)
    xi = nr if nr is not None else PR.zero(mod, base)
    yield 'number of Frobenius coefficients', len(c1) == k, len(c1)
    for i in range(len(c1)):
        e = p ** i - 1
        ok = e % m == 0 and c1[i] == pw(base, xi, e // m)
        yield 'Frobenius_coeffs_c1[%d]' % i, ok, c1[i]
    if (mod, cls, 'Frobenius_coeffs_c2') in S.v:
        c2 = S.arr(K('Frobenius_coeffs_c2'), mod, base)
        yield 'number of second Frobenius coefficients', len(c2) == k, len(c2)
        for i in range(len(c2)):
            yield 'Frobenius_coeffs_c2[%d]' % i, c2[i] == pw(base, xi, 2 * (p ** i - 1) // m), c2[i]
    r = S.rep
    pre = mod + '/' + cls + '.'
    I = lambda x: int.from_bytes(r[pre + x], 'little')
    yield 'ceil_size_in_bits', I('ceil_size_in_bits') == k * p.bit_length(), I('ceil_size_in_bits')
    yield 'floor_size_in_bits', I('floor_size_in_bits') == k * (p.bit_length() - 1), I('floor_size_in_bits')
    yield 'extension_degree', I('extension_degree') == k, I('extension_degree')
    yield 'field_char', I('field_char') == p, ''
    yield 'zero()', dec(mod, cls, r[pre + 'zero'].hex()) == PR.zero(mod, cls), ''
    yield 'one()', dec(mod, cls, r[pre + 'one'].hex()) == one(cls), ''


GF = {'gf32': (32, 0x400007), 'gf64': (64, 0x1b), 'gf128': (128, 0x87), 'gf192': (192, 0x87), 'gf256': (256, 0x425)}


def gmul(a, b, k, m):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        if a >> k:
            a ^= (1 << k) | m
        b >>= 1
    return r


def gpow(a, e, k, m):
    r = 1
    while e:
        if e & 1:
            r = gmul(r, a, k, m)
        a = gmul(a, a, k, m)
        e >>= 1
    return r


def pgcd(a, b):
    while b:
        while a and a.bit_length() >= b.bit_length():
            a ^= b << (a.bit_length() - b.bit_length())
        a, b = b, a
    return a


def gf_obls(S, f):
    k, m = GF[f]
    I = lambda x: int.from_bytes(S.rep[f + '.' + x], 'little')
    yield 'modulus is the published polynomial', I('modulus') == m, hex(I('modulus'))
    # Rabin: x^(2^k) = x and gcd(x^(2^(k/l)) - x, f) = 1 for every prime l | k
    fr = [2]
    for _ in range(k):
        fr.append(gmul(fr[-1], fr[-1], k, m))
    ok = fr[k] == 2 and all(pgcd((1 << k) | m, fr[k // l] ^ 2) == 1 for l in (2, 3) if k % l == 0)
    yield 'modulus is irreducible', ok, ''
    g = I('multiplicative_generator')
    bad = [q for q in certs.factors_2k(k) if gpow(g, ((1 << k) - 1) // q, k, m) == 1]
    yield 'multiplicative_generator has order 2^%d-1' % k, g != 0 and not bad, 'generator %s: order divides (2^%d-1)/%s' % (hex(g), k, bad)
    yield 'zero()', I('zero') == 0, ''
    yield 'one()', I('one') == 1, ''
    yield 'ceil_size_in_bits', I('ceil_size_in_bits') == k, ''
    yield 'floor_size_in_bits', I('floor_size_in_bits') == k, ''
    yield 'extension_degree', I('extension_degree') == k, ''
    yield 'field_char', I('field_char') == 2, ''


def obl(it):
    for nm, ok, info in it:
        if ok:
            yield nm, P, 'exact evaluation'
        else:
            yield nm, R, 'the initialised value is %s' % (info,)


FIELDS_OF = {'a': ['alt_bn128_modulus_r', 'alt_bn128_modulus_q'], 'b': ['bls12_381_modulus_r', 'bls12_381_modulus_q'], 'e': ['edwards_modulus_r', 'edwards_modulus_q'],
             '4': ['mnt46_modulus_A', 'mnt46_modulus_B'], '6': ['mnt46_modulus_A', 'mnt46_modulus_B']}
EXT_OF = {'a': 'alt_bn128_modulus_q', 'b': 'bls12_381_modulus_q', 'e': 'edwards_modulus_q', '4': 'mnt46_modulus_B', '6': 'mnt46_modulus_A'}
INIT = {'a': 'libff::init_alt_bn128_fields()', 'b': 'libff::init_bls12_381_fields()', 'e': 'libff::init_edwards_fields()', '4': 'libff::init_mnt4_fields()', '6': 'libff::init_mnt6_fields()'}
PINIT = {'a': 'libff::init_alt_bn128_params()', 'b': 'libff::init_bls12_381_params()', 'e': 'libff::init_edwards_params()', '4': 'libff::init_mnt4_params()', '6': 'libff::init_mnt6_params()'}
CURVE = {'a': 'alt_bn128', 'b': 'bls12_381', 'e': 'edwards', '4': 'mnt4', '6': 'mnt6'}


def state_or_refuted(order):
    """the state, or the obligation that the initialiser returns normally, failed"""
    try:
        return State(order), None
    except build.BuildError as e:
        if 'initialisation failed' in str(e):
            return None, ('initialisation terminates normally', R, str(e))
        raise


def init_task(order, fn, body):
    def run(meta):
        S, bad = state_or_refuted(order)
        if bad:
            yield bad
            return
        yield 'initialisation terminates normally', P, ''
        for r in obl(body(S)):
            yield r
    return oblig.Task('order %s, %s' % (order, fn[1]), fn[0], run, backend='exact evaluation of the initialiser\'s state, with primality and order certificates', timeout=300)


def same_task(order, fams):
    """a different initialisation order leaves the same constants"""
    def run(meta):
        A, bad = state_or_refuted(ORDERS[0])
        if bad:
            yield bad
            return
        B, bad = state_or_refuted(order)
        if bad:
            yield bad
            return
        for f in order:
            if f in 'abe46':
                for r in fams(A, B, f):
                    yield r
    return oblig.Task('order %s leaves the same constants' % order, ', '.join(sorted(set(PINIT[c] for c in order))), run, backend='exact comparison', timeout=300)


def field_same(A, B, f):
    mods = FIELDS_OF[f]
    ks = [k for k in A.v if isinstance(k, tuple) and (k[0] in mods and k[1] == 'Fp_model' or k[0] == EXT_OF[f])]
    ks += [m for m in mods]
    cnt = lambda k: isinstance(k, tuple) and k[2].endswith('_cnt')
    bad = [k for k in ks if not cnt(k) and A.v.get(k) != B.v.get(k)]
    yield CURVE[f] + ' field constants', P if not bad else R, 'differ: %s' % bad[:5]
    bad = [k for k in B.rep if k.split('/')[0] in (mods if '/Fp_model' in k else [EXT_OF[f]]) and A.rep.get(k) != B.rep[k]]
    yield CURVE[f] + ' reported field sizes', P if not bad else R, 'differ: %s' % bad[:5]


def c03_tasks(env):
    o = ORDERS[0]
    for f in 'abe46':
        for m in FIELDS_OF[f]:
            yield init_task(o, (INIT[f], CURVE[f] + ' prime field ' + m), lambda S, m=m: field_obls(S, m))
            if f == '4':
                # the two MNT curves initialise the same two classes: each alone must suffice
                pass
        m = EXT_OF[f]
        for c in PR.TOWERS[m]:
            yield init_task(o, (INIT[f], CURVE[f] + ' ' + c), lambda S, m=m, c=c: ext_obls(S, m, c))
    for g in GF:
        yield init_task(o, ('libff::%s static constants' % g, g), lambda S, g=g: gf_obls(S, g))
    for x in ORDERS[1:]:
        yield same_task(x, field_same)


# ---------------------------------------------------------------- curves
GROUPS = {'a': ('alt_bn128_G1', 'alt_bn128_G2'), 'b': ('bls12_381_G1', 'bls12_381_G2'), 'e': ('edwards_G1', 'edwards_G2'), '4': ('mnt4_G1', 'mnt4_G2'), '6': ('mnt6_G1', 'mnt6_G2')}
EMBED = {'a': 12, 'b': 12, 'e': 6, '4': 4, '6': 6}


def triple(cv, h):
    n = PR.tsize(cv.mod, cv.cls) * 2
    return tuple(dec(cv.mod, cv.cls, h[i:i + n]) for i in range(0, 3 * n, n))


def isqrt_in(D):
    s = math.isqrt(D)
    return s if s * s == D else None


def twist_orders(p, k, t):
    """every possible number of points over F_p^k of a curve that becomes, over
    an extension, isomorphic to the curve with trace t over F_p"""
    a, b = 2, t
    for _ in range(k - 1):
        a, b = b, t * b - p * a
    tk = b
    Q = p ** k
    r = {Q + 1 - tk, Q + 1 + tk}
    if (4 * Q - tk * tk) % 3 == 0:
        f = isqrt_in((4 * Q - tk * tk) // 3)
        if f is not None:
            for x in ((tk + 3 * f) // 2, (tk - 3 * f) // 2):
                r |= {Q + 1 - x, Q + 1 + x}
    return r


def sqrt_any(mod, cls, a, rng):
    """square root by exponentiation in the quotient ring F[X]/(X^2 - a) (Cipolla), or None"""
    p = PR.PRIMES[mod][0]
    Q = p ** PR.deg(mod, cls)
    one, zero = PR.one(mod, cls), PR.zero(mod, cls)
    M = lambda x, y: PR.mul(mod, cls, x, y)
    A = lambda x, y: PR.add(mod, cls, x, y)
    if a == zero:
        return zero
    if PR.power(mod, cls, a, (Q - 1) // 2) != one:
        return None
    while 1:
        t = PR.unflat(mod, cls, [rng.randrange(p) for _ in range(PR.deg(mod, cls))])
        w = PR.sub(mod, cls, M(t, t), a)
        if w == zero or PR.power(mod, cls, w, (Q - 1) // 2) != one:
            break
    if w == zero:
        return t
    x, y = one, zero
    bx, by = t, one
    e = (Q + 1) // 2
    while e:
        if e & 1:
            x, y = A(M(x, bx), M(w, M(y, by))), A(M(x, by), M(y, bx))
        bx, by = A(M(bx, bx), M(w, M(by, by))), M(A(bx, bx), by)
        e >>= 1
    return x if M(x, x) == a else None


def point_any(cv, rng):
    """a point of the whole curve (not only of the prime-order group)"""
    m, c = cv.mod, cv.cls
    M = lambda u, v: PR.mul(m, c, u, v)
    while 1:
        x = PR.unflat(m, c, [rng.randrange(PR.PRIMES[m][0]) for _ in range(PR.deg(m, c))])
        if cv.model == 'inv':
            # a x^2 + y^2 = 1 + b x^2 y^2
            x2 = M(x, x)
            n = PR.sub(m, c, PR.one(m, c), M(cv.a, x2))
            d = PR.sub(m, c, PR.one(m, c), M(cv.b, x2))
            if d == PR.zero(m, c):
                continue
            y = sqrt_any(m, c, M(n, PR.inv(m, c, d)), rng)
        else:
            y = sqrt_any(m, c, PR.add(m, c, PR.add(m, c, M(M(x, x), x), M(cv.a, x)), cv.b), rng)
        if y is not None and cv.on((x, y)):
            return (x, y)


def group_obls(S, f, g):
    import random
    cv = PR.CURVES[g]
    m, c, r = cv.mod, cv.cls, cv.r
    p = PR.PRIMES[m][0]
    q1 = PR.PRIMES[EXT_OF[f]][0]
    k = PR.deg(m, c)
    G = g[-2:]
    S1, S0 = triple(cv, S.raw('%s::%s_one' % (g, G)).hex()), triple(cv, S.raw('%s::%s_zero' % (g, G)).hex())
    yield 'the group order r is prime', certs.prime(r), r
    yield 'zero is a representation of the identity', None not in S0 and cv.unrep(S0) is None, S0
    ok = None not in S1
    pt = cv.unrep(S1) if ok else 'bad'
    yield 'generator is a non-identity point of the curve', ok and pt not in ('bad', None) and cv.on(pt), S1
    fin = ok and pt not in ('bad', None) and cv.on(pt)
    yield 'r times the generator is the identity', fin and cv.mul(pt, r) is None, S1
    R = S.rep
    t1 = triple(cv, R[g + '.one'].hex())
    yield 'one() is the generator', None not in t1 and t1 == S1, t1
    t0 = triple(cv, R[g + '.zero'].hex())
    yield 'zero() is the identity', None not in t0 and cv.unrep(t0) is None, t0
    I = lambda x: int.from_bytes(R[g + '.' + x], 'little')
    yield 'order() = r', I('order') == r, I('order')
    yield 'field_char() = p', I('field_char') == p, I('field_char')
    yield 'size_in_bits() = coordinate bits + 1', I('size_in_bits') == k * p.bit_length() + 1, I('size_in_bits')
    if '%s::h' % g in S.v:
        h = S.big('%s::h' % g)
        tr = PR.TRACES[f]
        cand = [n for n in twist_orders(p, k, tr) if n == h * r]
        yield 'h r is the order of the curve or of a twist', bool(cand), h
        # the order that the curve really has: the only candidate that kills random points
        rng = random.Random(7)
        pts = [point_any(cv, rng) for _ in range(3)]
        yield 'h r kills arbitrary points of the curve', all(cv.mul(P, h * r) is None for P in pts), h
        others = [n for n in twist_orders(p, k, tr) if n != h * r and all(cv.mul(P, n) is None for P in pts)]
        yield 'no other admissible order does', not others, others
    if g.startswith('mnt'):
        yield 'coeff_a', S.fe(g + '::coeff_a', m, c) == cv.a, S.fe(g + '::coeff_a', m, c)
        yield 'coeff_b', S.fe(g + '::coeff_b', m, c) == cv.b, S.fe(g + '::coeff_b', m, c)


def curve_obls(S, f):
    n = CURVE[f]
    g1, g2 = [PR.CURVES[x] for x in GROUPS[f]]
    m, c, r, k = g1.mod, g2.cls, g1.r, EMBED[f]
    q = PR.PRIMES[m][0]
    E = lambda x: S.fe(n + '_' + x, m, c)
    F = lambda x: S.fe(n + '_' + x, m, 'Fp_model')
    B = lambda x: S.big(n + '_' + x)
    emb = lambda x: PR.embed(m, c, x % q)
    nr = PR.flat(PR._genrel(m, c))[0]
    tw = PR.gen(m, c, 'u')
    phi = {12: q**4 - q*q + 1, 4: q*q + 1, 6: q*q - q + 1}[k]
    yield 'embedding degree is exactly %d' % k, phi % r == 0 and all(pow(q, d, r) != 1 for d in range(1, k)), ''
    T = PR.TRACES[f]
    yield 'trace: the curve order q + 1 - t is a multiple of r', (q + 1 - T) % r == 0 and T * T <= 4 * q, T
    MM = lambda x, y: PR.mul(m, c, x, y)
    if f in 'ab':
        xi = PR._genrel(m, 'Fp6_3over2_model')
        yield 'coeff_b', F('coeff_b') == g1.b, F('coeff_b')
        yield 'twist element', E('twist') == xi, E('twist')
        yield 'twist_coeff_b', E('twist_coeff_b') == g2.b, E('twist_coeff_b')
        want = MM(emb(g1.b), PR.inv(m, c, xi)) if f == 'a' else MM(emb(g1.b), xi)
        yield 'twist_coeff_b is coeff_b moved to the twist', E('twist_coeff_b') == want, E('twist_coeff_b')
        qx, qy = E('twist_mul_by_q_X'), E('twist_mul_by_q_Y')
    elif f in '46':
        yield 'twist element', E('twist') == tw and S.fe(GROUPS[f][1] + '::twist', m, c) == tw, E('twist')
        yield 'twist_coeff_a = a twist^2', E('twist_coeff_a') == g2.a == MM(emb(g1.a), MM(tw, tw)), E('twist_coeff_a')
        yield 'twist_coeff_b = b twist^3', E('twist_coeff_b') == g2.b == MM(emb(g1.b), MM(tw, MM(tw, tw))), E('twist_coeff_b')
        for cf, val in (('a', g1.a), ('b', g1.b)):
            full = MM(emb(val), MM(tw, tw) if cf == 'a' else MM(tw, MM(tw, tw)))
            for i, w in enumerate(mul_consts(m, c, full)):
                yield 'twist_mul_by_%s_c%d' % (cf, i), F('twist_mul_by_%s_c%d' % (cf, i)) == w, F('twist_mul_by_%s_c%d' % (cf, i))
        qx, qy = emb(F('twist_mul_by_q_X')), emb(F('twist_mul_by_q_Y'))
    else:
        yield 'coeff_a', F('coeff_a') == g1.a, F('coeff_a')
        yield 'coeff_d', F('coeff_d') == g1.b, F('coeff_d')
        yield 'twist element', E('twist') == tw, E('twist')
        yield 'twist_coeff_a = a twist', E('twist_coeff_a') == g2.a == MM(emb(g1.a), tw), E('twist_coeff_a')
        yield 'twist_coeff_d = d twist', E('twist_coeff_d') == g2.b == MM(emb(g1.b), tw), E('twist_coeff_d')
        for cf, val in (('a', g1.a), ('d', g1.b)):
            for i, w in enumerate(mul_consts(m, c, MM(emb(val), tw))):
                yield 'twist_mul_by_%s_c%d' % (cf, i), F('twist_mul_by_%s_c%d' % (cf, i)) == w, F('twist_mul_by_%s_c%d' % (cf, i))
        qx, qy = emb(F('twist_mul_by_q_Y')), emb(F('twist_mul_by_q_Z'))
    # psi(G) = q G on the published generator
    P = g2.gen
    qP = g2.mul(P, q % r)
    pw = lambda x: PR.power(m, c, x, q)
    if f in 'ab46':
        img = (MM(pw(P[0]), qx), MM(pw(P[1]), qy))
    else:
        # raw (X, Y, Z) -> (X^q, Y^q cY, Z^q cZ): x = Z/X, y = Z/Y
        img = (MM(pw(P[0]), qy), MM(pw(P[1]), MM(qy, PR.inv(m, c, qx))))
    yield 'twist_mul_by_q constants realise the q-power endomorphism', img == qP, img
    if f == 'a':
        u = PR.BN_U
        yield 'ate_loop_count = 6u + 2', B('ate_loop_count') == 6 * u + 2 and not S.raw(n + '_ate_is_loop_count_neg')[0], B('ate_loop_count')
        yield 'optimal ate relation', (6 * u + 2 + q - q * q + q**3) % r == 0, ''
        yield 'final_exponent_z', B('final_exponent_z') == u and not S.raw(n + '_final_exponent_is_z_neg')[0], B('final_exponent_z')
    elif f == 'b':
        x = PR.BLS_X
        yield 'ate_loop_count = |x|', B('ate_loop_count') == -x and S.raw(n + '_ate_is_loop_count_neg')[0] == 1, B('ate_loop_count')
        yield 'ate relation', (x - q) % r == 0, ''
        yield 'final_exponent_z', B('final_exponent_z') == -x and S.raw(n + '_final_exponent_is_z_neg')[0] == 1, B('final_exponent_z')
    else:
        ng = f != 'e' and S.raw(n + '_ate_is_loop_count_neg')[0] == 1
        L = B('ate_loop_count')
        sg = -L if ng else L
        yield 'ate_loop_count = t - 1 (up to sign on edwards)', sg == T - 1 or f == 'e' and L == abs(T - 1), sg
        yield 'ate relation', (sg - q) % r == 0 or f == 'e' and (sg + q) % r == 0, sg
        w0 = B('final_exponent_last_chunk_abs_of_w0') * (-1 if S.raw(n + '_final_exponent_last_chunk_is_w0_neg')[0] else 1)
        w1 = B('final_exponent_last_chunk_w1')
        e = w1 * q + w0
        yield 'last chunk w1 q + w0 is a multiple of Phi_k(q)/r prime to r', e * r % phi == 0 and math.gcd(e * r // phi, r) == 1, (w1, w0)
    if n + '_final_exponent' in S.v:
        e = B('final_exponent')
        yield 'final_exponent is a multiple of (q^k-1)/r prime to r', e * r % (q**k - 1) == 0 and math.gcd(e * r // (q**k - 1), r) == 1, ''
    # the public-parameter aggregate
    R = S.rep
    I = lambda x: int.from_bytes(R[n + '.' + x], 'little')
    yield 'Fr<pp> and Fq<pp> characteristics', I('Fp.field_char') == r and I('Fq.field_char') == q, ''
    yield 'degree of Fqe<pp> and Fqk<pp>', I('Fqe.degree') == PR.deg(m, c) and I('Fqk.degree') == k, (I('Fqe.degree'), I('Fqk.degree'))
    yield 'G1<pp>, G2<pp> are the curve groups', R[n + '.G1.one'] == R[GROUPS[f][0] + '.one'] and R[n + '.G2.one'] == R[GROUPS[f][1] + '.one'], ''
    top = list(PR.TOWERS[m])[-1]
    yield 'GT one is one', dec(m, top, R[n + '.GT.one'].hex()) == PR.one(m, top), ''


def mul_consts(m, c, full):
    """c_i such that (full * x)_i = c_i * (the one coordinate of x that meets it); full is monomial"""
    d = PR.deg(m, c)
    out = []
    for i in range(d):
        for j in range(d):
            x = PR.unflat(m, c, [1 if k == j else 0 for k in range(d)])
            v = PR.flat(PR.mul(m, c, full, x))[i]
            if v:
                out.append(v)
                break
    return out


def curve_same(A, B, f):
    n = CURVE[f]
    skip = ('_cnt', 'window_table')
    ks = [k for k in A.v if isinstance(k, str) and k.startswith(n + '_') and not k.endswith(skip)]
    bad = [k for k in ks if A.v.get(k) != B.v.get(k)]
    yield n + ' curve constants', P if not bad else R, 'differ: %s' % bad[:5]
    bad = [k for k in B.rep if (k.startswith(n + '_G') or k.startswith(n + '.')) and A.rep.get(k) != B.rep[k]]
    yield n + ' reported orders and identities', P if not bad else R, 'differ: %s' % bad[:5]


def c04_tasks(env):
    o = ORDERS[0]
    for f in 'abe46':
        for g in GROUPS[f]:
            yield init_task(o, (PINIT[f], g), lambda S, f=f, g=g: group_obls(S, f, g))
        yield init_task(o, (PINIT[f], CURVE[f] + ' pairing parameters'), lambda S, f=f: curve_obls(S, f))
    for x in ORDERS[1:]:
        yield same_task(x, curve_same)
