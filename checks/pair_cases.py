"""Differential cases for the pairings: bilinearity against exact powers in the target field."""
import math
import params as PR, native, group_cases
from native import Case, enc, dec, elem
CURVES = {'alt_bn128': ('alt_bn128_G1', 'alt_bn128_G2', 12), 'bls12_381': ('bls12_381_G1', 'bls12_381_G2', 12), 'edwards': ('edwards_G1', 'edwards_G2', 6),
          'mnt4': ('mnt4_G1', 'mnt4_G2', 4), 'mnt6': ('mnt6_G1', 'mnt6_G2', 6)}


def top(n):
    m = PR.CURVES[CURVES[n][0]].mod
    return m, list(PR.TOWERS[m])[-1]


def fe_exponent(n):
    """the fixed multiple of (q^k-1)/r each final exponentiation realises"""
    m, c = top(n)
    q, k = PR.PRIMES[m][0], CURVES[n][2]
    r = PR.CURVES[CURVES[n][0]].r
    e = (q**k - 1) // r
    if n == 'alt_bn128':
        z = PR.BN_U
        e *= 2 * z * (6 * z * z + 3 * z + 1)
    if n == 'bls12_381':
        e *= 3
    return e % (q**k - 1)


def scalar(rng, r):
    x = rng.random()
    if x < 0.25:
        return rng.choice([1, 2, 3, r - 1, r - 2, (r + 1) // 2])
    if x < 0.4:
        return rng.randrange(1, 1 << 20)
    return rng.randrange(1, r)


def point(rng, cv, k):
    return group_cases.encT(cv, group_cases.rep(rng, cv, cv.mul(cv.gen, k)))


def powers(n, what, a, b, base_first=True):
    m, c = top(n)
    r = PR.CURVES[CURVES[n][0]].r

    def judge(t):
        v = [dec(m, c, x) for x in t]
        if len(v) < 3:
            return 'unreadable answer'
        if any(x is None for x in v):
            return 'a value is not reduced'
        e0 = v[0]
        one = PR.one(m, c)
        if e0 == one:
            return 'the pairing of the generators is one'
        if PR.power(m, c, e0, r) != one:
            return 'the pairing of the generators has not order r'
        w = PR.power(m, c, e0, a * b % r)
        for i, x in enumerate(v[1:]):
            if x != w:
                return 'variant %d is not e(G1,G2)^(ab), a=%d b=%d' % (i, a, b)
        return None
    return judge


def equal(t):
    return None if len(t) > 1 and all(x == t[0] for x in t) else 'the variants differ'


def true(k):
    return ['1'] * k


def signed(nm, k):
    """groups of [value, inverse, k variants]: mnt6's affine Miller loop runs over |T| (a recorded finding), so either value will do there,
    as long as it is the same one throughout"""
    def judge(t):
        ok = set(([0, 1] if nm == 'mnt6' else [0]))
        for i in range(0, len(t), k + 2):
            for v in t[i + 2:i + 2 + k]:
                ok &= {j for j in (0, 1) if v == t[i + j]}
        return None if ok and len(t) else 'the reduced value is not the standard one'
    return judge


def c13(rng, n):
    out = []
    for nm, (g1, g2, k) in CURVES.items():
        c1, c2 = PR.CURVES[g1], PR.CURVES[g2]
        a = b = 1
        for i in range(n):
            # related arguments follow one another: the opposite, the same point in another representation
            if i % 4 == 1:
                a, b = scalar(rng, c1.r), scalar(rng, c1.r)
            elif i % 4 == 2:
                a = c1.r - a
            elif i % 4 == 3:
                b = rng.choice([b, c1.r - b])
            elif i:
                a, b = [(c1.r - 1, 1), (1, c1.r - 1), (1, 1), (c1.r - 1, c1.r - 1)][i // 4 % 4 - 1]
            if i == 4:
                # the opposites of the generators, sharing two coordinates with them
                for x, y in ((c1.r - 1, 1), (1, c1.r - 1)):
                    w = ' '.join(group_cases.encT(cv, cv.rep(cv.mul(cv.gen, u), one if u == 1 else PR.sub(cv.mod, cv.cls, PR.zero(cv.mod, cv.cls), one)))
                                 for cv, u, one in ((v, u, PR.one(v.mod, v.cls)) for v, u in ((c1, x), (c2, y))))
                    out.append(Case('%s pair %s' % (nm, w), powers(nm, 'pair', x, y), nm + ' pairing'))
            arg = '%s %s' % (point(rng, c1, a), point(rng, c2, b))
            out.append(Case('%s pair %s' % (nm, arg), powers(nm, 'pair', a, b), nm + ' pairing'))
            if nm == 'edwards':
                out.append(Case('%s tate %s' % (nm, arg), powers(nm, 'tate', a, b), nm + ' Tate pairing'))
        for P in x0(rng, c1):
            out += bil(nm, P, rng, 2)
    return out


def x0(rng, cv):
    """the points with zero x of a curve whose whole group has prime order"""
    if cv.model == 'inv':
        return []
    y = group_cases.sqrt(rng, cv.mod, cv.cls, cv.b)
    P = y is not None and (PR.zero(cv.mod, cv.cls), y)
    return [P, cv.neg(P)] if P and cv.mul(P, cv.r) is None else []


def bil(nm, P, rng, n):
    """additivity at given first arguments, whose discrete logarithm is not known"""
    m, c = top(nm)
    g1, g2, k = CURVES[nm]
    c1, c2 = PR.CURVES[g1], PR.CURVES[g2]
    T = lambda cv, A: group_cases.encT(cv, group_cases.rep(rng, cv, A))

    def judge(t):
        v = [dec(m, c, x) for x in t]
        if len(v) != 3 or any(x is None for x in v):
            return 'unreadable answer'
        if PR.power(m, c, v[0], c1.r) != PR.one(m, c) or v[0] == PR.one(m, c):
            return 'the value has not order r'
        return None if PR.mul(m, c, v[0], v[1]) == v[2] else 'the pairing is not additive in its first argument'
    for i in range(n):
        R, Q = c1.mul(c1.gen, scalar(rng, c1.r)), c2.mul(c2.gen, scalar(rng, c1.r))
        yield Case('%s bil %s %s %s %s' % (nm, T(c1, P), T(c1, R), T(c1, c1.add(P, R)), T(c2, Q)), judge, nm + ' additivity')


def special(rng, m, c, i):
    """elements of subfields, of the conjugate-negative coset, of the cyclotomic subgroup, of order r, or random ones"""
    x = elem(rng, m, c)
    sub = PR.TOWERS[m][c][0]
    y = x[0] if any(PR.flat(x[0])) else PR.one(m, sub)
    z = PR.zero(m, sub)
    if i % 6 == 1:
        return (y, z)
    if i % 6 == 2:
        return (z, y)
    if i % 6 == 3:
        l = PR.flat(x)
        return PR.unflat(m, c, [l[0] or 1] + [0] * (len(l) - 1))
    if i % 6 == 4 and any(PR.flat(x[1])):
        w = (x[0], PR.neg(m, sub, x[1]))
        return PR.mul(m, c, w, PR.inv(m, c, x))     # unitary
    return x


def c14(rng, n):
    out = []
    for nm in CURVES:
        m, c = top(nm)
        e = fe_exponent(nm)

        def mk(x, m=m, c=c, e=e):
            def judge(t):
                w = PR.power(m, c, x, e)
                v = [dec(m, c, y) for y in t]
                return None if len(v) == 2 and v[0] == w and v[1] == w else 'not the published power of the argument'
            return judge
        for i in range(n):
            x = PR.one(m, c) if i == 0 else special(rng, m, c, i)
            if not any(PR.flat(x)):
                continue
            out.append(Case('%s fe %s' % (nm, enc(m, x)), mk(x), nm + ' final exponentiation'))
    return out


def c15(rng, n):
    out = []
    for nm, (g1, g2, k) in CURVES.items():
        c1, c2 = PR.CURVES[g1], PR.CURVES[g2]
        z = x0(rng, c1)
        ab = lambda: (scalar(rng, c1.r), scalar(rng, c1.r))
        txt = lambda s: '%s %s' % (point(rng, c1, s[0]), point(rng, c2, s[1]))
        pq = lambda: txt(ab())
        for i in range(n):
            u, v = ab(), ab()
            k = i % 8
            if k in (0, 2, 4, 6):
                # equal or opposite in the first, the second or both arguments
                sg = lambda t: rng.choice([t, c1.r - t]) if k == 6 else t
                v = (sg(u[0]) if k in (0, 2, 6) else v[0], sg(u[1]) if k in (0, 4, 6) else v[1])
            elif k == 7:
                v = (c1.r - u[0], u[1]) if rng.random() < .5 else (u[0], c1.r - u[1])
            elif k == 5:
                u = (1, 1)
            x, y = txt(u), txt(v)
            if z and i % 4 == 3:
                # a first argument with zero x
                x = group_cases.encT(c1, group_cases.rep(rng, c1, z[i // 4 % 2])) + ' ' + x.split()[1]
            out.append(Case('%s dbl %s %s' % (nm, x, y), true(4), nm + ' double Miller loop'))
            out.append(Case('%s pair %s' % (nm, x), lambda t: equal(t[1:]), nm + ' pairing variants'))
            if nm.startswith('mnt'):
                out.append(Case('%s aff %s' % (nm, x), equal, nm + ' affine variants'))
                out.append(Case('%s affm %s' % (nm, x), signed(nm, 2), nm + ' affine Miller loop'))
                out.append(Case('%s over %s %s %s' % (nm, x, y, pq()), signed(nm, 1), nm + ' affine quotient variants'))
    return out
