"""Differential cases for the curve groups against exact affine arithmetic."""
import random
import params as PR, native
from native import Case, enc, dec, elem, corner


def encT(cv, T):
    return ''.join(enc(cv.mod, x) for x in T)


def decT(cv, h):
    n = len(h) // 3
    T = [dec(cv.mod, cv.cls, h[i * n:(i + 1) * n]) for i in range(3)]
    return None if any(x is None for x in T) else T


def pt(cv, h):
    """affine point of a raw answer, 'bad' when it represents none"""
    T = decT(cv, h)
    return 'bad' if T is None else cv.unrep(T)


def nzelem(rng, cv):
    while True:
        z = elem(rng, cv.mod, cv.cls)
        if any(PR.flat(z)):
            return z


def rep(rng, cv, P, special=False):
    o = PR.one(cv.mod, cv.cls)
    if P is None:
        if cv.model == 'jac' and rng.random() < 0.3:
            Z = PR.zero(cv.mod, cv.cls)
            return rng.choice([(o, o, Z), (Z, o, Z), (Z, Z, Z)])
        return cv.rep(None, o if rng.random() < 0.4 else nzelem(rng, cv))
    if special or rng.random() < 0.25:
        return cv.rep(P, o)
    return cv.rep(P, (oddscale(rng, cv, P) if rng.random() < 0.4 else None) or nzelem(rng, cv))


def oddscale(rng, cv, P):
    """a scaling factor that makes coordinates coincide or puts one into a subfield, or None"""
    m, c = cv.mod, cv.cls
    o = PR.one(m, c)
    I = lambda a: PR.inv(m, c, a) if any(PR.flat(a)) else None
    x, y = P
    k = rng.randrange(6)
    if k == 0:
        return PR.sub(m, c, PR.zero(m, c), o)
    if k == 1:
        l = PR.flat(nzelem(rng, cv))
        j = rng.randrange(len(l))
        return PR.unflat(m, c, [v if i == j else 0 for i, v in enumerate(l)]) if l[j] else None
    if cv.model == 'jac':
        # X=x s^2, Y=y s^3: X=Y, X=Z, Y=Z, X=1
        if k == 2:
            return PR.mul(m, c, x, I(y)) if any(PR.flat(x)) and any(PR.flat(y)) else None
        if k == 3:
            return I(x)
        w = I(y if k == 4 else x)
        return w and sqrt(rng, m, c, w)
    if cv.model == 'inv':
        # X=s/x, Y=s/y: X=1, Y=1
        return x if k < 4 and any(PR.flat(x)) else y if any(PR.flat(y)) else None
    return I(x if k < 4 else y)


def near(rng, cv, T, Q):
    """a representative of Q sharing something with the coordinates T: the same or opposite scaling factor, or one equal coordinate"""
    m, c = cv.mod, cv.cls
    Z = T[2]
    if Q is None or not any(PR.flat(Z)):
        return rep(rng, cv, Q)
    k = rng.randrange(4)
    if k == 1:
        Z = PR.sub(m, c, PR.zero(m, c), Z)
    R = cv.rep(Q, Z)
    if cv.model == 'inv' and cv.unrep(R) != Q:
        return rep(rng, cv, Q)
    if k >= 2 and cv.model != 'jac' and any(PR.flat(R[k - 2])) and any(PR.flat(T[k - 2])):
        # homogeneous coordinates: rescale so that coordinate k-2 agrees
        f = PR.mul(m, c, T[k - 2], PR.inv(m, c, R[k - 2]))
        R = tuple(PR.mul(m, c, f, x) for x in R)
    return R


def sqrt(rng, m, c, a):
    """a square root in the extension, or None (Tonelli-Shanks over the generic product)"""
    one = PR.one(m, c)
    if not any(PR.flat(a)):
        return a
    q = PR.PRIMES[m][0] ** len(PR.flat(a))
    if PR.power(m, c, a, (q - 1) // 2) != one:
        return None
    s, t = 0, q - 1
    while t % 2 == 0:
        s, t = s + 1, t // 2
    while True:
        z = nz(rng, m, c)
        if PR.power(m, c, z, (q - 1) // 2) != one:
            break
    z = PR.power(m, c, z, t)
    x, b = PR.power(m, c, a, (t + 1) // 2), PR.power(m, c, a, t)
    while b != one:
        k, u = 0, b
        while u != one:
            u, k = PR.mul(m, c, u, u), k + 1
        w = z
        for _ in range(s - k - 1):
            w = PR.mul(m, c, w, w)
        z, s = PR.mul(m, c, w, w), k
        x, b = PR.mul(m, c, x, w), PR.mul(m, c, b, z)
    return x


def nz(rng, m, c):
    while True:
        z = elem(rng, m, c)
        if any(PR.flat(z)):
            return z


def offcurve(rng, cv, sg):
    """special coordinates of a point on a curve whose equation differs by the signs of some terms"""
    m, c = cv.mod, cv.cls
    o = PR.one(m, c)
    neg = lambda x: PR.sub(m, c, PR.zero(m, c), x)
    M = lambda x, y: PR.mul(m, c, x, y)
    for _ in range(60):
        x = elem(rng, m, c)
        f = lambda i, v: neg(v) if sg[i] else v
        if cv.model == 'inv':
            # a x^2 + y^2 = 1 + d x^2 y^2  with signs
            x2 = M(x, x)
            num = PR.sub(m, c, f(0, o), f(1, M(cv.a, x2)))
            den = PR.sub(m, c, o, f(2, M(cv.b, x2)))
            if not any(PR.flat(den)) or not any(PR.flat(x)):
                continue
            y = sqrt(rng, m, c, M(num, PR.inv(m, c, den)))
            if y is None or not any(PR.flat(y)):
                continue
            return (PR.inv(m, c, x), PR.inv(m, c, y), o)
        r = PR.add(m, c, PR.add(m, c, f(0, M(x, M(x, x))), f(1, M(cv.a, x))), f(2, cv.b))
        y = sqrt(rng, m, c, r)
        if y is not None:
            return (x, y, o)
    return (o, o, o)


def pool(rng, cv, n):
    """subgroup points, small multiples and random ones"""
    L = [None, cv.gen, cv.add(cv.gen, cv.gen), cv.neg(cv.gen), cv.mul(cv.gen, 3), cv.mul(cv.gen, cv.r // 2), cv.mul(cv.gen, cv.r - 2)]
    while len(L) < n:
        L.append(cv.mul(cv.gen, rng.randrange(cv.r)))
    return L


def same(cv, want, what):
    def f(t):
        for i, w in enumerate(want):
            if w is Ellipsis:
                continue
            if isinstance(w, str):
                if t[i] != w:
                    return 'value %d: expected %s got %s' % (i, w[:80], t[i][:80])
                continue
            p = pt(cv, t[i])
            if p != (w[0] if isinstance(w, list) else w):
                return 'value %d: wrong point, raw %s' % (i, t[i])
        if len(t) != len(want):
            return 'expected %d values' % len(want)
        return None
    return f


def c08(rng, n):
    out = []
    for cv in PR.CURVES.values():
        L = pool(rng, cv, 12)

        def pairs():
            for P in L[:5]:
                for Q in L[:5]:
                    yield P, Q
            for _ in range(n):
                P = rng.choice(L)
                Q = rng.choice(L + [P, P, cv.neg(P), None])
                yield P, Q
        for P, Q in pairs():
            a, b, b1 = rep(rng, cv, P), rep(rng, cv, Q), rep(rng, cv, Q, True)
            if rng.random() < 0.35:
                b = near(rng, cv, a, Q)
            A, B, B1 = encT(cv, a), encT(cv, b), encT(cv, b1)
            S = cv.add(P, Q)
            w = '%s %s' % (cv.name, 'O' if P is None else 'P')
            out.append(Case('%s add %s %s' % (cv.name, A, B), same(cv, [[S], A, B], ''), w + ' operator+'))
            if cv.model != 'inv' or (P is not None and Q is not None):
                out.append(Case('%s addm %s %s' % (cv.name, A, B), same(cv, [[S]], ''), w + ' add'))
            out.append(Case('%s mixed %s %s' % (cv.name, A, B1), same(cv, [[S]], ''), w + ' mixed_add'))
            out.append(Case('%s sub %s %s' % (cv.name, A, B), same(cv, [[cv.add(P, cv.neg(Q))]], ''), w + ' operator-'))
        for P in L:
            for _ in range(2):
                A = encT(cv, rep(rng, cv, P))
                out.append(Case('%s dbl %s' % (cv.name, A), same(cv, [[cv.add(P, P)], [cv.neg(P)]], ''), cv.name + ' dbl, negation'))
                out.append(Case('%s self %s' % (cv.name, A), same(cv, [[cv.add(P, P)], [None], '1'], ''), cv.name + ' same object'))
        if cv.cls != 'Fp_model':
            for _ in range(6):
                e = elem(rng, cv.mod, cv.cls)
                wa = '-' if cv.model == 'jac' else enc(cv.mod, PR.mul(cv.mod, cv.cls, e, cv.a))
                out.append(Case('%s coef %s' % (cv.name, enc(cv.mod, e)), [wa, enc(cv.mod, PR.mul(cv.mod, cv.cls, e, cv.b))], cv.name + ' mul_by_a/b/d'))
    return out


def equation(cv, T):
    """the homogeneous curve equation the predicate must decide"""
    m, c = cv.mod, cv.cls
    M = lambda *xs: xs[0] if len(xs) == 1 else PR.mul(m, c, xs[0], M(*xs[1:]))
    X, Y, Z = T
    A = lambda u, v: PR.add(m, c, u, v)
    if cv.model == 'jac':
        return M(Y, Y) == A(A(M(X, X, X), M(cv.a, X, Z, Z, Z, Z)), M(cv.b, Z, Z, Z, Z, Z, Z))
    if cv.model == 'proj':
        return M(Y, Y, Z) == A(A(M(X, X, X), M(cv.a, X, Z, Z)), M(cv.b, Z, Z, Z))
    return M(Z, Z, A(M(cv.a, Y, Y), PR.sub(m, c, M(X, X), M(cv.b, Z, Z)))) == M(X, X, Y, Y)


def iszero(cv, T):
    X, Y, Z = [any(PR.flat(x)) for x in T]
    return {'jac': not Z, 'proj': not X and not Z, 'inv': not Y and not Z}[cv.model]


def normal(cv, P, special):
    """the unique affine / special form of a point as raw hex"""
    m, c = cv.mod, cv.cls
    o, z = PR.one(m, c), PR.zero(m, c)
    if cv.model == 'inv':
        if special:
            return encT(cv, cv.rep(P, o))
        return encT(cv, (P[0], P[1], o)) if P is not None else encT(cv, (z, o, o))
    return encT(cv, (z, o, z)) if P is None else encT(cv, (P[0], P[1], o))


COF = {'alt_bn128_G1': 1, 'alt_bn128_G2': 21888242871839275222246405745257275088844257914179612981679871602714643921549,
       'bls12_381_G1': 76329603384216526031706109802092473003,
       'bls12_381_G2': 305502333931268344200999753193121504214466019254188142667664032982267604182971884026507427359259977847832272839041616661285803823378372096355777062779109,
       'mnt4_G1': 1, 'mnt4_G2': 475922286169261325753349249653048451545124879932565935237842521413255878328503110407553025, 'mnt6_G1': 1,
       'mnt6_G2': 226502022472576270196498690498308461791828762732602586162207535351960270082712694977333372361549082214519252261735048131889018501404377856786623430385820659037970876666767495659520}


def c09(rng, n):
    out = []
    for cv in PR.CURVES.values():
        p = PR.PRIMES[cv.mod][0]
        L = pool(rng, cv, 11)
        for _ in range(n):
            P = rng.choice(L)
            Q = rng.choice([P, P, cv.neg(P), rng.choice(L), None])
            e = '1' if P == Q else '0'
            a = rep(rng, cv, P)
            b = rep(rng, cv, Q) if rng.random() < 0.5 else near(rng, cv, a, Q)
            out.append(Case('%s eq %s %s' % (cv.name, encT(cv, a), encT(cv, b)), [e, '1' if e == '0' else '0', e], cv.name + ' equality'))
        for _ in range(n):
            P = rng.choice(L)
            T = rep(rng, cv, P)
            if rng.random() < 0.5:
                i = rng.randrange(3)
                T = tuple(elem(rng, cv.mod, cv.cls) if (k == i or rng.random() < 0.1) else x for k, x in enumerate(T))
            z = iszero(cv, T)
            w = '1' if z or equation(cv, T) else '0'
            s = '1' if z or T[2] == PR.one(cv.mod, cv.cls) else '0'
            out.append(Case('%s pred %s' % (cv.name, encT(cv, T)), ['1' if z else '0', w, s], cv.name + ' is_zero, is_well_formed, is_special'))
        for k in range(8):
            T = offcurve(rng, cv, (k & 1, k >> 1 & 1, k >> 2))
            out.append(Case('%s pred %s' % (cv.name, encT(cv, T)), ['0', '1' if equation(cv, T) else '0', '1'], cv.name + ' is_well_formed, term signs flipped'))
        for P in L:
            T = encT(cv, rep(rng, cv, P))
            out.append(Case('%s affine %s' % (cv.name, T), [normal(cv, P, False)], cv.name + ' to_affine_coordinates'))
            if P is None:
                out.append(Case('%s special %s' % (cv.name, T), same(cv, [[None], '1'], ''), cv.name + ' to_special'))
            else:
                out.append(Case('%s special %s' % (cv.name, T), [normal(cv, P, True), '1'], cv.name + ' to_special'))
        for k in (0, 1, 2, 3, 5, 4, 4, 4, 6, 6):
            out.append(batch_case(rng, cv, L, k))
            v = [rng.choice(L[:3] + [None] + L) for _ in range(k)]
            out.append(Case('%s batch0 %d %s' % (cv.name, k, ' '.join(encT(cv, rep(rng, cv, P)) for P in v)), same(cv, [str(k)] + [[P] for P in v], ''), cv.name + ' batch_to_special'))
        for k in (65, 260, 1030):
            out.append(batch_case(rng, cv, L, k))
        if cv.cls != 'Fp_model':
            for P in L:
                out.append(Case('%s mulq %s' % (cv.name, encT(cv, rep(rng, cv, P))), same(cv, [[cv.mul(P, p % cv.r)]], ''), cv.name + ' mul_by_q'))
            for _ in range(4):
                e = elem(rng, cv.mod, cv.cls)
                wa = '-' if cv.model == 'jac' else enc(cv.mod, PR.mul(cv.mod, cv.cls, e, cv.a))
                out.append(Case('%s coef %s' % (cv.name, enc(cv.mod, e)), [wa, enc(cv.mod, PR.mul(cv.mod, cv.cls, e, cv.b))], cv.name + ' mul_by_a/b/d'))
        if cv.name in COF:
            for P in L[:7]:
                out.append(Case('%s cof %s' % (cv.name, encT(cv, rep(rng, cv, P))), same(cv, [[cv.mul(P, COF[cv.name])]], ''), cv.name + ' mul_by_cofactor'))
    return out


def batch_case(rng, cv, L, k):
    v = [rng.choice(L[1:]) for _ in range(k)]
    return Case('%s batch %d %s' % (cv.name, k, ' '.join(encT(cv, rep(rng, cv, P, rng.random() < 0.4)) for P in v)), [str(k)] + [normal(cv, P, True) for P in v], cv.name + ' batch_to_special_all_non_zeros')


def replay_batch(name, k):
    rng = random.Random(k)
    for cv in PR.CURVES.values():
        if name.startswith(cv.name + ' batch_to_special'):
            L = [None] + [cv.mul(cv.gen, rng.randrange(1, cv.r)) for _ in range(5)]
            return [('drv_groups', batch_case(rng, cv, L, k))]
    return []
