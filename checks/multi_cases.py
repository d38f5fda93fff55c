"""Differential cases for scalar multiplication, window tables and multi-exponentiation."""
import re
import params as PR, native
from native import Case, enc, mont
from group_cases import encT, pt, rep, pool, same, decT



def scalars(rng, bits, n):
    """extreme and random scalars of at most `bits` bits"""
    top = 1 << bits
    out = [0, 1, 2, 3, top - 1, top - 2, top >> 1, (top >> 1) - 1, (top >> 1) + 1, 0x5555555555555555 % top]
    for w in range(64, bits, 64):
        out += [1 << w, (1 << w) - 1, (1 << w) + 1, top - (1 << w)]
    while len(out) < n:
        k = rng.randrange(1, bits + 1)
        x = rng.getrandbits(k)
        if rng.random() < 0.3:     # long runs, so that carries travel
            i, j = sorted((rng.randrange(bits + 1), rng.randrange(bits + 1)))
            x = (x | ((1 << j) - (1 << i))) % top
        out.append(x)
    return out


def limbs_of(cv):
    return PR.PRIMES[fr_mod(cv)][1]


def fr_mod(cv):
    for k, (p, n) in PR.PRIMES.items():
        if p == cv.r:
            return k
    raise KeyError(cv.name)


def hexn(x, n):
    return (x % (1 << (64 * n))).to_bytes(8 * n, 'little').hex()


def fenc(cv, x):
    return enc(fr_mod(cv), x % cv.r)


def c10(rng, n):
    out = []
    for nn in (1, 2, 3, 4, 5, 6, 8, 10, 13):
        for x in scalars(rng, 64 * nn, 22 + 4 * n):
            w = rng.choice([1, 2, 3, 4, 5, 7, 10, 16, 29, 30, 31, 32, 40, 61])
            out.append(naf_case(nn, w, x))
    for cv in PR.CURVES.values():
        L = limbs_of(cv)
        P = pool(rng, cv, 9)
        for kind, nn in (('1', 1), ('n', L), ('2', 2 * L)):
            S = scalars(rng, 64 * nn, 10 + n)
            rng.shuffle(S)
            S = [cv.r % (1 << 64 * nn), (cv.r - 1) % (1 << 64 * nn), 0] + S
            for x in S[:6 + n]:
                Q = rng.choice(P)
                k = hexn(x, nn)
                g = encT(cv, rep(rng, cv, Q))
                want = cv.mul(Q, x % cv.r)
                out.append(Case('%s mul%s %s %s' % (cv.name, kind, g, k), same(cv, [[want], [want], g, k], ''), cv.name + ' integer product'))
                if kind != '2':
                    w = rng.randrange(1, 11)
                    out.append(Case('%s fix%s %d %s %s' % (cv.name, kind, w, g, k), same(cv, [[want], g, k], ''), cv.name + ' fixed window'))
                    b = rng.choice([0, 1, rng.randrange(64 * nn), 64 * nn, 2**64 - 1])
                    out.append(Case('%s opt%s %d %s %s' % (cv.name, kind, b, g, k), same(cv, [[want], [want], g, k], ''), cv.name + ' chosen window'))
        # wide windows
        for w in (rng.randrange(11, 16), 18 if cv.name in ('edwards_G1', 'alt_bn128_G1') else 17 if cv.cls == 'Fp_model' else 12):
            Q = rng.choice(P)
            x = (1 << (64 * L - 1)) + rng.getrandbits(64 * L - 1)
            g, k = encT(cv, rep(rng, cv, Q)), hexn(x, L)
            out.append(Case('%s fixn %d %s %s' % (cv.name, w, g, k), same(cv, [[cv.mul(Q, x % cv.r)], g, k], ''), cv.name + ' fixed window of %d bits' % w))
        for x in [0, 1, cv.r - 1] + [rng.randrange(cv.r) for _ in range(3 + n)]:
            Q = rng.choice(P)
            g = encT(cv, rep(rng, cv, Q))
            out.append(Case('%s mulf %s %s' % (cv.name, g, fenc(cv, x)), same(cv, [[cv.mul(Q, x)], g, fenc(cv, x)], ''), cv.name + ' field scalar product'))
    return out


def naf_case(nn, w, x):
    def chk(t, nn=nn, w=w, x=x):
        v = [int(y) for y in t[1:]]
        if len(v) != int(t[0]):
            return 'length'
        if sum(d << i for i, d in enumerate(v)) != x:
            return 'digits do not sum to the scalar'
        if any(d and (d % 2 == 0 or abs(d) >= 1 << w) for d in v):
            return 'digit outside the window bound'
        return None
    return Case('n%d naf %d %s' % (nn, w, hexn(x, nn)), chk, 'find_wnaf<%d> window %d' % (nn, w))


def c11(rng, n):
    out = []
    for cv in PR.CURVES.values():
        P = pool(rng, cv, 9)
        fb = cv.r.bit_length()
        for k in range(3 + n // 2):
            s, w = rng.randrange(1, 17), rng.randrange(1, 6)
            if k == 0:
                s, w = rng.choice([(1, 1), (5, 5), (4, 5), (6, 3)])
            Q = rng.choice(P)
            oc = (s + w - 1) // w
            want = [str(oc)]
            for o in range(oc):
                want.append(str(1 << w))
                cur = min(w, s - o * w)
                for i in range(1 << w):
                    want.append([cv.mul(Q, i << (w * o))] if i < 1 << cur else Ellipsis)
            out.append(Case('%s tab %d %d %s' % (cv.name, s, w, encT(cv, rep(rng, cv, Q))), same(cv, want, ''), cv.name + ' window table'))
        for k in range(2 + n):
            s = fb if k % 2 == 0 else rng.randrange(1, fb + 1)
            w = rng.randrange(1, 9) if k else rng.choice([1, 2])
            if k == 3:
                w = 9
            Q = rng.choice(P)
            E = [rng.getrandbits(s) % cv.r for _ in range(rng.randrange(0, 4))]
            E += [x for x in (0, (1 << s) - 1) if x < cv.r][:rng.randrange(3)]
            c = rng.choice([0, 1, 1])
            if s == fb:
                c = rng.randrange(cv.r)
                E += [cv.r - 1]
            R1 = [[cv.mul(Q, x)] for x in E]
            R2 = [[cv.mul(Q, c * x % cv.r)] for x in E]
            m = str(len(E))
            out.append(Case('%s wexp %d %d %s %s %s %s' % (cv.name, s, w, encT(cv, rep(rng, cv, Q)), m, ' '.join(fenc(cv, x) for x in E), fenc(cv, c)),
                            same(cv, [m] + R1 + [m] + R2 + R1 + [m] + [fenc(cv, x) for x in E] + [fenc(cv, c)], ''), cv.name + ' windowed, batch and coefficient exponentiation'))
        # wide windows, small scalars
        for w in (rng.randrange(10, 16),) + ((17,) if cv.cls == 'Fp_model' else ()):
            s = w + rng.randrange(1, 5)
            Q = rng.choice(P)
            E = [(1 << s) - 1, (1 << w) - 1, rng.getrandbits(s), 1 << (s - 1)]
            R = [[cv.mul(Q, x)] for x in E]
            m = str(len(E))
            out.append(Case('%s wexp %d %d %s %s %s %s' % (cv.name, s, w, encT(cv, rep(rng, cv, Q)), m, ' '.join(fenc(cv, x) for x in E), fenc(cv, 1)),
                            same(cv, [m] + R + [m] + R + R + [m] + [fenc(cv, x) for x in E] + [fenc(cv, 1)], ''), cv.name + ' window of %d bits' % w))
        if cv.name in ('edwards_G1', 'mnt4_G1') or n > 20:
            # a long list, small scalars
            s, w, ln = 4, 2, 10000 + rng.randrange(2, 60)
            Q = rng.choice(P)
            E = [rng.randrange(16) for _ in range(ln)]
            T = [[cv.mul(Q, x)] for x in range(16)]
            R, m = [T[x] for x in E], str(ln)
            out.append(Case('%s wexp %d %d %s %s %s %s' % (cv.name, s, w, encT(cv, rep(rng, cv, Q)), m, ' '.join(fenc(cv, x) for x in E), fenc(cv, 1)),
                            same(cv, [m] + R + [m] + R + R + [m] + [fenc(cv, x) for x in E] + [fenc(cv, 1)], ''), cv.name + ' batch of %d' % ln))
        for x in [0, 1, 2, 3, 5, 10, 100, 10**4, 10**6, 10**9, 2**64 - 1] + [rng.getrandbits(rng.randrange(1, 40)) for _ in range(6)]:
            def ok(t):
                return None if 1 <= int(t[0]) <= 40 else 'unusable window %s' % t[0]
            out.append(Case('%s win %d' % (cv.name, x), ok, cv.name + ' recommended window size'))
    return out


def c12(rng, n):
    out = []
    for cv in PR.CURVES.values():
        P = pool(rng, cv, 9)
        for k in range(10 + n):
            ln = [0, 1, 2, 3, 4, 5, 8, 9][k] if k < 8 else rng.randrange(0, 14)
            if k == 9 and cv.cls == 'Fp_model':
                ln = rng.randrange(30, 70)
            G = [rng.choice(P) for _ in range(ln)]
            E = []
            for i in range(ln):
                E.append(rng.choice([0, 1, cv.r - 1, E[-1] if E else 2, 2, rng.randrange(cv.r), rng.randrange(cv.r), rng.getrandbits(20), (1 << (cv.r.bit_length() - 1)), rng.getrandbits(64), rng.getrandbits(128)]))
            if rng.random() < 0.1:
                E = [0] * ln
            if rng.random() < 0.1:
                E = [rng.randrange(cv.r)] * ln
            S = None
            for g, x in zip(G, E):
                S = cv.add(S, cv.mul(g, x))
            data = '%d %s %d %s' % (ln, ' '.join(encT(cv, rep(rng, cv, g, rng.random() < 0.5)) for g in G), ln, ' '.join(fenc(cv, x) for x in E))
            for x in range(4):
                for op in ('mexp', 'mexpm'):
                    ch = rng.choice([1, 1, 2, 3, ln, ln + 1, max(1, ln - 1), 7]) or 1
                    out.append(Case('%s %s %d %d %s' % (cv.name, op, x, ch, data), same(cv, [[S], '1'], ''), '%s %s %s, %d terms, %d chunks' % (cv.name, ['naive', 'naive_plain', 'bos_coster', 'BDLO12'][x], op, ln, ch)))
        # one scalar of a given bit length beside zeros or itself
        for bl in rng.sample([62, 63, 64, 65, 66, 127, 128, 129, 130, 191, 192, 193, 194, cv.r.bit_length() - 1], 7):
            x = (1 << (bl - 1)) | rng.getrandbits(bl - 1)
            if x >= cv.r:
                continue
            E = rng.choice([[x, 0], [0, x], [x, x], [x, 0, 0], [x, x, 1], [x + 1, x]])
            G = [rng.choice(P) for _ in E]
            S = None
            for g, y in zip(G, E):
                S = cv.add(S, cv.mul(g, y))
            data = '%d %s %d %s' % (len(E), ' '.join(encT(cv, rep(rng, cv, g)) for g in G), len(E), ' '.join(fenc(cv, y) for y in E))
            for x in range(4):
                out.append(Case('%s mexp %d 1 %s' % (cv.name, x, data), same(cv, [[S], '1'], ''), '%s %s, scalar of %d bits' % (cv.name, ['naive', 'naive_plain', 'bos_coster', 'BDLO12'][x], bl)))
        # long lists: multiples of one base, so that the expected sum is a single multiple
        for ln in [rng.choice([33, 64, 65, 100, 127, 128, 129]), rng.randrange(130, 300)] + ([rng.choice([513, 1025])] if cv.cls == 'Fp_model' else []):
            B = next(g for g in P if g is not None)
            T, k0, G, E, tot = None, 0, [], [], 0
            for i in range(ln):
                T = cv.add(T, B)
                G.append(T)
                E.append(rng.choice([0, 1, cv.r - 1, 3, rng.randrange(cv.r), rng.randrange(cv.r), rng.randrange(cv.r), rng.getrandbits(64)]))
                tot += (i + 1) * E[-1]
            S = cv.mul(B, tot % cv.r)
            data = '%d %s %d %s' % (ln, ' '.join(encT(cv, rep(rng, cv, g, rng.random() < 0.5)) for g in G), ln, ' '.join(fenc(cv, x) for x in E))
            for x in range(4):
                ch = rng.choice([1, 2, 8, ln // 2, ln])
                op = rng.choice(('mexp', 'mexpm'))
                out.append(Case('%s %s %d %d %s' % (cv.name, op, x, ch, data), same(cv, [[S], '1'], ''), '%s %s %s, %d terms, %d chunks' % (cv.name, ['naive', 'naive_plain', 'bos_coster', 'BDLO12'][x], op, ln, ch)))
        for k in range(6 + n):
            ln = rng.randrange(0, 9) if k != 2 else rng.randrange(30, 200)
            a = [rng.choice([0, 1, cv.r - 1, rng.randrange(cv.r)]) for _ in range(ln)]
            b = [rng.choice([0, 1, cv.r - 1, rng.randrange(cv.r)]) for _ in range(ln)]
            m = str(ln)
            out.append(Case('%s ip %s %s %s %s' % (cv.name, m, ' '.join(fenc(cv, x) for x in a), m, ' '.join(fenc(cv, x) for x in b)), [fenc(cv, sum(x * y for x, y in zip(a, b)))], cv.name + ' inner product'))
    return out


def replay(name, ln):
    """native inputs for a list length at which an obligation failed"""
    import random
    rng = random.Random(ln)
    ln = min(int(ln), 150000)
    if name.startswith('inner_product'):
        for cv in PR.CURVES.values():
            if PR.CURVES and fr_mod(cv) in name:
                a, b = [[rng.randrange(1, cv.r) for _ in range(ln)] for _ in 'ab']
                m = str(ln)
                yield 'drv_multi', Case('%s ip %s %s %s %s' % (cv.name, m, ' '.join(fenc(cv, x) for x in a), m, ' '.join(fenc(cv, x) for x in b)), [fenc(cv, sum(x * y for x, y in zip(a, b)))], 'inner product of %d terms' % ln)
                return
        return
    cv = PR.CURVES[name.split()[0]]
    B = next(g for g in pool(rng, cv, 9) if g is not None)
    if 'batch_exp' in name:
        T = [cv.mul(B, x) for x in range(16)]
        E = [rng.randrange(1, 16) for _ in range(ln)]
        R, m = [[T[x]] for x in E], str(ln)
        yield 'drv_multi', Case('%s wexp 4 2 %s %s %s %s' % (cv.name, encT(cv, rep(rng, cv, B)), m, ' '.join(fenc(cv, x) for x in E), fenc(cv, 1)),
                                same(cv, [m] + R + [m] + R + R + [m] + [fenc(cv, x) for x in E] + [fenc(cv, 1)], ''), 'batch of %d' % ln)
        return
    T = [cv.mul(B, x) for x in range(1, 17)]
    enc16 = [encT(cv, rep(rng, cv, g)) for g in T]
    I = [rng.randrange(16) for _ in range(ln)]
    E = [rng.randrange(2, 1 << 20) for _ in range(ln)]
    S = cv.mul(B, sum((i + 1) * e for i, e in zip(I, E)) % cv.r)
    data = '%d %s %d %s' % (ln, ' '.join(enc16[i] for i in I), ln, ' '.join(fenc(cv, e) for e in E))
    for x, k in enumerate(('naive', 'naive_plain', 'bos_coster', 'BDLO12')):
        if re.search(r'\b%s\b' % k, name):
            for ch in (1, 2, 7) if ' multi_exp ' in name else (1,):
                yield 'drv_multi', Case('%s mexp %d %d %s' % (cv.name, x, ch, data), same(cv, [[S], '1'], ''), '%s, %d terms' % (k, ln))
