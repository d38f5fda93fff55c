"""Runs of the real draws on chosen random words (C19)."""
import params as PR
from native import Case, dec
from group_cases import pt

GF = {'gf32': 4, 'gf64': 8, 'gf128': 16, 'gf192': 24, 'gf256': 32}


def split(v, n):
    return [(v >> (32 * i)) & 0xffffffff for i in range(n)]


def stream(rng, p, words, k):
    """k candidates: extreme words, the modulus and its neighbours, values above it"""
    out = []
    for _ in range(k):
        x = rng.random()
        top = 1 << (32 * words)
        bits = 1 << p.bit_length()
        if rng.random() < 0.25:
            # small and special values in Montgomery representation
            c = rng.choice([-1, -1, 2, -2, 3, 5, 7, 10, (p + 1) // 2, (p - 1) // 2, rng.randrange(1000), -rng.randrange(1000)])
            v, x = c * top % p, 1
        elif x < 0.15:
            v = 0
        elif x < 0.25:
            v = top - 1
        elif x < 0.55:
            v = p + rng.choice([-2, -1, 0, 1, 2])
        elif x < 0.7:
            v = rng.randrange(p, max(bits, p + 1))
        elif x < 0.8:
            v = (top * rng.randrange(p) // p) & (top - 1)
        elif x < 0.9:
            v = rng.choice([1, top % p])     # one, as plain and as Montgomery representation
        else:
            v = rng.getrandbits(32 * words)
        if x < 0.55 and rng.random() < 0.5 and top > bits:
            v |= rng.randrange(top // bits) * bits      # bits above the modulus, to be cleared
        out += split(v & (top - 1), words)
    return out


def line(ty, op, ws, *more):
    return ' '.join([ty, op, str(len(ws))] + [str(w) for w in ws] + [str(x) for x in more])


def valid(mod, cls, k):
    def f(t):
        if len(t) != k:
            return 'expected %d values' % k
        for i, h in enumerate(t):
            if dec(mod, cls, h) is None:
                return 'value %d is not reduced: %s' % (i, h)
        return None
    return f


def c19(rng, n):
    out = []
    for mod, (p, L) in PR.PRIMES.items():
        for _ in range(4 * n):
            out.append(Case(line(mod, 'draw', stream(rng, p, 2 * L, rng.choice([1, 3, 6]))), valid(mod, 'Fp_model', 4), 'random elements are reduced'))
        for _ in range(n):
            I = [rng.choice([0, 1, 2, (1 << 64) - 1, 1 << 32, rng.getrandbits(64)]) for _ in range(3)]
            seq = [I[0], I[0], I[1], I[0], I[2], I[1], I[0]]

            def f(t, seq=seq, mod=mod):
                if len(t) != len(seq):
                    return 'expected %d values' % len(seq)
                by = {}
                for i, h in zip(seq, t):
                    if dec(mod, 'Fp_model', h) is None:
                        return 'element %d is not reduced: %s' % (i, h)
                    if by.setdefault(i, h) != h:
                        return 'index %d gave %s, then %s' % (i, by[i], h)
                return None
            out.append(Case('%s rng %d %s' % (mod, len(seq), ' '.join(map(str, seq))), f, 'hash-derived elements'))
    for mod, tw in PR.TOWERS.items():
        p, L = PR.PRIMES[mod]
        for c in tw:
            if c != 'Fp_model':
                for _ in range(n):
                    out.append(Case(line(mod + ':' + c, 'draw', stream(rng, p, 2 * L, rng.choice([1, 6, 12]))), valid(mod, c, 4), 'random elements are reduced'))
    ok = ['1'] * 6
    types = [(m, PR.PRIMES[m]) for m in PR.PRIMES] + [(m + ':' + c, PR.PRIMES[m]) for m in PR.TOWERS for c in PR.TOWERS[m] if c != 'Fp_model']
    for ty, (p, L) in types:
        for _ in range(n):
            ws = stream(rng, p, 2 * L, 8)
            q = rng.random()
            if q < 0.4:
                ws = split(0, 2 * L * rng.choice([1, 2, 4])) + ws
            elif q < 0.7 and ':' in ty:
                # -1, two or a coefficient other than the first one alone
                k = PR.tsize(ty.split(':')[0], ty.split(':')[1]) // (8 * L)
                v = [0] * k
                v[rng.choice([0, rng.randrange(k)])] = rng.choice([-1, 1, 2]) * (1 << 64 * L) % p
                ws = [w for x in v for w in split(x, 2 * L)] + ws
            out.append(Case(line(ty, 'excl', ws, 6, rng.randrange(3)), ok, 'draws with exclusions'))
    for g, sz in GF.items():
        for _ in range(n):
            ws = [w for _ in range(6) for w in split(rng.choice([0, 0, 1, rng.getrandbits(8 * sz)]), sz // 4)]
            out.append(Case(line(g, 'excl', ws, 6, rng.randrange(3)), ok, 'draws with exclusions'))
            out.append(Case(line(g, 'draw', ws), lambda t, sz=sz: None if len(t) == 4 and all(len(x) == 2 * sz for x in t) else 'unreadable', 'draws'))
    for name, cv in PR.CURVES.items():
        rn = [k for k, (q, L) in PR.PRIMES.items() if q == cv.r][0]
        p, L = PR.PRIMES[rn]
        for _ in range(n):
            ws = stream(rng, p, 2 * L, 4)
            if rng.random() < 0.3:
                ws = split(0, 2 * L * rng.choice([1, 2])) + ws

            def f(t, cv=cv):
                if len(t) != 2:
                    return 'expected 2 points'
                for h in t:
                    P = pt(cv, h)
                    if P == 'bad' or P is not None and (not cv.on(P) or cv.mul(P, cv.r) is not None):
                        return 'not a member of the prime-order group: %s' % h
                return None
            out.append(Case(line(name, 'draw', ws), f, 'random points'))
            out.append(Case(line(name, 'excl', ws, 4, rng.randrange(2)), ok, 'draws with exclusions'))
    return out
