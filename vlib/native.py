"""Differential runs of the real code (native build) against exact oracles:
used to replay failed obligations and as labelled bounded stand-in."""
import os, subprocess, random, time, threading, tempfile
from concurrent.futures import ThreadPoolExecutor
import build, params as PR

RINV = {}


def mont(mod, x):
    p, n = PR.PRIMES[mod]
    return (x << (64 * n)) % p


def unmont(mod, x):
    p, n = PR.PRIMES[mod]
    k = RINV.get(mod)
    if k is None:
        k = RINV[mod] = pow(1 << (64 * n), -1, p)
    return x * k % p


def enc(mod, x):
    """tower value (nested tuples) -> hex of the raw object"""
    n = PR.PRIMES[mod][1]
    return ''.join(mont(mod, c).to_bytes(8 * n, 'little').hex() for c in PR.flat(x))


def dec(mod, cls, h):
    """hex -> value, or None when a coefficient is not reduced"""
    p, n = PR.PRIMES[mod]
    b = bytes.fromhex(h)
    l = []
    for i in range(0, len(b), 8 * n):
        v = int.from_bytes(b[i:i + 8 * n], 'little')
        if v >= p:
            return None
        l.append(unmont(mod, v))
    return PR.unflat(mod, cls, l)


def hexint(v, limbs):
    return v.to_bytes(8 * limbs, 'little').hex()


class Case:
    __slots__ = ('line', 'want', 'what')

    def __init__(self, line, want, what=''):
        self.line = line
        self.want = want     # list of expected tokens (None = not compared) or callable(tokens)->error or None
        self.what = what


def judge(c, out):
    if out is None:
        return 'no answer (crash or hang)'
    t = out.split()
    if callable(c.want):
        try:
            return c.want(t)
        except Exception as e:
            return 'unreadable answer %r (%r)' % (out[:200], e)
    if len(t) != len(c.want):
        return 'expected %d values, got %r' % (len(c.want), out[:300])
    for i, (a, b) in enumerate(zip(t, c.want)):
        if b is not None and a != b:
            return 'value %d: expected %s got %s' % (i, b, a)
    return None


def shard_run(exe, lines, timeout):
    """-> list of outputs (None for unanswered)"""
    p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    try:
        out, _ = p.communicate('\n'.join(lines) + '\n', timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
    r = out.split('\n')
    if r and r[-1] == '':
        r.pop()
    else:
        r = r[:-1]
    return r


def run_cases(prog, cases, timeout=150, jobs=8):
    """-> (number evaluated, [(case, error)])"""
    exe = build.native_prog(prog)
    fails = []
    shards = [cases[i::jobs] for i in range(jobs)]

    def one(cs):
        f = []
        i = 0
        t0 = time.time()
        n = 0
        while i < len(cs):
            out = shard_run(exe, [c.line for c in cs[i:]], timeout)
            for k in range(len(cs) - i):
                if k >= len(out):
                    break
                n += 1
                e = judge(cs[i + k], out[k])
                if e:
                    f.append((cs[i + k], e))
            if len(out) >= len(cs) - i:
                break
            bad = i + len(out)
            # confirm alone, so that a slow machine is not taken for a hang
            o1 = shard_run(exe, [cs[bad].line], timeout)
            n += 1
            if not o1:
                f.append((cs[bad], 'no answer (crash or hang)'))
            else:
                e = judge(cs[bad], o1[0])
                if e:
                    f.append((cs[bad], e))
            i = bad + 1
            if len(f) > 5 or time.time() - t0 > 2 * timeout:
                break
        return n, f
    with ThreadPoolExecutor(jobs) as ex:
        rs = list(ex.map(one, shards))
    return sum(r[0] for r in rs), [x for r in rs for x in r[1]]


def corner(rng, mod, k=None):
    """a field coefficient biased towards corner cases"""
    p, n = PR.PRIMES[mod]
    r = rng.random()
    if r < 0.14:
        return 0
    if r < 0.24:
        return 1
    if r < 0.34:
        return p - 1
    if r < 0.44:
        return rng.choice([2, 3, p - 2, (p - 1) // 2, (p + 1) // 2, rng.randrange(1 << 16)])
    if r < 0.60:
        # small / extreme Montgomery words
        ri = pow(1 << (64 * n), -1, p)
        m = rng.choice([1, 2, p - 1, p - 2, (1 << 64) - 1, 1 << 64, p >> 1, (p >> 64) << 64, ((1 << (64 * (n - 1))) - 1), rng.randrange(1 << 64), p - rng.randrange(1 << 64)]) % p
        return m * ri % p
    if r < 0.68:
        ri = pow(1 << (64 * n), -1, p)
        m = sum(rng.choice([0, (1 << 64) - 1, 1, 1 << 63, rng.randrange(1 << 64)]) << (64 * i) for i in range(n)) % p
        return m * ri % p
    return rng.randrange(p)


def elem(rng, mod, cls, sparse=0.35):
    n = PR.deg(mod, cls)
    mode = rng.random()
    if mode < 0.3:
        l = [rng.randrange(PR.PRIMES[mod][0]) for _ in range(n)]
    else:
        l = [corner(rng, mod) for _ in range(n)]
        if rng.random() < sparse and n > 1:
            keep = rng.randrange(n)
            l = [x if i == keep or rng.random() < 0.2 else 0 for i, x in enumerate(l)]
    return PR.unflat(mod, cls, l)
