"""Primality by machine-checked Pocklington certificates, exact multiplicative orders."""
import json, math, os
H = {int(k): v for k, v in json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'pocklington.json'))).items()}
_ok = {}


def _small(n):
    # deterministic Miller-Rabin below 3.3e24
    if n < 2:
        return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41):
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def prime(n):
    """n is proved prime"""
    if n in _ok:
        return _ok[n]
    if n < 3317044064679887385961981:
        r = _small(n)
    elif n not in H:
        r = False
    else:
        F = 1
        r = True
        for k in H[n]:
            if not prime(k):
                r = False
                break
            x = n - 1
            while x % k == 0:
                x //= k
                F *= k
            for b in range(2, 1000):
                if pow(b, n - 1, n) == 1 and math.gcd(pow(b, (n - 1) // k, n) - 1, n) == 1:
                    break
            else:
                r = False
                break
        r = r and F * F > n
    _ok[n] = r
    return r


def factors(p):
    """the proved-complete list of prime factors of p - 1"""
    x = p - 1
    fs = H[p]
    for k in fs:
        if not prime(k) or x % k:
            raise ValueError('bad certificate for %d' % p)
        while x % k == 0:
            x //= k
    if x != 1:
        raise ValueError('incomplete factorisation for %d' % p)
    return fs


TWO = [2, 3, 7, 5, 17, 13, 257, 241, 65537, 97, 673, 641, 6700417, 193, 22253377, 18446744069414584321, 274177, 67280421310721, 59649589127497217, 5704689200685129054721]


def factors_2k(k):
    x = (1 << k) - 1
    fs = []
    for f in TWO:
        if x % f == 0:
            if not prime(f):
                raise ValueError('bad certificate %d' % f)
            fs.append(f)
            while x % f == 0:
                x //= f
    if x != 1:
        raise ValueError('incomplete factorisation of 2^%d - 1' % k)
    return fs
