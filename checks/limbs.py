"""C01/C02: machine-level contracts of Fp_model (all eight prime fields)."""
import re
from core import *
import params as PR
from oblig import Task, PROVED, REFUTED, explore
from limb import *


def st(ok):
    return PROVED if ok else REFUTED


class LC:
    """one path of one function"""

    def __init__(self, m, img, mod, dec):
        self.mod = mod
        self.p = PR.PRIMES[mod][0]
        self.n = PR.PRIMES[mod][1]
        self.R = 1 << (64 * self.n)
        self.d = LimbDomain(dec)
        self.it = Interp(m, self.d, img)
        gmp(self.it, self.d)

    def mul_contract(self):
        """callers use the contract of mul_reduce (proved separately):
        requires this < p; ensures result < p and result * R = this * other mod p"""
        n, p, d = self.n, self.p, self.d
        Ri = pow(self.R, -1, p)

        def h(it, a, mm):
            A, B = [it.load(a[0] + 8 * i, 8) for i in range(n)], [it.load(a[1] + 8 * i, 8) for i in range(n)]
            if any(w is UNDEF for w in A + B):
                raise MemError('mul_reduce of an uninitialised operand')
            va, vb = d.value(A), d.value(B)
            if set(va) <= {()} and set(vb) <= {()}:
                v = va.get((), 0) * vb.get((), 0) * Ri % p
                ws = [(v >> (64 * i)) & M64 for i in range(n)]
            else:
                if not self.canon(A):
                    raise Thrown('precondition of mul_reduce (operand < p) not established')
                k = len(d.names)
                d.names.append('k%d' % k)
                hi = [d.atom('t%d_%d' % (k, i)) for i in range(1, n)]
                va, vb = d.sub_(va), d.sub_(vb)
                tot = padd(pscale(pmul(va, vb), Ri), {(k,): p})
                lo = tot
                for i, x in enumerate(hi):
                    lo = padd(lo, x.p, -(1 << (64 * (i + 1))))
                d.fact(lo, 0, M64)
                d.fact(tot, 0, p - 1)
                ws = [W(lo)] + hi
            for i, w in enumerate(ws):
                it.store(a[0] + 8 * i, 8, w)
        h.contract = True
        self.it.on(r'(?:^|[ ])libff::Fp_model<%dl, libff::%s>::mul_reduce\(' % (n, self.mod), h)

    def new(self, ws, name='x'):
        a = self.it.alloc(8 * self.n, name)
        for i, w in enumerate(ws):
            self.it.store(a + 8 * i, 8, w)
        return a

    def out(self):
        return self.it.alloc(8 * self.n, 'result')

    def elem(self, name):
        return self.d.operand(name, self.n, self.p - 1)

    def words(self, a):
        ws = [self.it.load(a + 8 * i, 8) for i in range(self.n)]
        if any(w is UNDEF for w in ws):
            raise MemError('result not initialised')
        return ws

    def canon(self, ws):
        v = self.d.value(ws)
        self.cong(v)
        if self.d.proves(v, 0, self.p - 1):
            return True
        self.d.settle(v)
        return self.d.proves(self.d.value(ws), 0, self.p - 1)

    def cong(self, poly):
        return not self.d.eliminate(poly, self.p)

    def same(self, ws, a):
        """memory of operand a still holds ws"""
        return all(not padd(P(x), P(y), -1) for x, y in zip(self.words(a), ws))


def paths(mk, body, limit=400):
    """run body on every feasible path; obligations must hold on all of them"""
    agg = {}
    n = 0
    inl = set()

    def run(dec):
        c = mk(dec)
        try:
            r = list(body(c))
            if not all(ok for _, ok in r) and c.d.infeasible():
                r = None
        except (MemError, Thrown, Aborted):
            if not c.d.infeasible():
                raise
            r = None
        inl.update(c.it.called)
        return c.d, (r, list(c.d.trail), c.d.queries)
    q = 0
    for d, (r, trail, qs) in explore(run, limit):
        q += qs
        if r is None:
            continue
        n += 1
        for name, ok in r:
            a = agg.setdefault(name, [0, None])
            a[0] += 1
            if not ok and a[1] is None:
                a[1] = 'path %s' % (trail,)
    return n, agg, inl, q


def make(env, which='C01'):
    m, img = env.m, env.img
    tasks = []

    def field(mod, p, n):
        full = 'libff::Fp_model<%dl, libff::%s>' % (n, mod)
        e = re.escape(full)

        def find(rx):
            r = m.find(rx)
            return [f for f in r if f in m.functions]

        def T(name, rx, body, timeout=300, weight=1, contract=True):
            fs = find('(?:^|[ ])' + e + rx)
            if len(fs) != 1:
                def missing(meta, fs=fs, rx=rx):
                    raise Unsupported('%d functions match %s' % (len(fs), rx))
                    yield
                tasks.append(Task('%s %s' % (mod, name), full + name, missing))
                return
            fn = fs[0]

            def go(meta, fn=fn, body=body):
                def mk(dec):
                    c = LC(m, img, mod, dec)
                    if contract:
                        c.mul_contract()
                    return c
                cnt, agg, inl, q = paths(mk, lambda c: body(c, fn))
                meta['inlined'] = list(inl)
                if not cnt:
                    raise Unsupported('no feasible path')
                for k, (num, bad) in agg.items():
                    yield '%s (%d paths)' % (k, num), st(bad is None), bad or ''
            tasks.append(Task('%s %s' % (mod, name), m.dem(fn), go, backend='limb polynomials modulo p + linear real arithmetic (z3)', timeout=timeout, weight=weight))

        inplace = {'+=': 1, '-=': 1, '*=': 1}

        def spec(c, op, A, B, Rw):
            a, b, r = c.d.value(A), c.d.value(B), c.d.value(Rw)
            if op == '+':
                return padd(padd(r, a, -1), b, -1)
            if op == '-':
                return padd(padd(r, a, -1), b)
            return padd(pscale(r, c.R), pmul(a, b), -1)

        for op in '+-*':
            def body(c, fn, op=op):
                A, B = c.elem('a'), c.elem('b')
                x, y = c.new(A), c.new(B)
                r = c.it.call(fn, [x, y])
                yield 'returns *this', r == x
                w = c.words(x)
                yield 'result canonical (< p)', c.canon(w)
                yield 'value is a %s b in F_p' % op, c.cong(spec(c, op, A, B, w))
                yield 'other operand unchanged', c.same(B, y)
            T('operator%s=' % op, r'::operator\%s=\(%s const&\)$' % (op, e), body, weight=n if op == '*' else 1)

            def body(c, fn, op=op):
                A = c.elem('a')
                x = c.new(A)
                c.it.call(fn, [x, x])
                w = c.words(x)
                yield 'result canonical (< p)', c.canon(w)
                yield 'a %s= a is correct for aliased operands' % op, c.cong(spec(c, op, A, A, w))
            T('operator%s= aliased' % op, r'::operator\%s=\(%s const&\)$' % (op, e), body, weight=n if op == '*' else 1)

            def body(c, fn, op=op):
                A, B = c.elem('a'), c.elem('b')
                x, y, o = c.new(A), c.new(B), c.out()
                c.it.call(fn, [o, x, y])
                w = c.words(o)
                yield 'result canonical (< p)', c.canon(w)
                yield 'value is a %s b in F_p' % op, c.cong(spec(c, op, A, B, w))
                yield 'operands unchanged', c.same(A, x) and c.same(B, y)
            T('operator%s' % op, r'::operator\%s\(%s const&\) const$' % (op, e), body, weight=n if op == '*' else 1)

        def body(c, fn):
            A, B = c.elem('a'), c.d.operand('b', c.n, c.R - 1)
            x, y = c.new(A), c.new(B)
            c.it.call(fn, [x, y])
            w = c.words(x)
            yield 'result canonical (< p) for every multiplier', c.canon(w)
            yield 'value * R = a * b mod p', c.cong(spec(c, '*', A, B, w))
            yield 'multiplier unchanged', c.same(B, y)
        T('mul_reduce', r'::mul_reduce\(libff::bigint<%dl> const&\)$' % n, body, weight=10 * n, contract=False)

        def body(c, fn):
            A = c.elem('a')
            x = c.new(A)
            c.it.call(fn, [x, x])
            w = c.words(x)
            yield 'result canonical (< p)', c.canon(w)
            yield 'value * R = a * a mod p', c.cong(spec(c, '*', A, A, w))
        T('mul_reduce aliased', r'::mul_reduce\(libff::bigint<%dl> const&\)$' % n, body, weight=10 * n, contract=False)

        def body(c, fn):
            A = c.elem('a')
            x, o = c.new(A), c.out()
            c.it.call(fn, [o, x])
            w = c.words(o)
            yield 'result canonical (< p)', c.canon(w)
            yield 'value is -a', c.cong(padd(c.d.value(w), c.d.value(A)))
            yield 'operand unchanged', c.same(A, x)
        T('operator- (unary)', r'::operator-\(\) const$', body)

        def body(c, fn):
            A = c.elem('a')
            x, o = c.new(A), c.out()
            c.it.call(fn, [o, x])
            w = c.words(o)
            yield 'result canonical (< p)', c.canon(w)
            yield 'value is a*a', c.cong(spec(c, '*', A, A, w))
            yield 'operand unchanged', c.same(A, x)
        T('squared', r'::squared\(\) const$', body, weight=n)

        def body(c, fn):
            A = c.elem('a')
            x = c.new(A)
            r = c.it.call(fn, [x])
            w = c.words(x)
            yield 'returns *this', r == x
            yield 'result canonical (< p)', c.canon(w)
            yield 'value is a*a', c.cong(spec(c, '*', A, A, w))
        T('square', r'::square\(\)$', body, weight=n)

        for nm, want in (('operator==', True), ('operator!=', False)):
            def body(c, fn, want=want):
                A, B = c.elem('a'), c.elem('b')
                x, y = c.new(A), c.new(B)
                r = c.it.call(fn, [x, y])
                D = padd(c.d.value(A), c.d.value(B), -1)
                yield 'result is a Boolean constant on every path', type(r) is int
                if bool(r) == want:
                    yield 'answers equal only for equal residues', c.d.proves(D, 0, 0)
                else:
                    # the path condition must exclude equality
                    c.d.fact(D, 0, 0)
                    yield 'answers different only for different residues', c.d.proves({(): 0}, 1, None)
                yield 'operands unchanged', c.same(A, x) and c.same(B, y)
            T(nm, r'::%s\(%s const&\) const$' % (nm, e), body)

        def body(c, fn):
            A = c.elem('a')
            x = c.new(A)
            r = c.it.call(fn, [x])
            D = c.d.value(A)
            if r:
                yield 'true only for zero', c.d.proves(D, 0, 0)
            else:
                yield 'false only for nonzero', c.d.proves(D, 1, None)
        T('is_zero', r'::is_zero\(\) const$', body)

        for nm, val in (('zero', 0), ('one', 1)):
            def body(c, fn, val=val):
                o = c.out()
                c.it.call(fn, [o])
                w = c.words(o)
                yield 'canonical representation of %d' % val, w == [(val * c.R % c.p) >> (64 * i) & M64 for i in range(c.n)]
            T(nm, r'::%s\(\)$' % nm, body)

        def body(c, fn):
            x = c.new(c.elem('a'))
            c.it.call(fn, [x])
            yield 'zero', c.words(x) == [0] * c.n
        T('clear', r'::clear\(\)$', body)

        def body(c, fn):
            B = c.d.operand('b', c.n, c.R - 1)
            y, o = c.new(B), c.out()
            c.it.call(fn, [o, y])
            w = c.words(o)
            yield 'result canonical (< p) for every integer', c.canon(w)
            yield 'value is b mod p', c.cong(padd(c.d.value(w), pscale(c.d.value(B), c.R), -1))
            yield 'argument unchanged', c.same(B, y)
        T('Fp_model(bigint)', r'::Fp_model\(libff::bigint<%dl> const&\)$' % n, body, weight=n)

        def body(c, fn):
            A = c.elem('a')
            x, o = c.new(A), c.out()
            c.it.call(fn, [o, x])
            w = c.words(o)
            yield 'result < p', c.canon(w)
            yield 'value * R = representation', c.cong(padd(pscale(c.d.value(w), c.R), c.d.value(A), -1))
            yield 'operand unchanged', c.same(A, x)
        T('as_bigint', r'::as_bigint\(\) const$', body, weight=n)

        for uns in (0, 1):
            def body(c, fn, uns=uns):
                x = c.d.atom('x')
                o = c.out()
                c.it.call(fn, [o, x, uns])
                w = c.words(o)
                v = x.p
                if not uns and c.d.proves(x.p, 1 << 63, None):
                    v = padd(v, pc(W64), -1)
                elif not uns:
                    yield 'sign decided', c.d.proves(x.p, None, (1 << 63) - 1)
                yield 'result canonical (< p)', c.canon(w)
                yield 'value is x mod p', c.cong(padd(c.d.value(w), pscale(v, c.R), -1))
            T('Fp_model(long, %s)' % ('unsigned' if uns else 'signed'), r'::Fp_model\(long, bool\)$', body, weight=n)

        def body(c, fn):
            x = c.d.atom('x')
            o = c.new(c.elem('old'))
            c.it.call(fn, [o, x])
            w = c.words(o)
            yield 'result canonical (< p)', c.canon(w)
            yield 'value is x mod p', c.cong(padd(c.d.value(w), pscale(x.p, c.R), -1))
        T('set_ulong', r'::set_ulong\(unsigned long\)$', body, weight=n)

        def body(c, fn):
            A = c.elem('a')
            x, o = c.new(A), c.out()
            c.it.call(fn, [o, x, c.d.atom('k')])
            yield 'identity', c.same(A, o) and c.same(A, x)
        T('Frobenius_map', r'::Frobenius_map\(unsigned long\) const$', body)
    def inverse(mod, p, n):
        full = 'libff::Fp_model<%dl, libff::%s>' % (n, mod)
        e = re.escape(full)

        def T(name, rx, body, sret):
            fs = [f for f in (m.find('(?:^|[ ])' + e + rx) or []) if f in m.functions]
            if len(fs) != 1:
                def missing(meta):
                    raise Unsupported('%d functions match %s' % (len(fs), rx))
                    yield
                tasks.append(Task('%s %s' % (mod, name), full + name, missing))
                return

            def go(meta, fn=fs[0]):
                def mk(dec):
                    c = LC(m, img, mod, dec)
                    c.mul_contract()
                    gcd_contract(c)
                    return c
                cnt, agg, inl, q = paths(mk, lambda c: body(c, fn))
                meta['inlined'] = list(inl)
                if not cnt:
                    raise Unsupported('no feasible path')
                for k, (num, bad) in agg.items():
                    yield '%s (%d paths)' % (k, num), st(bad is None), bad or ''
            tasks.append(Task('%s %s' % (mod, name), m.dem(fs[0]), go, backend='limb polynomials modulo p + linear real arithmetic (z3)', timeout=300))

        def post(c, A, w):
            D = padd(pmul(c.d.value(w), c.d.value(A)), pc(c.R * c.R), -1)
            if c.S is None:
                return False
            S, sg = c.S
            rel = padd(pscale(pmul(c.d.value(S), c.d.value(A)), sg), pc(1), -1)
            key = next(iter(pmul(S[0].p, A[0].p)))
            k = D.get(key, 0) * pow(rel[key], -1, p) % p
            return c.cong(padd(D, rel, -k))

        def body(c, fn):
            A = c.elem('a')
            c.d.fact(c.d.value(A), 1, None)
            c.A = A
            x = c.new(A)
            r = c.it.call(fn, [x])
            w = c.words(x)
            yield 'returns *this', r == x
            yield 'result canonical (< p)', c.canon(w)
            yield 'a * result = 1 in F_p', post(c, A, w)
        T('invert', r'::invert\(\)$', body, False)

        def body(c, fn):
            A = c.elem('a')
            c.d.fact(c.d.value(A), 1, None)
            c.A = A
            x, o = c.new(A), c.out()
            c.it.call(fn, [o, x])
            w = c.words(o)
            yield 'result canonical (< p)', c.canon(w)
            yield 'a * result = 1 in F_p', post(c, A, w)
            yield 'operand unchanged', c.same(A, x)
        T('inverse', r'::inverse\(\) const$', body, True)

    if which == 'C02':
        for k, v in PR.PRIMES.items():
            inverse(k, v[0], v[1])
        return tasks
    for k, v in PR.PRIMES.items():
        field(k, v[0], v[1])
    return tasks


def make_inverse(env):
    return make(env, 'C02')


def gcd_contract(c):
    """assumed contracts of mpn_gcdext (prime modulus, nonzero operand) and mpn_tdiv_qr"""
    d, it, n, p = c.d, c.it, c.n, c.p
    c.S = None

    def gcdext(it, a, mm):
        g, s, snp, u, un, v, vn = a
        if un != n or vn != n:
            raise Unsupported('limb counts of mpn_gcdext')
        U = [it.load(u + 8 * i, 8) for i in range(n)]
        V = [it.load(v + 8 * i, 8) for i in range(n)]
        if any(w is UNDEF for w in U + V):
            raise MemError('mpn_gcdext reads an uninitialised limb')
        if not all(type(w) is int for w in V) or sum(w << (64 * i) for i, w in enumerate(V)) != p:
            raise Thrown('mpn_gcdext is not called with the modulus')
        if not d.proves(d.value(U), 1, p - 1):
            raise Thrown('precondition of mpn_gcdext: 0 < u < p')
        if padd(d.value(U), d.value(c.A), -1):
            raise Unsupported('mpn_gcdext of another value')
        k = 1
        while k < n and not d.decide('|sn| == %d' % k, [], []):
            k += 1
        neg = d.decide('sn < 0', [], [])
        S = [d.atom('s%d_' % i) for i in range(k)]
        d.fact(d.value(S), 1, p // 2 + 1)
        d.fact(S[-1].p, 1, None)
        c.S = (S, -1 if neg else 1)
        for i in range(n + 1):
            it.store(s + 8 * i, 8, S[i] if i < k else UNDEF)
        for q in (u, v):
            for i in range(n):
                it.store(q + 8 * i, 8, UNDEF)
        it.store(g, 8, 1)
        for i in range(1, n):
            it.store(g + 8 * i, 8, UNDEF)
        it.store(snp, 8, (-k if neg else k) & M64)
        return 1
    it.on(r'^__gmpn_gcdext$', gcdext)

    def tdiv(it, a, mm):
        q, r, qx, np, nn, dp, dn = a
        N = [it.load(np + 8 * i, 8) for i in range(nn)]
        D = [it.load(dp + 8 * i, 8) for i in range(dn)]
        if any(w is UNDEF for w in N + D) or nn < dn or qx != 0:
            raise MemError('mpn_tdiv_qr operands')
        if not all(type(w) is int for w in D) or D[-1] == 0:
            raise Unsupported('symbolic divisor')
        D = sum(w << (64 * i) for i, w in enumerate(D))
        Q = d.operand('q', nn - dn + 1, (1 << (64 * (nn - dn + 1))) - 1)
        hi = [d.atom('r%d_' % i) for i in range(1, dn)]
        tot = padd(d.value(N), pscale(d.value(Q), D), -1)
        d.fact(tot, 0, D - 1)
        lo = tot
        for i, x in enumerate(hi):
            lo = padd(lo, x.p, -(1 << (64 * (i + 1))))
        d.fact(lo, 0, M64)
        for i, w in enumerate(Q):
            it.store(q + 8 * i, 8, w)
        for i, w in enumerate([W(lo)] + hi):
            it.store(r + 8 * i, 8, w)
    it.on(r'^__gmpn_tdiv_qr$', tdiv)
