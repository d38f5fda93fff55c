"""C14: the final exponentiations, executed on the exponents of their argument.
The multiplicative group of F_{q^k} has order N = q^k - 1, so an element is
represented by an integer e mod N standing for x^e, x any nonzero element."""
import re, math
from oblig import *
import core, params as PR
from core import Abs, UNDEF, Unsupported
from scalar import explore_choices
from pair_cases import CURVES, top, fe_exponent

PHI = {4: lambda q: q * q + 1, 6: lambda q: q * q - q + 1, 12: lambda q: q**4 - q**2 + 1}


class Exp(core.NullDomain):
    """the argument is g^t for a generator g and any t = t0 mod M (M divides N; initially M = 1: every t)"""

    def __init__(self, size, N, conj):
        self.size, self.N, self.conjq = size, N, conj
        self.pre = []
        self.t0, self.M = 0, 1
        self.decisions, self.pos = [], 0

    def eq(self, e, f):
        """do x^e and x^f agree for every argument of this path"""
        d = e - f
        return d * self.t0 % self.N == 0 and d * self.M % self.N == 0

    def never(self, e, c):
        """g^(t e) = g^c for no t of this path"""
        return (c - e * self.t0) % math.gcd(e * self.M, self.N) != 0

    def split(self, e, c):
        """decide whether x^e = g^c; the positive branch narrows the argument"""
        N = self.N
        e, c = e % N, c % N
        if e * self.M % N == 0:
            return e * self.t0 % N == c
        if self.never(e, c):
            return False
        if self.pos == len(self.decisions):
            self.decisions.append((0, 2))
        v = self.decisions[self.pos][0]
        self.pos += 1
        if v:
            # e (t0 + M s) = c mod N
            A, B = e * self.M % N, (c - e * self.t0) % N
            g = math.gcd(A, N)
            s0 = B // g * pow(A // g, -1, N // g) % (N // g)
            self.t0, self.M = self.t0 + self.M * s0, self.M * (N // g)
            self.t0 %= N
            return True
        return False

    def split_abs(self, v, at, n):
        if v.kind == 'elt' and n * 2 == self.size and at in (0, n):
            return Abs(n, 'part', (v.val, at, False))
        return None

    def join_abs(self, parts, size):
        if size != self.size or len(parts) != 2:
            return None
        (n0, a), (n1, b) = parts
        if not all(isinstance(x, Abs) and x.kind == 'part' for x in (a, b)):
            return None
        (e, ai, an), (f, bi, bn) = a.val, b.val
        if ai != 0 or bi != size // 2 or an:
            return None
        # (c0, c1) = x^e ; (c0, -c1) = its q^(k/2)-conjugate
        if e == f:
            return Abs(size, 'elt', e * self.conjq % self.N if bn else e)
        if e * self.conjq % self.N == f:
            return Abs(size, 'elt', e if bn else e * self.conjq % self.N) if bn else None
        return None


class FE:
    def __init__(self, m, img, name):
        self.m, self.name = m, name
        self.mod, self.cls = top(name)
        self.q, self.nl = PR.PRIMES[self.mod]
        self.k = CURVES[name][2]
        self.N = self.q**self.k - 1
        self.size = PR.tsize(self.mod, self.cls)
        self.D = d = Exp(self.size, self.N, self.q**(self.k // 2))
        self.it = it = core.Interp(m, d, img)
        d.it = it
        self.used = {}
        self.full = 'libff::%s<%dl, libff::%s>' % (self.cls, self.nl, self.mod)
        self.half = 'libff::%s<%dl, libff::%s>' % (PR.TOWERS[self.mod][self.cls][0], self.nl, self.mod)
        for c, h in ((self.full, self.method), (self.half, self.hmethod)):
            e = re.escape(c)
            it.on(r'(?:^|> )(?:%s&? )?%s::(operator[^(<]*|\w+)(?:<\d+l?>)?\((.*)\)( const)?$' % (e, e), h)
        it.on(r'^libff::(enter_block|leave_block)\(', lambda *a: None)
        it.on(r'^std::__cxx11::basic_string<|^std::allocator<char>::', lambda *a: None)

    def get(self, a):
        v = self.it.load(a, self.size)
        if isinstance(v, Abs) and v.kind == 'elt':
            return v.val
        raise Unsupported('field element from raw words')

    def put(self, a, e):
        self.it.store(a, self.size, Abs(self.size, 'elt', e % self.N))

    def bigint(self, a, n):
        r = 0
        for i in range(n):
            w = self.it.load(a + 8 * i, 8)
            if type(w) is not int:
                raise Unsupported('symbolic exponent')
            r |= w << (64 * i)
        return r

    def cyc(self, e, what):
        ok = self.D.eq(e * PHI[self.k](self.q), 0)
        self.D.pre.append((what, ok))

    def method(self, it, a, mm):
        meth, sig, const = mm.groups()
        same = sig.replace(' ', '') == (self.full + ' const&').replace(' ', '')
        short = self.cls
        g, put = self.get, self.put
        self.used[meth] = self.used.get(meth, 0) + 1
        if meth == short and same or meth == 'operator=' and same:
            it.copy(a[0], a[1], self.size)
            return a[0]
        if meth == short:
            if sig == '':
                return None
            return NotImplemented
        if meth == 'operator*' and same:
            put(a[0], g(a[1]) + g(a[2]))
        elif meth in ('squared', 'squared_karatsuba', 'squared_complex'):
            put(a[0], 2 * g(a[1]))
        elif meth == 'cyclotomic_squared':
            self.cyc(g(a[1]), 'cyclotomic_squared is applied to members of the cyclotomic subgroup')
            put(a[0], 2 * g(a[1]))
        elif meth == 'inverse':
            put(a[0], -g(a[1]))
        elif meth == 'unitary_inverse':
            put(a[0], g(a[1]) * self.D.conjq)
        elif meth == 'Frobenius_map':
            if type(a[2]) is not int:
                raise Unsupported('symbolic Frobenius power')
            put(a[0], g(a[1]) * self.q**(a[2] % self.k))
        elif meth == 'one':
            put(a[0], 0)
        elif meth in ('operator==', 'operator!=') and same:
            return int(self.D.split(g(a[0]) - g(a[1]), 0) == (meth == 'operator=='))
        elif meth == 'is_zero':
            return 0
        elif meth in ('operator*=', 'square', 'invert') and a[0] in (a[0],):
            e = g(a[0])
            put(a[0], e + g(a[1]) if meth == 'operator*=' else 2 * e if meth == 'square' else -e)
            return a[0]
        elif meth in ('operator^', 'cyclotomic_exp', 'operator^='):
            n = re.match(r'libff::bigint<(\d+)l> const&$', sig)
            f = re.match(r'libff::Fp_model<(\d+)l, libff::(\w+)> const&$', sig)
            if n:
                k = self.bigint(a[-1], int(n.group(1)))
            elif sig in ('unsigned long', 'unsigned long long') and type(a[-1]) is int:
                k = a[-1]
            else:
                return NotImplemented
            e = g(a[0] if meth == 'operator^=' else a[1])
            if meth == 'cyclotomic_exp':
                self.cyc(e, 'cyclotomic_exp is applied to members of the cyclotomic subgroup')
            put(a[0], e * k)
            if meth == 'operator^=':
                return a[0]
        else:
            return NotImplemented
        return None

    def hmethod(self, it, a, mm):
        meth, sig, const = mm.groups()
        n = self.size // 2
        short = self.half.split('::')[1].split('<')[0]
        if sig.replace(' ', '') == (self.half + ' const&').replace(' ', '') and meth in (short, 'operator='):
            it.copy(a[0], a[1], n)
            return a[0]
        if meth == short and sig == '':
            return None
        if meth == 'operator-' and sig == '':
            v = it.load(a[1], n)
            if isinstance(v, Abs) and v.kind == 'part':
                e, i, neg = v.val
                it.store(a[0], n, Abs(n, 'part', (e, i, not neg)))
                return None
        if meth == 'is_zero':
            v = it.load(a[0], n)
            if isinstance(v, Abs) and v.kind == 'part':
                # c1 = 0: x^e in the subfield; c0 = 0: its q^(k/2)-conjugate is its negative
                e, i, neg = v.val
                return int(self.D.split(e * (self.D.conjq - 1), self.N // 2 if i == 0 else 0))
        raise Unsupported('%s on a half of an element' % meth)


def c14_tasks(env):
    m, img = env.m, env.img
    out = []
    for name in CURVES:
        for rx in (r'^libff::%s_final_exponentiation\(' % name, r'^libff::%s_pp::final_exponentiation\(' % name):
            fns = m.find(rx)
            if len(fns) != 1:
                out.append(missing(name, rx))
                continue
            fn = fns[0]

            def body(meta, fn=fn, name=name):
                want = fe_exponent(name)
                agg = {}
                for d in explore_choices(lambda dec: one(meta, fn, name, want, dec)):
                    for nm, ok, info in d.out:
                        if nm not in agg or (agg[nm][0] == PROVED and not ok):
                            agg[nm] = (PROVED if ok else REFUTED, info)
                for nm, t in agg.items():
                    yield (nm,) + t

            def one(meta, fn, name, want, dec):
                f = FE(m, img, name)
                f.D.decisions = dec
                r = PR.CURVES[CURVES[name][0]].r
                A, O = f.it.alloc(f.size, 'argument'), f.it.alloc(f.size, 'result')
                f.put(A, 1)
                f.it.call(fn, [O, A])
                e = f.get(O)
                meta['contracts'] = {f.cls + '::' + k: v for k, v in f.used.items()}
                meta['inlined'] = sorted(set(f.it.called))
                D = f.D
                by = {}
                for w, ok in D.pre:
                    by[w] = by.get(w, True) and ok
                res = [(w, ok, '') for w, ok in by.items()]
                base = f.N // r
                res.append(('result has order dividing r', D.eq(e * r, 0), 'exponent %d' % e))
                if D.M == 1:
                    res.append(('the multiple is prime to r', e % base == 0 and math.gcd(e // base, r) == 1, ''))
                res.append(('exponent is the published one', D.eq(e, want), 'exponent difference %d for arguments g^t, t = %d mod %d' % ((e - want) % f.N, D.t0, D.M)))
                res.append(('argument unchanged', f.get(A) == 1, ''))
                D.out = res
                return D
            out.append(Task('%s %s' % (name, m.dem(fn).split('(')[0].split('libff::')[-1]), m.dem(fn), body, backend='exponent arithmetic modulo q^k-1'))
    return out


def missing(name, rx):
    def body(meta):
        raise Unsupported('no function matches ' + rx)
        yield
    return Task('%s %s' % (name, rx), rx, body, backend='none')
