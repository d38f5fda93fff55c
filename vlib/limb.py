"""Layer-1 domain: 64-bit machine words as exact integer polynomials.

A word is a polynomial over Z in the input limbs, in the high halves of
products and in carries.  Low halves and wrapped sums are eliminated by their
defining equations (lo = a*b - 2^64*hi, s = a + b + c - 2^64*carry), so carries
telescope in the final identity; every word contributes the exact fact
0 <= poly < 2^64.  Two back ends discharge what remains:
  * congruences: polynomial normal form modulo the prime,
  * ranges (no lost carry, result < p, result of the final subtraction): linear
    real arithmetic over the monomials (z3), with the product facts
    x*(Ymax - Y) >= 0 for a limb x and an operand Y <= Ymax.
Branches are explored path by path, each path adding its condition as a fact."""
import z3
from core import UNDEF, Unsupported, MemError, NullDomain, sgn
W64 = 1 << 64
M64 = W64 - 1


class W:
    __slots__ = ('p', 'mx')

    def __init__(self, p, mx=M64):
        self.p, self.mx = p, mx

    def __repr__(self):
        return 'W(%d terms, <=%#x)' % (len(self.p), self.mx)


class Cmp:
    """three-way comparison of two integers given as polynomials"""
    def __init__(self, a, b):
        self.a, self.b = a, b


class Zero:
    """a word of which only one thing is known: it is zero iff x = y for each pair (x, y) of t"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            t = tuple(sorted(m + n))
            v = r.get(t, 0) + c * d
            if v:
                r[t] = v
            else:
                r.pop(t, None)
    return r


def pc(k):
    return {(): k} if k else {}


def P(v):
    return pc(v) if type(v) is int else v.p


class Infeasible(Exception):
    pass


class LimbDomain(NullDomain):
    def __init__(self, decisions=()):
        self.decisions = list(decisions)
        self.pos = 0
        self.n = 0
        self.facts = []        # (poly, lo, hi)
        self.vec = {}          # atom -> (list of (atom) , max)
        self.subst = {}        # atom -> int
        self.names = []
        self.zv = {}
        self.solver = z3.SolverFor('QF_LRA')
        self.pairs = set()
        self.queries = 0
        self.trail = []

    # -- atoms and facts
    def atom(self, name, mx=M64):
        i = len(self.names)
        self.names.append(name)
        w = W({(i,): 1}, mx)
        self.fact(w.p, 0, mx)
        return w

    def zpoly(self, p):
        t = []
        for m, c in p.items():
            if m == ():
                t.append(z3.RealVal(c))
            else:
                v = self.zv.get(m)
                if v is None:
                    v = self.zv[m] = z3.Real('m' + '_'.join(map(str, m)))
                t.append(z3.RealVal(c) * v)
        return z3.Sum(t) if t else z3.RealVal(0)

    def fact(self, p, lo=None, hi=None):
        self.facts.append((p, lo, hi))
        z = self.zpoly(p)
        if lo is not None:
            self.solver.add(z >= z3.RealVal(lo))
        if hi is not None:
            self.solver.add(z <= z3.RealVal(hi))

    def operand(self, name, n, mx):
        """an n-limb integer 0 <= X <= mx"""
        ws = [self.atom('%s%d' % (name, i)) for i in range(n)]
        ids = [next(iter(w.p))[0] for w in ws]
        if mx < (1 << 64 * n) - 1:
            self.fact(self.value(ws), 0, mx)
        for i in ids:
            self.vec[i] = (ids, mx)
        return ws

    def value(self, ws):
        r = {}
        for i, w in enumerate(ws):
            r = padd(r, P(w), 1 << (64 * i))
        return r

    def product_facts(self, p):
        for m in p:
            if len(m) != 2:
                if len(m) > 2:
                    raise Unsupported('cubic word')
                continue
            for x, y in (m, m[::-1]):
                v = self.vec.get(y)
                if v is None:
                    if (x, y) not in self.pairs:
                        self.pairs.add((x, y))
                        self.fact({m: 1}, 0, M64 * M64)
                    continue
                k = (x, v[0][0])
                if k in self.pairs:
                    continue
                self.pairs.add(k)
                ids, mx = v
                Y = {tuple(sorted((x, i))): 1 << (64 * j) for j, i in enumerate(ids)}
                self.fact(padd({(x,): mx}, Y, -1), 0, None)
                for i in ids:
                    t = tuple(sorted((x, i)))
                    self.fact({t: 1}, 0, None)
                    self.fact(padd({(i,): M64}, {t: 1}, -1), 0, None)
                    self.fact(padd({(x,): M64}, {t: 1}, -1), 0, None)

    def proves(self, p, lo=None, hi=None):
        """are the bounds implied by the facts of this path"""
        self.queries += 1
        z = self.zpoly(p)
        neg = []
        if lo is not None:
            neg.append(z <= z3.RealVal(lo - 1))
        if hi is not None:
            neg.append(z >= z3.RealVal(hi + 1))
        self.solver.push()
        self.solver.set('timeout', 60000)
        self.solver.add(z3.Or(neg))
        r = self.solver.check()
        self.solver.pop()
        if r == z3.unknown:
            raise Unsupported('linear arithmetic query not answered')
        return r == z3.unsat

    def decide(self, what, yes, no):
        """split; yes / no are lists of facts (poly, lo, hi)"""
        if self.pos < len(self.decisions):
            r = self.decisions[self.pos]
        else:
            r = False
            self.decisions.append(False)
        self.pos += 1
        self.trail.append((what, r))
        for p, lo, hi in (yes if r else no):
            self.fact(p, lo, hi)
        return r

    def infeasible(self):
        self.queries += 1
        return self.solver.check() == z3.unsat

    # -- words
    def norm(self, p):
        return {m: c for m, c in p.items() if c}

    def mkw(self, p, mx=M64):
        if not p:
            return 0
        if len(p) == 1 and () in p:
            return p[()]
        return W(p, mx)

    def mulw(self, a, b):
        if type(a) is int and type(b) is int:
            t = a * b
            return t & M64, t >> 64
        if type(a) is int and a == 0 or type(b) is int and b == 0:
            return 0, 0
        pa, pb = self.sub_(P(a)), self.sub_(P(b))
        if type(a) is not int and type(b) is not int:
            # keep products bilinear in the input limbs
            if any(len(m) > 1 for m in pa) or any(len(m) > 1 for m in pb):
                raise Unsupported('product of derived words')
        t = pmul(pa, pb)
        self.product_facts(t)
        mx = (a if type(a) is int else a.mx) * (b if type(b) is int else b.mx)
        if mx <= M64:
            return self.mkw(t, mx), 0
        if all(c % W64 == 0 for c in t.values()):
            return 0, self.mkw({m: c >> 64 for m, c in t.items()}, mx >> 64)
        h = self.atom('h%d' % len(self.names), mx >> 64)
        lo = padd(t, h.p, -W64)
        self.fact(lo, 0, M64)
        return W(lo), h

    def sub_(self, p):
        if not self.subst or not any(a in self.subst for m in p for a in m):
            return p
        r = {}
        for m, c in p.items():
            k = c
            n = []
            for a in m:
                if a in self.subst:
                    k *= self.subst[a]
                else:
                    n.append(a)
            n = tuple(n)
            v = r.get(n, 0) + k
            if v:
                r[n] = v
            else:
                r.pop(n, None)
        return r

    def addc(self, a, b, c=0):
        if all(type(x) is int for x in (a, b, c)):
            t = a + b + c
            return t & M64, t >> 64
        t = self.sub_(padd(padd(P(a), P(b)), P(c)))
        mx = sum(x if type(x) is int else x.mx for x in (a, b, c))
        if mx <= M64:
            return self.mkw(t, mx), 0
        if all(k % W64 == 0 for k in t.values()):
            # a multiple of 2^64: the word is zero and the carry is exact
            q = self.mkw({m: k >> 64 for m, k in t.items()}, mx >> 64)
            if type(q) is not int:
                self.fact(q.p, 0, mx >> 64)
            return 0, q
        k = self.atom('c%d' % len(self.names), mx >> 64)
        lo = padd(t, k.p, -W64)
        self.fact(lo, 0, M64)
        return W(lo), k

    def subb(self, a, b, c=0):
        if all(type(x) is int for x in (a, b, c)):
            t = a - b - c
            return t & M64, int(t < 0)
        if a is b and type(c) is int and c == 0:
            return 0, 0
        t = self.sub_(padd(padd(P(a), P(b), -1), P(c), -1))
        if not t:
            return 0, 0
        k = self.atom('b%d' % len(self.names), 1)
        lo = padd(t, k.p, W64)
        self.fact(lo, 0, M64)
        return W(lo), k

    # -- tests (decided by splitting)
    def less(self, a, b):
        return self.pless(P(a), P(b))

    def pless(self, a, b):
        d = self.sub_(padd(a, b, -1))
        if not d or set(d) == {()}:
            return d.get((), 0) < 0
        return self.decide('<', [(d, None, -1)], [(d, 0, None)])

    def equal(self, a, b):
        return self.pequal(P(a), P(b))

    def pequal(self, a, b):
        d = self.sub_(padd(a, b, -1))
        if not d or set(d) == {()}:
            return d.get((), 0) == 0
        if self.decide('==', [(d, 0, 0)], []):
            return True
        if self.decide('<', [(d, None, -1)], [(d, 1, None)]):
            pass
        return False

    def nonzero(self, a):
        if type(a) is int:
            return a != 0
        p = self.sub_(a.p)
        if len(p) == 1:
            (m, k), = p.items()
            if m == ():
                return k != 0
            if len(m) == 1 and k == 1 and a.mx == 1:
                r = self.decide('carry', [(p, 1, 1)], [(p, 0, 0)])
                self.subst[m[0]] = int(r)
                return r
        r = self.decide('nonzero', [(p, 1, None)], [(p, 0, 0)])
        if not r and len(p) == 1 and len(next(iter(p))) == 1:
            self.subst[next(iter(p))[0]] = 0
        return r

    # -- IR instructions on words
    def binop(self, op, w, a, b):
        if w == 64 and isinstance(a, (int, W)) and isinstance(b, (int, W)):
            if op == 'add':
                return self.addc(a, b)[0]
            if op == 'sub':
                return self.subb(a, b)[0]
            if op == 'mul':
                return self.mulw(a, b)[0]
            if op == 'xor' and (a is b):
                return 0
        if w == 64 and op in ('or', 'xor') and all(isinstance(x, (int, W, Zero)) for x in (a, b)):
            if op == 'xor' and not isinstance(a, Zero) and not isinstance(b, Zero):
                return Zero([(a, b)])
            if type(a) is int and a == 0 or a is b:
                return b if op == 'or' else Zero([(a, b)])
            if type(b) is int and b == 0:
                return a
            if op == 'or':
                return Zero((a.t if isinstance(a, Zero) else [(a, 0)]) + (b.t if isinstance(b, Zero) else [(b, 0)]))
        raise Unsupported('limb %s' % op)

    def icmp(self, pred, w, a, b):
        if isinstance(b, Cmp):
            a, b = b, a
            pred = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}.get(pred, pred)
        if isinstance(a, Cmp):
            if type(b) is not int or b != 0:
                raise Unsupported('comparison result')
            if pred == 'slt':
                return int(self.pless(a.a, a.b))
            if pred == 'sge':
                return int(not self.pless(a.a, a.b))
            if pred == 'sgt':
                return int(self.pless(a.b, a.a))
            if pred == 'sle':
                return int(not self.pless(a.b, a.a))
            if pred in ('eq', 'ne'):
                return int(self.pequal(a.a, a.b) == (pred == 'eq'))
        if isinstance(a, Zero) or isinstance(b, Zero):
            if isinstance(b, Zero):
                a, b = b, a
                pred = {'ult': 'ugt', 'ugt': 'ult', 'uge': 'ule', 'ule': 'uge'}.get(pred, pred)
            if type(b) is int and b == 0 and pred in ('eq', 'ne', 'ugt', 'ule'):
                z = all(not self.nonzero(x) if type(y) is int and y == 0 else self.equal(x, y) for x, y in a.t)
                return int(z == (pred in ('eq', 'ule')))
            raise Unsupported('bits of a combined word')
        if w in (64, 32, 1):
            if pred in ('eq', 'ne'):
                if type(b) is int and b == 0:
                    return int(self.nonzero(a) == (pred == 'ne'))
                if type(a) is int and a == 0:
                    return int(self.nonzero(b) == (pred == 'ne'))
                return int(self.equal(a, b) == (pred == 'eq'))
            if pred == 'ult':
                return int(self.less(a, b))
            if pred == 'uge':
                return int(not self.less(a, b))
            if pred == 'ugt':
                return int(self.less(b, a))
            if pred == 'ule':
                return int(not self.less(b, a))
            if pred in ('sge', 'slt') and type(b) is int and b == 0 and isinstance(a, W):
                # sign of a signed word
                r = self.decide('sign', [(a.p, 1 << 63, None)], [(a.p, None, (1 << 63) - 1)])
                return int(r == (pred == 'slt'))
            if pred == 'sgt' and type(b) is int and b == M64 and isinstance(a, W):
                return int(not self.decide('sign', [(a.p, 1 << 63, None)], [(a.p, None, (1 << 63) - 1)]))
        raise Unsupported('limb comparison %s' % pred)

    def intrinsic(self, name, w, a):
        raise Unsupported('intrinsic ' + name)

    # -- obligations
    def settle(self, p):
        """fix the carries and borrows of p whose value is forced on this path"""
        for m in sorted(p):
            if len(m) == 1 and m[0] not in self.subst and self.names[m[0]][0] in 'cbq' and self.names[m[0]][1:].isdigit():
                for v, lo, hi in ((0, None, 0), (1, 1, None)):
                    if self.proves({m: 1}, lo, hi):
                        self.subst[m[0]] = v
                        self.fact({m: 1}, v, v)
                        break

    def eliminate(self, p, mod):
        """drop carries that are provably zero, then reduce the coefficients"""
        p = self.sub_(p)
        bad = {m: c for m, c in p.items() if c % mod}
        if not bad:
            return {}
        self.settle(bad)
        p = self.sub_(p)
        return {m: c for m, c in p.items() if c % mod}


def gmp(it, dom):
    """assumed contracts of the GMP mpn functions (manual, section 8)"""
    def ld(a, n):
        return [it.load(a + 8 * i, 8) for i in range(n)]

    def st(a, ws):
        for i, w in enumerate(ws):
            it.store(a + 8 * i, 8, w)

    def init(ws):
        if any(w is UNDEF for w in ws):
            raise MemError('mpn function reads an uninitialised limb')
        return ws

    def N(n):
        if type(n) is not int:
            raise Unsupported('symbolic limb count')
        n = sgn(n, 64)
        if n < 0:
            raise MemError('negative limb count')
        return n

    def copyi(it, a, m):
        st(a[0], ld(a[1], N(a[2])))
    it.on(r'^__gmpn_copyi$', copyi)

    def zero(it, a, m):
        st(a[0], [0] * N(a[1]))
    it.on(r'^__gmpn_zero$', zero)

    def cmp(it, a, m):
        n = N(a[2])
        x, y = init(ld(a[0], n)), init(ld(a[1], n))
        px, py = dom.value(x), dom.value(y)
        if set(px) <= {()} and set(py) <= {()}:
            s, t = px.get((), 0), py.get((), 0)
            return (0 if s == t else 1 if s > t else 0xffffffff)
        return Cmp(px, py)
    it.on(r'^__gmpn_cmp$', cmp)

    def ripple(f, rp, x, y, c):
        r = []
        for p, q in zip(x, y):
            v, c = f(p, q, c)
            r.append(v)
        st(rp, r)
        return c

    def add_n(it, a, m):
        n = N(a[3])
        return ripple(dom.addc, a[0], init(ld(a[1], n)), init(ld(a[2], n)), 0)
    it.on(r'^__gmpn_add_n$', add_n)

    def sub_n(it, a, m):
        n = N(a[3])
        return ripple(dom.subb, a[0], init(ld(a[1], n)), init(ld(a[2], n)), 0)
    it.on(r'^__gmpn_sub_n$', sub_n)

    def gen(f):
        def h(it, a, m):
            n, k = N(a[2]), N(a[4])
            if k > n:
                raise MemError('mpn operand sizes')
            return ripple(f, a[0], init(ld(a[1], n)), init(ld(a[3], k)) + [0] * (n - k), 0)
        return h
    it.on(r'^__gmpn_sub$', gen(dom.subb))
    it.on(r'^__gmpn_add$', gen(dom.addc))

    def one(f):
        def h(it, a, m):
            n = N(a[2])
            return ripple(f, a[0], init(ld(a[1], n)), [a[3]] + [0] * (n - 1), 0)
        return h
    it.on(r'^__gmpn_add_1$', one(dom.addc))
    it.on(r'^__gmpn_sub_1$', one(dom.subb))

    def mul_n(it, a, m):
        n = N(a[3])
        x, y = init(ld(a[1], n)), init(ld(a[2], n))
        if a[0] >> 32 in (a[1] >> 32, a[2] >> 32):
            raise MemError('mpn_mul_n with overlapping operands')
        t = pmul(dom.value(x), dom.value(y))
        dom.product_facts(t)
        if set(t) <= {()}:
            v = t.get((), 0)
            st(a[0], [(v >> (64 * i)) & M64 for i in range(2 * n)])
            return
        hi = [dom.atom('p%d_%d' % (len(dom.names), i)) for i in range(1, 2 * n)]
        lo = t
        for i, h in enumerate(hi):
            lo = padd(lo, h.p, -(1 << (64 * (i + 1))))
        dom.fact(lo, 0, M64)
        st(a[0], [W(lo)] + hi)
    it.on(r'^__gmpn_mul_n$', mul_n)

    def addmul_1(it, a, m):
        n = N(a[2])
        x, r, k = init(ld(a[1], n)), init(ld(a[0], n)), a[3]
        out = []
        c = 0
        for p, q in zip(x, r):
            lo, hi = dom.mulw(p, k)
            lo, c1 = dom.addc(lo, q, 0)
            lo, c2 = dom.addc(lo, c, 0)
            out.append(lo)
            t = padd(padd(P(hi), P(c1)), P(c2))
            c = dom.mkw(t, M64)     # hi + c1 + c2 < 2^64 since p*k + q + c < 2^128
            if type(c) is not int:
                dom.fact(t, 0, M64)
        st(a[0], out)
        return c
    it.on(r'^__gmpn_addmul_1$', addmul_1)
