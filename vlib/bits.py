"""Bit domain: every bit of a machine word is a polynomial over GF(2) (algebraic
normal form) in named input bits.  Exact for xor, and, or, shifts, masks,
carry-less products, selects and branches on a bit (both sides merged)."""
from core import NullDomain, Unsupported, UNDEF, Abs, sgn
from core import merge_branch
import random

ZERO, ONE = frozenset(), frozenset((0,))


def bxor(x, y):
    return x ^ y


def band(x, y):
    if not x or not y:
        return ZERO
    if x == ONE:
        return y
    if y == ONE:
        return x
    if x is y:
        return x
    if len(x) * len(y) > 400000:
        raise Unsupported('bit polynomial too large')
    r = set()
    for a in x:
        for b in y:
            m = a | b
            if m in r:
                r.remove(m)
            else:
                r.add(m)
    return frozenset(r)


OR = {}     # disjunctions met, with their operands


def bor(x, y):
    r = x ^ y ^ band(x, y)
    if x and y and x != y and len(r) > 1:
        if len(OR) > 200000:
            OR.clear()
        OR[r] = (x, y)
    return r


def disjuncts(b):
    todo, out = [b], []
    while todo:
        c = todo.pop()
        if c in OR:
            todo.extend(OR[c])
        else:
            out.append(c)
    return out


class BV:
    __slots__ = ('bits',)

    def __init__(self, bits):
        self.bits = bits

    def __repr__(self):
        return 'BV%d' % len(self.bits)


def bits_of(v, w):
    if type(v) is int:
        return tuple(ONE if v >> i & 1 else ZERO for i in range(w))
    if isinstance(v, BV):
        if len(v.bits) != w:
            if all(not b for b in v.bits[w:]):
                return (v.bits + (ZERO,) * w)[:w]
            raise Unsupported('width')
        return v.bits
    if isinstance(v, Cond):
        raise Unsupported('comparison result used as a number')
    raise Unsupported('not a word: %r' % (v,))


def mk(bits):
    n = 0
    for i, b in enumerate(bits):
        if b == ONE:
            n |= 1 << i
        elif b:
            return BV(tuple(bits))
    return n


class Cond:
    """all the bits of a set are zero (or not, when neg)"""
    __slots__ = ('bits', 'neg')

    def __init__(self, bits, neg=False):
        self.bits, self.neg = bits, neg


class Infeasible(Exception):
    pass


class BitDomain(NullDomain):
    def __init__(self, decisions=()):
        self.decisions = list(decisions)
        self.pos = 0
        self.vars = []
        self.sub = {}        # variable bit -> polynomial without it (linear facts)
        self.zero_facts = []  # polynomials known to be 0
        self.nz_facts = []   # sets of polynomials known not to be all 0
        self.path = []

    # -- inputs
    def word(self, name, w):
        bs = []
        for i in range(w):
            self.vars.append((name, i))
            bs.append(frozenset((1 << (len(self.vars) - 1),)))
        return BV(tuple(bs))

    def norm(self, b):
        if not self.sub:
            return b
        r = frozenset()
        for m in b:
            t = ONE
            k, i = m, 0
            while k:
                low = k & -k
                k ^= low
                s = self.sub.get(low)
                t = band(t, s if s is not None else frozenset((low,)))
            r = r ^ t
        return r

    def impose_zero(self, bits):
        for b in [c for b in bits for c in disjuncts(b)]:
            b = self.norm(b)
            if not b:
                continue
            if b == ONE:
                self.infeasible()
            self.zero_facts.append(b)
            lin = [m for m in b if m & (m - 1) == 0 and m and not any(x & m and x != m for x in b)]
            if lin:
                v = lin[0]
                e = b ^ frozenset((v,))
                self.sub = {k: self._subst1(x, v, e) for k, x in self.sub.items()}
                self.sub[v] = e

    def _subst1(self, p, v, e):
        keep = frozenset(m for m in p if not m & v)
        r = keep
        for m in p:
            if m & v:
                r = r ^ band(frozenset((m ^ v,)), e)
        return r

    def infeasible(self):
        e = Unsupported('infeasible')
        e.dom = self
        raise e

    def decide(self, bits):
        """are all these bits zero? (explored both ways)"""
        bits = [self.norm(b) for b in bits]
        bits = [b for b in bits if b]
        if not bits:
            return True
        if any(b == ONE for b in bits):
            return False
        key = frozenset(bits)
        for s in self.nz_facts:
            if s <= key:
                return False
        if self.pos < len(self.decisions):
            y = self.decisions[self.pos]
        else:
            y = False
            self.decisions.append(y)
        self.pos += 1
        self.path.append('%d bits %s' % (len(bits), 'all zero' if y else 'not all zero'))
        if y:
            self.impose_zero(bits)
        else:
            self.nz_facts.append(key)
        return y

    # -- counterexamples
    def witness(self, diff, tries=4000, seed=1):
        """an assignment of the inputs that satisfies the path and makes `diff` 1"""
        rng = random.Random(seed)
        n = len(self.vars)
        diff = self.norm(diff)
        zf = [self.norm(b) for b in self.zero_facts]
        nz = [[self.norm(b) for b in s] for s in self.nz_facts]

        def ev(p, a):
            return sum(1 for m in p if m & a == m) & 1
        shortest = min(diff, key=lambda m: bin(m).count('1')) if diff else 0
        for t in range(tries):
            k = t % 4
            a = shortest if t == 0 else (rng.getrandbits(n) if k == 0 else shortest | (rng.getrandbits(n) & rng.getrandbits(n) & rng.getrandbits(n)) if k < 3 else rng.choice(list(diff)))
            for v, e in self.sub.items():
                a &= ~v
            for v, e in self.sub.items():
                if ev(e, a):
                    a |= v
            if ev(diff, a) and not any(ev(z, a) for z in zf) and all(any(ev(b, a) for b in s) for s in nz):
                r = {}
                for i, (nm, j) in enumerate(self.vars):
                    r[nm] = r.get(nm, 0) | ((a >> i & 1) << j)
                return r
        return None

    # -- hooks
    def zext(self, v, w, w2):
        if isinstance(v, Cond):
            return self.cond_bit(v)
        return mk(bits_of(v, w) + (ZERO,) * (w2 - w))

    def sext(self, v, w, w2):
        if isinstance(v, Cond):
            b = self.cond_bit(v)
            return b * ((1 << w2) - 1)
        b = bits_of(v, w)
        return mk(b + (b[-1],) * (w2 - w))

    def cond_bit(self, c):
        return int(self.decide(c.bits) != c.neg)

    def trunc(self, v, w, w2):
        if isinstance(v, Cond):
            return v
        return mk(bits_of(v, w)[:w2])

    def extract(self, v, tot, lo, n):
        return mk(bits_of(v, tot)[lo:lo + n])

    def concat(self, parts):
        out = ()
        for nb, v in parts:
            out += bits_of(v, 8 * nb)
        return mk(out)

    def binop(self, op, w, a, b):
        if isinstance(a, Cond) or isinstance(b, Cond):
            if op == 'xor' and type(b) is int and w == 1:
                return Cond(a.bits, a.neg ^ bool(b)) if b & 1 else a
            if op in ('and', 'or', 'xor') and w == 1:
                a = self.cond_bit(a) if isinstance(a, Cond) else a
                b = self.cond_bit(b) if isinstance(b, Cond) else b
                if type(a) is int and type(b) is int:
                    return {'and': a & b, 'or': a | b, 'xor': a ^ b}[op]
            else:
                raise Unsupported('arithmetic on a comparison')
        x = bits_of(a, w)
        if op in ('shl', 'lshr', 'ashr'):
            if type(b) is not int:
                raise Unsupported('symbolic shift count')
            if b >= w:
                from core import MemError
                raise MemError('shift of a %d-bit value by %d' % (w, b))
            if op == 'shl':
                return mk(((ZERO,) * b + x)[:w])
            f = ZERO if op == 'lshr' else x[-1]
            return mk(x[b:] + (f,) * b)
        y = bits_of(b, w)
        if op == 'xor':
            return mk(tuple(p ^ q for p, q in zip(x, y)))
        if op == 'and':
            return mk(tuple(band(p, q) for p, q in zip(x, y)))
        if op == 'or':
            return mk(tuple(bor(p, q) for p, q in zip(x, y)))
        if op in ('add', 'sub'):
            c = ONE if op == 'sub' else ZERO
            if op == 'sub':
                y = tuple(q ^ ONE for q in y)
            r = []
            for p, q in zip(x, y):
                s = p ^ q
                r.append(s ^ c)
                c = band(p, q) ^ band(c, s)
                if len(c) > 3000:
                    raise Unsupported('carry chain too large')
            return mk(r)
        if op == 'mul' or op in ('udiv', 'urem'):
            for u, v in ((a, b), (b, a)):
                if type(v) is int and v and v & (v - 1) == 0:
                    k = v.bit_length() - 1
                    if op == 'mul':
                        return self.binop('shl', w, u, k)
                    if u is a:
                        return self.binop('lshr', w, u, k) if op == 'udiv' else self.binop('and', w, u, v - 1)
        raise Unsupported('%s on bit polynomials' % op)

    def icmp(self, pred, w, a, b):
        if isinstance(a, Cond) or isinstance(b, Cond):
            a = self.cond_bit(a) if isinstance(a, Cond) else a
            b = self.cond_bit(b) if isinstance(b, Cond) else b
            if type(a) is int and type(b) is int:
                return self.it.icmp(pred, w, a, b)
        x, y = bits_of(a, w), bits_of(b, w)
        if pred in ('eq', 'ne'):
            d = [self.norm(p ^ q) for p, q in zip(x, y)]
            d = [p for p in d if p]
            if any(p == ONE for p in d):
                return int(pred == 'ne')
            if not d:
                return int(pred == 'eq')
            if len(d) == 1:
                return mk((d[0] ^ (ONE if pred == 'eq' else ZERO),))
            return Cond(d, pred == 'ne')
        if pred == 'slt' and type(b) is int and b == 0:
            return mk((x[-1],))
        if pred == 'sgt' and type(b) is int and b == (1 << w) - 1:
            return mk((x[-1] ^ ONE,))
        # bits above the highest disagreement are equal: compare by the highest bit that can differ
        d = [i for i in range(w) if self.norm(x[i] ^ y[i])]
        if not d:
            return int(pred[1:] in ('ge', 'le'))
        if pred[0] == 'u':
            lt = ZERO
            for i in range(w):
                lt = band(x[i] ^ ONE, y[i]) ^ band(x[i] ^ y[i] ^ ONE, lt)
                if len(lt) > 3000:
                    raise Unsupported('comparison too large')
            eq = None
            if pred == 'ult':
                return mk((lt,))
            if pred == 'uge':
                return mk((lt ^ ONE,))
            return self.icmp({'ugt': 'ult', 'ule': 'uge'}[pred], w, b, a)
        raise Unsupported('icmp ' + pred)

    def ite(self, c, x, y, w=64):
        if isinstance(c, Cond):
            return x if self.cond_bit(c) else y
        return self.merge(bits_of(c, 1)[0], x, y, w)

    def merge(self, c, x, y, w):
        if x is y or (type(x) is int and type(y) is int and x == y):
            return x
        if x is UNDEF or y is UNDEF:
            return UNDEF
        if isinstance(x, (Cond, Abs)) or isinstance(y, (Cond, Abs)):
            raise Unsupported('merge')
        p, q = bits_of(x, w), bits_of(y, w)
        return mk(tuple(v ^ band(c, u ^ v) for u, v in zip(p, q)))

    def branch(self, it, fr, b, c, tb, fb, stop):
        if isinstance(c, Cond):
            return ('goto', tb if self.cond_bit(c) else fb)
        bit = self.norm(bits_of(c, 1)[0])
        if not bit or bit == ONE:
            return ('goto', tb if bit else fb)
        snap = (list(self.decisions), self.pos)
        try:
            return merge_branch(self, it, fr, b, tb, fb, lambda pos: None, lambda: None, lambda x, y, w: self.merge(bit, x, y, w), nodecide=True)
        except Unsupported:
            self.decisions, self.pos = snap
        return ('goto', fb if self.decide([bit]) else tb)

    def concretize(self, v, w):
        raise Unsupported('switch on symbolic bits')

    def intrinsic(self, name, w, a):
        if name == 'pclmulqdq':
            x, y, imm = a
            p, q = bits_of(x[imm & 1], 64), bits_of(y[imm >> 4 & 1], 64)
            acc = clmul(p, q)
            return [mk(acc[:64]), mk(acc[64:128])]
        raise Unsupported('intrinsic ' + name)

    def split_abs(self, v, at, n):
        return None

    def join_abs(self, parts, size):
        return None

    def load_sym(self, ptr, t):
        raise Unsupported('symbolic address')

    def store_sym(self, ptr, t, v):
        raise Unsupported('symbolic address')

    def ptr_add(self, a, idx, sc):
        raise Unsupported('symbolic address')


def clmul(p, q):
    n = len(p) + len(q)
    acc = [set() for _ in range(n)]
    cp, cq = all(b in (ZERO, ONE) for b in p), all(b in (ZERO, ONE) for b in q)
    for i, x in enumerate(p):
        if not x:
            continue
        for j, y in enumerate(q):
            if not y:
                continue
            s = acc[i + j]
            if x == ONE:
                s ^= y
            elif y == ONE:
                s ^= x
            else:
                for a in x:
                    for b in y:
                        m = a | b
                        if m in s:
                            s.remove(m)
                        else:
                            s.add(m)
    return tuple(frozenset(s) for s in acc)


def polymulmod(p, q, n, taps):
    """product of two bit vectors modulo x^n + sum x^t"""
    acc = [set(s) for s in clmul(p, q)]
    for k in range(2 * n - 1, n - 1, -1):
        if acc[k]:
            for t in taps:
                acc[k - n + t] ^= acc[k]
            acc[k] = set()
    return tuple(frozenset(s) for s in acc[:n])
