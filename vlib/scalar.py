"""Layer-3 domain: scalars as vectors of Boolean variables, and group (or
multiplicative-monoid) elements as Z-linear combinations

        E = sum_i  c_i * v_i * [base]      v_i a 0/1 bit or a signed wNAF digit

so that the postcondition of every scalar-multiplication or exponentiation
routine is an identity between integer linear forms, valid in every abelian
group.  Conditionals on symbolic bits are executed on both sides and merged
(memory and phis); no path explosion and no bound on the number of bits other
than the width of the real data type."""
from core import Abs, UNDEF, MASK, Unsupported, MemError, Thrown, Aborted, NullDomain, _MISSING, sgn, merge_branch


class B:
    """Boolean: OR of variables (neg=False) or its negation"""
    __slots__ = ('neg', 's')

    def __init__(self, s, neg=False):
        self.s = s if isinstance(s, frozenset) else frozenset(s)
        self.neg = neg

    def __eq__(self, o):
        return isinstance(o, B) and self.neg == o.neg and self.s == o.s

    def __hash__(self):
        return hash((self.neg, self.s))

    def __repr__(self):
        return ('!' if self.neg else '') + '|'.join(sorted(map(str, self.s))[:4])


class Opaque:
    """a Boolean about which nothing is known (merged only when both sides agree)"""
    def __init__(self, n):
        self.n = n


def bnot(x):
    return 1 - x if type(x) is int else B(x.s, not x.neg)


def bor(x, y):
    if type(x) is int:
        return 1 if x else y
    if type(y) is int:
        return 1 if y else x
    if not x.neg and not y.neg:
        return B(x.s | y.s)
    if x == y:
        return x
    if x.neg and y.neg and x.s <= y.s:
        return x
    if x.neg and y.neg and y.s <= x.s:
        return y
    raise Unsupported('disjunction')


def band(x, y):
    return bnot(bor(bnot(x), bnot(y)))


class BV:
    __slots__ = ('bits',)

    def __init__(self, bits):
        self.bits = bits

    def __repr__(self):
        return 'BV%d' % len(self.bits)


def mk(bits):
    if all(type(b) is int for b in bits):
        return sum(b << i for i, b in enumerate(bits))
    return BV(list(bits))


def bits_of(v, w):
    if type(v) is int:
        return [(v >> i) & 1 for i in range(w)]
    if isinstance(v, BV):
        return v.bits
    if isinstance(v, B):
        return [v] + [0] * (w - 1)
    raise Unsupported('bits of %r' % (v,))


class Digit:
    """an integer a*d + c ... restricted: value = scale*d/2**half toward zero"""
    __slots__ = ('v', 'neg', 'half')

    def __init__(self, v, neg=False, half=False):
        self.v, self.neg, self.half = v, neg, half


class Lin:
    """integer linear form  {(base, var or None): coeff}"""
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = {k: v for k, v in c.items() if v}

    def __add__(self, o):
        if o.__class__ is not Lin and self.__class__ is Lin:
            return o + self
        r = dict(self.c)
        for k, v in o.c.items():
            r[k] = r.get(k, 0) + v
        return Lin(r)

    def __sub__(self, o):
        return self + o.scale(-1)

    def scale(self, n):
        return Lin({k: n * v for k, v in self.c.items()})

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c

    def __hash__(self):
        return hash(frozenset(self.c.items()))

    def drop(self, s):
        return Lin({k: v for k, v in self.c.items() if k[1] not in s})

    def __repr__(self):
        return ' + '.join('%d*%s*%s' % (v, k[1], k[0]) for k, v in list(self.c.items())[:6]) or '0'


def base(name):
    return Lin({(name, None): 1})


class ScalarDomain(NullDomain):
    def __init__(self):
        self.decisions = []
        self.pos = 0
        self.path = []
        self.digit_range = {}     # var -> max |d| (odd digits)
        self.assumed = set()

    def choose(self, n):
        """n-way case split, re-executed for every alternative (see explore_choices)"""
        if self.pos < len(self.decisions):
            r = self.decisions[self.pos][0]
        else:
            r = 0
            self.decisions.append((0, n))
        self.pos += 1
        return r

    def install_num_bits(self, it):
        """bigint::num_bits (contract proved by C17): split over every bit length"""
        def h(it, a, mm):
            n = int(mm.group(1))
            w = []
            for i in range(n):
                w += bits_of(it.load(a[0] + 8 * i, 8), 64)
            w = [self.known(b) for b in w]
            top = max([i for i, b in enumerate(w) if b == 1 and type(b) is int], default=-1)
            cand = [i for i in range(top, 64 * n) if i == top or type(w[i]) is not int]
            # candidate i: bit i is set (or none, i = -1) and every higher bit is clear
            k = cand[self.choose(len(cand))]
            f = dict(self.facts)
            for i in range(k + 1, 64 * n):
                if type(w[i]) is not int:
                    f[next(iter(w[i].s))] = False
            if k >= 0 and type(w[k]) is not int:
                f[next(iter(w[k].s))] = True
            self.facts = f
            return k + 1
        it.on(r'libff::bigint<(\d+)l?>::num_bits\(\) const$', h)

    def known(self, b):
        if type(b) is int:
            return b
        if len(b.s) != 1:
            raise Unsupported('compound bit')
        v = self.facts.get(next(iter(b.s)))
        return b if v is None else int(v != b.neg)

    @staticmethod
    def signed(L, d, s):
        r = {}
        for (b, v), k in L.c.items():
            if v == ('abs', d):
                v, k = d, s * k
            r[(b, v)] = r.get((b, v), 0) + k
        return Lin(r)

    def simp(self, L):
        """a linear form under the known facts"""
        if not isinstance(L, Lin):
            return L
        r = {}
        for (b, v), k in L.c.items():
            f = self.facts.get(v)
            if f is False:
                continue
            if f is True and v in self.isbit:
                v = None
            r[(b, v)] = r.get((b, v), 0) + k
        return Lin(r)

    # -- words
    def word(self, name, w=64):
        return BV(['%s.%d' % (name, i) for i in range(w)] and [B([(name, i)]) for i in range(w)])

    def zext(self, v, w, w2):
        if isinstance(v, (BV, B)):
            return mk(bits_of(v, w) + [0] * (w2 - w))
        raise Unsupported('zext')

    def sext(self, v, w, w2):
        if isinstance(v, (BV, B)):
            b = bits_of(v, w)
            return mk(b + [b[-1]] * (w2 - w))
        if isinstance(v, Digit):
            return v
        raise Unsupported('sext')

    def trunc(self, v, w, w2):
        if isinstance(v, BV):
            if w2 == 1:
                return v.bits[0]
            return mk(v.bits[:w2])
        if isinstance(v, B):
            return v
        raise Unsupported('trunc')

    def extract(self, v, tot, lo, n):
        if isinstance(v, BV):
            return mk(v.bits[lo:lo + n])
        raise Unsupported('extract')

    def concat(self, parts):
        r = []
        for n, v in parts:
            r += bits_of(v, 8 * n)
        return mk(r)

    def binop(self, op, w, a, b):
        if isinstance(a, Digit) and type(b) is int:
            if op == 'sdiv' and b == 2 and not a.half:
                return Digit(a.v, a.neg, True)
            if op in ('ashr', 'lshr', 'udiv') and b == (2 if op == 'udiv' else 1) and not a.half and a.neg == 'abs':
                return Digit(a.v, a.neg, True)
            if op == 'ashr' and b == 1 and not a.half and self.facts.get(('pos', a.v)) is (not a.neg):
                return Digit(a.v, a.neg, True)
        if isinstance(b, Digit) and type(a) is int and op == 'sub' and a == 0 and not b.half and b.neg != 'abs':
            return Digit(b.v, not b.neg, False)
        if w == 1:
            if op == 'xor':
                if type(b) is int:
                    return bnot(a) if b & 1 else a
                if type(a) is int:
                    return bnot(b) if a & 1 else b
            if op == 'or':
                return bor(a, b)
            if op == 'and':
                return band(a, b)
        if isinstance(a, (BV, B)) or isinstance(b, (BV, B)):
            if op == 'mul' and type(a) is int:
                a, b = b, a
            if op in ('shl', 'lshr'):
                if type(b) is not int:
                    raise Unsupported('shift by symbolic amount')
                if b >= w:
                    raise MemError('shift of a %d-bit value by %d' % (w, b))
                x = bits_of(a, w)
                return mk(([0] * b + x)[:w] if op == 'shl' else x[b:] + [0] * b)
            if op in ('and', 'or', 'xor'):
                x, y = bits_of(a, w), bits_of(b, w)
                r = []
                for p, q in zip(x, y):
                    if op == 'and':
                        r.append(band(p, q))
                    elif op == 'or':
                        r.append(bor(p, q))
                    else:
                        if type(q) is int:
                            r.append(bnot(p) if q else p)
                        elif type(p) is int:
                            r.append(bnot(q) if p else q)
                        elif p == q:
                            r.append(0)
                        else:
                            raise Unsupported('xor of bits')
                return mk(r)
            if op in ('add',) and all((type(p) is int and p == 0) or (type(q) is int and q == 0) for p, q in zip(bits_of(a, w), bits_of(b, w))):
                return mk([q if type(p) is int and p == 0 else p for p, q in zip(bits_of(a, w), bits_of(b, w))])
            if op == 'urem' and type(b) is int and b & (b - 1) == 0 and b:
                k = b.bit_length() - 1
                return mk(bits_of(a, w)[:k] + [0] * (w - k))
            if op == 'udiv' and type(b) is int and b & (b - 1) == 0 and b:
                k = b.bit_length() - 1
                return mk(bits_of(a, w)[k:] + [0] * k)
            if op == 'mul' and type(b) is int and b & (b - 1) == 0 and b:
                k = b.bit_length() - 1
                return mk(([0] * k + bits_of(a, w))[:w])
        raise Unsupported('symbolic %s' % op)

    def icmp(self, pred, w, a, b):
        if isinstance(b, Digit) and type(a) is int:
            sw = {'eq': 'eq', 'ne': 'ne', 'sgt': 'slt', 'slt': 'sgt', 'sge': 'sle', 'sle': 'sge'}
            if pred in sw:
                return self.icmp(sw[pred], w, b, a)
        if isinstance(a, Digit) and not a.half and a.neg == 'abs' and type(b) is int and b == 0 and pred in ('eq', 'ne', 'sgt', 'ugt', 'sle', 'ule'):
            return bnot(B([a.v])) if pred in ('eq', 'sle', 'ule') else B([a.v])
        if isinstance(a, Digit) and not a.half and a.neg != 'abs' and type(b) is int:
            b = sgn(b, w)
            nz = B([a.v])
            pos = B([('pos', a.v)])
            if b == 0:
                if pred == 'ne':
                    return nz
                if pred == 'eq':
                    return bnot(nz)
                if pred in ('sgt', 'slt'):
                    if not self.facts.get(a.v):
                        raise Unsupported('sign test of a possibly zero digit')
                    return pos if (pred == 'sgt') != a.neg else bnot(pos)
                if pred in ('sge', 'sle') and self.facts.get(a.v):
                    return pos if (pred == 'sge') != a.neg else bnot(pos)
        if isinstance(a, B) or isinstance(b, B):
            if w == 1 or True:
                if type(b) is int and b in (0, 1) and pred in ('eq', 'ne'):
                    return a if (b == 1) == (pred == 'eq') else bnot(a)
        if pred in ('eq', 'ne'):
            x, y = bits_of(a, w), bits_of(b, w)
            if any(type(q) is not int for q in y):
                x, y = y, x
            if any(type(q) is not int for q in y):
                raise Unsupported('comparison of symbolic words')
            if any(type(p) is int and p != q for p, q in zip(x, y)):
                return int(pred == 'ne')
            sym = [(p, q) for p, q in zip(x, y) if type(p) is not int]
            if not sym:
                return int(pred == 'eq')
            diff = 0
            for p, q in sym:
                diff = bor(diff, bnot(p) if q else p)
            return diff if pred == 'ne' else bnot(diff)
        if pred in ('ugt', 'uge', 'ult', 'ule') :
            if pred == 'ugt' and type(b) is int and b == 0:
                return self.icmp('ne', w, a, b)
            if pred == 'ult' and type(a) is int and a == 0:
                return self.icmp('ne', w, a, b)
            if pred == 'ult' and type(b) is int and b == 1:
                return self.icmp('eq', w, a, 0)
            if pred == 'uge' and type(b) is int and b == 1:
                return self.icmp('ne', w, a, 0)
        raise Unsupported('symbolic comparison %s' % pred)

    def ite(self, c, x, y, w=64):
        return self.merge(c, x, y, w)

    # -- merging
    def merge(self, c, x, y, w):
        """value that equals x when c and y otherwise"""
        if type(c) is int:
            return x if c else y
        if type(x) is type(y) and not isinstance(x, (Abs, list)) and x == y:
            return x
        if isinstance(x, list) and isinstance(y, list):
            return [self.merge(c, p, q, w) for p, q in zip(x, y)]
        if x is UNDEF or y is UNDEF:
            return UNDEF
        if c.neg:
            return self.merge(bnot(c), y, x, w)
        if isinstance(x, Abs) and isinstance(y, Abs) and x.kind == y.kind and x.size == y.size:
            return Abs(x.size, x.kind, self.merge_lin(c, x.val, y.val))
        if isinstance(x, float) or isinstance(y, float):
            raise Unsupported('merge of floats')
        if isinstance(x, (int, BV, B)) and isinstance(y, (int, BV, B)):
            if w == 1:
                return bor(c, y) if x == 1 else self._mb(c, x, y)
            return mk([self._mb(c, p, q) for p, q in zip(bits_of(x, w), bits_of(y, w))])
        if isinstance(x, Digit) and isinstance(y, Digit) and (x.v, x.neg, x.half) == (y.v, y.neg, y.half):
            return x
        if isinstance(x, Digit) and isinstance(y, Digit) and x.v == y.v and x.half == y.half and c.s == frozenset([('pos', x.v)]) and x.neg is False and y.neg is True:
            return Digit(x.v, 'abs', x.half)
        raise Unsupported('merge of %r and %r' % (x, y))

    def _mb(self, c, p, q):
        if p == q:
            return p
        if type(p) is int:
            return bor(c, q) if p else band(bnot(c), q)
        if type(q) is int and q == 0 and isinstance(p, B) and not p.neg and p.s <= c.s:
            return p
        if type(q) is int and q == 1 and isinstance(p, B) and not p.neg and not c.neg and p.s >= c.s:
            return 1
        if type(q) is int:
            return bor(bnot(c), p) if q else band(c, p)
        # under !c all variables of c are zero
        if isinstance(q, B) and isinstance(p, B) and not p.neg and not q.neg and q.s - c.s == p.s - c.s:
            return p
        raise Unsupported('merge of bits')

    def merge_lin(self, c, x, y):
        if x == y:
            return x
        if isinstance(x, tuple) or isinstance(y, tuple):
            if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
                return tuple(self.merge_lin(c, p, q) for p, q in zip(x, y))
            raise Unsupported('merge')
        if not isinstance(x, Lin) or not isinstance(y, Lin):
            raise Unsupported('merge of opaque values')
        if x.drop(c.s) == y.drop(c.s):
            return x
        x, y = self.simp(x), self.simp(y)
        if x.drop(c.s) == y.drop(c.s):
            return x
        if len(c.s) == 1:
            v, = c.s
            if v in self.isbit:
                # x under v=1, y under v=0
                x1 = {}
                for (b, t), k in x.c.items():
                    t = None if t == v else t
                    x1[(b, t)] = x1.get((b, t), 0) + k
                x1 = Lin(x1)
                y0 = y.drop(c.s)
                d = x1 - y0
                if all(t is None for (_, t) in d.c):
                    return y0 + Lin({(b, v): k for (b, _), k in d.c.items()})
            if isinstance(v, tuple) and v[0] == 'pos':
                # |d| is d when positive and -d otherwise
                x, y = self.signed(x, v[1], 1), self.signed(y, v[1], -1)
                if x == y:
                    return x
            if isinstance(v, tuple) and v[0] == 'pos' and self.digit_range.get(v[1]) == 1 and self.facts.get(v[1]):
                # a nonzero digit of range 1 is +1 when positive and -1 otherwise
                d = x - y
                if all(t is None and k % 2 == 0 for (_, t), k in d.c.items()):
                    h = Lin({b: k // 2 for b, k in d.c.items()})
                    return y + h + Lin({(b, v[1]): k for (b, _), k in h.c.items()})
        raise Unsupported('merge of %r / %r under %r' % (x, y, c))

    class _AllBits:
        def __contains__(self, v):
            return not (isinstance(v, tuple) and v and v[0] in ('d', 'pos', 'abs'))
    isbit = _AllBits()
    facts = {}

    def branch(self, it, fr, b, c, tb, fb, stop):
        if all(self.facts.get(v) is False for v in c.s):
            return ('goto', tb if c.neg else fb)
        if any(self.facts.get(v) is True for v in c.s):
            return ('goto', fb if c.neg else tb)
        if any(v in self.facts for v in c.s):
            c = B(frozenset(v for v in c.s if v not in self.facts), c.neg)
        fa0 = self.facts

        def enter(pos):
            cond = c if pos else bnot(c)
            f = dict(fa0)
            if not cond.neg and len(cond.s) == 1:
                f[next(iter(cond.s))] = True
            elif cond.neg:
                for v in cond.s:
                    f[v] = False
            self.facts = f

        def leave():
            self.facts = fa0
        return merge_branch(self, it, fr, b, tb, fb, enter, leave, lambda x, y, w: self.merge(c, x, y, w), poison=True)

    # -- table lookups with a digit index
    def ptr_add(self, a, idx, sc):
        if isinstance(idx, Digit) and idx.half and type(a) is int:
            return ('tab', a, sc, idx)
        raise Unsupported('symbolic pointer')

    def lookup(self, it, ptr, size, kind):
        _, a, sc, d = ptr
        if sc != size:
            raise Unsupported('table element size')
        if d.neg != 'abs' and self.facts.get(('pos', d.v)) is not (not d.neg):
            raise MemError('table index from a digit of the wrong or unknown sign')
        mx = self.digit_range[d.v]
        # the sign test selects the side: the index is |d|/2 only when the test matched
        k = 0
        first = None
        vals = []
        while 2 * k + 1 <= mx:
            e = it.load(a + k * sc, size)
            if not isinstance(e, Abs) or e.kind != kind:
                raise Unsupported('table entry')
            vals.append(e.val)
            k += 1
        b = vals[0]
        for j, v in enumerate(vals):
            if v != b.scale(2 * j + 1):
                raise WrongTable('entry %d of the table is not %d times the first: %r' % (j, 2 * j + 1, v))
        s = -1 if d.neg else 1
        if not all(t is None for _, t in b.c):
            raise Unsupported('table base')
        if d.neg == 'abs':
            f = self.facts.get(('pos', d.v))
            v, s = (('abs', d.v), 1) if f is None else (d.v, 1 if f else -1)
            return Lin({(bb, v): s * kk for (bb, _), kk in b.c.items()})
        return Lin({(bb, d.v): s * kk for (bb, _), kk in b.c.items()})

    def load_sym(self, ptr, t):
        raise Unsupported('symbolic load')


class WrongTable(Exception):
    pass


class Monoid:
    """contracts of one group / multiplicative monoid class on the Z-linear domain.
    Multiplicative classes: *, squared, inverse...; additive: +, dbl, -..."""

    MUL = {'operator*': 'add', 'operator*=': 'iadd', 'squared': 'dbl', 'square': 'idbl', 'cyclotomic_squared': 'dbl', 'inverse': 'neg',
           'invert': 'ineg', 'unitary_inverse': 'neg', 'one': 'zero'}
    ADD = {'operator+': 'add', 'add': 'add', 'mixed_add': 'add', 'operator+=': 'iadd', 'dbl': 'dbl', 'zero': 'zero', 'operator-=': 'isub'}

    def __init__(self, it, dom, cls, size, mult, skip=()):
        import re
        self.it, self.dom, self.cls, self.size = it, dom, cls, size
        self.ops = dict(self.MUL if mult else self.ADD)
        self.mult = mult
        self.skip = set(skip)
        self.used = {}
        e = re.escape(cls)
        it.on(r'(?:^|> )(?:%s&? )?%s::(operator[^(<]*|\w+)\((.*)\)( const)?$' % (e, e), self.method)

    def get(self, a):
        if isinstance(a, tuple):
            return self.dom.lookup(self.it, a, self.size, self.cls)
        v = self.it.load(a, self.size)
        if isinstance(v, Abs) and v.kind == self.cls:
            return v.val
        if v is UNDEF:
            raise MemError('read of an uninitialised group element')
        raise Unsupported('group element from raw words')

    def put(self, a, v):
        self.it.store(a, self.size, Abs(self.size, self.cls, v))

    def method(self, it, a, mm):
        meth, sig, const = mm.groups()
        d = it.m.dem
        if mm.group(0) in self.skip or mm.string in self.skip:
            return NotImplemented
        same = sig.replace(' ', '') == (self.cls + ' const&').replace(' ', '')
        short = self.cls.split('::')[-1].split('<')[0]
        if meth == short or meth == 'operator=':
            if same:
                self.put(a[0], self.get(a[1]))
                return a[0]
            if sig == '' and meth == short:
                self.put(a[0], Lin({}) if not self.mult else 'default')
                return None
            return NotImplemented
        op = self.ops.get(meth)
        if meth == 'operator-':
            op = 'neg' if sig == '' else 'sub'
        if op is None:
            if meth == 'is_zero' and not self.mult:
                v = self.get(a[0])
                return self.zero_test(v)
            return NotImplemented
        if op in ('add', 'iadd', 'sub', 'isub') and not same:
            return NotImplemented
        if op in ('dbl', 'neg', 'zero', 'idbl', 'ineg') and sig != '':
            return NotImplemented
        self.used[meth] = self.used.get(meth, 0) + 1
        if meth == 'mixed_add':
            self.mixed(a)
        g = self.get
        if op == 'add':
            self.put(a[0], g(a[1]) + g(a[2]))
        elif op == 'sub':
            self.put(a[0], g(a[1]) - g(a[2]))
        elif op == 'iadd':
            self.put(a[0], g(a[0]) + g(a[1]))
            return a[0]
        elif op == 'isub':
            self.put(a[0], g(a[0]) - g(a[1]))
            return a[0]
        elif op == 'dbl':
            self.put(a[0], g(a[1]).scale(2))
        elif op == 'idbl':
            self.put(a[0], g(a[0]).scale(2))
            return a[0]
        elif op == 'neg':
            self.put(a[0], g(a[1]).scale(-1))
        elif op == 'ineg':
            self.put(a[0], g(a[0]).scale(-1))
            return a[0]
        elif op == 'zero':
            self.put(a[0], Lin({}))
        return None

    def mixed(self, a):
        pass

    def zero_test(self, v):
        if not v.c:
            return 1
        raise Unsupported('is_zero of a symbolic element')


def explore_choices(run, limit=2000):
    """run(decisions) for every combination of n-way choices"""
    stack = [[]]
    n = 0
    while stack:
        dec = stack.pop()
        d = run(list(dec))
        n += 1
        if n > limit:
            raise Unsupported('case limit')
        full = d.decisions[:d.pos]
        for i in range(len(dec), len(full)):
            v, k = full[i]
            for x in range(v + 1, k):
                stack.append(full[:i] + [(x, k)])
        yield d
