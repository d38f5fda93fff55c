"""C07: the five binary fields.  Bit level: products, sums, comparisons and
conversions as GF(2) polynomials in the operand bits.  Exponent level: inverse,
powers and square roots as exponents of the input."""
import re
from oblig import *
import core
from core import Abs, UNDEF, Unsupported
from bits import *
import scalar
from scalar import Lin, Monoid, base, ScalarDomain
import powers

# published irreducible polynomials: x^n + sum x^t
FIELDS = {'gf32': (32, (22, 2, 1, 0)), 'gf64': (64, (4, 3, 1, 0)), 'gf128': (128, (7, 2, 1, 0)), 'gf192': (192, (7, 2, 1, 0)), 'gf256': (256, (10, 5, 2, 0))}


def words(n):
    w = 32 if n == 32 else 64
    return [w] * (n // w)


class F:
    """a field element in memory"""

    def __init__(self, it, d, n, name=None, addr=None):
        self.it, self.d, self.n = it, d, n
        self.addr = addr if addr is not None else it.alloc(n // 8, 'element')
        self.val = ()
        if name:
            for i, w in enumerate(words(n)):
                v = d.word('%s%d' % (name, i), w)
                it.store(self.addr + w // 8 * i, w // 8, v)
                self.val += v.bits

    def get(self):
        out = ()
        for i, w in enumerate(words(self.n)):
            out += bits_of(self.it.load(self.addr + w // 8 * i, w // 8), w)
        return out


def show(w, names):
    return ' '.join('%s=%x' % (k, v) for k, v in sorted(w.items()))


def compare(d, got, want, what):
    """(status, info): do the two bit vectors agree on this path"""
    if len(got) != len(want):
        return REFUTED, 'width'
    for i, (g, w) in enumerate(zip(got, want)):
        x = d.norm(g ^ w)
        if x:
            wit = d.witness(x)
            if wit is None:
                return UNDECIDED, 'bit %d of %s differs as a polynomial (%d terms), no assignment found on path %s' % (i, what, len(x), d.path)
            return REFUTED, 'bit %d of %s differs for %s' % (i, what, show(wit, None)), wit
    return PROVED, ''


def binary_tasks(env):
    m, img = env.m, env.img
    out = []
    for name, (n, taps) in FIELDS.items():
        cls = 'libff::' + name
        me = re.escape(cls) + ' const&'

        def T(label, rx, body, weight=1, static=False):
            fns = m.find(r'^(?:[\w:]+&? )?%s::%s$' % (re.escape(cls), rx))
            for fn in fns:
                def run(meta, fn=fn, body=body):
                    def one(dec):
                        d = BitDomain(dec)
                        it = core.Interp(m, d, img)
                        d.it = it
                        r = list(body(it, d, fn))
                        meta.setdefault('inlined', [])
                        meta['inlined'] = sorted(set(meta['inlined']) | set(it.called))
                        return d, r
                    agg = {}
                    for d, r in explore(one, limit=300):
                        for nm, t in r:
                            o = agg.get(nm)
                            if o is None or (o[0] != t[0] and t[0] != PROVED and o[0] != REFUTED):
                                agg[nm] = t
                    for nm, t in agg.items():
                        yield (nm,) + t
                out.append(Task('%s %s' % (name, label), m.dem(fn), run, backend='GF(2) normal form', weight=weight, timeout=400))

        def binary(label, rx, spec, inplace, n=n, T=T):
            w = 10 if label.startswith('*') else 1

            def body(it, d, fn):
                a, b = F(it, d, n, 'a'), F(it, d, n, 'b')
                want = spec(a.val, b.val)
                if inplace:
                    r = it.call(fn, [a.addr, b.addr])
                    yield 'returns the left operand', st(r == a.addr)
                    yield 'value', compare(d, a.get(), want, label)
                else:
                    o = F(it, d, n)
                    ret(it, fn, [a.addr, b.addr], o)
                    yield 'value', compare(d, o.get(), want, label)
                    yield 'left operand unchanged', st(a.get() == a.val)
                yield 'right operand unchanged', st(b.get() == b.val)
            T(label, rx, body, weight=w)

            def alias(it, d, fn):
                a = F(it, d, n, 'a')
                want = spec(a.val, a.val)
                if inplace:
                    it.call(fn, [a.addr, a.addr])
                    yield 'value', compare(d, a.get(), want, label)
                else:
                    o = F(it, d, n)
                    ret(it, fn, [a.addr, a.addr], o)
                    yield 'value', compare(d, o.get(), want, label)
            T(label + ' aliased', rx, alias, weight=w)

        xor = lambda x, y: tuple(p ^ q for p, q in zip(x, y))
        mul = lambda x, y, n=n, taps=taps: polymulmod(x, y, n, taps)
        for op, f in (('+', xor), ('-', xor), ('*', mul)):
            e = r'operator\%s' % op
            binary(op + '=', e + r'=\(' + me + r'\)', f, True)
            binary(op, e + r'\(' + me + r'\) const', f, False)

        def unary(label, rx, spec, inplace, weight=1, n=n, T=T):
            def body(it, d, fn):
                a = F(it, d, n, 'a')
                want = spec(a.val)
                if inplace:
                    r = it.call(fn, [a.addr])
                    yield 'value', compare(d, a.get(), want, label)
                    if label != 'clear':
                        yield 'returns the object', st(r == a.addr)
                else:
                    o = F(it, d, n)
                    ret(it, fn, [a.addr], o)
                    yield 'value', compare(d, o.get(), want, label)
                    yield 'operand unchanged', st(a.get() == a.val)
            T(label, rx, body, weight=weight)
        unary('negation', r'operator-\(\) const', lambda a: a, False)
        unary('squared', r'squared\(\) const', lambda a, mul=mul: mul(a, a), False, 5)
        unary('square', r'square\(\)', lambda a, mul=mul: mul(a, a), True, 5)
        unary('clear', r'clear\(\)', lambda a, n=n: (ZERO,) * n, True)

        def const(k):
            def body(it, d, fn, n=n):
                o = F(it, d, n)
                ret(it, fn, [], o)
                yield 'value', compare(d, o.get(), bits_of(k, n), 'constant')
            return body
        T('zero', r'zero\(\)', const(0))
        T('one', r'one\(\)', const(1))

        def dflt(it, d, fn, n=n):
            o = F(it, d, n)
            it.call(fn, [o.addr])
            yield 'default value is zero', compare(d, o.get(), (ZERO,) * n, 'default')
        T('default constructor', name + r'\(\)', dflt)

        def ctor(it, d, fn, n=n):
            o = F(it, d, n)
            k = len(it.m.functions[fn].params) - 1
            w = words(n)[0]
            args = [d.word('v%d' % i, w) for i in range(k)]
            it.call(fn, [o.addr] + args)
            want = ()
            for v in reversed(args):
                want += v.bits
            want = (want + (ZERO,) * n)[:n]
            yield 'words placed most significant first', compare(d, o.get(), want, 'constructor')
        T('word constructor', name + r'\(unsigned (?:long|int)(?:, unsigned long)*\)', ctor)

        def cmp(neg, self_=False):
            def body(it, d, fn, n=n):
                a = F(it, d, n, 'a')
                b = a if self_ else F(it, d, n, 'b')
                r = it.call(fn, [a.addr, b.addr])
                yield from truth(it, d, r, xor(a.val, b.val), neg, n)
                yield 'operands unchanged', st(a.get() == a.val and b.get() == b.val)
            return body
        T('operator==', r'operator==\(' + me + r'\) const', cmp(False))
        T('operator!=', r'operator!=\(' + me + r'\) const', cmp(True))
        T('operator== with itself', r'operator==\(' + me + r'\) const', cmp(False, True))

        def isz(it, d, fn, n=n):
            a = F(it, d, n, 'a')
            r = it.call(fn, [a.addr])
            yield from truth(it, d, r, a.val, False, n)
        T('is_zero', r'is_zero\(\) const', isz)

        def towords(it, d, fn, n=n):
            a = F(it, d, n, 'a')
            o = it.alloc(24, 'vector')
            it.call(fn, [o, a.addr])
            b, e = it.load(o, 8), it.load(o + 8, 8)
            k = max(1, n // 64)
            yield 'number of words', st(e - b == 8 * k)
            got = ()
            for i in range((e - b) // 8):
                got += bits_of(it.load(b + 8 * i, 8), 64)
            yield 'words', compare(d, got, (a.val + (ZERO,) * 64)[:64 * k], 'words') if e - b == 8 * k else (REFUTED, 'length')
            yield 'element unchanged', st(a.get() == a.val)
        T('to_words', r'to_words\(\) const', towords)

        def fromwords(it, d, fn, n=n):
            a = F(it, d, n, 'a')
            k = max(1, n // 64)
            arr = it.alloc(8 * k, 'words')
            bitsv = ()
            for i in range(k):
                v = d.word('w%d' % i, 64)
                it.store(arr + 8 * i, 8, v)
                bitsv += v.bits
            v = it.alloc(24, 'vector')
            for i, x in enumerate((arr, arr + 8 * k, arr + 8 * k)):
                it.store(v + 8 * i, 8, x)
            r = it.call(fn, [a.addr, v])
            yield 'accepts every word', st(r == 1)
            yield 'value', compare(d, a.get(), bitsv[:n], 'from_words')
        T('from_words', r'from_words\(std::vector<.*>\)', fromwords)
        out += exponent_tasks(env, name, n)
    return out


def ret(it, fn, args, o):
    """small elements are returned in registers, large ones through memory"""
    f = it.m.functions[fn]
    if len(f.params) == len(args) + 1:
        it.call(fn, [o.addr] + args)
        return
    v = it.call(fn, args)
    if isinstance(v, list):
        for i, x in enumerate(v):
            it.store(o.addr + 8 * i, 8, x)
    else:
        it.store(o.addr, o.n // 8, v)


def truth(it, d, r, diff, neg, n):
    """r must be 1 exactly when all bits of diff are zero (or the opposite)"""
    if isinstance(r, Cond) or isinstance(r, BV):
        r = it.icmp('ne', 1, r, 0) if isinstance(r, BV) else r
        r = d.cond_bit(r) if isinstance(r, Cond) else int(not d.decide([bits_of(r, 1)[0]])) if isinstance(r, BV) else r
    rest = [x for x in (d.norm(b) for b in diff) if x]
    if bool(r) != neg:      # claims equal
        if not rest:
            yield 'answer', (PROVED, '')
            return
        w = d.witness(rest[0])
        yield 'answer', (REFUTED, 'claims equality for ' + show(w, None), w) if w else (UNDECIDED, 'no assignment on path %s' % d.path)
        return
    # claims different: some fact must say that bits in the span of diff are not all zero
    if not rest:
        yield 'answer', (REFUTED, 'claims a difference of equal values')
        return
    d2 = BitDomain(())
    d2.vars = d.vars
    d2.sub = dict(d.sub)
    try:
        d2.impose_zero(rest)
    except Unsupported:
        yield 'answer', (PROVED, '')
        return
    if any(all(not d2.norm(b) for b in s) for s in d.nz_facts):
        yield 'answer', (PROVED, '')
        return
    w = None
    # equal values that satisfy every fact of the path
    d2.zero_facts, d2.nz_facts = [], d.nz_facts
    w = d2.witness(ONE)
    yield 'answer', (REFUTED, 'claims a difference for ' + show(w, None), w) if w else (UNDECIDED, 'no assignment on path %s' % d.path)


def st(ok):
    return (PROVED if ok else REFUTED), ''


class GF(Monoid):
    """multiplicative monoid of a binary field on exponents; raw constants 1 are accepted"""

    def get(self, a):
        v = self.it.load(a, self.size)
        if type(v) is int and v == 1:
            return Lin({})
        return Monoid.get(self, a)

    def method(self, it, a, mm):
        meth, sig, const = mm.groups()
        if meth == 'operator=':
            it.copy(a[0], a[1], self.size)
            return a[0]
        if meth == self.cls.split('::')[-1] and sig.replace(' ', '') == (self.cls + ' const&').replace(' ', ''):
            it.copy(a[0], a[1], self.size)
            return None
        arity = {'operator+': 3, 'operator*': 3, 'squared': 2, 'inverse': 2, 'one': 1, 'zero': 1}.get(meth)
        if meth == 'operator-':
            arity = 2 if sig == '' else 3
        if meth == 'zero' or (meth == self.cls.split('::')[-1] and sig != '') or meth in ('operator+', 'operator-', 'operator+=', 'operator-='):
            return NotImplemented
        if arity is not None and len(a) == arity - 1:
            t = it.alloc(self.size, 'returned')
            r = Monoid.method(self, it, [t] + list(a), mm)
            if r is NotImplemented:
                return r
            if self.size == 16:
                return [it.load(t, 8), it.load(t + 8, 8)]
            return it.load(t, self.size)
        return Monoid.method(self, it, a, mm)


class ExpDomain(ScalarDomain):
    """elements of two words travel through registers in halves"""

    def split_abs(self, v, at, n):
        if v.kind == 'half' or n != 8 or at % 8:
            return None
        return Abs(8, 'half', (v, at))

    def join_abs(self, parts, size):
        pos = 0
        for n, v in parts:
            if not (isinstance(v, Abs) and v.kind == 'half' and v.val[1] == pos and v.val[0] is parts[0][1].val[0]):
                return None
            pos += n
        return parts[0][1].val[0] if pos == parts[0][1].val[0].size else None


class ExpInterp(core.Interp):
    """rejoins the two halves of a value that was returned in registers"""

    def store(self, addr, size, val):
        core.Interp.store(self, addr, size, val)
        if size == 8 and isinstance(val, Abs) and val.kind == 'half' and val.val[1] == 8:
            o, off = self.obj(addr, size)
            e = o.cells.get(off - 8)
            if e is not None and e[0] == 8 and isinstance(e[1], Abs) and e[1].kind == 'half' and e[1].val[1] == 0 and e[1].val[0] is val.val[0]:
                core.Interp.store(self, addr - 8, 16, val.val[0])


def exponent_tasks(env, name, n):
    m, img = env.m, env.img
    cls = 'libff::' + name
    e = re.escape(cls)
    size = n // 8
    out = []
    order = 2 ** n - 1

    def setup(skip):
        d = ExpDomain()
        it = ExpInterp(m, d, img)
        # small elements are returned in registers: the contracts work on memory, so give them a slot
        mo = GF(it, d, cls, size, True, skip)
        A, O = it.alloc(size, 'base'), it.alloc(size, 'res')
        mo.put(A, base('x'))

        def setstr(it, a, mm):
            s = bytes(it.load(a[1] + i, 1) for i in range(a[2]))
            v = int(''.join(str(c) for c in s), a[3])
            k = 0
            while v:
                it.store(a[0] + 8 * k, 8, v & (2 ** 64 - 1))
                v >>= 64
                k += 1
            return k
        it.on(r'^__gmpn_set_str$', setstr)

        def strlen(it, a, mm):
            k = 0
            while it.load(a[0] + k, 1):
                k += 1
            return k
        it.on(r'^strlen$', strlen)
        return d, it, mo, A, O

    def fixed(label, rx, want, inplace=False, assumes=''):
        for fn in m.find(r'^(?:[\w:]+&? )?%s::%s$' % (e, rx)):
            def body(meta, fn=fn):
                d, it, mo, A, O = setup({m.dem(fn)})
                if inplace:
                    r = it.call(fn, [A])
                    yield 'returns the object', PROVED if r == A else REFUTED
                else:
                    ret(it, fn, [A], F(it, d, n, addr=O))
                res = mo.get(A if inplace else O)
                c = dict(res.c)
                k = c.pop(('x', None), 0)
                meta['contracts'] = dict(mo.used)
                meta['inlined'] = list(it.called)
                yield 'exponent', PROVED if not c and (k - want) % order == 0 else REFUTED, 'exponent obtained %r' % (res,)
                if not inplace:
                    yield 'operand unchanged', PROVED if mo.get(A) == base('x') else REFUTED
            out.append(Task('%s %s' % (name, label), m.dem(fn), body, backend='exponent arithmetic'))
    fixed('inverse', r'inverse\(\) const', -1)
    fixed('invert', r'invert\(\)', -1, True)
    fixed('sqrt', r'sqrt\(\) const', 2 ** (n - 1))
    return out


def power_tasks(env):
    return powers.power_tasks(env, [(None, k) for k in FIELDS], cyc=False)
