"""C17: integer helpers, multi-limb integers and conversions."""
import re
import z3
from oblig import *
import core, smt, params as PR
from core import Abs, UNDEF, Unsupported
from smt import SMT, SV, term, join, words, mk
import scalar
from scalar import ScalarDomain, Monoid, Lin, B, BV, base

FIELDS = [(k, n) for k, (p, n) in PR.PRIMES.items()]


def st(b):
    return PROVED if b else REFUTED


def bv(v, w=64):
    return z3.BitVecVal(v, w)


def thrown(it, a, mm):
    raise core.Thrown(mm.group(0))


class Agg:
    """combine one obligation over the paths of a function"""
    def __init__(self):
        self.o = {}
        self.order = []

    def note(self, nm, r, info='', w=None):
        s = r if isinstance(r, str) else {True: PROVED, False: REFUTED, None: UNDECIDED}[r]
        o = self.o.get(nm)
        if o is None:
            self.order.append(nm)
        if o is None or (o[0] == PROVED and s != PROVED) or (s == REFUTED and o[0] != REFUTED):
            self.o[nm] = (s, info) + ((w,) if w else ())

    def results(self):
        for nm in self.order:
            yield (nm,) + self.o[nm]


def bvfn(m, img, fn, spec, pre=None, setup=None, timeout=60000):
    """task body: every path of fn against spec(it, d, call, claim)"""
    def body(meta):
        ag = Agg()

        def one(dec):
            d = SMT(dec, timeout)
            it = core.Interp(m, d, img)
            smt.gmp(it, d)
            it.on(r'^std::__throw_', thrown)
            it.on(r'^std::(invalid_argument|domain_error|out_of_range|overflow_error|runtime_error|logic_error)::', thrown)
            names = {}

            def wit(mod):
                if mod is None:
                    return None
                return {k: (mod.eval(v, model_completion=True).as_long()) for k, v in names.items()}

            def claim(nm, c, info=''):
                r, mod = d.valid(c)
                ag.note(nm, r, info if r is not False else '%s at %s' % (info, wit(mod)), wit(mod) if r is False else None)

            def var(nm, w=64):
                v = d.var(nm, w)
                names[nm] = v.e
                return v
            d.mkvar = var
            d.note = ag.note
            try:
                spec(it, d, lambda args: it.call(fn, args), claim, var)
            except core.MemError as x:
                ag.note('no memory error', False, str(x), wit(d.model if d.check() == z3.sat else None))
            except core.Thrown as x:
                ag.note('no exception', False, str(x), wit(d.model if d.check() == z3.sat else None))
            for nm, r, mod in d.sides():
                ag.note(nm, r, '', wit(mod))
            meta['inlined'] = sorted(set(meta['inlined']) | set(it.called))
            meta['queries'] = meta.get('queries', 0) + d.queries
            return d
        for d in smt.explore(one):
            pass
        yield from ag.results()
    return body


# ------------------------------------------------------------------ utils.cpp
def int_tasks(env):
    m, img = env.m, env.img
    out = []

    def T(nm, rx, spec, weight=1):
        fs = m.find(rx)
        if not fs:
            out.append(missing(nm))
            return
        for fn in fs:
            out.append(Task(nm, m.dem(fn), bvfn(m, img, fn, spec), backend='z3 bit-vectors', weight=weight, timeout=400))

    def pow2(it, d, call, claim, var, lo=1):
        n = var('n')
        d.assume(z3.ULE(n.e, bv(1 << 63)))
        d.assume(z3.UGE(n.e, bv(lo)))
        r = term(call([n]), 64)
        claim('result is a power of two', z3.And(r != 0, r & (r - 1) == 0))
        claim('result is not below n', z3.UGE(r, n.e))
        claim('no smaller power of two is large enough', z3.Or(r == 1, z3.ULT(z3.LShR(r, 1), n.e)))
    T('get_power_of_two', r'^libff::get_power_of_two\(', pow2)
    T('round_to_next_power_of_2', r'^libff::round_to_next_power_of_2\(', lambda *a: pow2(*a, lo=0), 3)

    def ispow(it, d, call, claim, var):
        n = var('n')
        r = call([n])
        if isinstance(r, SV):
            r = r.e != 0
        else:
            r = z3.BoolVal(bool(r & 1))
        claim('true exactly for the 64 powers of two', r == z3.Or([n.e == bv(1 << i) for i in range(64)]))
    T('is_power_of_2', r'^libff::is_power_of_2\(', ispow)

    def log2(it, d, call, claim, var):
        n = var('n')
        r = term(call([n]), 64)
        claim('result is at most 64', z3.ULE(r, bv(64)))
        one = z3.BitVecVal(1, 66)
        N, R = z3.ZeroExt(2, n.e), z3.ZeroExt(2, r)
        claim('2^result is not below n', z3.UGE(one << R, N))
        claim('no smaller exponent is large enough', z3.Or(r == 0, z3.ULT(one << (R - 1), N)))
    T('log2', r'^libff::log2\(unsigned long\)', log2, 3)

    def totc(it, d, call, claim, var):
        i, w = var('i', 32), var('w')
        d.assume(z3.And(z3.UGE(w.e, 1), z3.ULE(w.e, 63)))
        I, one = z3.SignExt(32, i.e), bv(1)
        d.assume(z3.And(I >= -(one << (w.e - 1)), I < (one << (w.e - 1))))
        r = term(call([i, w]), 64)
        claim('result is i modulo 2^w', r == (I & ((one << w.e) - 1)))
    T('to_twos_complement', r'^libff::to_twos_complement\(', totc)

    def fromtc(it, d, call, claim, var):
        i, w = var('i'), var('w')
        one = bv(1)
        d.assume(z3.And(z3.UGE(w.e, 1), z3.ULE(w.e, 63), z3.ULT(i.e, one << w.e)))
        V = z3.If(z3.ULT(i.e, one << (w.e - 1)), i.e, i.e - (one << w.e))
        d.assume(z3.And(V >= -(1 << 31), V < (1 << 31)))
        r = term(call([i, w]), 32)
        claim('result is the signed value of the w-bit pattern', z3.SignExt(32, r) == V)
    T('from_twos_complement', r'^libff::from_twos_complement\(', fromtc)

    def rev(it, d, call, claim, var):
        n = var('n')
        l = d.choose(65)
        r = term(call([n, l]), 64)
        e = n.e
        want = z3.Concat(*[z3.Extract(l - 1 - k, l - 1 - k, e) if k < l else z3.BitVecVal(0, 1) for k in reversed(range(64))])
        claim('bit k of the result is bit l-1-k of n, for every length 0..64', r == want)
    T('bitreverse', r'^libff::bitreverse\(', rev, 3)

    def dceil(it, d, call, claim, var):
        x, y = var('x'), var('y')
        d.assume(z3.Not(z3.And(x.e == bv(1 << 63), y.e == bv((1 << 64) - 1))))
        try:
            r = term(call([x, y]), 64)
        except core.Thrown as e:
            claim('refuses only a zero divisor', y.e == 0)
            d.note('zero divisor is refused with invalid_argument', 'invalid_argument' in str(e), str(e))
            return
        claim('a zero divisor is refused', y.e != 0)
        q = x.e / y.e
        rem = z3.SRem(x.e, y.e)
        claim('result is the ceiling of the exact quotient', r == z3.If(z3.And(rem != 0, (x.e < 0) == (y.e < 0)), q + 1, q))
    T('div_ceil', r'^libff::div_ceil\(', dceil, 5)

    def little(it, d, call, claim, var):
        r = call([])
        claim('this target is little endian', z3.BoolVal(r == 1) if type(r) is int else term(r, r.w) == 1)
    T('is_little_endian', r'^libff::is_little_endian\(', little)

    def i2b(meta):
        ok, info, tot = True, '', 0
        fn, = m.find(r'^libff::int_list_to_bits\(')
        for k in (0, 1, 2, 3, 7):
            for ws in range(65):
                d = ScalarDomain()
                it = core.Interp(m, d, img)
                it.on(r'^std::__throw_', thrown)
                arr = it.alloc(max(8, 8 * k), 'list')
                L, O = it.alloc(16, 'initializer_list'), it.alloc(40, 'result')
                for i in range(k):
                    it.store(arr + 8 * i, 8, d.word('x%d' % i))
                it.store(L, 8, arr)
                it.store(L + 8, 8, k)
                it.call(fn, [O, L, ws])
                if read_boolvec(it, O) != [B([('x%d' % i, ws - 1 - j)]) for i in range(k) for j in range(ws)]:
                    ok, info = False, '%d words of %d bits' % (k, ws)
                tot += 1
                meta['inlined'] = sorted(set(meta['inlined']) | set(it.called))
        yield 'the low w bits of every word, most significant first, words in order (%d shapes, every w up to 64)' % tot, st(ok), info
    out.append(Task('int_list_to_bits', 'libff::int_list_to_bits', i2b, backend='integer linear forms over bits', weight=6, timeout=400))
    return out


def boolvec(it, a):
    """vector<bool> at a -> [(word, bit)], None when malformed"""
    p, po, q, qo = it.load(a, 8), it.load(a + 8, 4), it.load(a + 16, 8), it.load(a + 24, 4)
    if any(type(x) is not int for x in (p, po, q, qo)) or po != 0:
        return None
    n = (q - p) * 8 + qo
    ws = {}
    r = []
    for i in range(n):
        if i % 64 == 0:
            w = it.load(p + i // 8, 8)
        r.append((w, i % 64))
    return r


def missing(nm):
    def body(meta):
        raise Unsupported('function not found')
        yield
    return Task(nm, nm, body)


# ------------------------------------------------------------------ bigint
def bigint_tasks(env):
    m, img = env.m, env.img
    out = []
    for n in range(1, 7):
        e = r'^libff::bigint<%dl?>::' % n
        W = 64 * n

        def T(nm, rx, spec, weight=1, n=n):
            fs = m.find(rx)
            if not fs:
                out.append(missing('bigint<%d> %s' % (n, nm)))
                return
            for fn in fs[:1]:
                out.append(Task('bigint<%d> %s' % (n, nm), m.dem(fn), bvfn(m, img, fn, spec), backend='z3 bit-vectors', weight=weight, timeout=300))

        def obj(it, d, var, nm, n=n):
            a = it.alloc(8 * n, 'bigint')
            for i in range(n):
                it.store(a + 8 * i, 8, var('%s%d' % (nm, i)))
            return a, join([it.load(a + 8 * i, 8) for i in range(n)])

        def val(it, a, n=n):
            return join([it.load(a + 8 * i, 8) for i in range(n)])

        def truth(r):
            return z3.BoolVal(bool(r & 1)) if type(r) is int else r.e != 0

        def frame(it, d, claim, a, v, val=val):
            claim('operand unchanged', val(it, a) == v)

        def ctor(it, d, call, claim, var, n=n):
            x = var('x')
            a = it.alloc(8 * n, 'bigint')
            call([a, x])
            claim('value is the small integer', val(it, a, n) == (z3.ZeroExt(64 * n - 64, x.e) if n > 1 else x.e))
        T('bigint(unsigned long)', e + r'bigint\(unsigned long\)', ctor)

        def one(it, d, call, claim, var, n=n, W=W):
            a = it.alloc(8 * n, 'bigint')
            r = call([a] if n > 2 else [])
            if n <= 2:
                r = r if isinstance(r, list) else [r]
                e = join(r) if len(r) == n else None
                if e is None:
                    raise Unsupported('return value')
            else:
                e = val(it, a, n)
            claim('value is one', e == z3.BitVecVal(1, W))
        T('one', e + r'one\(\)', one)

        def rel(op):
            def f(it, d, call, claim, var):
                a, x = obj(it, d, var, 'x')
                b, y = obj(it, d, var, 'y')
                r = truth(call([a, b]))
                claim('result', r == {'eq': x == y, 'ne': x != y, 'lt': z3.ULT(x, y)}[op])
                frame(it, d, claim, a, x)
                frame(it, d, claim, b, y)
                claim('reflexive on the same object', truth(call([a, a])) == z3.BoolVal(op == 'eq'))
            return f

        def bindn(f, n=n, obj=obj, val=val):
            return f
        T('operator==', e + r'operator==\(', mkrel('eq', n))
        T('operator!=', e + r'operator!=\(', mkrel('ne', n))
        T('operator<', e + r'operator<\(', mkrel('lt', n))

        def clear(it, d, call, claim, var, n=n, obj=obj, val=val):
            a, x = obj(it, d, var, 'x')
            call([a])
            claim('value is zero', val(it, a) == 0)
        T('clear', e + r'clear\(\)', clear)

        def zero(it, d, call, claim, var, n=n, obj=obj, truth=truth):
            a, x = obj(it, d, var, 'x')
            claim('true exactly for zero', truth(call([a])) == (x == 0))
        T('is_zero', e + r'is_zero\(\) const', zero)

        def even(it, d, call, claim, var, obj=obj, truth=truth):
            a, x = obj(it, d, var, 'x')
            claim('true exactly for even integers', truth(call([a])) == (z3.Extract(0, 0, x) == 0))
        T('is_even', e + r'is_even\(\) const', even)

        def nbits(it, d, call, claim, var, n=n, obj=obj, W=W):
            a, x = obj(it, d, var, 'x')
            r = term(call([a]), 64)
            claim('at most the width', z3.ULE(r, bv(W)))
            X = z3.ZeroExt(64, x)
            R = z3.ZeroExt(W, r)
            o = z3.BitVecVal(1, W + 64)
            claim('no bit at or above the length', z3.LShR(X, R) == 0)
            claim('the top bit is set', z3.Or(r == 0, z3.LShR(X, R - 1) == 1))
        T('num_bits', e + r'num_bits\(\) const', nbits, 2)

        def aslong(it, d, call, claim, var, obj=obj):
            a, x = obj(it, d, var, 'x')
            claim('the low word', term(call([a]), 64) == z3.Extract(63, 0, x))
        T('as_ulong', e + r'as_ulong\(\) const', aslong)

        def tbit(it, d, call, claim, var, n=n, obj=obj, truth=truth, W=W):
            a, x = obj(it, d, var, 'x')
            for i in list(range(W + 2)) + [2**32, 2**63, 2**64 - 1]:
                want = z3.Extract(i, i, x) == 1 if i < W else z3.BoolVal(False)
                claim('bit i of the integer, for every position', truth(call([a, i])) == want, 'position %d' % i)
            i = var('i')
            d.assume(z3.UGE(i.e, bv(W)))
            claim('every position beyond the width reads as zero', z3.Not(truth(call([a, i]))))
        T('test_bit', e + r'test_bit\(', tbit, 2)

        def tompz(it, d, call, claim, var, n=n, obj=obj, W=W):
            z = mpz(it, d, 64 * n + 64)
            a, x = obj(it, d, var, 'x')
            r = it.alloc(16, 'mpz')
            z[r] = z3.BitVec('old', 64 * n + 64)
            call([a, r])
            claim('same integer', z[r] == z3.ZeroExt(64, x))
        T('to_mpz', e + r'to_mpz\(', tompz)

        def frommpz(it, d, call, claim, var, n=n, W=W):
            z = mpz(it, d, 64 * n + 64)
            a, r = it.alloc(8 * n, 'bigint'), it.alloc(16, 'mpz')
            x = z3.BitVec('x', W)
            z[r] = z3.ZeroExt(64, x)
            call([a, r])
            claim('same integer', val(it, a, n) == x)
            claim('argument unchanged', z[r] == z3.ZeroExt(64, x))
            d.note('temporaries are released', set(z) == {r})
        T('bigint(mpz)', e + r'bigint\(__mpz_struct const\*\)', frommpz)

        def fromstr(it, d, call, claim, var, n=n, W=W):
            digs = len(str((1 << W) - 1))
            l = (1, 2, 3, digs - 1, digs)[d.choose(5)]
            s, a = it.alloc(l + 1, 'string'), it.alloc(8 * n, 'bigint')
            cs = []
            for i in range(l):
                c = var('c%d' % i, 8)
                d.assume(z3.And(z3.UGE(c.e, 48), z3.ULE(c.e, 57)))
                if i == 0 and l > 1:
                    d.assume(c.e != 48)
                it.store(s + i, 1, c)
                cs.append(c)
            it.store(s + l, 1, 0)
            it.on(r'^strlen$', lambda it_, b, mm: l if b[0] == s else (_ for _ in ()).throw(Unsupported('strlen')))
            seen = []

            def setstr(it_, b, mm):
                dst, src, k, bs = b
                seen.append(1)
                d.note('text is parsed into the integer itself, in base ten, with its full length', dst == a and k == l and bs == 10)
                for i in range(l):
                    claim('every digit is handed over as its value', term(it_.load(src + i, 1), 8) == cs[i].e - 48)
                # postcondition of mpn_set_str: the limbs needed for the value are written, no more
                lim = d.choose(n) + 1
                for i in range(lim):
                    it_.store(dst + 8 * i, 8, d.var('limb%d' % i))
                d.lim = lim
                return lim
            it.on(r'^__gmpn_set_str$', setstr)
            call([a, s])
            d.note('the text is parsed exactly once', len(seen) == 1)
            if len(seen) == 1:
                claim('the value is the parsed one, zero-extended', val(it, a, n) == join([d.var('limb%d' % i) if i < d.lim else 0 for i in range(n)]))
        T('bigint(decimal text)', e + r'bigint\(char const\*\)', fromstr, 2)
    return out


def mkrel(op, n):
    def f(it, d, call, claim, var):
        def obj(nm):
            a = it.alloc(8 * n, 'bigint')
            for i in range(n):
                it.store(a + 8 * i, 8, var('%s%d' % (nm, i)))
            return a, join([it.load(a + 8 * i, 8) for i in range(n)])

        def truth(r):
            return z3.BoolVal(bool(r & 1)) if type(r) is int else r.e != 0

        def val(a):
            return join([it.load(a + 8 * i, 8) for i in range(n)])
        a, x = obj('x')
        b, y = obj('y')
        claim('agrees with the integers', truth(call([a, b])) == {'eq': x == y, 'ne': x != y, 'lt': z3.ULT(x, y)}[op])
        claim('operands unchanged', z3.And(val(a) == x, val(b) == y))
        claim('an integer compared with itself', truth(call([a, a])) == z3.BoolVal(op == 'eq'))
    return f


def mpz(it, d, W):
    """contracts of the GMP mpz functions on nonnegative integers below 2^W"""
    z = {}

    def get(a):
        if a not in z:
            raise core.MemError('uninitialised mpz')
        return z[a]
    it.on(r'^__gmpz_init$', lambda i, a, mm: z.__setitem__(a[0], z3.BitVecVal(0, W)))
    it.on(r'^__gmpz_init_set$', lambda i, a, mm: z.__setitem__(a[0], get(a[1])))
    it.on(r'^__gmpz_clear$', lambda i, a, mm: z.__delitem__(a[0]))
    it.on(r'^__gmpz_set_ui$', lambda i, a, mm: z.__setitem__(a[0], z3.ZeroExt(W - 64, term(a[1], 64))))

    def mul2(i, a, mm):
        if type(a[2]) is not int or a[2] >= W:
            raise Unsupported('shift')
        v = get(a[1])
        d.side.append(('intermediate values stay in range', z3.LShR(v, W - a[2]) == 0, len(d.pc)))
        z[a[0]] = v << a[2]
    it.on(r'^__gmpz_mul_2exp$', mul2)

    def addui(i, a, mm):
        z[a[0]] = get(a[1]) + z3.ZeroExt(W - 64, term(a[2], 64))
    it.on(r'^__gmpz_add_ui$', addui)
    it.on(r'^__gmpz_get_ui$', lambda i, a, mm: mk(z3.Extract(63, 0, get(a[0])), 64))

    def fdiv(i, a, mm):
        if type(a[2]) is not int:
            raise Unsupported('shift')
        z[a[0]] = z3.LShR(get(a[1]), min(a[2], W - 1)) if a[2] < W else z3.BitVecVal(0, W)
    it.on(r'^__gmpz_[ft]div_q_2exp$', fdiv)
    return z


# ------------------------------------------------------------------ words of field elements
def word_tasks(env):
    m, img = env.m, env.img
    out = []
    for cls, mod, n, k in elements():
        e = '^' + r'libff::%s<%dl?, libff::%s>::' % (cls, n, mod)
        p = PR.PRIMES[mod][0]
        nb = p.bit_length()
        L = n * k
        nm = '%s<%s>' % (cls, mod)

        def T(lab, rx, spec, weight=1, nm=nm, L=L):
            fs = m.find(rx)
            if not fs:
                out.append(missing(nm + ' ' + lab))
                return
            for fn in fs[:1]:
                out.append(Task(nm + ' ' + lab, m.dem(fn), bvfn(m, img, fn, spec), backend='z3 bit-vectors', weight=L, timeout=300))

        def tw(it, d, call, claim, var, L=L):
            a, o = it.alloc(8 * L, 'element'), it.alloc(24, 'vector')
            xs = [var('x%d' % i) for i in range(L)]
            for i, x in enumerate(xs):
                it.store(a + 8 * i, 8, x)
            call([o, a])
            b, q = it.load(o, 8), it.load(o + 8, 8)
            d.note('one word per limb', q - b == 8 * L)
            if q - b == 8 * L:
                claim('the words are the limbs of the components in order', join([it.load(b + 8 * i, 8) for i in range(L)]) == join(xs))
        T('to_words', e + r'to_words\(\) const', tw)

        def fw(it, d, call, claim, var, L=L, n=n, k=k, nb=nb, p=p):
            a, o, arr = it.alloc(8 * L, 'element'), it.alloc(24, 'vector'), it.alloc(8 * L, 'words')
            xs = [var('x%d' % i) for i in range(L)]
            for i, x in enumerate(xs):
                it.store(arr + 8 * i, 8, x)
                it.store(a + 8 * i, 8, d.var('old%d' % i))
            for i, v in enumerate((arr, arr + 8 * L, arr + 8 * L)):
                it.store(o + 8 * i, 8, v)
            r = call([a, o])
            r = z3.BoolVal(bool(r & 1)) if type(r) is int else r.e != 0
            comp = []
            for c in range(k):
                v = join(xs[n * c:n * c + n]) & z3.BitVecVal((1 << nb) - 1, 64 * n)
                comp.append((v, z3.ULT(v, z3.BitVecVal(p, 64 * n))))
            claim('accepts exactly the reduced representations', r == z3.And([c for _, c in comp]))
            got = [join([it.load(a + 8 * (n * c + i), 8) for i in range(n)]) for c in range(k)]
            claim('on acceptance every component holds its words, restricted to the field size', z3.Implies(r, z3.And([g == v for g, (v, _) in zip(got, comp)])))
            claim('words of a reduced element read back as the same element', z3.Implies(z3.And([z3.ULT(join(xs[n * c:n * c + n]), z3.BitVecVal(p, 64 * n)) for c in range(k)]),
                                                                                  z3.And([r] + [g == join(xs[n * c:n * c + n]) for c, g in enumerate(got)])))
        T('from_words', e + r'from_words\(', fw)

        def fwl(it, d, call, claim, var, L=L, n=n, nb=nb, p=p):
            for extra in (1, 2):
                m = L + extra
                a, o, arr = it.alloc(8 * L, 'element'), it.alloc(24, 'vector'), it.alloc(8 * m, 'words')
                xs = [var('w%d_%d' % (extra, i)) for i in range(m)]
                for i, x in enumerate(xs):
                    it.store(arr + 8 * i, 8, x)
                for i in range(L):
                    it.store(a + 8 * i, 8, d.var('old%d_%d' % (extra, i)))
                for i, v in enumerate((arr, arr + 8 * m, arr + 8 * m)):
                    it.store(o + 8 * i, 8, v)
                r = call([a, o])
                r = z3.BoolVal(bool(r & 1)) if type(r) is int else r.e != 0
                v = join(xs[extra:]) & z3.BitVecVal((1 << nb) - 1, 64 * n)
                claim('%d more words than needed: accepts exactly the reduced right-most bits' % extra, r == z3.ULT(v, z3.BitVecVal(p, 64 * n)))
                claim('%d more words than needed: on acceptance the element holds the right-most bits' % extra, z3.Implies(r, join([it.load(a + 8 * i, 8) for i in range(n)]) == v))
        if k == 1:
            T('from_words of a longer vector', e + r'from_words\(', fwl)
    return out


def elements():
    r = [('Fp_model', mod, n, 1) for mod, n in FIELDS]
    for mod, tw in PR.TOWERS.items():
        n = PR.PRIMES[mod][1]
        deg = {'Fp_model': 1}
        for cls, (sub, dg, *_) in tw.items():
            deg[cls] = deg[sub] * dg
            r.append((cls, mod, n, deg[cls]))
    return r


# ------------------------------------------------------------------ packing and bit vectors
def fpcls(mod, n):
    return 'libff::Fp_model<%dl, libff::%s>' % (n, mod)


def frx(mod, n):
    return r'libff::Fp_model<%dl?, libff::%s>' % (n, mod)


def store_boolvec(it, bits, nm='bits'):
    """a vector<bool> holding the given bits (padding unspecified)"""
    n = len(bits)
    nw = (n + 63) // 64
    o = it.alloc(40, 'vector<bool>')
    if nw == 0:
        for off, sz in ((0, 8), (8, 4), (16, 8), (24, 4), (32, 8)):
            it.store(o + off, sz, 0)
        return o
    arr = it.alloc(8 * nw, nm)
    for i in range(nw):
        bs = bits[64 * i:64 * i + 64]
        it.store(arr + 8 * i, 8, scalar.mk(list(bs) + [B([('pad', nm, j)]) for j in range(64 * i + len(bs), 64 * i + 64)]))
    it.store(o, 8, arr)
    it.store(o + 8, 4, 0)
    it.store(o + 16, 8, arr + 8 * (n // 64))
    it.store(o + 24, 4, n % 64)
    it.store(o + 32, 8, arr + 8 * nw)
    return o


def fresh(it):
    """new storage holds arbitrary bits (vector<bool> updates single bits of it)"""
    cnt = [0]

    def new(it_, a, mm):
        if type(a[0]) is not int:
            raise Unsupported('symbolic allocation size')
        o = it_.alloc(a[0], 'heap')
        for i in range(a[0] // 8):
            cnt[0] += 1
            it_.store(o + 8 * i, 8, BV([B([('junk', cnt[0], j)]) for j in range(64)]))
        return o
    it.on(r'^operator new\(unsigned long\)$|^operator new\[\]\(unsigned long\)$', new)


def read_boolvec(it, o):
    v = boolvec(it, o)
    if v is None:
        return None
    return [scalar.bits_of(w, 64)[b] for w, b in v]


def pack_tasks(env):
    m, img = env.m, env.img
    out = []
    thorough = env.tier == 'thorough'

    def begin(mod, n):
        d = ScalarDomain()
        it = core.Interp(m, d, img)
        it.on(r'^std::__throw_', thrown)
        fresh(it)
        c = frx(mod, n)

        def frombig(it, a, mm):
            ws = []
            for i in range(n):
                ws += scalar.bits_of(it.load(a[1] + 8 * i, 8), 64)
            it.store(a[0], 8 * n, Abs(8 * n, 'Fp', ('int', tuple(ws))))
            return None
        it.on('^' + c + r'::Fp_model\(libff::bigint<%dl?> const&\)$' % n, frombig)
        it.on('^' + c + r'::Fp_model\(\)$', lambda it_, a, mm: it_.store(a[0], 8 * n, Abs(8 * n, 'Fp', Lin({}))))

        def copy(it, a, mm):
            it.store(a[0], 8 * n, it.load(a[1], 8 * n))
            return a[0]
        it.on('^(?:%s& )?' % c + c + r'::(operator=|Fp_model)\(%s (const)?&&?\)$' % c, copy)

        def asbig(it, a, mm):
            v = it.load(a[1], 8 * n)
            if not isinstance(v, Abs):
                raise Unsupported('element from raw words')
            nb = PR.PRIMES[mod][0].bit_length()
            for i in range(n):
                it.store(a[0] + 8 * i, 8, scalar.mk([B([(v.val, 64 * i + j)]) if 64 * i + j < nb else 0 for j in range(64)]))
            return None
        it.on('^' + c + r'::(?:as_bigint|bigint_repr)\(\) const$', asbig)
        return d, it

    def add(nm, fn, body, weight=1):
        out.append(Task(nm, m.dem(fn), body, backend='integer linear forms over bits', weight=weight, timeout=300))

    for mod, n in FIELDS:
        p = PR.PRIMES[mod][0]
        nb = p.bit_length()
        c = frx(mod, n)

        def get(rx):
            fs = m.find(rx)
            if not fs:
                out.append(missing('%s %s' % (mod, rx[-60:])))
            return fs[:1]

        def elems(it, o, n=n):
            b, e = it.load(o, 8), it.load(o + 8, 8)
            r = []
            for i in range((e - b) // (8 * n)):
                v = it.load(b + 8 * n * i, 8 * n)
                r.append(v.val if isinstance(v, Abs) else None)
            return r

        def chunks(bits, k, n=n):
            r = []
            for i in range(0, len(bits), k):
                b = list(bits[i:i + k])
                r.append(('int', tuple(b + [0] * (64 * n - len(b)))))
            return r
        # ---- words of w bits -> field elements
        for fn in get(r'libff::pack_int_vector_into_field_element_vector<%s\s*>\(' % c):
            def body(meta, mod=mod, n=n, fn=fn, nb=nb, chunks=chunks, elems=elems):
                ok, info, tot = True, '', 0
                for w in (1, 2, 7, 8, 31, 32, 33, 63, 64):
                    for ln in sorted({0, 1, 2, 3, (nb - 1) // w, (nb - 1 + w - 1) // w, 2 * (nb - 1) // w + 1}):
                        if ln * w > 2600 and not thorough:
                            continue
                        d, it = begin(mod, n)
                        arr = it.alloc(max(8, 8 * ln), 'words')
                        bits = []
                        for i in range(ln):
                            it.store(arr + 8 * i, 8, d.word('v%d' % i))
                            bits += [B([('v%d' % i, j)]) for j in range(w)]
                        V, O = it.alloc(24, 'vector'), it.alloc(24, 'result')
                        for i, x in enumerate((arr, arr + 8 * ln, arr + 8 * ln)):
                            it.store(V + 8 * i, 8, x)
                        it.call(fn, [O, V, w])
                        if elems(it, O) != chunks(bits, nb - 1):
                            ok, info = False, '%d words of %d bits' % (ln, w)
                        tot += 1
                        meta['inlined'] = sorted(set(meta['inlined']) | set(it.called))
                yield 'the elements carry the concatenated low w bits of the words, little-endian, in chunks of the field capacity (%d shapes)' % tot, st(ok), info
            add('%s pack_int_vector_into_field_element_vector' % mod, fn, body, 5)
        for fn in m.find(r'libff::pack_bit_vector_into_field_element_vector<%s\s*>\(' % c):
            two = 'unsigned long)' in m.dem(fn)

            def body(meta, mod=mod, n=n, fn=fn, nb=nb, two=two, chunks=chunks, elems=elems):
                ok, info, tot = True, '', 0
                for k in ((1, 2, 31, 63, 64, 65, nb - 2, nb - 1) if two else (nb - 1,)):
                    for ln in sorted({0, 1, 2, k - 1, k, k + 1, 2 * k, 2 * k + 1, 63, 64, 65, 130}):
                        d, it = begin(mod, n)
                        bits = [B([('v', i)]) for i in range(ln)]
                        V, O = store_boolvec(it, bits), it.alloc(24, 'result')
                        it.call(fn, [O, V] + ([k] if two else []))
                        if elems(it, O) != chunks(bits, k):
                            ok, info = False, '%d bits in chunks of %d' % (ln, k)
                        tot += 1
                        meta['inlined'] = sorted(set(meta['inlined']) | set(it.called))
                yield 'the elements carry the bits little-endian in chunks of the given size (%d shapes)' % tot, st(ok), info
            add('%s pack_bit_vector_into_field_element_vector%s' % (mod, ' chunk size' if two else ''), fn, body, 5)
        for fn in get(r'libff::convert_bit_vector_to_field_element_vector<%s\s*>\(' % c):
            def body(meta, mod=mod, n=n, fn=fn, elems=elems):
                ok, info = True, ''
                for ln in (0, 1, 2, 5, 63, 64, 65, 130):
                    d, it = begin(mod, n)
                    mo = Monoid(it, d, fpcls(mod, n), 8 * n, False)
                    it.on('^' + frx(mod, n) + r'::one\(\)$', lambda it_, a, mm: mo.put(a[0], base('1')))
                    V, O = store_boolvec(it, [B([('v', i)]) for i in range(ln)]), it.alloc(24, 'result')
                    it.call(fn, [O, V])
                    if elems(it, O) != [Lin({('1', ('v', i)): 1}) for i in range(ln)]:
                        ok, info = False, '%d bits' % ln
                    meta['inlined'] = sorted(set(meta['inlined']) | set(it.called))
                yield 'element i is bit i as zero or one', st(ok), info
            add('%s convert_bit_vector_to_field_element_vector' % mod, fn, body, 2)
        for fn in get(r'libff::convert_bit_vector_to_field_element<%s\s*>\(' % c):
            def body(meta, mod=mod, n=n, fn=fn, nb=nb):
                ok, info = True, ''
                for ln in sorted({0, 1, 2, 63, 64, 65, nb - 1, nb}):
                    d, it = begin(mod, n)
                    mo = Monoid(it, d, fpcls(mod, n), 8 * n, False)
                    it.on('^' + frx(mod, n) + r'::one\(\)$', lambda it_, a, mm: mo.put(a[0], base('1')))
                    V, O = store_boolvec(it, [B([('v', i)]) for i in range(ln)]), it.alloc(8 * n, 'result')
                    it.call(fn, [O, V])
                    if mo.get(O) != Lin({('1', ('v', i)): 1 << i for i in range(ln)}):
                        ok, info = False, '%d bits: %r' % (ln, mo.get(O))
                    meta['inlined'] = sorted(set(meta['inlined']) | set(it.called))
                yield 'the element is the sum of bit i times 2^i', st(ok), info
            add('%s convert_bit_vector_to_field_element' % mod, fn, body, 3)
        for fn in m.find(r'libff::convert_field_element_to_bit_vector<%s\s*>\(' % c):
            two = 'unsigned long)' in m.dem(fn)

            def body(meta, mod=mod, n=n, fn=fn, nb=nb, two=two):
                ok, info = True, ''
                for k in ((0, 1, 63, 64, 65, nb - 1, nb, nb + 1, nb + 64, 64 * n + 70) if two else (nb,)):
                    d, it = begin(mod, n)
                    A, O = it.alloc(8 * n, 'element'), it.alloc(40, 'result')
                    it.store(A, 8 * n, Abs(8 * n, 'Fp', 'e'))
                    it.call(fn, [O, A] + ([k] if two else []))
                    want = [B([('e', i)]) if i < nb else 0 for i in range(k)]
                    if read_boolvec(it, O) != want:
                        ok, info = False, '%d bits' % k
                    meta['inlined'] = sorted(set(meta['inlined']) | set(it.called))
                yield 'bit i of the vector is bit i of the canonical integer, zero beyond it', st(ok), info
            add('%s convert_field_element_to_bit_vector%s' % (mod, ' bit count' if two else ''), fn, body, 3)
        for fn in get(r'libff::convert_field_element_vector_to_bit_vector<%s\s*>\(' % c):
            def body(meta, mod=mod, n=n, fn=fn, nb=nb):
                ok, info = True, ''
                for ln in (0, 1, 2, 3):
                    d, it = begin(mod, n)
                    arr, V, O = it.alloc(max(8, 8 * n * ln), 'elements'), it.alloc(24, 'vector'), it.alloc(40, 'result')
                    for i in range(ln):
                        it.store(arr + 8 * n * i, 8 * n, Abs(8 * n, 'Fp', 'e%d' % i))
                    for i, x in enumerate((arr, arr + 8 * n * ln, arr + 8 * n * ln)):
                        it.store(V + 8 * i, 8, x)
                    it.call(fn, [O, V])
                    if read_boolvec(it, O) != [B([('e%d' % i, j)]) for i in range(ln) for j in range(nb)]:
                        ok, info = False, '%d elements' % ln
                    meta['inlined'] = sorted(set(meta['inlined']) | set(it.called))
                yield 'the bits of the elements in order', st(ok), info
            add('%s convert_field_element_vector_to_bit_vector' % mod, fn, body, 4)
    return out


# ------------------------------------------------------------------ helpers on field types
def helper_tasks(env):
    m, img = env.m, env.img
    out = []
    tys = [(frx(mod, n), mod, n, PR.PRIMES[mod][0].bit_length(), 'mult') for mod, n in FIELDS] + [('libff::gf%d' % k, 'gf%d' % k, k // 64, k, 'add') for k in (64, 128, 192, 256)]
    for c, nm, n, nb, kind in tys:
        def T(lab, rx, spec):
            fs = m.find(rx)
            if not fs:
                out.append(missing(nm + ' ' + lab))
                return
            for fn in fs[:1]:
                out.append(Task(nm + ' ' + lab, m.dem(fn), bvfn(m, img, fn, spec), backend='z3 bit-vectors', timeout=100))

        def el(it, var, n=n):
            a = it.alloc(8 * n, 'element')
            for i in range(n):
                it.store(a + 8 * i, 8, var('x%d' % i))
            return a
        T('get_field_type', r'^vf_type\(%s const&\)' % c, lambda it, d, call, claim, var, kind=kind, el=el: claim('multiplicative for prime fields, additive for binary fields', z3.BoolVal(call([el(it, var)]) == (1 if kind == 'mult' else 2))))
        T('log_of_field_size_helper', r'^vf_log\(%s const&\)' % c, lambda it, d, call, claim, var, nb=nb, el=el: claim('bits of an element', z3.BoolVal(call([el(it, var)]) == nb)))
        T('soundness_log_of_field_size_helper', r'^vf_slog\(%s const&\)' % c, lambda it, d, call, claim, var, nb=nb, kind=kind, el=el: claim('2^result is at most the field size and more than half of it', z3.BoolVal(call([el(it, var)]) == (nb - 1 if kind == 'mult' else nb))))

        def word(it, d, call, claim, var, n=n, el=el, kind=kind, nm=nm):
            i = d.choose(n)
            if kind == 'mult':
                # as_bigint through its contract (C01)
                ws = [d.var('w%d' % j) for j in range(n)]

                def asbig(it_, a, mm):
                    for j in range(n):
                        it_.store(a[0] + 8 * j, 8, ws[j])
                it.on(r'Fp_model<(\d+)l?, .*>::as_bigint\(\) const$', asbig)
            a = el(it, var)
            r = call([a, i])
            want = ws[i].e if kind == 'mult' else term(it.load(a + 8 * i, 8), 64)
            claim('word i of the canonical integer or of the polynomial', term(r, 64) == want)
        T('get_word_of_field_elem', r'^vf_word\(%s const&, ' % c, word)
    return out


def c17_tasks(env):
    return int_tasks(env) + bigint_tasks(env) + word_tasks(env) + pack_tasks(env) + helper_tasks(env)
