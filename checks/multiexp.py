"""C12: multi-exponentiation.  Elements are integer combinations of the listed
bases, scalars are symbolic bit vectors; list lengths are enumerated."""
import re
import z3
from oblig import *
import core, params as PR, smt, anylen
from core import Abs, UNDEF, Poison, Unsupported, MemError, merge_branch
from scalar import *
from powers import value, st
from scalarmul import GROUPS, gsize, thrown
from tables import TabDomain, vec3, fr
from sqrt import loops


class FlagAt:
    """the bucket flag selected by a symbolic digit"""
    def __init__(self, arr, bits):
        self.arr, self.bits = arr, bits


class METab(TabDomain):
    """buckets indexed by a digit of scalar bits: digit indicators [id = j]"""

    def __init__(self):
        TabDomain.__init__(self)
        self.ids = {}          # bit tuple -> {j: indicator variable}
        self.flag = {}         # bit tuple -> (flag array, known value) on the current path
        self.byvar = {}

    def ident(self, bits):
        bits = tuple(bits)
        r = self.ids.get(bits)
        if r is None:
            live = [(i, b) for i, b in enumerate(bits) if type(b) is not int]
            if any(b.neg or len(b.s) != 1 for _, b in live) or any(b == 1 for b in bits if type(b) is int) or len(live) > 12:
                raise Unsupported('digit')
            key = tuple((i, next(iter(b.s))) for i, b in live)
            r = {}
            if len(live) == 1:
                self.ids[bits] = {1 << live[0][0]: key[0][1]}      # the indicator is the bit itself
                return self.ids[bits]
            for k in range(1, 1 << len(live)):
                r[sum(1 << live[j][0] for j in range(len(live)) if k >> j & 1)] = ('ind', key, sum(1 << live[j][0] for j in range(len(live)) if k >> j & 1))
            self.ids[bits] = r
            for v in r.values():
                self.byvar[v] = key
        return r

    def icmp(self, pred, w, a, b):
        if pred in ('eq', 'ne') and isinstance(a, BV) and type(b) is int and b == 0 and sum(type(x) is not int for x in a.bits) > 1:
            try:
                ind = self.ident(self.norm(a.bits))
            except Unsupported:
                ind = {}
            r = TabDomain.icmp(self, 'ne', w, a, b)
            if isinstance(r, B) and not r.neg:
                r = B(r.s | frozenset(ind.values()))
            return r if pred == 'ne' else bnot(r)
        return TabDomain.icmp(self, pred, w, a, b)

    def norm(self, bits):
        bits = list(bits)
        while bits and bits[-1] == 0:
            bits.pop()
        return tuple(bits)

    def lookup(self, it, ptr, size, kind):
        if ptr[0] == 'row':
            _, a, sc, bits = ptr
            e = it.load(a, size)
            bits = self.norm(bits)
            if bits in self.flag:
                if sc != size:
                    raise Unsupported('bucket size')
                if self.flag[bits][1] is not True:
                    raise Unsupported('bucket read before it is set')
                return Lin({(('ent', a, bits), None): 1})
        return TabDomain.lookup(self, it, ptr, size, kind)

    def put_row(self, it, mo, ptr, L):
        _, a, sc, bits = ptr
        bits = self.norm(bits)
        if sc != mo.size or bits not in self.flag:
            raise Unsupported('bucket write')
        arr, known = self.flag[bits]
        ent = (('ent', a, bits), None)
        add = L.c.get(ent)
        if any(v is not None or (isinstance(b, tuple) and b[0] == 'ent' and (b, v) != ent) for b, v in L.c):
            raise Unsupported('bucket value')
        d = Lin({k: v for k, v in L.c.items() if k != ent})
        if not (add == 1 if known else add is None):
            raise Unsupported('bucket update')
        for j, v in self.ident(bits).items():
            old = mo.get(a + sc * j)
            if not known:
                f = it.load(arr + j, 1)
                # the flag is clear: whatever the bucket holds must vanish with it
                rest = old.drop(f.s) if isinstance(f, B) else old if f == 0 else Lin({})
                if rest.c:
                    raise WrongTable('bucket %d may hold a value while its flag is clear' % j)
            mo.put(a + sc * j, old + Lin({(b, v): k for (b, _), k in d.c.items()}))

    def branch(self, it, fr_, b, c, tb, fb, stop):
        if not isinstance(c, FlagAt):
            return TabDomain.branch(self, it, fr_, b, c, tb, fb, stop)
        f0 = self.flag

        def enter(pos):
            self.flag = dict(f0)
            self.flag[c.bits] = (c.arr, pos)
            if pos:
                # [id = j] implies flag j here
                for j, v in self.ident(c.bits).items():
                    it.store(c.arr + j, 1, bor(it.load(c.arr + j, 1), B([v])))

        def leave():
            self.flag = f0

        def same(x, y, w):
            if x.__class__ is Poison or y.__class__ is Poison:
                return x if x.__class__ is Poison else y
            if isinstance(x, Abs) and isinstance(y, Abs) and x.val == y.val or type(x) is type(y) and x == y:
                return x
            if x is UNDEF or y is UNDEF or isinstance(x, Abs):
                return UNDEF        # temporaries
            raise Unsupported('bucket cases differ')
        return merge_branch(self, it, fr_, b, tb, fb, enter, leave, same)

    def merge(self, c, x, y, w):
        r = TabDomain.merge(self, c, x, y, w)
        if w == 8 and isinstance(r, BV) and isinstance(r.bits[0], B) and isinstance(x, (B, int)) and isinstance(y, (B, int)) and all(type(b) is int and not b for b in r.bits[1:]):
            return r.bits[0]
        return r

    def zext(self, v, w, w2):
        return v if isinstance(v, FlagAt) else TabDomain.zext(self, v, w, w2)

    def trunc(self, v, w, w2):
        return v if isinstance(v, FlagAt) else TabDomain.trunc(self, v, w, w2)


class MEMonoid(Monoid):
    def put(self, a, v):
        if isinstance(a, tuple):
            self.dom.put_row(self.it, self, a, v)
        else:
            Monoid.put(self, a, v)


def vector_bool(it, d):
    """contract of std::vector<bool> for one-bit flags (trusted library)"""
    store = {}

    def ctor(it, a, mm):
        n = a[1]
        if type(n) is not int or n > 1 << 13:
            raise Unsupported('vector<bool> size')
        arr = it.alloc(max(1, n), 'flags')
        for i in range(n):
            it.store(arr + i, 1, 0)
        it.store(a[0], 8, arr)
        it.store(a[0] + 8, 8, n)
        return None
    it.on(r'^std::vector<bool, std::allocator<bool> ?>::vector\(unsigned long, std::allocator<bool> const&\)$', ctor)
    it.on(r'^std::vector<bool, std::allocator<bool> ?>::~vector\(\)$', lambda *a: None)

    def at(it, a, mm):
        arr, n = it.load(a[0], 8), it.load(a[0] + 8, 8)
        i = a[1]
        if type(i) is int:
            if not 0 <= i < n:
                raise MemError('flag index out of range')
            return [arr, i]
        if isinstance(i, BV):
            bits = d.norm(i.bits)
            if any(j >= n for j in d.ident(bits)):
                raise MemError('flag index out of range')
            return [arr, BV(list(i.bits))]
        raise Unsupported('flag index')
    it.on(r'^std::vector<bool, std::allocator<bool> ?>::operator\[\]\(unsigned long\)( const)?$', at)

    def rd(it, a, mm):
        arr, i = it.load(a[0], 8), it.load(a[0] + 8, 8)
        if type(i) is int:
            return it.load(arr + i, 1)
        bits = d.norm(i.bits)
        if bits in d.flag:
            return int(d.flag[bits][1])
        return FlagAt(arr, bits)
    it.on(r'^std::_Bit_reference::operator bool\(\) const$', rd)

    def wr(it, a, mm):
        arr, i = it.load(a[0], 8), it.load(a[0] + 8, 8)
        v = a[1]
        if type(i) is int:
            it.store(arr + i, 1, v)
            return a[0]
        if v != 1:
            raise Unsupported('flag cleared')
        bits = d.norm(i.bits)
        for j, q in d.ident(bits).items():
            it.store(arr + j, 1, bor(it.load(arr + j, 1), B([q])))
        if bits in d.flag:
            # from here on the flag is set; the bucket was written before
            d.flag = dict(d.flag)
            d.flag[bits] = (arr, True)
        return a[0]
    it.on(r'^std::_Bit_reference::operator=\(bool\)$', wr)


def setup(m, img, name, dom=None):
    d = dom or METab()
    it = core.Interp(m, d, img)
    mo = MEMonoid(it, d, 'libff::' + name, gsize(name), False)
    it.on(r'^std::__throw_', thrown)
    it.on(r'^libff::(enter_block|leave_block|print_indent)\(', lambda *a: None)
    it.on(r'^(printf|fflush|putchar|puts)$', lambda *a: 0)
    it.on(r'^std::__cxx11::basic_string<|^std::allocator<char>::', lambda *a: None)

    def move(it, a, mm):
        if isinstance(a[0], tuple) or isinstance(a[1], tuple):
            if a[2] != mo.size:
                raise Unsupported('copy through a symbolic address')
            mo.put(a[0], mo.get(a[1]))
        else:
            it.copy(a[0], a[1], a[2])
        return a[0]
    it.on(r'^(llvm\.memcpy|llvm\.memmove|memcpy|memmove)', move)
    return d, it, mo


def copies(it, n):
    def copy(it, a, mm):
        it.store(a[0], 8 * n, it.load(a[1], 8 * n))
        return a[0]
    it.on(r'Fp_model<\d+l?, .*>::(operator=|Fp_model)\(libff::Fp_model<.*> const&\)$', copy)


def lists(it, mo, n, ln):
    G, S = it.alloc(max(8, mo.size * ln), 'bases'), it.alloc(max(8, 8 * n * ln), 'scalars')
    for i in range(ln):
        mo.put(G + mo.size * i, base('g%d' % i))
        it.store(S + 8 * n * i, 8 * n, Abs(8 * n, 'Fp', 'e%d_' % i))
    return G, S


def kept(it, mo, n, ln, G, S):
    return all(mo.get(G + mo.size * i) == base('g%d' % i) for i in range(ln)) and all(
        isinstance(it.load(S + 8 * n * i, 8 * n), Abs) and it.load(S + 8 * n * i, 8 * n).val == 'e%d_' % i for i in range(ln))


def bitform(d, L):
    """rewrite digit indicators by scalar bits; None when the coefficients are not linear in the digit"""
    by, r = {}, {}
    for (b, v), k in L.c.items():
        if isinstance(v, tuple) and v and v[0] == 'ind':
            by.setdefault((b, v[1]), {})[v[2]] = k
        else:
            r[(b, v)] = r.get((b, v), 0) + k
    for (b, key), co in by.items():
        full = 1 << len(key)
        for k in range(1, full):
            j = sum(1 << key[t][0] for t in range(len(key)) if k >> t & 1)
            if co.get(j, 0) != sum(co.get(1 << key[t][0], 0) for t in range(len(key)) if k >> t & 1):
                return None
        for i, v in key:
            r[(b, v)] = r.get((b, v), 0) + co.get(1 << i, 0)
    return Lin(r)


def total(n, ln):
    s = Lin({})
    for i in range(ln):
        s = s + value('g%d' % i, n, 'e%d_' % i)
    return s


def toks(ln):
    s = Lin({})
    for i in range(ln):
        s = s + base(('prod', 'g%d' % i, 'e%d_' % i))
    return s


def product(it, mo, n, name):
    """scalar multiplication by contract (C10): the token prod(g_i, e_i)"""
    def tok(it, dst, g, sname):
        L = mo.get(g)
        if len(L.c) != 1:
            raise Unsupported('product of %r' % L)
        (b, v), k = next(iter(L.c.items()))
        mo.put(dst, Lin({(('prod', b, sname), None): k}))
        return None

    def asbig(it, a, mm):
        v = it.load(a[1], 8 * n)
        if not (isinstance(v, Abs) and v.kind == 'Fp'):
            raise Unsupported('field scalar')
        it.store(a[0], 8 * n, Abs(8 * n, 'int', v.val))
        return None
    it.on(r'Fp_model<\d+l?, .*>::(?:as_bigint|bigint_repr)\(\) const$', asbig)
    it.on(r'libff::bigint<\d+l?>::num_bits\(\) const$', lambda it, a, mm: 77)

    def opt(it, a, mm):
        v = it.load(a[2], 8 * n)
        if not (isinstance(v, Abs) and v.kind == 'int'):
            raise Unsupported('integer scalar')
        return tok(it, a[0], a[1], v.val)
    it.on(r'libff::opt_window_wnaf_exp<libff::%s, ' % name, opt)

    def plain(it, a, mm):
        v = it.load(a[1], 8 * n)
        if not isinstance(v, Abs):
            raise Unsupported('scalar')
        return tok(it, a[0], a[2], v.val)
    it.on(r'libff::operator\*<.*>\(libff::(?:Fp_model|bigint)<.*> const&, libff::%s const&\)$' % name, plain)


def inner_contract(it, mo, n, name, bad):
    """multi_exp_inner by contract: the sum over the given range"""
    def inner(it, a, mm):
        o, gs, ge, ss, se = a
        L = Lin({})
        if (ge - gs) % mo.size or (se - ss) % (8 * n) or (ge - gs) // mo.size != (se - ss) // (8 * n) or ge < gs:
            bad.append('ranges of different length')
            raise core.Thrown('ranges')
        for i in range((ge - gs) // mo.size):
            g, e = mo.get(gs + i * mo.size), it.load(ss + i * 8 * n, 8 * n)
            if len(g.c) != 1 or not isinstance(e, Abs):
                raise Unsupported('range contents')
            (b, v), k = next(iter(g.c.items()))
            L = L + Lin({(('prod', b, e.val), None): k})
        mo.put(o, L)
        return None
    it.on(r'libff::multi_exp_inner<libff::%s, ' % name, inner)


METH = ['naive', 'naive_plain', 'bos_coster', 'BDLO12']


def c12_tasks(env):
    m, img = env.m, env.img
    out = []
    quick = env.tier == 'quick'

    def add(label, fn, body, weight=1, backend='integer linear forms over scalar bits'):
        out.append(Task(label, m.dem(fn), body, backend=backend, weight=weight, timeout=600))
    for gi, name in enumerate(GROUPS):
        e = re.escape('libff::' + name)
        mod, r, n = fr(name)
        full = r.bit_length()
        for fn in m.find(r'libff::multi_exp_inner<%s, .*\(libff::multi_exp_method\)[01], ' % e):
            k = int(re.search(r'multi_exp_method\)(\d)', m.dem(fn)).group(1))
            out.append(anylen.naive_task(env, m, img, name, fn, METH[k]))
            for ln in range(0, 9):
                def body(meta, fn=fn, ln=ln, name=name, n=n):
                    d, it, mo = setup(m, img, name)
                    copies(it, n)
                    product(it, mo, n, name)
                    G, S = lists(it, mo, n, ln)
                    O = it.alloc(mo.size, 'res')
                    it.call(fn, [O, G, G + mo.size * ln, S, S + 8 * n * ln])
                    meta['inlined'] = sorted(set(it.called))
                    yield 'result is the sum of the products', st(mo.get(O) == toks(ln)), 'obtained %r' % (mo.get(O),)
                    yield 'lists unchanged', st(kept(it, mo, n, ln, G, S))
                add('%s multi_exp_inner %s, %d terms' % (name, METH[k], ln), fn, body)
        # ---- bucket method
        for fn in m.find(r'libff::multi_exp_inner<%s, .*\(libff::multi_exp_method\)3, ' % e):
            pats = []
            for ln in (0, 1, 2, 3, 4, 5, 8, 9) if gi == 0 or not quick else (0, 1, 2, 3, 5):
                for bl in sorted({0, 1, 2, 3, 4, 5, 7, 64, 65, full} if ln <= 3 else {3, 9, 63} | (set() if quick and ln > 5 else {full})):
                    pats.append((ln, bl))
            if gi == 0:
                pats += [(16, 12), (17, 13), (33, 13)]
            for ln, bl in pats:
                for pat in ('all', 'first', 'last') if ln > 1 and bl in (1, 5) else ('all',):
                    def body(meta, fn=fn, ln=ln, bl=bl, pat=pat, name=name, n=n):
                        d, it, mo = setup(m, img, name)
                        copies(it, n)
                        vector_bool(it, d)
                        lens = [bl if pat == 'all' or (pat == 'first') == (i == 0) and (pat == 'first' or i == ln - 1) else 0 for i in range(ln)]

                        def asbig(it, a, mm):
                            v = it.load(a[1], 8 * n)
                            i = int(v.val[1:-1])
                            for t in range(n):
                                w = d.word('%s%d' % (v.val, t))
                                it.store(a[0] + 8 * t, 8, mk([b if 64 * t + j < lens[i] else 0 for j, b in enumerate(w.bits)]))
                            return None
                        it.on(r'Fp_model<\d+l?, .*>::(?:as_bigint|bigint_repr)\(\) const$', asbig)

                        def nb(it, a, mm):
                            # the longest scalar has its stated length; a shorter one is covered by the symbolic top bit
                            t = 0
                            for w in range(n):
                                x = it.load(a[0] + 8 * w, 8)
                                for j, b in enumerate(bits_of(x, 64)):
                                    if type(b) is not int or b:
                                        t = 64 * w + j + 1
                            return t
                        it.on(r'libff::bigint<\d+l?>::num_bits\(\) const$', nb)
                        G, S = lists(it, mo, n, ln)
                        O = it.alloc(mo.size, 'res')
                        it.call(fn, [O, G, G + mo.size * ln, S, S + 8 * n * ln])
                        res = bitform(d, mo.get(O))
                        want = Lin({})
                        for i in range(ln):
                            want = want + Lin({k: c for k, c in value('g%d' % i, n, 'e%d_' % i).c.items() if c < 1 << lens[i]})
                        meta['inlined'] = sorted(set(it.called))
                        yield 'result is the sum of the scalar multiples', st(res == want), 'obtained %r' % (res,)
                        yield 'lists unchanged', st(kept(it, mo, n, ln, G, S))
                    add('%s multi_exp_inner BDLO12, %d terms, scalars of %d bits (%s)' % (name, ln, bl, pat), fn, body, 1 + ln * bl / 60)
        # ---- chunks
        for fn in m.find(r'libff::multi_exp<%s, ' % e):
            k = int(re.search(r'multi_exp_method\)(\d)', m.dem(fn)).group(1))

            def body(meta, fn=fn, name=name, n=n):
                ok, keep, info = True, True, ''
                for ln in range(0, 10):
                    for ch in list(range(1, 12)) + [2**40]:
                        d, it, mo = setup(m, img, name)
                        copies(it, n)
                        bad = []
                        inner_contract(it, mo, n, name, bad)
                        G, S = lists(it, mo, n, ln)
                        O = it.alloc(mo.size, 'res')
                        try:
                            it.call(fn, [O, G, G + mo.size * ln, S, S + 8 * n * ln, ch])
                            good = mo.get(O) == toks(ln)
                        except core.Thrown:
                            good = False
                        if not good:
                            ok, info = False, '%d terms in %d chunks' % (ln, ch)
                        keep &= kept(it, mo, n, ln, G, S)
                        meta['inlined'] = sorted(set(it.called))
                yield 'the chunks partition the lists and their sums are added', st(ok), info
                yield 'lists unchanged', st(keep)
            out.append(anylen.chunks_task(env, m, img, name, fn, METH[k]))
            add('%s multi_exp %s, 0..9 terms in 1..11 chunks' % (name, METH[k]), fn, body, 4)
        # ---- skipping zeros and ones
        for fn in m.find(r'libff::multi_exp_with_mixed_addition<%s, ' % e):
            k = int(re.search(r'multi_exp_method\)(\d)', m.dem(fn)).group(1))
            for ln in range(0, 5):
                def body(meta, fn=fn, ln=ln, name=name, n=n):
                    agg = {}

                    def one(dec):
                        d, it, mo = setup(m, img, name)
                        d.decisions = dec
                        copies(it, n)
                        kind = {}

                        def const(v):
                            def h(it, a, mm):
                                it.store(a[0], 8 * n, Abs(8 * n, 'Fp', v))
                                return None
                            return h
                        it.on(r'Fp_model<\d+l?, .*>::zero\(\)$', const('zero'))
                        it.on(r'Fp_model<\d+l?, .*>::one\(\)$', const('one'))

                        def cls(v):
                            if v in ('zero', 'one'):
                                return v
                            if v not in kind:
                                kind[v] = ('zero', 'one', 'other')[d.choose(3)]
                            return kind[v]

                        def eq(it, a, mm):
                            x, y = it.load(a[0], 8 * n), it.load(a[1], 8 * n)
                            if not isinstance(x, Abs) or not isinstance(y, Abs):
                                raise Unsupported('comparison')
                            p, q = cls(x.val), cls(y.val)
                            if 'other' in (p, q) and p == q and x.val != y.val:
                                raise Unsupported('comparison of two scalars')
                            return int((p == q) == (mm.group(1) == '=='))
                        it.on(r'Fp_model<\d+l?, .*>::operator(==|!=)\(libff::Fp_model<.*> const&\) const$', eq)
                        it.on(r'Fp_model<\d+l?, .*>::is_zero\(\) const$', lambda it, a, mm: int(cls(it.load(a[0], 8 * n).val) == 'zero'))

                        def mexp(it, a, mm):
                            o, gs, ge, ss, se = a[:5]
                            if (ge - gs) // mo.size != (se - ss) // (8 * n):
                                raise core.Thrown('ranges')
                            if a[5] != 6:
                                agg['chunks'] = False
                            L = Lin({})
                            for i in range((ge - gs) // mo.size):
                                g, x = mo.get(gs + i * mo.size), it.load(ss + i * 8 * n, 8 * n)
                                (b, v), c = next(iter(g.c.items()))
                                L = L + Lin({(('prod', b, x.val), None): c})
                            mo.put(o, L)
                            return None
                        it.on(r'libff::multi_exp<libff::%s, ' % name, mexp)
                        G, S = lists(it, mo, n, ln)
                        O = it.alloc(mo.size, 'res')
                        it.call(fn, [O, G, G + mo.size * ln, S, S + 8 * n * ln, 6])

                        def red(L):
                            r = {}
                            for (b, v), c in L.c.items():
                                if isinstance(b, tuple):
                                    q = kind.get(b[2])
                                    if q == 'zero':
                                        continue
                                    if q == 'one':
                                        b = b[1]
                                r[(b, v)] = r.get((b, v), 0) + c
                            return Lin(r)
                        if red(mo.get(O)) != red(toks(ln)):
                            agg.setdefault('sum', 'obtained %r for %r' % (mo.get(O), kind))
                        agg['keep'] = agg.get('keep', True) and kept(it, mo, n, ln, G, S)
                        meta['inlined'] = sorted(set(it.called))
                        return d
                    for _ in explore_choices(one):
                        pass
                    yield 'result is the sum of the products for every choice of zero, one and other scalars', st('sum' not in agg), agg.get('sum', '')
                    yield 'lists unchanged', st(agg['keep'])
                add('%s multi_exp_with_mixed_addition %s, %d terms' % (name, METH[k], ln), fn, body, 1 + 3**ln / 9)
    # ---- inner products
    for fn in m.find(r'libff::inner_product<libff::Fp_model<'):
        mm = re.search(r'inner_product<(libff::Fp_model<(\d+)l?, libff::(\w+)>)', m.dem(fn))
        fc, n = mm.group(1), int(mm.group(2))
        out.append(anylen.inner_product_task(env, m, img, fc, n, fn))
        for ln in range(0, 9):
            def body(meta, fn=fn, fc=fc, n=n, ln=ln):
                d = METab()
                it = core.Interp(m, d, img)
                sz = 8 * n
                ec = r'libff::Fp_model<%dl?, %s>' % (n, re.escape('libff::' + fc.split('libff::')[2].rstrip('>')))
                ld = lambda a: it.load(a, sz).val
                it.on(r'^%s::(operator=|Fp_model)\(%s const&\)$' % (ec, ec), lambda it, a, mm: (it.store(a[0], sz, it.load(a[1], sz)), a[0])[1])
                it.on(r'^%s::zero\(\)$' % ec, lambda it, a, mm: it.store(a[0], sz, Abs(sz, 'Fp', Lin({}))))
                it.on(r'^%s::operator\+\(' % ec, lambda it, a, mm: it.store(a[0], sz, Abs(sz, 'Fp', ld(a[1]) + ld(a[2]))))

                def mul(it, a, mm):
                    (x, _), p = next(iter(ld(a[1]).c.items()))
                    (y, _), q = next(iter(ld(a[2]).c.items()))
                    it.store(a[0], sz, Abs(sz, 'Fp', base(tuple(sorted((x, y))))))
                it.on(r'^%s::operator\*\(%s const&\) const$' % (ec, ec), mul)
                A, C = it.alloc(max(8, sz * ln), 'a'), it.alloc(max(8, sz * ln), 'b')
                want = Lin({})
                for i in range(ln):
                    it.store(A + sz * i, sz, Abs(sz, 'Fp', base('a%d' % i)))
                    it.store(C + sz * i, sz, Abs(sz, 'Fp', base('b%d' % i)))
                    want = want + base(('a%d' % i, 'b%d' % i))
                O = it.alloc(sz, 'res')
                it.call(fn, [O, A, A + sz * ln, C, C + sz * ln])
                meta['inlined'] = sorted(set(it.called))
                yield 'result is the sum of the products', st(ld(O) == want), 'obtained %r' % (ld(O),)
            add('inner_product over %s, %d terms' % (fc.replace('libff::', ''), ln), fn, body)
    return out
