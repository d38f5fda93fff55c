"""functions over lists, for lists of every length (loops cut by proved invariants)"""
import re
from oblig import *
import core, binary, powers, params as PR
from core import Abs, Unsupported, MemError, Thrown
from scalar import Lin, Monoid
from cut import *
import cut

MAXN = 1 << 40


class GFDomain(CutDomain):
    split_abs = binary.ExpDomain.split_abs
    join_abs = binary.ExpDomain.join_abs


class GFInterp(CutInterp):
    def store(self, addr, size, val):
        CutInterp.store(self, addr, size, val)
        if size == 8 and isinstance(val, Abs) and val.kind == 'half' and val.val[1] == 8 and self.where(addr) is None:
            o, off = self.obj(addr, size)
            e = o.cells.get(off - 8)
            if e is not None and e[0] == 8 and isinstance(e[1], Abs) and e[1].kind == 'half' and e[1].val[1] == 0 and e[1].val[0] is val.val[0]:
                Interp.store(self, addr - 8, 16, val.val[0])


def start(m, img, decisions, cls, size, mult, length=None):
    gf = cls.startswith('libff::gf')
    d = (GFDomain if gf else CutDomain)(decisions)
    it = (GFInterp if gf else CutInterp)(m, d, img)
    attach(it)
    mo = (binary.GF if gf else Monoid)(it, d, cls, size, mult)
    it.on(r'^std::__throw_', thrown)
    if length is not None:
        return d, it, mo, li(length)
    n = LI((('n', 1),), 0)
    d.fact(n)
    d.fact(lsum(LI((), MAXN), n, -1))
    return d, it, mo, n


def thrown(it, a, m):
    raise Thrown(m.string)


def family(sym, kind, size):
    return lambda idx: {0: (size, Abs(size, kind, unit(sym, idx)))}


def vector(it, es, n, content, name='list'):
    """a std::vector of n elements"""
    if not n.t:
        arr = it.alloc(max(8, es * n.c), name)
        for i in range(n.c):
            for o, (s, v) in content(li(i)).items():
                it.store(arr + es * i + o, s, v)
    else:
        arr = it.region(es, n, name, content)
    v = it.alloc(24, 'vector')
    end = out(lsum(arr, lmul(n, es)))
    for i, x in enumerate((arr, end, end)):
        it.store(v + 8 * i, 8, x)
    return v, arr, end


def every(meta, run, limit=64):
    """all paths: run(decisions) -> domain with .res = [(name, ok, info)]; combined per name"""
    acc = {}
    for d, res in explore(run, limit):
        facts = ', '.join('%s%r >= 1' % ('' if v != c.neg else 'not ', c.d) for c, v in d.path if not c.eq)
        for nm, ok, info in res:
            a = acc.setdefault(nm, [True, None, ''])
            if not ok and a[0]:
                acc[nm] = [False, shortest(d), 'for lists with %s: %s' % (facts or 'any length', info)]
    return acc


def shortest(d, limit=20000):
    """a list length for which the path is taken"""
    for n in range(limit):
        ok = True
        for c, v in d.path:
            x = subst(c.d, 'n', li(n))
            if x.t:
                continue
            if ((x.c != 0 if c.eq else x.c >= 1) != c.neg) != v:
                ok = False
                break
        if ok:
            return n
    return None


def equal(d, x, y):
    """values agree, on a path that may pin the length to a constant"""
    if x == y:
        return True
    n = LI((('n', 1),), 0)
    for c in range(65):
        if d.proves(lsum(n, -c)) and d.proves(lsum(lmul(n, -1), c)):
            f = lambda i: subst(i, 'n', li(c))
            return mapidx(x, f) == mapidx(y, f)
    return False


def arbitrary(d, n, nm='k'):
    """an index 0 <= k < n, or None when the list is empty on this path"""
    if d.proves(lmul(n, -1)):
        return None
    k = LI(((nm, 1),), 0)
    d.fact(k)
    d.fact(lsum(lsub(n, k), -1))
    return k


def thresholds(m, fns, limit=3000):
    """integers the executed functions compare against: list lengths worth trying"""
    r = set()
    for f in fns:
        fn = m.functions.get(f)
        if fn is None:
            continue
        for code in fn.blocks.values():
            for x in code:
                ops = [x[4], x[5]] if x[0] == 'icmp' else [x[4], x[5]] if x[0] == 'bin' and x[2] in ('urem', 'udiv', 'srem', 'sdiv', 'and') else []
                for v in ops:
                    if isinstance(v, tuple) and v[0] == 'c' and 4 < v[1] <= limit:
                        r.update((v[1] - 1, v[1], v[1] + 1, v[1] + 2))
    return sorted(r)


def st(ok):
    return PROVED if ok else REFUTED


def finish(meta, run, m, short=(0, 1, 2, 3, 5, 8)):
    """run(decisions, length) for an arbitrary length, then for concrete ones (bounded)"""
    cut.HINTS.clear()
    try:
        for nm, (ok, wit, info) in every(meta, lambda dec: run(dec, None)).items():
            yield nm + ', for lists of every length', st(ok), info, wit
    except Unsupported as e:
        yield 'lists of every length', UNDECIDED, 'outside the engine: %s' % e
    lens, k = list(short), 0
    bad = {}
    while k < len(lens):
        for nm, (ok, _, info) in every(meta, lambda dec: run(dec, lens[k])).items():
            b = bad.setdefault(nm, [True, '', None])
            if not ok and b[0]:
                bad[nm] = [False, 'length %d: %s' % (lens[k], info), lens[k]]
        k += 1
        if k == len(short):
            lens += [x for x in thresholds(m, meta['inlined']) if x not in lens]
            for h in sorted(cut.HINTS)[:3]:
                lens += [x for x in (h, h + 1, h + 2) if 0 < x <= 120000 and x not in lens]
    for nm, (ok, info, wit) in bad.items():
        yield nm + ' [lengths %s]' % (', '.join(map(str, lens[:40]))), st(ok), info, wit


def indices(d, n):
    """the indices to look at: an arbitrary one, or all of a concrete list"""
    if not n.t:
        return [li(i) for i in range(n.c)]
    k = arbitrary(d, n)
    return [] if k is None else [k]


def batch_invert_task(env, m, img, name, size, fn):
    def body(meta):
        def run(dec, length):
            d, it, mo, n = start(m, img, dec, name, size, True, length)
            V, arr, end = vector(it, size, n, family('v', name, size))
            it.call(fn, [V])
            meta['inlined'] = sorted(set(meta['inlined']) | set(it.called))
            res = [('the vector keeps its storage', same(it.load(V, 8), arr) and same(it.load(V + 8, 8), end), '')]
            ok, info = True, ''
            for k in indices(d, n):
                v = it.load(out(lsum(arr, lmul(k, size))), size)
                if not (isinstance(v, Abs) and v.val == unit('v', k).scale(-1)):
                    ok, info = False, 'element %r becomes %r' % (k, v)
            res.append(('every element is replaced by its inverse', ok, info))
            return d, res
        yield from finish(meta, run, m)
    return Task('%s batch_invert, any length' % name.replace('libff::', ''), 'libff::batch_invert<%s>' % name, body, backend='integer exponent vectors, loop invariants', timeout=200, expect=2)


def batch_special_task(env, m, img, cv, fn, size):
    """coordinates as exponents: only z is inverted, so the identity holds for zero x and y too"""
    cls = powers.clsname(cv.mod, cv.cls)
    w = {'jac': (2, 3), 'proj': (1, 1), 'inv': (1, 1)}[cv.model]

    def content(idx):
        z = unit('z', idx)
        a = lambda v: (size, Abs(size, cls, v))
        return {0: a(unit('x', idx) + z.scale(w[0])), size: a(unit('y', idx) + z.scale(w[1])), 2 * size: a(z)}

    def body(meta):
        def run(dec, length):
            d, it, mo, n = start(m, img, dec, cls, size, True, length)
            V, arr, end = vector(it, 3 * size, n, content)
            it.call(fn, [V])
            meta['inlined'] = sorted(set(meta['inlined']) | set(it.called))
            res = [('the vector keeps its storage', same(it.load(V, 8), arr) and same(it.load(V + 8, 8), end), '')]
            for i, c in enumerate('xyz'):
                ok, info = True, ''
                for k in indices(d, n):
                    v = it.load(out(lsum(arr + i * size, lmul(k, 3 * size))), size)
                    if not (isinstance(v, Abs) and v.val == (Lin({}) if c == 'z' else unit(c, k))):
                        ok, info = False, 'element %r: %r' % (k, v)
                res.append(('%s of every element is normal' % c.upper(), ok, info))
            return d, res
        yield from finish(meta, run, m)
    return Task('%s batch_to_special_all_non_zeros, any length' % cv.name, m.dem(fn), body, backend='integer exponent vectors, loop invariants', timeout=200, expect=2)


# ---------------------------------------------------------------- groups: list functions over bases and scalars
def token(g, e):
    """the scalar multiple of one list entry: unit(p, k) when both come from entry k"""
    (b, _), _ = next(iter(g.c.items()), ((None, None), None))
    k = unit_index(g, 'g')
    if not (isinstance(e, Lin)) or unit_index(e, 'e') is None or k is None:
        return None
    d = lsub(unit_index(e, 'e'), k)
    return unit('p' if d == li(0) else 'p with scalar %r later' % d, k)


def group_start(m, img, dec, name, length):
    from tables import fr
    from scalarmul import gsize
    mod, r, n = fr(name)
    d, it, mo, ln = start(m, img, dec, 'libff::' + name, gsize(name), False, length)
    it.on(r'^libff::(enter_block|leave_block|print_indent)\(', lambda *a: None)
    it.on(r'^(printf|fflush|putchar|puts)$', lambda *a: 0)
    it.on(r'^std::__cxx11::basic_string<|^std::allocator<char>::', lambda *a: None)

    def copy(it, a, mm):
        it.store(a[0], 8 * n, it.load(a[1], 8 * n))
        return a[0]
    it.on(r'Fp_model<\d+l?, .*>::(operator=|Fp_model)\(libff::Fp_model<.*> const&\)$', copy)

    def asbig(it, a, mm):
        v = it.load(a[1], 8 * n)
        if not (isinstance(v, Abs) and v.kind == 'Fp'):
            raise Unsupported('field scalar')
        it.store(a[0], 8 * n, Abs(8 * n, 'int', v.val))
        return None
    it.on(r'Fp_model<\d+l?, .*>::(?:as_bigint|bigint_repr)\(\) const$', asbig)
    it.on(r'libff::bigint<\d+l?>::num_bits\(\) const$', lambda it, a, mm: 77)

    def tok(it, dst, g, s, kind):
        v = it.load(s, 8 * n)
        if not (isinstance(v, Abs) and v.kind in kind):
            raise Unsupported('scalar')
        t = token(mo.get(g), v.val)
        if t is None:
            raise Unsupported('product of something else than a base and a scalar')
        mo.put(dst, t)
        return None
    e = re.escape('libff::' + name)
    it.on(r'libff::opt_window_wnaf_exp<%s, ' % e, lambda it, a, mm: tok(it, a[0], a[1], a[2], ('int',)))
    it.on(r'libff::operator\*<.*>\(libff::(?:Fp_model|bigint)<.*> const&, %s const&\)$' % e, lambda it, a, mm: tok(it, a[0], a[2], a[1], ('Fp', 'int')))
    return d, it, mo, ln, n


def scalars(n):
    return lambda idx: {0: (8 * n, Abs(8 * n, 'Fp', unit('e', idx)))}


def plain(it, es, n, content, name):
    """an array of n elements -> begin, end"""
    if n.t:
        a = it.region(es, n, name, content)
    else:
        a = it.alloc(max(8, es * n.c), name)
        for i in range(n.c):
            for o, (s, v) in content(li(i)).items():
                it.store(a + es * i + o, s, v)
    return a, out(lsum(a, lmul(n, es)))


def kept(it, d, ln, lists):
    ok = True
    for a, es, content in lists:
        for k in indices(d, ln):
            for o, (s, v) in content(k).items():
                ok &= same(it.load(out(lsum(a + o, lmul(k, es))), s), v)
    return ok


def naive_task(env, m, img, name, fn, meth):
    def body(meta):
        def run(dec, length):
            d, it, mo, ln, n = group_start(m, img, dec, name, length)
            gc, ec = family('g', mo.cls, mo.size), scalars(n)
            G, GE = plain(it, mo.size, ln, gc, 'bases')
            S, SE = plain(it, 8 * n, ln, ec, 'scalars')
            O = it.alloc(mo.size, 'res')
            it.call(fn, [O, G, GE, S, SE])
            meta['inlined'] = sorted(set(meta['inlined']) | set(it.called))
            v = mo.get(O)
            return d, [('result is the sum of the products', equal(d, v, ps('p', ln)), 'obtained %r' % (v,)),
                       ('lists unchanged', kept(it, d, ln, [(G, mo.size, gc), (S, 8 * n, ec)]), '')]
        yield from finish(meta, run, m, (0, 1, 2, 3, 4, 5, 6, 7, 8))
    return Task('%s multi_exp_inner %s, any length' % (name, meth), m.dem(fn), body, backend='integer linear forms, loop invariants', timeout=200, expect=2)


def inner_product_task(env, m, img, fc, n, fn):
    sz = 8 * n

    def body(meta):
        def run(dec, length):
            d, it, mo, ln = start(m, img, dec, fc, sz, False, length)

            def mul(it, a, mm):
                x, y = mo.get(a[1]), mo.get(a[2])
                i, j = unit_index(x, 'a'), unit_index(y, 'b')
                if i is None or j is None:
                    i, j = unit_index(y, 'a'), unit_index(x, 'b')
                if i is None or j is None:
                    raise Unsupported('product of other values')
                k = lsub(j, i)
                mo.put(a[0], unit('p' if k == li(0) else 'p%r' % k, i))
                return None
            it.on(r'^%s::operator\*\(%s const&\) const$' % (re.escape(fc), re.escape(fc)), mul)
            ac, bc = family('a', fc, sz), family('b', fc, sz)
            A, AE = plain(it, sz, ln, ac, 'a')
            B, BE = plain(it, sz, ln, bc, 'b')
            O = it.alloc(sz, 'res')
            it.call(fn, [O, A, AE, B, BE])
            meta['inlined'] = sorted(set(meta['inlined']) | set(it.called))
            v = mo.get(O)
            return d, [('result is the sum of the products', equal(d, v, ps('p', ln)), 'obtained %r' % (v,)),
                       ('lists unchanged', kept(it, d, ln, [(A, sz, ac), (B, sz, bc)]), '')]
        yield from finish(meta, run, m, (0, 1, 2, 3, 4, 5, 6, 7, 8))
    return Task('inner_product over %s, any length' % fc.replace('libff::', ''), m.dem(fn), body, backend='integer linear forms, loop invariants', timeout=200, expect=2)


def batch_exp_task(env, m, img, name, fn, co):
    """batch_exp over lists of every length; windowed_exp by contract"""
    def body(meta):
        def run(dec, length):
            d, it, mo, ln, n = group_start(m, img, dec, name, length)
            tab = it.alloc(24, 'table')
            r0, row = it.alloc(24, 'rows'), it.alloc(mo.size * 4, 'row')
            mo.put(row, Lin({}))
            for b, a, sz in ((tab, r0, 24), (r0, row, mo.size * 4)):
                for i, x in enumerate((a, a + sz, a + sz)):
                    it.store(b + 8 * i, 8, x)
            bad = []

            def wexp(it, a, mm):
                o, s, w, t, e = a
                v = it.load(e, 8 * n)
                if (s, w, t) != (5, 2, tab):
                    bad.append((s, w, t))
                if not isinstance(v, Abs) or unit_index(v.val, 'ce' if co else 'e') is None:
                    raise Unsupported('scalar of an exponentiation')
                mo.put(o, unit('x', unit_index(v.val, 'ce' if co else 'e')))
                return None
            it.on(r'libff::windowed_exp<%s, ' % re.escape('libff::' + name), wexp)

            def fmul(it, a, mm):
                x, y = it.load(a[1], 8 * n), it.load(a[2], 8 * n)
                if not (isinstance(x, Abs) and isinstance(y, Abs)):
                    raise Unsupported('product')
                if x.val != 'c':
                    x, y = y, x
                k = unit_index(y.val, 'e') if x.val == 'c' and isinstance(y.val, Lin) else None
                if k is None:
                    raise Unsupported('product of other values')
                it.store(a[0], 8 * n, Abs(8 * n, 'Fp', unit('ce', k)))
                return None
            it.on(r'Fp_model<\d+l?, libff::\w+>::operator\*\(libff::Fp_model<.*> const&\) const$', fmul)
            V, arr, end = vector(it, 8 * n, ln, scalars(n), 'scalars')
            O, C = it.alloc(24, 'result'), it.alloc(8 * n, 'coeff')
            it.store(C, 8 * n, Abs(8 * n, 'Fp', 'c'))
            it.call(fn, [O, 5, 2, tab] + ([C] if co else []) + [V])
            meta['inlined'] = sorted(set(meta['inlined']) | set(it.called))
            b, e = it.load(O, 8), it.load(O + 8, 8)
            size = same(lsub(e, b) if isinstance(e, LI) or isinstance(b, LI) else e - b, lmul(ln, mo.size)) or (d.proves(lmul(ln, -1)) and same(b, e))
            ok, info = True, ''
            for k in indices(d, ln) if size else []:
                v = it.load(out(lsum(b, lmul(k, mo.size))), mo.size)
                if not (isinstance(v, Abs) and v.val == unit('x', k)):
                    ok, info = False, 'result %r is %r' % (k, v)
            return d, [('one result per scalar', size, ''),
                       ('result i is the windowed exponentiation of %s' % ('coefficient times scalar i' if co else 'scalar i'), size and ok, info),
                       ('the caller\'s table, size and window are used', not bad, repr(bad[:1])),
                       ('lists unchanged', kept(it, d, ln, [(arr, 8 * n, scalars(n))]), '')]
        yield from finish(meta, run, m)
    return Task('%s %s, any length' % (name, 'batch_exp_with_coeff' if co else 'batch_exp'), m.dem(fn), body, backend='integer linear forms, loop invariants', timeout=200, expect=5)


def chunks_task(env, m, img, name, fn, meth, most=12):
    """multi_exp over n = chunks*q + r terms, q arbitrary; multi_exp_inner by contract"""
    def body(meta):
        fine = {}

        def one(dec, length, ch, r):
            d, it, mo, ln, n = group_start(m, img, dec, name, length)
            if length is None:
                d.lfacts = []
                q = LI((('q', 1),), 0)
                d.fact(q)
                d.fact(lsum(LI((), MAXN), q, -1))
                ln = lsum(lmul(q, ch), r)
            gc, ec = family('g', mo.cls, mo.size), scalars(n)
            G, GE = plain(it, mo.size, ln, gc, 'bases')
            S, SE = plain(it, 8 * n, ln, ec, 'scalars')
            O = it.alloc(mo.size, 'res')
            bad = []

            def rng(a, b, base, es):
                x, y = lsub(a, base), lsub(b, base)
                if any(k % es for _, k in x.t + y.t) or x.c % es or y.c % es:
                    raise Unsupported('range of terms')
                return [LI(tuple((s, k // es) for s, k in z.t), z.c // es) for z in (x, y)]

            def inner(it, a, mm):
                o, gs, ge, ss, se = a
                lo, hi = rng(gs, ge, G, mo.size)
                l2, h2 = rng(ss, se, S, 8 * n)
                for x, y in ((lo, l2), (hi, h2)):
                    t = d.truth(Cond(lsub(x, y), eq=True))
                    if t is None and x != y:
                        raise Unsupported('ranges of terms and scalars')
                    if t:
                        bad.append('terms %r..%r with scalars %r..%r' % (lo, hi, l2, h2))
                for x in (lo, lsub(hi, lo), lsub(ln, hi)):
                    if not d.proves(x):
                        if not d.proves(lsum(lmul(x, -1), -1)):
                            raise Unsupported('range of terms')
                        bad.append('terms %r..%r of %r' % (lo, hi, ln))
                mo.put(o, ps('p', hi) - ps('p', lo))
                return None
            it.on(r'libff::multi_exp_inner<libff::%s, ' % name, inner)
            it.call(fn, [O, G, GE, S, SE, ch])
            meta['inlined'] = sorted(set(meta['inlined']) | set(it.called))
            v = mo.get(O)
            # on the path where q is pinned the sum is compared at that q
            want = ps('p', ln)
            good = v == want
            if not good and length is None:
                for c in range(3):
                    q = LI((('q', 1),), 0)
                    if d.proves(lsum(q, -c)) and d.proves(lsum(lmul(q, -1), c)):
                        f = lambda i: subst(i, 'q', li(c))
                        good = mapidx(v, f) == mapidx(want, f)
            return d, [('the chunks are matching sublists that partition the lists, and their sums are added', good and not bad, '%d chunks: %s %r' % (ch, '; '.join(bad[:2]), v))]
        ok, info, wit, und = True, '', None, ''
        for ch in range(1, most + 1):
            for r in range(ch):
                try:
                    for d, res in explore(lambda dec: one(dec, None, ch, r), 64):
                        for nm, good, inf in res:
                            if not good and ok:
                                ok, info, wit = False, inf + ' (length %d*q+%d)' % (ch, r), None
                except Unsupported as e:
                    und = 'outside the engine: %s' % e
        nm = 'the chunks are matching sublists that partition the lists, and their sums are added'
        if ok and und:
            yield 'lists of every length', UNDECIDED, und
        else:
            yield nm + ', for lists of every length [1..%d chunks]' % most, st(ok), info
        lens, k, bad = list(range(10)), 0, None
        while k < len(lens):
            for ch in list(range(1, most)) + [1 << 40]:
                for d, res in explore(lambda dec: one(dec, lens[k], ch, 0), 64):
                    if not res[0][1]:
                        bad = bad or 'length %d: %s' % (lens[k], res[0][2])
            k += 1
            if k == 10:
                lens += [x for x in thresholds(m, meta['inlined'], 1000) if x not in lens]
        yield nm + ' [lengths %s]' % ', '.join(map(str, lens[:40])), st(not bad), bad or ''
    return Task('%s multi_exp %s, any length' % (name, meth), m.dem(fn), body, backend='integer linear forms, loop invariants', weight=4, timeout=300, expect=2)
