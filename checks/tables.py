"""C11: fixed-base window tables.  Group elements are integer multiples of the base
(every base, every scalar); the window size and scalar size are enumerated."""
import re
from oblig import *
import core, params as PR, anylen
from core import Abs, UNDEF, Unsupported, MemError
from scalar import *
from powers import bigint, value, st
from scalarmul import GROUPS, gsize, setup as setup0, element, field_scalars, thrown

WMAX = 64


class TabDomain(ScalarDomain):
    """table rows indexed by a word of scalar bits"""

    def ptr_add(self, a, idx, sc):
        if isinstance(idx, BV) and type(a) is int:
            return ('row', a, sc, tuple(idx.bits))
        return ScalarDomain.ptr_add(self, a, idx, sc)

    def lookup(self, it, ptr, size, kind):
        if ptr[0] != 'row':
            return ScalarDomain.lookup(self, it, ptr, size, kind)
        _, a, sc, bits = ptr
        if sc != size:
            raise Unsupported('table element size')
        fix = sum(1 << i for i, b in enumerate(bits) if b == 1)
        free = [(i, b) for i, b in enumerate(bits) if type(b) is not int]
        if len(free) > 20 or any(b.neg or len(b.s) != 1 for _, b in free):
            raise Unsupported('table index')

        def at(k):
            e = it.load(a + k * sc, size)
            if not isinstance(e, Abs) or e.kind != kind:
                raise Unsupported('table entry')
            return e.val
        v0 = at(fix)
        step = [at(fix + (1 << i)) - v0 for i, _ in free]
        if any(t is not None for s in step + [v0] for _, t in s.c):
            raise Unsupported('table entries depend on the scalar')
        acc = {0: v0}
        for k in range(1, 1 << len(free)):
            low = (k & -k).bit_length() - 1
            acc[k] = acc[k & (k - 1)] + step[low]
            if at(fix + sum(1 << free[j][0] for j in range(len(free)) if k >> j & 1)) != acc[k]:
                raise Unsupported('table row is not linear in the index bits')
        r = v0
        for (i, b), s in zip(free, step):
            v, = b.s
            r = r + Lin({(x, v): k for (x, _), k in s.c.items()})
        return r


def setup(m, img, name):
    d = TabDomain()
    it = core.Interp(m, d, img)
    mo = Monoid(it, d, 'libff::' + name, gsize(name), False)
    it.on(r'^std::__throw_', thrown)
    it.on(r'^libff::(enter_block|leave_block|print_indent)\(', lambda *a: None)
    it.on(r'^(printf|fflush|putchar|puts)$', lambda *a: 0)
    it.on(r'^std::__cxx11::basic_string<|^std::allocator<char>::', lambda *a: None)
    return d, it, mo


def vec3(it, addr, b, size):
    it.store(addr, 8, b)
    it.store(addr + 8, 8, b + size)
    it.store(addr + 16, 8, b + size)


def matrix(it, addr):
    b, e = it.load(addr, 8), it.load(addr + 8, 8)
    rows = []
    for o in range(b, e, 24):
        rows.append((it.load(o, 8), it.load(o + 8, 8)))
    return rows


def combos(full, tier, first):
    ws = range(1, 7)
    out = []
    for w in ws:
        ss = {1, w - 1, w, w + 1, 2 * w, 2 * w + 1, 3 * w - 1, 4 * w + 1, full - 1}
        if w <= 4:
            ss |= set(range(1, 18))
        out += [(s, w) for s in sorted(ss) if s >= 1]
        out.append((full, w))
    out += [(full, 7), (full, 8)] + ([(full, 9), (full, 10)] if first else [])
    if tier != 'quick':
        out += [(full, 9), (full, 10), (full, 12), (17, 11), (13, 12), (30, 13), (14, 14)]
        out += [(s, w) for w in (1, 2, 3, 4, 5) for s in range(1, 40)]
    return sorted(set(out))


def fr(name):
    cv = PR.CURVES[name]
    for k, (p, n) in PR.PRIMES.items():
        if p == cv.r:
            return k, p, n


def c11_tasks(env):
    m, img = env.m, env.img
    out = []

    def add(label, fn, body, weight=1, note='bases and scalars symbolic'):
        out.append(Task(label, m.dem(fn), body, backend='integer linear forms over scalar bits', weight=weight, timeout=600))
    for gi, name in enumerate(GROUPS):
        e = re.escape('libff::' + name)
        mod, r, n = fr(name)
        full = r.bit_length()
        cs = combos(full, env.tier, gi == 0)
        for fn in m.find(r'libff::get_window_table<%s>\(' % e):
            for s, w in cs:
                def body(meta, fn=fn, s=s, w=w, name=name):
                    d, it, mo = setup(m, img, name)
                    A, O = element(it, mo, base('x')), it.alloc(24, 'table')
                    it.call(fn, [O, s, w, A])
                    rows = matrix(it, O)
                    oc = (s + w - 1) // w
                    good, sizes = True, True
                    info = ''
                    if len(rows) < oc:
                        yield 'one row per window', REFUTED, '%d rows for %d windows' % (len(rows), oc)
                        return
                    for o in range(oc):
                        cur = min(w, s - o * w)
                        b, end = rows[o]
                        if end - b < mo.size << cur:
                            sizes, info = False, 'row %d has %d entries' % (o, (end - b) // mo.size)
                            continue
                        for i in range(1 << cur):
                            if mo.get(b + i * mo.size) != Lin({('x', None): i << (w * o)}):
                                good, info = False, 'row %d entry %d is %r' % (o, i, mo.get(b + i * mo.size))
                    meta['contracts'] = dict(mo.used)
                    meta['inlined'] = sorted(set(it.called))
                    yield 'every reachable digit has an entry', st(sizes), info
                    yield 'entry i of row o is i*2^(window*o) times the base', st(good), info
                    yield 'base unchanged', st(mo.get(A) == base('x'))
                add('%s get_window_table size %d window %d' % (name, s, w), fn, body, 1 + (((s + w - 1) // w) << w) / 400)
        for fn in m.find(r'libff::windowed_exp<%s, ' % e):
            for s, w in cs:
                def body(meta, fn=fn, s=s, w=w, name=name, n=n):
                    d, it, mo = setup(m, img, name)
                    field_bits(it, d, s)
                    tb = table(it, mo, s, w)
                    O, E = it.alloc(mo.size, 'res'), it.alloc(8 * n, 'scalar')
                    it.store(E, 8 * n, Abs(8 * n, 'Fp', 'e'))
                    it.call(fn, [O, s, w, tb, E])
                    res = mo.get(O)
                    wl = Lin({})
                    for i in range(s):
                        b, = d.word('e%d' % (i // 64)).bits[i % 64].s
                        wl = wl + Lin({('x', b): 1 << i})
                    meta['contracts'] = dict(mo.used)
                    meta['inlined'] = sorted(set(it.called))
                    yield 'result is scalar times base', st(res == wl), 'obtained %r' % (res,)
                    ab = it.load(E, 8 * n)
                    yield 'scalar unchanged', st(isinstance(ab, Abs) and ab.val == 'e')
                add('%s windowed_exp size %d window %d' % (name, s, w), fn, body, 1 + (1 << w) / 400 + s / 60)
        for fn in m.find(r'libff::batch_exp(_with_coeff)?<%s, ' % e):
            co = 'batch_exp_with_coeff<' in m.dem(fn)
            out.append(anylen.batch_exp_task(env, m, img, name, fn, co))
            for ln in (0, 1, 2, 3, 5):
                def body(meta, fn=fn, ln=ln, co=co, name=name, n=n):
                    d, it, mo = setup(m, img, name)
                    tb = table(it, mo, 5, 2)
                    calls = []

                    def field(it, a, mm):
                        x, y = it.load(a[1], 8 * n), it.load(a[2], 8 * n)
                        if not (isinstance(x, Abs) and isinstance(y, Abs)):
                            raise Unsupported('field product')
                        it.store(a[0], 8 * n, Abs(8 * n, 'Fp', ('prod',) + tuple(sorted((x.val, y.val)))))
                    it.on(r'Fp_model<\d+l?, .*>::operator\*\(.*\) const$', field)

                    def copy(it, a, mm):
                        it.store(a[0], 8 * n, it.load(a[1], 8 * n))
                        return a[0]
                    it.on(r'Fp_model<\d+l?, .*>::(operator=|Fp_model)\(libff::Fp_model<.*> const&\)$', copy)

                    def wexp(it, a, mm):
                        o, s, w, t, e = a
                        v = it.load(e, 8 * n)
                        if (s, w, t) != (5, 2, tb) or not isinstance(v, Abs):
                            calls.append(None)
                        mo.put(o, base(('exp', v.val)))
                        return None
                    it.on(r'libff::windowed_exp<libff::%s, ' % name, wexp)
                    arr = it.alloc(max(8, 8 * n * ln), 'scalars')
                    V, O, C = it.alloc(24, 'vector'), it.alloc(24, 'result'), it.alloc(8 * n, 'coeff')
                    for i in range(ln):
                        it.store(arr + 8 * n * i, 8 * n, Abs(8 * n, 'Fp', 'e%d' % i))
                    it.store(C, 8 * n, Abs(8 * n, 'Fp', 'c'))
                    vec3(it, V, arr, 8 * n * ln)
                    it.call(fn, [O, 5, 2, tb] + ([C] if co else []) + [V])
                    b, e2 = it.load(O, 8), it.load(O + 8, 8)
                    meta['inlined'] = sorted(set(it.called))
                    yield 'one result per scalar', st(e2 - b == ln * mo.size)
                    want = [base(('exp', ('prod', 'c', 'e%d' % i) if co else 'e%d' % i)) for i in range(ln)]
                    got = [mo.get(b + i * mo.size) for i in range(ln)] if e2 - b == ln * mo.size else None
                    yield 'result i is the windowed exponentiation of scalar i with the caller\'s table, size and window', st(not calls and got == want), 'obtained %r' % (got,)
                add('%s %s %d scalars' % (name, 'batch_exp_with_coeff' if co else 'batch_exp', ln), fn, body, 1)
        for fn in m.find(r'libff::get_exp_window_size<%s>\(' % e):
            def body(meta, fn=fn, name=name):
                tab = env.tabs.get((name, 'fixed'))
                if tab is None:
                    raise Unsupported('no window table in the image')
                pts = {0, 1, 2, 2**63, 2**64 - 1} | {x for t in tab for x in (t - 1, t, t + 1) if 0 <= x < 2**64}
                ok, info = True, ''
                for q in sorted(pts):
                    d, it, mo = setup(m, img, name)
                    vec = it.gep_global(fsym(m, name))
                    arr = it.alloc(8 * max(1, len(tab)), 'window table')
                    for i, t in enumerate(tab):
                        it.store(arr + 8 * i, 8, t)
                    vec3(it, vec, arr, 8 * len(tab))
                    w = it.call(fn, [q])
                    if not (type(w) is int and 1 <= w <= 31):
                        ok, info = False, 'window %r for %d scalars' % (w, q)
                    meta['inlined'] = sorted(set(it.called))
                yield 'the recommended window is between 1 and 31 for every number of scalars (all threshold neighbourhoods)', st(ok), info
            add('%s get_exp_window_size' % name, fn, body, 1)
    return out


def fsym(m, name):
    k = '_ZN5libff%d%s27fixed_base_exp_window_tableE' % (len(name), name)
    return k if k in m.globals else '@' + k


def field_bits(it, d, s):
    """Fp_model::as_bigint (C01); the scalar fits in s bits (precondition of the table)"""
    def asbig(it, a, mm):
        n = int(mm.group(1))
        v = it.load(a[1], 8 * n)
        if not (isinstance(v, Abs) and v.kind == 'Fp'):
            raise Unsupported('field scalar')
        for i in range(n):
            w = d.word('%s%d' % (v.val, i))
            it.store(a[0] + 8 * i, 8, mk([b if 64 * i + j < s else 0 for j, b in enumerate(w.bits)]))
        return None
    it.on(r'Fp_model<(\d+)l?, .*>::(?:as_bigint|bigint_repr)\(\) const$', asbig)


def table(it, mo, s, w):
    """a table as get_window_table leaves it"""
    oc = (s + w - 1) // w
    outer, T = it.alloc(24 * oc, 'rows'), it.alloc(24, 'table')
    vec3(it, T, outer, 24 * oc)
    for o in range(oc):
        row = it.alloc(mo.size << w, 'row%d' % o)
        vec3(it, outer + 24 * o, row, mo.size << w)
        cur = min(w, s - o * w)
        for i in range(1 << w):
            mo.put(row + i * mo.size, Lin({('x', None): i << (w * o)}) if i < 1 << cur else Lin({}))
    return T
