"""C10: scalar multiplication.  Group elements are integer multiples of the base
(Z-linear forms in scalar bits or recoding digits), valid in every abelian group."""
import re
from oblig import *
import core, params as PR
from core import Abs, UNDEF, Unsupported
from scalar import *
from powers import bigint, value, wnaf_contract, naf_value, st

GROUPS = [c + g for c in PR.FILES for g in ('_G1', '_G2')]


def gsize(name):
    cv = PR.CURVES[name]
    return 3 * PR.tsize(cv.mod, cv.cls)


def setup(m, img, name, skip=()):
    d = ScalarDomain()
    it = core.Interp(m, d, img)
    mo = Monoid(it, d, 'libff::' + name, gsize(name), False, skip)
    it.on(r'^std::__throw_', thrown)
    it.on(r'^libff::(enter_block|leave_block|print_indent)\(', lambda *a: None)
    it.on(r'^std::__cxx11::basic_string<|^std::allocator<char>::', lambda *a: None)
    return d, it, mo


def thrown(it, a, mm):
    raise core.Thrown('library throw')


def element(it, mo, L, nm='base'):
    a = it.alloc(mo.size, nm)
    mo.put(a, L)
    return a


def scalar_arg(it, d, sig, e='e'):
    """-> (argument, limbs) for a bigint or field scalar"""
    mm = re.match(r'libff::bigint<(\d+)l?> const&', sig)
    if mm:
        n = int(mm.group(1))
        return bigint(d, it, n, e), n
    mf = re.match(r'libff::Fp_model<(\d+)l?, libff::(\w+)> const&', sig)
    if mf:
        n = int(mf.group(1))
        a = it.alloc(8 * n, 'scalar')
        it.store(a, 8 * n, Abs(8 * n, 'Fp', e))
        return a, n
    raise Unsupported('signature ' + sig)


def field_scalars(it, d):
    """Fp_model::as_bigint (contract proved by C01): the canonical integer of the element"""
    def asbig(it, a, mm):
        n = int(mm.group(1))
        v = it.load(a[1], 8 * n)
        if not (isinstance(v, Abs) and v.kind == 'Fp'):
            raise Unsupported('field scalar')
        for i in range(n):
            it.store(a[0] + 8 * i, 8, d.word('%s%d' % (v.val, i)))
        return None
    it.on(r'Fp_model<(\d+)l?, .*>::(?:as_bigint|bigint_repr)\(\) const$', asbig)


def c10_tasks(env):
    m, img = env.m, env.img
    out = []

    def add(label, fn, body, weight=1, backend='integer linear forms over scalar bits'):
        out.append(Task(label, m.dem(fn), body, backend=backend, weight=weight, timeout=500))
    for name in GROUPS:
        full = 'libff::' + name
        e = re.escape(full)
        # ---- double and add
        for fn in m.find(r'libff::scalar_mul<%s, \d+l?>\(' % e) + m.find(r'libff::operator\*<.*>\(libff::(bigint|Fp_model)<.*> const&, %s const&\)' % e):
            dm = m.dem(fn)
            sig = re.search(r'(libff::(?:bigint|Fp_model)<[^>]*> const&)', dm.split('(', 1)[1]).group(1)
            swap = dm.split('(', 1)[1].startswith(full)

            def body(meta, fn=fn, sig=sig, swap=swap, name=name):
                d, it, mo = setup(m, img, name)
                field_scalars(it, d)
                d.install_num_bits(it)
                A, O = element(it, mo, base('x')), it.alloc(mo.size, 'res')
                S, n = scalar_arg(it, d, sig)
                it.call(fn, [O, A, S] if swap else [O, S, A])
                res = mo.get(O)
                meta['contracts'] = dict(mo.used)
                meta['inlined'] = sorted(set(it.called))
                yield 'result is scalar times base', st(d.simp(res) == value('x', n)), 'obtained %r' % (res,)
                yield 'base unchanged', st(mo.get(A) == base('x'))
            add('%s %s' % (name, re.sub(r'libff::', '', dm.split('> ', 1)[-1] if False else dm)[:90]), fn, body, 3)
        # ---- fixed window
        for fn in m.find(r'libff::fixed_window_wnaf_exp<%s, \d+l?>\(' % e):
            n = int(re.search(r'<%s, (\d+)l?>' % e, m.dem(fn)).group(1))
            for w in range(1, 11):
                def body(meta, fn=fn, n=n, w=w, name=name):
                    d, it, mo = setup(m, img, name)
                    wnaf_contract(it, d, n)
                    A, O = element(it, mo, base('x')), it.alloc(mo.size, 'res')
                    S = bigint(d, it, n)
                    it.call(fn, [O, w, A, S])
                    res = mo.get(O)
                    meta['contracts'] = dict(mo.used)
                    meta['inlined'] = sorted(set(it.called))
                    if d.naf_calls:
                        tag, w2, words = d.naf_calls[0]
                        yield 'recodes the scalar once with the given window', st(len(d.naf_calls) == 1 and w2 == w and all(isinstance(x, BV) and x.bits == d.word('e%d' % i).bits for i, x in enumerate(words)))
                        want = naf_value('x', tag, n)
                    else:
                        want = value('x', n)
                    yield 'result is scalar times base', st(d.simp(res) == d.simp(want)), 'obtained %r' % (res,)
                    yield 'base unchanged', st(mo.get(A) == base('x'))
                add('%s fixed_window_wnaf_exp<%d> window %d' % (name, n, w), fn, body, 2)
        # ---- window choice
        for fn in m.find(r'libff::opt_window_wnaf_exp<%s, \d+l?>\(' % e):
            n = int(re.search(r'<%s, (\d+)l?>' % e, m.dem(fn)).group(1))

            def body(meta, fn=fn, n=n, name=name):
                tab = env.tabs.get((name, 'wnaf'))
                if tab is None:
                    raise Unsupported('no window table in the image')
                wmax = 0
                ok = inr = unch = True
                info = ''
                pts = set(range(64 * n + 2)) | {x for t in tab for x in (t - 1, t, t + 1) if x >= 0} | {2**64 - 1}
                for sb in sorted(pts):
                    d, it, mo = setup(m, img, name)
                    used = []

                    def fixed(it, a, mm, used=used, d=d, mo=mo):
                        # contract of fixed_window_wnaf_exp: scalar times base for every window in 1..10
                        out_, w, b, sc = a
                        k = int(mm.group(1))
                        used.append(w)
                        words = [it.load(sc + 8 * i, 8) for i in range(k)]
                        same = all(isinstance(x, BV) and x.bits == d.word('e%d' % i).bits for i, x in enumerate(words))
                        L = mo.get(b)
                        if not same or L != base('x'):
                            raise Unsupported('arguments of fixed_window_wnaf_exp')
                        mo.put(out_, value('x', k))
                        return None
                    it.on(r'libff::fixed_window_wnaf_exp<%s, (\d+)l?>\(' % re.escape('libff::' + name), fixed)

                    def plain(it, a, mm, d=d, mo=mo):
                        k = int(mm.group(1))
                        sc, b = (a[1], a[2]) if 'operator' in mm.group(0) else (a[2], a[1])
                        words = [it.load(sc + 8 * i, 8) for i in range(k)]
                        L = mo.get(b)
                        if L != base('x') or not all(isinstance(x, BV) and x.bits == d.word('e%d' % i).bits for i, x in enumerate(words)):
                            raise Unsupported('arguments of the product')
                        mo.put(a[0], value('x', k))
                        return None
                    it.on(r'libff::operator\*<(\d+)l?>\(libff::bigint<\d+l?> const&, %s const&\)' % re.escape('libff::' + name), plain)
                    it.on(r'libff::scalar_mul<%s, (\d+)l?>\(' % re.escape('libff::' + name), plain)
                    vec = it.gep_global(vecsym(m, name))
                    arr = it.alloc(8 * max(1, len(tab)), 'window table')
                    for i, t in enumerate(tab):
                        it.store(arr + 8 * i, 8, t)
                    for i, v in enumerate((arr, arr + 8 * len(tab), arr + 8 * len(tab))):
                        it.store(vec + 8 * i, 8, v)
                    A, O = element(it, mo, base('x')), it.alloc(mo.size, 'res')
                    S = bigint(d, it, n)
                    it.call(fn, [O, A, S, sb])
                    if mo.get(O) != value('x', n):
                        ok, info = False, 'scalar_bits %d' % sb
                    for w in used:
                        if type(w) is not int or not 1 <= w <= 10:
                            inr, info = False, 'window %r for scalar_bits %d' % (w, sb)
                    unch &= mo.get(A) == base('x')
                    meta['inlined'] = sorted(set(it.called))
                yield 'result is scalar times base for every stated bit length', st(ok), info
                yield 'chosen windows lie in the proved range', PROVED if inr else UNDECIDED, info
                yield 'base unchanged', st(unch)
            add('%s opt_window_wnaf_exp<%d>' % (name, n), fn, body, 3)
    return out


def vecsym(m, name):
    k = '_ZN5libff%d%s17wnaf_window_tableE' % (len(name), name)
    return k if k in m.globals else '@' + k
