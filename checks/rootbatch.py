"""C18: batch inversion, roots of unity and coset shifts."""
import re
import z3
from oblig import *
import core, smt, params as PR, powers, utilfn
from core import Abs, Unsupported
from scalar import Monoid, Lin, base
from smt import SMT, term
from utilfn import Agg, bv, bvfn, frx, fpcls, missing, st, FIELDS

GF = {'gf32': 1, 'gf64': 1, 'gf128': 2, 'gf192': 3, 'gf256': 4}


def static(mod, n, name):
    return '_ZN5libff8Fp_modelILl%dEL_ZNS_%d%sEEE%d%sE' % (n, len(mod), mod, len(name), name)


def root_tasks(env):
    m, img = env.m, env.img
    out = []
    for mod, n in FIELDS:
        p = PR.PRIMES[mod][0]
        s = ((p - 1) & -(p - 1)).bit_length() - 1
        fs = m.find(r'^vf_root\(%s&, ' % frx(mod, n))
        if not fs:
            out.append(missing(mod + ' get_root_of_unity'))
            continue

        def spec(it, d, call, claim, var, mod=mod, n=n, s=s):
            mo = Monoid(it, d, fpcls(mod, n), 8 * n, True)
            g = it.gep_global(static(mod, n, 'root_of_unity'))
            it.store(g, 8 * n, Abs(8 * n, mo.cls, base('w')))
            o = it.alloc(8 * n, 'result')
            N = var('n')
            valid = z3.Or([N.e == bv(1 << k) for k in range(min(s, 63) + 1)])
            try:
                call([o, N])
            except core.Thrown as e:
                claim('only sizes that are no power of two the field supports are refused', z3.Not(valid))
                d.note('refusal is an invalid_argument exception', 'invalid_argument' in str(e), str(e))
                return
            claim('sizes that are not a power of two up to 2^s are refused', valid)
            r = mo.get(o)
            d.note('the result is a power of the generator of the 2-part', isinstance(r, Lin) and set(r.c) == {('w', None)}, repr(r))
            if isinstance(r, Lin) and set(r.c) == {('w', None)}:
                e = r.c[('w', None)] % (1 << s)
                # order of w^e is 2^s / gcd(2^s, e)
                order = 1 if e == 0 else (1 << s) // (e & -e)
                claim('the result has exactly the requested multiplicative order', N.e == bv(order))
            rr = it.load(g, 8 * n)
            d.note('the stored generator is unchanged', isinstance(rr, Abs) and rr.val == base('w'))
        out.append(Task('%s get_root_of_unity, every size' % mod, 'libff::get_root_of_unity<%s>(unsigned long)' % fpcls(mod, n), bvfn(m, img, fs[0], spec), backend='z3 bit-vectors with integer exponents', weight=8, timeout=400))
    return out


def shift_tasks(env):
    m, img = env.m, env.img
    out = []
    for mod, n in FIELDS:
        fs = m.find(r'^vf_shift\(%s&\)' % frx(mod, n))
        if not fs:
            out.append(missing(mod + ' coset_shift'))
            continue

        def body(meta, mod=mod, n=n, fn=fs[0]):
            p = PR.PRIMES[mod][0]
            s = ((p - 1) & -(p - 1)).bit_length() - 1
            d, it, mo, A, O = powers.setup(m, img, mod, 'Fp_model')
            g = it.gep_global(static(mod, n, 'multiplicative_generator'))
            it.store(g, 8 * n, Abs(8 * n, mo.cls, base('g')))
            it.call(fn, [O])
            meta['inlined'] = sorted(set(it.called))
            r = mo.get(O)
            ok = isinstance(r, Lin) and set(r.c) <= {('g', None)}
            yield 'the shift is a power of the multiplicative generator', (PROVED if ok else UNDECIDED), repr(r)
            if not ok:
                return
            e = r.c.get(('g', None), 0)
            # the generator has order p-1 (C03); the shift lies in the subgroup of order 2^k iff 2^k e = 0 mod p-1
            yield 'the shift is outside every subgroup of order 2^k, k = 0..%d' % s, st(all((e << k) % (p - 1) for k in range(s + 1)))
        out.append(Task('%s coset_shift' % mod, 'libff::coset_shift<%s>()' % fpcls(mod, n), body, backend='integer exponents', timeout=100))
    for g in ('gf64', 'gf128', 'gf192', 'gf256'):
        fs = m.find(r'^vf_shift\(libff::%s&\)' % g)
        if not fs:
            out.append(missing(g + ' coset_shift'))
            continue

        def body(meta, g=g, fn=fs[0]):
            d, it, mo, A, O = powers.setup(m, img, None, g)
            sz = GF[g] * 8
            a = it.gep_global('_ZN5libff%d%s24multiplicative_generatorE' % (len(g), g))
            mo.put(a, base('g'))
            it.call(fn, [O])
            meta['inlined'] = sorted(set(it.called))
            r = mo.get(O)
            ok = isinstance(r, Lin) and set(r.c) <= {('g', None)}
            yield 'the shift is a power of the multiplicative generator', (PROVED if ok else UNDECIDED), repr(r)
            if not ok:
                return
            e = r.c.get(('g', None), 0)
            k = int(g[2:])
            yield 'the shift lies in no proper subfield subgroup', st(all(e * ((1 << j) - 1) % ((1 << k) - 1) for j in range(1, k) if k % j == 0))
        out.append(Task('%s coset_shift' % g, 'libff::coset_shift<libff::%s>()' % g, body, backend='integer exponents', timeout=100))
    return out


def types():
    r = [('Fp_model', mod, n) for mod, n in FIELDS] + [(c, mod, PR.PRIMES[mod][1]) for mod, tw in PR.TOWERS.items() for c in tw]
    return r + [(g, None, 0) for g in GF]


def batch_tasks(env):
    m, img = env.m, env.img
    out = []
    for cls, mod, n in types():
        name = powers.clsname(mod, cls)
        fs = m.find(r'^vf_batch\(std::vector<%s, ' % re.escape(name))
        if not fs:
            if not (mod and re.search('Fp6_2over3|Fp4|Fp12|Fp6_3', cls)):
                out.append(missing('%s batch_invert' % name))
            continue

        def body(meta, cls=cls, mod=mod, fn=fs[0]):
            lens = list(range(0, 18)) + [31, 32, 33, 64] + (list(range(18, 80)) + [127, 128, 129, 200] if env.tier == 'thorough' else [])
            ok, info = True, ''
            lens, more = sorted(set(lens)), None
            wit = None
            for ln in lens:
                if more is None and ln > 4:
                    # lengths around the numbers the code compares with
                    import anylen
                    more = anylen.thresholds(m, meta['inlined'])
                    lens += [x for x in more if x not in lens]
                d, it, mo, A, O = powers.setup(m, img, mod, cls)
                it.on(r'^std::__throw_', utilfn.thrown)
                arr, V = it.alloc(max(8, mo.size * ln), 'elements'), it.alloc(24, 'vector')
                for i in range(ln):
                    mo.put(arr + mo.size * i, base('v%d' % i))
                for i, x in enumerate((arr, arr + mo.size * ln, arr + mo.size * ln)):
                    it.store(V + 8 * i, 8, x)
                it.call(fn, [V])
                b, e = it.load(V, 8), it.load(V + 8, 8)
                if b != arr or e - b != mo.size * ln:
                    ok, info, wit = False, 'length %d: vector changed' % ln, wit or ln
                    continue
                for i in range(ln):
                    r = mo.get(arr + mo.size * i)
                    if r != Lin({('v%d' % i, None): -1}):
                        ok, info, wit = False, 'length %d: element %d is %r' % (ln, i, r), wit or ln
                meta['contracts'] = dict(mo.used)
                meta['inlined'] = sorted(set(meta['inlined']) | set(it.called))
            yield 'every element is replaced by its inverse, in place, for every value of the elements (%d lengths, 0..%d)' % (len(lens), max(lens)), st(ok), info, wit
        out.append(Task('%s batch_invert' % name.replace('libff::', ''), 'libff::batch_invert<%s>' % name, body, backend='integer exponent vectors', weight=5, timeout=400))
        import anylen
        out.append(anylen.batch_invert_task(env, m, img, name, powers.setup(m, img, mod, cls)[2].size, fs[0]))
    return out


def c18_tasks(env):
    return root_tasks(env) + shift_tasks(env) + batch_tasks(env)
