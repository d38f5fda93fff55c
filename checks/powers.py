"""exponentiation routines: result = base^exponent as an identity of integer
linear forms in the exponent bits, valid in every commutative monoid"""
import re
from oblig import *
import core, params as PR
from core import Abs
from scalar import *


def word_of(d, it, a, name, w=64):
    it.store(a, w // 8, d.word(name, w))
    return [B([(name, i)]) for i in range(w)]


def bigint(d, it, n, name='e'):
    a = it.alloc(8 * n, 'bigint')
    for i in range(n):
        it.store(a + 8 * i, 8, d.word('%s%d' % (name, i)))
    return a


def value(base, n, name='e', bits=None):
    return Lin({(base, ('%s%d' % (name, i), j)): 1 << (64 * i + j) for i in range(n) for j in range(64)})


def wnaf_contract(it, d, n, name='e', basename=None):
    """find_wnaf(w, scalar): digits d_i zero or odd, |d_i| < 2^w, vector of max_bits()+1
    entries, sum d_i 2^i == scalar (proved by property C10)"""
    d.naf_calls = []

    def h(it, a, mm):
        out, w, sc = a
        k = int(mm.group(1))
        words = [it.load(sc + 8 * i, 8) for i in range(k)]
        tag = 'd%d' % len(d.naf_calls)
        N = 64 * k + 1
        arr = it.alloc(8 * N, 'naf')
        for i in range(N):
            v = ('d', tag, i)
            it.store(arr + 8 * i, 8, Digit(v))
            if type(w) is int:
                d.digit_range[v] = (1 << w) - 1
            else:
                d.digit_range[v] = ('sym', w)
        it.store(out, 8, arr)
        it.store(out + 8, 8, arr + 8 * N)
        it.store(out + 16, 8, arr + 8 * N)
        d.naf_calls.append((tag, w, words))
        return None
    it.on(r'libff::find_wnaf<(\d+)l?>\(', h)


def naf_value(base, tag, n):
    return Lin({(base, ('d', tag, i)): 1 << i for i in range(64 * n + 1)})


def clsname(mod, cls):
    if mod is None:
        return 'libff::' + cls
    return 'libff::%s<%dl, libff::%s>' % (cls, PR.PRIMES[mod][1], mod)


def setup(m, img, mod, cls, skip=()):
    if mod is None:
        import binary
        d = binary.ExpDomain()
        it = binary.ExpInterp(m, d, img)
        size = binary.FIELDS[cls][0] // 8
        mo = binary.GF(it, d, clsname(mod, cls), size, True, skip)
    else:
        d = ScalarDomain()
        it = core.Interp(m, d, img)
        size = PR.tsize(mod, cls)
        mo = Monoid(it, d, clsname(mod, cls), size, True, skip)
    A = it.alloc(size, 'base')
    mo.put(A, base('x'))
    O = it.alloc(size, 'res')
    return d, it, mo, A, O


def power_tasks(env, types, cyc=True):
    m, img = env.m, env.img
    out = []
    for mod, cls in types:
        full = clsname(mod, cls)
        pre = cls if mod is None else PR.LETTER[mod] + ' ' + cls.replace('_model', '')
        e = re.escape(full)
        for fn in m.find(r'libff::power<%s(, \d+l)? ?>\(' % e) + m.find(r'%s::operator\^' % e) + (m.find(r'%s::cyclotomic_exp' % e) if cyc else []):
            dm = m.dem(fn)
            arg = dm[:dm.rindex(')')].split('(', 1)[1]
            inplace = '::operator^=' in dm
            if '::operator^' in dm:
                sig = arg
            elif 'cyclotomic_exp' in dm:
                sig = arg
            else:
                sig = arg.split(' const&, ', 1)[1]
            kind = 'cyclotomic_exp' if 'cyclotomic_exp' in dm else ('operator^' + ('=' if inplace else '') if 'operator^' in dm else 'power')

            def body(meta, fn=fn, sig=sig, mod=mod, cls=cls, inplace=inplace, kind=kind):
                variants = [None]
                if sig.startswith('std::vector'):
                    variants = range(0, 5)
                for var in variants:
                    nm = '' if var is None else ' (%d-word vector)' % var
                    ok = unch = rec = True
                    seen_rec = False
                    info = ''
                    for d in explore_choices(lambda dec: one_case(meta, fn, sig, mod, cls, inplace, kind, var, dec)):
                        a, b, r, res = d.out
                        if not a and not info:
                            info = 'exponent obtained: %r' % (res,)
                        ok &= a
                        unch &= b
                        if r is not None:
                            seen_rec = True
                            rec &= r
                    if seen_rec:
                        yield 'recoding is applied once, to the exponent itself', st(rec)
                    yield 'result is base to the power exponent' + nm, st(ok), info
                    if not inplace:
                        yield 'base unchanged' + nm, st(unch)

            def one_case(meta, fn, sig, mod, cls, inplace, kind, var, dec):
                d, it, mo, A, O = setup(m, img, mod, cls, {m.dem(fn)})
                d.decisions = dec
                d.install_num_bits(it)
                wnaf_contract(it, d, 0)
                mm = re.match(r'libff::bigint<(\d+)l> const&', sig)
                mf = re.match(r'libff::Fp_model<(\d+)l, libff::(\w+)> const&', sig)
                if mm:
                    n = int(mm.group(1))
                    arg = bigint(d, it, n)
                    want = value('x', n)
                elif sig in ('unsigned long', 'unsigned long long'):
                    n = 1
                    arg = d.word('e0')
                    want = value('x', 1)
                elif mf:
                    n = int(mf.group(1))
                    arg = it.alloc(8 * n, 'Fp')
                    it.store(arg, 8 * n, Abs(8 * n, 'Fp', None))

                    def asbig(it, a, _m, n=n, d=d):
                        for i in range(n):
                            it.store(a[0] + 8 * i, 8, d.word('e%d' % i))
                        return None
                    it.on(r'Fp_model<.*>::(as_bigint|bigint_repr)\(\) const$', asbig)
                    want = value('x', n)
                elif sig.startswith('std::vector'):
                    n = var
                    arr = it.alloc(8 * max(1, n), 'words')
                    for i in range(n):
                        it.store(arr + 8 * i, 8, d.word('e%d' % (n - 1 - i)))
                    arg = it.alloc(24, 'vector')
                    for i, v in enumerate((arr, arr + 8 * n, arr + 8 * n)):
                        it.store(arg + 8 * i, 8, v)
                    want = value('x', n)
                else:
                    raise core.Unsupported('signature ' + sig)
                if mod is None and not inplace:
                    import binary
                    binary.ret(it, fn, [A, arg], binary.F(it, d, 8 * mo.size, addr=O))
                else:
                    it.call(fn, [A, arg] if inplace else [O, A, arg])
                res = mo.get(A if inplace else O)
                rec = None
                if d.naf_calls:
                    tag, w, words = d.naf_calls[0]
                    rec = len(d.naf_calls) == 1 and w == 1 and all(isinstance(x, BV) and x.bits == d.word('e%d' % i).bits for i, x in enumerate(words))
                    want = naf_value('x', tag, n)
                meta['contracts'] = dict(mo.used)
                meta['inlined'] = list(it.called)
                d.out = (d.simp(res) == d.simp(want), mo.get(A) == base('x'), rec, res)
                return d
            out.append(Task('%s %s(%s)' % (pre, kind, sig.replace('libff::', '')[:40]), dm, body, backend='integer linear forms over exponent bits', weight=max([2] + [int(x) for x in re.findall(r'bigint<(\d+)l>', sig)])))
    return out


def st(ok):
    return PROVED if ok else REFUTED
