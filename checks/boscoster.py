"""multi_exp by the Bos-Coster heap: loop invariant over bit-vectors.

Invariant at the main loop head, for an odd number of entries:
    the entries' indices are a permutation, the scalars form a max-heap, and
    result + sum r_i g[idx_i]  is the wanted sum.
One iteration keeps it and lowers the sum of the scalars; leaving the loop
gives the wanted sum.  The number of entries is enumerated."""
import re, itertools
import z3
from oblig import *
import core, smt
from core import Abs, UNDEF, Unsupported, MemError
from scalar import Lin, Monoid, base
from smt import SMT, SV, term, join, words, mk
from powers import st
from scalarmul import GROUPS, gsize, thrown
from tables import fr
from sqrt import loops
from wnaf import snapshot, Stop


class ZL(Lin):
    """linear form whose coefficients may be z3 terms"""
    def __init__(self, c):
        self.c = dict(c)

    def __add__(self, o):
        r = dict(self.c)
        for k, v in o.c.items():
            r[k] = r[k] + v if k in r else v
        return ZL(r)


def num(v):
    return z3.IntVal(v) if type(v) is int else v


def setup(m, img, name, d, n):
    """scalars are integers (as_bigint by contract C01; GMP and bigint operations by contract)"""
    it = core.Interp(m, d, img)
    d.it = it
    mo = Monoid(it, d, 'libff::' + name, gsize(name), False)
    it.on(r'^std::__throw_', thrown)
    it.on(r'^(printf|fflush|putchar|puts)$', lambda *a: 0)
    sz = 8 * n

    def get(a):
        v = it.load(a, sz)
        if isinstance(v, Abs) and v.kind in ('int', 'Fp'):
            return v.val
        if type(v) is int:
            return z3.IntVal(v)
        raise Unsupported('scalar %r' % (v,))

    def put(a, t):
        it.store(a, sz, Abs(sz, 'int', z3.simplify(t)))
        return None
    it.on(r'Fp_model<\d+l?, .*>::(?:as_bigint|bigint_repr)\(\) const$', lambda it, a, mm: put(a[0], get(a[1])))

    def copy(it, a, mm):
        it.store(a[0], sz, it.load(a[1], sz))
        return a[0]
    it.on(r'Fp_model<\d+l?, .*>::(operator=|Fp_model)\(libff::Fp_model<.*> const&\)$', copy)
    it.on(r'libff::bigint<\d+l?>::bigint\(unsigned long\)$', lambda it, a, mm: put(a[0], z3.IntVal(a[1])) if type(a[1]) is int else NotImplemented)
    it.on(r'libff::bigint<\d+l?>::clear\(\)$', lambda it, a, mm: put(a[0], z3.IntVal(0)))

    def sub(it, a, mm):
        x, y = get(a[1]), get(a[2])
        if a[3] != n:
            raise Unsupported('length')
        if d.decide(x >= y):
            put(a[0], x - y)
            return 0
        put(a[0], x - y + 2 ** (64 * n))
        return 1
    it.on(r'^__gmpn_sub_n$', sub)

    def cmp(it, a, mm):
        x, y = get(a[0]), get(a[1])
        return 0 if d.decide(x == y) else 1 if d.decide(x > y) else 0xffffffff
    it.on(r'^__gmpn_cmp$', cmp)
    it.on(r'^__gmpn_zero$', lambda it, a, mm: put(a[0], z3.IntVal(0)) if a[1] == n else NotImplemented)

    def nb(it, a, mm):
        w = z3.simplify(get(a[0]))
        if z3.is_int_value(w):
            return w.as_long().bit_length()
        d.nbits = d.__dict__.get("nbits", 0) + 1
        v = d.var('bits%d' % d.nbits)
        d.assume(z3.ULE(v.e, 64 * n))
        return v
    it.on(r'libff::bigint<\d+l?>::num_bits\(\) const$', nb)
    it.on(r'libff::bigint<\d+l?>::is_zero\(\) const$', lambda it, a, mm: int(d.decide(get(a[0]) == 0)))
    # operator< by contract (own obligation): compares the scalars
    it.on(r'libff::ordered_exponent<\d+l?>::operator<\(', lambda it, a, mm: int(d.decide(get(a[0] + 8) < get(a[1] + 8))))

    def prod(it, a, mm, g=1, e=2):
        t = get(a[e])
        mo.put(a[0], ZL({k: t * v for k, v in mo.get(a[g]).c.items()}))
        return None
    it.on(r'libff::opt_window_wnaf_exp<libff::%s, ' % name, prod)
    it.on(r'libff::operator\*<.*>\(libff::(?:Fp_model|bigint)<.*> const&, libff::%s const&\)$' % name, lambda it, a, mm: prod(it, a, mm, 2, 1))
    it.getint = get
    return it, mo


def fresh(d, name, n):
    v = z3.Int(name)
    d.assume(z3.And(v >= 0, v < 2 ** (64 * n)))
    return v


def inputs(it, mo, n, sc):
    ln = len(sc)
    G, S = it.alloc(max(8, mo.size * ln), 'bases'), it.alloc(max(8, 8 * n * ln), 'scalars')
    for i in range(ln):
        mo.put(G + mo.size * i, base('g%d' % i))
        it.store(S + 8 * n * i, 8 * n, Abs(8 * n, 'Fp', sc[i]))
    O = it.alloc(mo.size, 'res')
    return O, G, S, [O, G, G + mo.size * ln, S, S + 8 * n * ln]


def roles(it, mo, n, cnt, O):
    """the heap array and the element array at the loop head"""
    rec = 8 + 8 * n
    gs, qs = [], []
    for i, o in it.objs.items():
        if o.name != 'heap':
            continue
        if o.size >= mo.size * cnt and all(isinstance(o.cells.get(mo.size * k, (0, 0))[1], Abs) for k in range(cnt)):
            gs.append(i << 32)
        elif o.size >= rec * cnt and all(rec * k in o.cells and rec * k + 8 in o.cells for k in range(cnt)):
            qs.append(i << 32)
    if len(gs) != 1 or len(qs) != 1:
        raise Unsupported('loop state not recognised')
    if not isinstance(it.load(O, mo.size), Abs):
        raise Unsupported('accumulator not recognised')
    return gs[0], qs[0]


def coefs(it, mo, n, G, Q, O, cnt):
    """{ghost: coefficient} of result + sum r_i g[idx_i]"""
    tot = {}

    def addto(k, t):
        tot[k] = tot[k] + t if k in tot else num(t)
    for (b, _), v in mo.get(O).c.items():
        addto(b, v)
    rec = 8 + 8 * n
    idx, rs = [], []
    for i in range(cnt):
        j = it.load(Q + rec * i, 8)
        if type(j) is not int:
            raise Unsupported('symbolic index')
        r = it.getint(Q + rec * i + 8)
        idx.append(j)
        rs.append(r)
        if not 0 <= j < cnt:
            continue
        for (b, _), v in mo.get(G + mo.size * j).c.items():
            addto(b, r * v)
    return tot, idx, rs


def bos_tasks(env):
    m, img = env.m, env.img
    out = []

    def add(label, fn, body, weight=1):
        out.append(Task(label, m.dem(fn), body, backend='z3 bit-vectors, loop invariant', weight=weight, timeout=300))
    for fn in m.find(r'libff::ordered_exponent<\d+l?>::operator<\('):
        n = int(re.search(r'ordered_exponent<(\d+)', m.dem(fn)).group(1))

        def body(meta, fn=fn, n=n):
            agg = {'ok': True, 'info': ''}

            def one(dec):
                d = SMT(dec)
                it = core.Interp(m, d, img)
                d.it = it
                smt.gmp(it, d)
                A, C = it.alloc(8 + 8 * n, 'a'), it.alloc(8 + 8 * n, 'b')
                x, y = words(d, 'x', n), words(d, 'y', n)
                for t in range(n):
                    it.store(A + 8 + 8 * t, 8, x[t])
                    it.store(C + 8 + 8 * t, 8, y[t])
                it.store(A, 8, 0)
                it.store(C, 8, 1)
                r = it.call(fn, [A, C])
                want = z3.ULT(join(x), join(y))
                got = (r.e == 1) if isinstance(r, SV) else z3.BoolVal(bool(r))
                v, mod = d.valid(got == want)
                if v is not True:
                    agg['ok'] = None if v is None else False
                    agg['info'] = str(mod)[:300]
                return d
            for _ in smt.explore(one):
                pass
            yield 'compares the scalars as integers', {True: PROVED, False: REFUTED, None: UNDECIDED}[agg['ok']], agg['info']
        add('ordered_exponent<%d>::operator<' % n, fn, body)
    quick = env.tier == 'quick'
    for gi, name in enumerate(GROUPS):
        e = re.escape('libff::' + name)
        mod, r, n = fr(name)
        for fn in m.find(r'libff::multi_exp_inner<%s, .*\(libff::multi_exp_method\)2, ' % e):
            f = m.functions[fn]
            f.blocks
            hs = loops(f)
            main = [h for h, b in hs.items() if any(o != h and o in b for o in hs)]

            def run_init(meta, ln, fn=fn, name=name, n=n, main=main):
                agg = {}

                def note(nm, r, info=''):
                    s = {True: PROVED, False: REFUTED, None: UNDECIDED}[r]
                    if nm not in agg or (agg[nm][0] == PROVED and s != PROVED) or (s == REFUTED):
                        agg[nm] = (s, info)

                def one(dec):
                    d = SMT(dec)
                    it, mo = setup(m, img, name, d, n)
                    sc = [fresh(d, 'e%d' % i, n) for i in range(ln)]
                    O, G0, S0, args = inputs(it, mo, n, sc)
                    want = {'g%d' % i: sc[i] for i in range(ln)}

                    def final(tot):
                        ok, info = True, ''
                        for k in set(tot) | set(want):
                            v, mod = d.valid(tot.get(k, z3.IntVal(0)) == want.get(k, z3.IntVal(0)))
                            if v is not True and ok is True:
                                ok, info = v, 'coefficient of %s: %s' % (k, str(mod)[:200])
                        return ok, info

                    def hook(it_, fr_, b, pred):
                        if it_.depth != 1:
                            return None
                        cnt = ln | 1
                        G, Q = roles(it, mo, n, cnt, O)
                        tot, idx, rs = coefs(it, mo, n, G, Q, O, cnt)
                        note('loop starts with the wanted sum', *final(tot))
                        note('loop starts with a permutation of the entries', sorted(idx) == list(range(cnt)))
                        hp = z3.And([rs[(i - 1) // 2] >= rs[i] for i in range(1, cnt)])
                        note('loop starts with a heap', d.valid(hp)[0])
                        raise Stop()
                    if len(main) == 1:
                        it.stop_hooks[(fn, main[0])] = hook
                    try:
                        it.call(fn, args)
                        tot = {b: num(v) for (b, _), v in mo.get(O).c.items()}
                        note('result is the wanted sum', *final(tot))
                    except Stop:
                        pass
                    meta['inlined'] = sorted(set(it.called))
                    for nm, r, mod in d.sides():
                        note(nm, r)
                    return d
                for _ in smt.explore(one):
                    pass
                for nm, (s, info) in agg.items():
                    yield nm, s, info

            def run_step(meta, cnt, perms, fn=fn, name=name, n=n, main=main, r=r):
                if len(main) != 1:
                    raise Unsupported('main loop not recognised')
                H = main[0]
                conc = [z3.IntVal((0x9E3779B97F4A7C15 ** 5 * (i + 1) * (i + 7)) % r) for i in range(cnt)]
                # ---- probe: the cells a run of the loop changes
                d = SMT()
                it, mo = setup(m, img, name, d, n)
                O, G0, S0, args = inputs(it, mo, n, conc)
                snaps = []

                def probe(it_, fr_, b, pred):
                    if it_.depth == 1:
                        snaps.append(snapshot(it_))
                        if len(snaps) == 12:
                            raise Stop()
                it.stop_hooks[(fn, H)] = probe
                try:
                    it.call(fn, args)
                except Stop:
                    pass
                if len(snaps) < 3:
                    raise Unsupported('loop not reached')
                changed = {k for s in snaps[1:] for k in s if k[0] in {q[0] for q in snaps[0]} and s[k] is not snaps[0].get(k) and not (type(s[k]) is int and s[k] == snaps[0].get(k))}
                agg = {}

                def note(nm, r, info=''):
                    s = {True: PROVED, False: REFUTED, None: UNDECIDED}[r]
                    if nm not in agg or (agg[nm][0] == PROVED and s != PROVED) or (s == REFUTED):
                        agg[nm] = (s, info)
                for perm in perms:
                    def one(dec):
                        d = SMT(dec)
                        it, mo = setup(m, img, name, d, n)
                        O, G0, S0, args = inputs(it, mo, n, conc)
                        rec = 8 + 8 * n
                        R = [fresh(d, 'r%d' % i, n) for i in range(cnt)]
                        want = {'v%d' % perm[i]: R[i] for i in range(cnt)}
                        want['acc'] = z3.IntVal(1)
                        sv = {'v': 0}

                        def same(tot):
                            ok, info = True, ''
                            for k in set(tot) | set(want):
                                v, mod = d.valid(tot.get(k, z3.IntVal(0)) == want.get(k, z3.IntVal(0)))
                                if v is not True and ok is True:
                                    ok, info = v, 'coefficient of %s: %s' % (k, str(mod)[:200])
                            return ok, info

                        def hook(it_, fr_, b, pred):
                            if it_.depth != 1:
                                return None
                            sv['v'] += 1
                            if sv['v'] == 1:
                                G, Q = roles(it, mo, n, cnt, O)
                                sv['GQ'] = G, Q
                                for (i, off, sz) in changed:
                                    if i not in (G >> 32, Q >> 32, O >> 32):
                                        it.store((i << 32) + off, sz, UNDEF)
                                for i in range(cnt):
                                    it.store(Q + rec * i, 8, perm[i])
                                    it.store(Q + rec * i + 8, 8 * n, Abs(8 * n, 'int', R[i]))
                                    mo.put(G + mo.size * i, base('v%d' % i))
                                mo.put(O, base('acc'))
                                for i in range(1, cnt):
                                    d.assume(R[(i - 1) // 2] >= R[i])
                                return None
                            G, Q = sv['GQ']
                            tot, idx, rs = coefs(it, mo, n, G, Q, O, cnt)
                            note('an iteration keeps the sum', *same(tot))
                            note('an iteration permutes the entries', sorted(idx) == list(range(cnt)))
                            for i in range(1, cnt):
                                note('an iteration keeps the heap', d.valid(rs[(i - 1) // 2] >= rs[i])[0])
                            note('an iteration lowers the sum of the scalars', d.valid(sum(rs) < sum(R))[0])
                            raise Stop()
                        it.stop_hooks[(fn, H)] = hook
                        try:
                            it.call(fn, args)
                            tot = {b: num(v) for (b, _), v in mo.get(O).c.items()}
                            note('leaving the loop gives the sum', *same(tot))
                        except Stop:
                            pass
                        for nm, r, mod in d.sides():
                            note(nm, r)
                        meta['inlined'] = sorted(set(it.called))
                        return d
                    for _ in smt.explore(one):
                        pass
                for nm, (s, info) in agg.items():
                    yield nm, s, info
            for ln in (0, 1, 2, 3, 4) if quick else (0, 1, 2, 3, 4, 5):
                add('%s multi_exp_inner bos_coster start, %d terms' % (name, ln), fn, lambda meta, ln=ln, g=run_init: g(meta, ln), 1 + ln * ln)
            for cnt, perms in ((3, list(itertools.permutations(range(3)))), (5, [(0, 1, 2, 3, 4), (3, 1, 4, 0, 2)])) + (() if quick and gi else ((7, [(0, 1, 2, 3, 4, 5, 6)]),)):
                add('%s multi_exp_inner bos_coster iteration, %d entries' % (name, cnt), fn, lambda meta, cnt=cnt, perms=perms, g=run_step: g(meta, cnt, perms), 2 * cnt)
    return out
