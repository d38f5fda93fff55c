"""find_wnaf: total correctness by loop invariant over bit-vectors, for every
scalar of the width and every window size at once.

Invariant at the loop head with counter J and running value c:
    scalar = sum_{i<J} res[i] 2^i + c 2^J,   res[i] = 0 for i >= J,
    c <= K with K = 2^(64n-J)   (so J <= 64n while c is nonzero)
One iteration stores a digit u at index J, u = 0 or u odd with |u| < 2^w, and
leaves c' with 2 c' + u = c exactly."""
import re
import z3
from oblig import *
import core, smt
from core import UNDEF, Unsupported
from smt import SMT, SV, term, join, words
from sqrt import loops

WMAX = 61


class Stop(Exception):
    pass


def snapshot(it, skip=()):
    s = {}
    for i, o in it.objs.items():
        if i in skip:
            continue
        for off, (sz, v) in o.cells.items():
            s[(i, off, sz)] = v
    return s


def begin(m, img, fn, n, d, wv, sv):
    it = core.Interp(m, d, img)
    d.it = it
    smt.gmp(it, d)
    it.on(r'^std::__throw_', lambda *a: (_ for _ in ()).throw(core.Thrown('library throw')))
    S = it.alloc(8 * n, 'scalar')
    for i in range(n):
        it.store(S + 8 * i, 8, sv[i])
    O = it.alloc(24, 'result')
    return it, S, O


def wnaf_tasks(env, widths=None):
    m, img = env.m, env.img
    out = []
    for fn in m.find(r'libff::find_wnaf<\d+l?>\('):
        n = int(re.search(r'find_wnaf<(\d+)', m.dem(fn)).group(1))
        if widths and n not in widths:
            continue

        def body(meta, fn=fn, n=n):
            f = m.functions[fn]
            f.blocks
            hs = loops(f)
            if len(hs) != 1:
                raise Unsupported('find_wnaf has %d loops' % len(hs))
            H = next(iter(hs))
            # ---- probe: which cells does the loop change, and which of them counts
            d = SMT()
            d.record = True
            val = int('1011001110001111' * (4 * n), 2) & ((1 << (64 * n)) - 1)
            it, S, O = begin(m, img, fn, n, d, 2, [(val >> (64 * i)) & core.MASK[64] for i in range(n)])
            snaps = []

            def probe(it_, fr, b, pred):
                if it_.depth == 1:
                    snaps.append(snapshot(it_))
                    if len(snaps) == 6:
                        raise Stop()
            it.stop_hooks[(fn, H)] = probe
            try:
                it.call(fn, [O, 2, S])
            except Stop:
                pass
            if len(snaps) < 6:
                raise Unsupported('loop not reached')
            ch = {k for s in snaps[1:] for k in s if s[k] is not snaps[0].get(k) and s[k] != snaps[0].get(k)}
            counters = [k for k in ch if [s.get(k) for s in snaps] == list(range(6))]
            cobj = {i for (i, off, sz) in ch if i != S >> 32 and all(snaps[0].get((i, 8 * t, 8)) == (val >> (64 * t)) & core.MASK[64] for t in range(n)) and it.objs[i].size == 8 * n}
            heap = {i for (i, off, sz) in ch if it.objs[i].name == 'heap'}
            if len(counters) != 1 or len(cobj) != 1 or len(heap) != 1 or it.objs[next(iter(heap))].size != 8 * (64 * n + 1):
                raise Unsupported('loop state not recognised')
            (cnt,), (co,), (ho,) = counters, cobj, heap
            alive = {k[0] for k in snaps[0]}
            junk = [k for k in ch if k[0] in alive and k[0] not in (co, ho) and k != cnt]
            ex = {'initial': True, 'paths': 0}
            agg = {}

            def note(nm, r, model=None, info='', w=None):
                """combine over paths"""
                s = {True: PROVED, False: REFUTED, None: UNDECIDED}[r]
                o = agg.get(nm)
                if o is None or (o[0] == PROVED and s != PROVED) or (s == REFUTED and o[0] != REFUTED):
                    agg[nm] = (s, info, w)

            def one(dec):
                d = SMT(dec, 100000)
                d.record = True
                wv = d.var('w')
                sw = words(d, 'c', n)
                d.assume(z3.ULE(wv.e, WMAX))
                d.assume(z3.UGE(wv.e, 1))
                it, S, O = begin(m, img, fn, n, d, wv, sw)
                st = {'visit': 0}
                W = 64 * n + 70
                C = z3.ZeroExt(W - 64 * n, join(sw))
                K = z3.BitVec('K', W)
                J = d.var('J')

                def wit(mod):
                    if mod is None:
                        return None
                    return {'n': n, 'w': mod.eval(wv.e, model_completion=True).as_long(), 'c': mod.eval(join(sw), model_completion=True).as_long()}

                def claim(nm, c, info=''):
                    r, mod = d.valid(c)
                    note(nm, r, mod, info, wit(mod))

                def cval(i):
                    return [it.load((co << 32) + 8 * t, 8) for t in range(n)]

                def hook(it_, fr, b, pred):
                    if it_.depth != 1:
                        return None
                    st['visit'] += 1
                    if st['visit'] == 1:
                        ok = all(isinstance(x, SV) and z3.eq(x.e, y.e) for x, y in zip(cval(0), sw))
                        ok &= it.load((cnt[0] << 32) + cnt[1], cnt[2]) == 0
                        ok &= all(it.load((ho << 32) + 8 * i, 8) == 0 for i in range(64 * n + 1))
                        note('loop starts with the whole scalar and a zero-filled list', True if ok else None)
                        # havoc: the running value keeps the names c0.., any value at all
                        for (i, off, sz) in junk:
                            it.store((i << 32) + off, sz, UNDEF)
                        it.store((cnt[0] << 32) + cnt[1], cnt[2], J)
                        d.assume(z3.And(K != 0, K & (K - 1) == 0, z3.ULE(C, K), z3.ULE(J.e, 64 * n)))
                        # K = 2^(64n-J): only the boundary is needed: K = 1 exactly when J = 64n
                        d.assume((K == 1) == (J.e == 64 * n))
                        return None
                    # second visit: one iteration done
                    ev = [e for e in d.events if e[0] == 'store']
                    note('exactly one digit is written per iteration', True if len(ev) == 1 else False)
                    if len(ev) == 1:
                        _, ptr, t, u, _ = ev[0]
                        u = term(u, 64)
                        good = ptr[0] == 'sp' and ptr[1] == ho << 32
                        note('digit is written to the list', True if good else None)
                        if good:
                            claim('digit is written at the position of the counter', ptr[2] == J.e * 8)
                            claim('position is inside the list', z3.ULT(ptr[2], 8 * (64 * n + 1)))
                        c2 = z3.ZeroExt(W - 64 * n, join(cval(0)))
                        ux = z3.SignExt(W - 64, u)
                        claim('digit plus twice the new value is the old value', c2 + c2 + ux == C)
                        one_ = z3.BitVecVal(1, 64)
                        claim('digit is zero or odd and below 2^window in absolute value', z3.Or(u == 0, z3.And(z3.Extract(0, 0, u) == 1, u < (one_ << wv.e), -u < (one_ << wv.e))))
                        claim('the value halves within its bound', z3.If(K == 1, c2 == 0, z3.ULE(c2 + c2, K)))
                    j2 = it.load((cnt[0] << 32) + cnt[1], cnt[2])
                    claim('counter advances by one', term(j2, 64) == J.e + 1)
                    ok = all(it.load(S + 8 * i, 8) is sw[i] for i in range(n))
                    note('scalar unchanged', True if ok else False)
                    raise Stop()
                it.stop_hooks[(fn, H)] = hook
                try:
                    it.call(fn, [O, wv, S])
                    # left the loop
                    claim('loop ends only when nothing is left', join(sw) == 0)
                    note('no digit is written on leaving', not [e for e in d.events if e[0] == 'store'] or None)
                    b, e = it.load(O, 8), it.load(O + 8, 8)
                    note('the list itself is returned', True if b == ho << 32 and e == (ho << 32) + 8 * (64 * n + 1) else None)
                except Stop:
                    pass
                except core.MemError as x:
                    note('memory safety', False, None, str(x), wit(d.model if d.check() == z3.sat else None))
                for nm, r, mod in d.sides():
                    note(nm, r, mod, '', wit(mod))
                ex['paths'] += 1
                meta['inlined'] = sorted(set(it.called))
                meta['queries'] = meta.get('queries', 0) + d.queries
                return d
            for d in smt.explore(one):
                pass
            for nm, (s, info, w) in agg.items():
                yield (nm, s, info) + ((w,) if w else ())
        out.append(Task('find_wnaf<%d>' % n, m.dem(fn), body, backend='z3 bit-vectors, loop invariant', weight=10 * n, timeout=700))
    return out
