"""tonelli_shanks_sqrt: total correctness by loop invariant.

State at the head of the outer loop (x, b, z, v):
   I1  x^2 = value * b          I2  b^(2^(v-1)) = 1       I3  z^(2^(v-1)) = -1
The verifier finds the cells holding x, b, z, v by their values on first
arrival, replaces them by arbitrary ones satisfying the invariant, and checks
for every v and every m = log2(order of b) that one iteration re-establishes
the invariant with a smaller v, and that on exit result^2 = value."""
import re
from oblig import *
import core, params as PR
from core import Abs, UNDEF, Unsupported, MemError
from scalar import Lin, base, Monoid, ScalarDomain, _MISSING
from powers import clsname, st

ZERO = 'zero'


class Poison:
    pass


def loops(fn):
    """natural loop headers -> body"""
    reach, todo = {fn.entry}, [fn.entry]
    while todo:
        for s in fn.succs(todo.pop()):
            if s not in reach and s in fn.blocks:
                reach.add(s)
                todo.append(s)
    bl = [b for b in fn.blocks if b in reach]
    succ = {b: [s for s in fn.succs(b) if s in reach] for b in bl}
    # dominators
    dom = {b: set(bl) for b in bl}
    dom[fn.entry] = {fn.entry}
    pred = {b: [] for b in bl}
    for b in bl:
        for s in succ[b]:
            if s in pred:
                pred[s].append(b)
    ch = True
    while ch:
        ch = False
        for b in bl:
            if b == fn.entry or not pred[b]:
                continue
            n = set.intersection(*[dom[p] for p in pred[b]]) | {b}
            if n != dom[b]:
                dom[b] = n
                ch = True
    hs = {}
    for b in bl:
        for s in succ[b]:
            if s in dom[b]:
                body = hs.setdefault(s, {s})
                todo = [b]
                while todo:
                    x = todo.pop()
                    if x in body:
                        continue
                    body.add(x)
                    todo += pred[x]
    return hs


def sqrt_tasks(env, types):
    m, img = env.m, env.img
    out = []
    for mod, cls in types:
        full = clsname(mod, cls)
        pre = PR.LETTER[mod] + ' ' + cls.replace('_model', '')
        e = re.escape(full)
        fns = m.find(r'^%s libff::tonelli_shanks_sqrt<' % e)
        meth = m.find(r'^%s::sqrt\(\) const$|^%s %s::sqrt\(\) const$' % (e, e, e))
        if not meth:
            continue
        fn = meth[0]

        def body(meta, fn=fn, mod=mod, cls=cls, full=full, fns=fns):
            p = PR.PRIMES[mod][0]
            q = p**PR.deg(mod, cls)
            S = 0
            t = q - 1
            while t % 2 == 0:
                t //= 2
                S += 1
            d = ScalarDomain()
            it = core.Interp(m, d, img)
            size = PR.tsize(mod, cls)
            mo = Monoid(it, d, full, size, True, {m.dem(fn)})
            A, O, one = it.alloc(size, 'value'), it.alloc(size, 'result'), None
            mo.put(A, base('val'))
            ctl = {'zero': False, 'm': None}
            # static members: nqr_to_t and s
            gname = m.find_global(full + '::nqr_to_t')
            zaddr = it.gep_global(gname)
            zbytes = img[gname]
            it.store(zaddr, size, Abs(size, full, base('zt')))
            n = PR.PRIMES[mod][1]
            ws = [int.from_bytes(zbytes[8 * n * i:8 * n * (i + 1)], 'little') for i in range(PR.deg(mod, cls))]
            zval = PR.unflat(mod, cls, [w * pow(1 << (64 * n), -1, p) % p for w in ws])
            mone = PR.neg(mod, cls, PR.one(mod, cls))
            yield 'nqr_to_t^(2^(s-1)) == -1 for the initialised constant', st(all(w < p for w in ws) and PR.power(mod, cls, zval, 2**(S - 1)) == mone)

            def eq(neg):
                def h(it, a, mm):
                    if mm.string in mo.skip:
                        return NotImplemented
                    x, y = mo.get(a[0]), mo.get(a[1])
                    if isinstance(x, Poison) or isinstance(y, Poison):
                        raise Unsupported('comparison of a dead value')
                    if x == ZERO or y == ZERO:
                        r = x == y if x == ZERO and y == ZERO else ctl['zero']
                        return int(bool(r) != neg)
                    L = x - y
                    if not L.c:
                        return int(True != neg)
                    if set(L.c) == {('b', None)} and ctl['m'] is not None:
                        k = abs(L.c[('b', None)])
                        if k & (k - 1) == 0:
                            return int((k.bit_length() - 1 >= ctl['m']) != neg)
                    raise Unsupported('comparison %r' % L)
                return h
            it.on(re.escape(full) + r'::operator==\(', eq(False))
            it.on(re.escape(full) + r'::operator!=\(', eq(True))

            def iszero(it, a, mm):
                x = mo.get(a[0])
                return 1 if x == ZERO else int(ctl['zero'] if x == base('val') else 0)
            it.on(re.escape(full) + r'::is_zero\(\) const', iszero)

            def zero(it, a, mm):
                mo.put(a[0], ZERO)
            it.on(r'(^|[ ])' + re.escape(full) + r'::zero\(\)', zero)

            def xpow(it, a, mm):
                n = int(mm.group(1))
                k = 0
                for i in range(n):
                    w = it.load(a[2] + 8 * i, 8)
                    if type(w) is not int:
                        raise Unsupported('symbolic exponent')
                    k |= w << (64 * i)
                mo.put(a[0], mo.get(a[1]).scale(k))
            it.on(re.escape(full) + r'::operator\^<(\d+)l>\(', xpow)
            it.on(r'libff::power<' + re.escape(full) + r', (\d+)l ?>\(', xpow)
            # zero
            ctl['zero'] = True
            it.call(fn, [O, A])
            yield 'sqrt(0) == 0', st(mo.get(O) == ZERO)
            ctl['zero'] = False
            # loop
            T = m.functions[fns[0]] if fns else m.functions[fn]
            hs = loops(T)
            outer = [h for h in hs if not any(h in hs[g] for g in hs if g != h) and any(g != h and g in hs[h] for g in hs)]
            if len(outer) != 1:
                raise Unsupported('loop structure of the square root')
            H = outer[0]
            rec = {'arr': 0}

            def snapshot(objs):
                return {o.id: (o, dict(o.cells)) for o in objs}

            def hook(it, fr, blk, pred):
                if rec.get('inside'):
                    rec['arr'] += 1
                    if rec['arr'] == 1:
                        return None
                    return ('cut', pred)
                rec['inside'] = True
                objs = [it.objs[i] for i in fr.objs if i in it.objs] + [it.objs[O >> 32]]
                snap0 = snapshot(objs)
                x0, b0 = base('val').scale((t + 1) // 2), base('val').scale(t)
                cls_of = {}
                vcells = []
                for o in objs:
                    for k, (s, v) in o.cells.items():
                        if isinstance(v, Abs):
                            if v.val == x0:
                                cls_of[(o.id, k)] = 'x'
                            elif v.val == b0:
                                cls_of[(o.id, k)] = 'b'
                            elif v.val == base('zt'):
                                cls_of[(o.id, k)] = 'z'
                            elif isinstance(v.val, Lin) and not v.val.c:
                                pass
                            else:
                                cls_of[(o.id, k)] = 'dead'
                        elif s == 8 and type(v) is int and v == S:
                            vcells.append((o.id, k))
                rec['init'] = {'x', 'b', 'z'} <= set(cls_of.values()) and bool(vcells)
                rec['t'] = True
                if not rec['init']:
                    return ('ret', None)

                def attempt(live, v, mm_, livev):
                    for oid, (o, cells) in snap0.items():
                        o.cells = dict(cells)
                    for (oid, k), c in cls_of.items():
                        o = it.objs[oid]
                        s, a = o.cells[k]
                        o.cells[k] = (s, Abs(s, full, base(c) if (oid, k) in live else Poison()))
                    for oid, k in vcells:
                        it.objs[oid].cells[k] = (8, v if (oid, k) in livev else UNDEF)
                    rec['arr'] = 0
                    ctl['m'] = mm_
                    r = it.blocks(fr, H, pred, None)
                    return r
                ok_exit = ok_i1 = ok_i2 = ok_i3 = ok_dec = True
                n = 0
                # drop temporaries that merely hold a copy on arrival and are never read
                live = {k for k, c in cls_of.items() if c in 'xbz'}
                livev = set(vcells)
                for k in (list(live) if S > 1 else []):
                    try:
                        attempt(live - {k}, min(3, S), min(1, S - 1), livev)
                        attempt(live - {k}, min(3, S), 0, livev)
                        rec['ok'] = True
                        live = live - {k}
                    except (Unsupported, AttributeError, TypeError, MemError):
                        pass
                for k in (list(livev) if S > 1 else []):
                    try:
                        attempt(live, min(3, S), min(1, S - 1), livev - {k})
                        livev = livev - {k}
                    except (Unsupported, MemError, TypeError):
                        pass
                cx = [k for k in live if cls_of[k] == 'x']
                cb = [k for k in live if cls_of[k] == 'b']
                cz = [k for k in live if cls_of[k] == 'z']
                if S > 1 and (len(cx) != 1 or len(cb) != 1 or (len(cz) > 1) or len(livev) > 1):
                    raise Unsupported('state of the square-root loop not identified')
                for v in range(1, S + 1):
                    for mm_ in range(0, v):
                        r = attempt(live, v, mm_, livev)
                        n += 1
                        if mm_ == 0:
                            if r[0] != 'ret' and r[0] != 'stop':
                                ok_exit = False
                                continue
                            ok_exit &= mo.get(O) == base('x')
                            continue
                        if r[0] != 'cut':
                            ok_exit = False
                            continue
                        rd = lambda k: it.objs[k[0]].cells[k[1]][1]
                        X, Bb = rd(cx[0]).val, rd(cb[0]).val
                        ok_i1 &= X.scale(2) - Bb == base('x').scale(2) - base('b')
                        V = rd(next(iter(livev))) if livev else None
                        ok_dec &= type(V) is int and 1 <= V < v
                        Z = rd(cz[0]).val
                        # Z = z^k: Z^(2^(V-1)) must be -1, i.e. k 2^(V-1) = 2^(v-1) (mod 2^v)
                        kz = Z.c.get(('z', None), 0) if set(Z.c) <= {('z', None)} else None
                        ok_i3 &= kz is not None and type(V) is int and (kz * 2**(V - 1)) % 2**v == 2**(v - 1)
                        # B = b * z^l: B^(2^(V-1)) = 1: b^(2^(V-1)) contributes -1 iff V = m, 1 iff V > m
                        cbz = Bb - base('b')
                        l = cbz.c.get(('z', None), 0) if set(cbz.c) <= {('z', None)} else None
                        if l is None or type(V) is not int or V < mm_:
                            ok_i2 = False
                        else:
                            e2 = (l * 2**(V - 1)) % 2**v
                            ok_i2 &= e2 == (2**(v - 1) if V == mm_ else 0)
                rec['res'] = (ok_exit, ok_i1, ok_i2, ok_i3, ok_dec, n)
                return ('ret', None)
            it.stop_hooks[(T.name, H)] = hook
            it.call(fn, [O, A])
            yield 'loop entered with x = a^((t+1)/2), b = a^t, z = nqr^t, v = s for the true s, t of the field', st(bool(rec.get('init')))
            if 'res' in rec:
                a1, a2, a3, a4, a5, n = rec['res']
                yield 'on exit the result is x, whose square is the argument', st(a1)
                yield 'every iteration preserves x^2 = value*b', st(a2)
                yield 'every iteration preserves b^(2^(v-1)) = 1', st(a3)
                yield 'every iteration preserves z^(2^(v-1)) = -1', st(a4)
                yield 'v stays positive and decreases (termination)', st(a5)
                meta['cases'] = n
            meta['inlined'] = list(it.called)
            meta['contracts'] = dict(mo.used)
        out.append(Task('%s sqrt' % pre, m.dem(fn), body, backend='integer linear forms, loop invariant', expect=6, timeout=300))
    return out
