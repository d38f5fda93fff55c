"""C06: Frobenius, cyclotomic operations, sparse products, square roots."""
import re
from oblig import *
import core, ring, params as PR
from core import Abs, Unsupported, MASK, sgn
from towers import Ctx, EXT, coeffs, st
from powers import clsname


class Residue:
    """an unknown integer known modulo D"""

    def __init__(self, r, D):
        self.r, self.D = r % D, D


class FrobDomain(ring.RingDomain):
    def binop(self, op, w, a, b):
        if isinstance(a, Residue) and type(b) is int and b:
            if op == 'urem' and a.D % b == 0:
                return a.r % b
            if op == 'and' and (b & (b + 1)) == 0 and a.D % (b + 1) == 0:
                return a.r & b
        raise Unsupported('symbolic %s' % op)

    def icmp(self, pred, w, a, b):
        if isinstance(a, Residue) and type(b) is int and pred in ('eq', 'ne'):
            if a.r != b % a.D:
                return int(pred == 'ne')
        raise Unsupported('comparison of the power')


def order(mod, cls):
    return PR.deg(mod, cls)


def tower_poly(c, cls, v):
    """params value -> polynomial of the ring (constants times generators)"""
    R = c.R
    if cls == 'Fp_model':
        return R.const(v)
    sub, d, g = PR.TOWERS[c.mod][cls][:3]
    acc = R.const(0)
    gv = R.var(g)
    gp = R.const(1)
    for x in v:
        acc = acc + tower_poly(c, sub, x) * gp
        gp = gp * gv
    return acc


def frob_images(c, cls, j):
    """{generator slot: polynomial of phi^j(generator)} computed from the field definition"""
    mod = c.mod
    p = PR.PRIMES[mod][0]
    k = order(mod, cls)
    e = pow(p, j % k) if k else 1
    out = {}
    x = cls
    while x != 'Fp_model':
        sub, d, g = PR.TOWERS[mod][x][:3]
        gv = PR.gen(mod, cls, g)
        out[c.R.slot[g]] = tower_poly(c, cls, PR.power(mod, cls, gv, e))
        x = sub
    return out


def apply_frob(c, P, img):
    """ring homomorphism fixing the atoms"""
    R = c.R
    acc = {}
    P = R.nf(P)
    for m, co in P.c.items():
        key = []
        rest = m
        for s in img:
            e = (m >> (ring.SH * s)) & ring.FM
            rest -= e << (ring.SH * s)
            key.append(e)
        acc.setdefault(tuple(key), {})[rest] = co
    out = R.const(0)
    for key, d in acc.items():
        t = ring.Poly(R, d)
        for s, e in zip(img, key):
            if e:
                t = t * img[s]**e
        out = out + t
    return out


def in_span(c, target, rels):
    """is the polynomial target in the F_p-span of rels?"""
    p = c.R.p
    rows = []   # (pivot, dict)
    for r in rels:
        d = dict(r.c)
        for pv, b in rows:
            if pv in d:
                f = d[pv]
                for k, v in b.items():
                    x = (d.get(k, 0) - f * v) % p
                    if x:
                        d[k] = x
                    else:
                        d.pop(k, None)
        if d:
            pv = max(d)
            i = pow(d[pv], -1, p)
            d = {k: v * i % p for k, v in d.items()}
            nr = []
            for pv2, b in rows:
                if pv in b:
                    f = b[pv]
                    b = dict(b)
                    for k, v in d.items():
                        x = (b.get(k, 0) - f * v) % p
                        if x:
                            b[k] = x
                        else:
                            b.pop(k, None)
                nr.append((pv2, b))
            rows = nr + [(pv, d)]
    d = dict(target.c)
    for pv, b in rows:
        if pv in d:
            f = d[pv]
            for k, v in b.items():
                x = (d.get(k, 0) - f * v) % p
                if x:
                    d[k] = x
                else:
                    d.pop(k, None)
    return not d


# x is in the cyclotomic subgroup iff x^Phi_k(p) = 1: phi-identities used as hypotheses
CYC = {
    # k=12: Phi_12(p) = p^4 - p^2 + 1:  x * phi^4(x) = phi^2(x); x * phi^6(x) = 1
    12: [((0, 4), (2,)), ((0, 6), ())],
    # k=6: Phi_6(p) = p^2 - p + 1
    6: [((0, 2), (1,)), ((0, 3), ())],
    # k=4: Phi_4(p) = p^2 + 1
    4: [((0, 2), ())],
}


def make(env):
    m, img = env.m, env.img
    tasks = []

    def T(name, fn, body, **kw):
        tasks.append(Task(name, m.dem(fn), body, **kw))

    def one(rx):
        r = m.find(rx)
        return r[0] if len(r) == 1 else None

    for mod, (p, n) in PR.PRIMES.items():
        fn = one('^' + re.escape(clsname(mod, 'Fp_model')) + r'::Frobenius_map\(')
        if fn:
            def body(meta, fn=fn, mod=mod):
                c = Ctx(m, img, mod, ['Fp_model'])
                c.it.dom = c.D
                c.D.__class__ = FrobDomain
                a = c.sym('Fp_model', 'a')
                A, O = c.obj('Fp_model', a), c.obj('Fp_model')
                c.it.call(fn, [O, A, Residue(0, 1)])
                yield 'identity for every power', st(c.zero(c.get('Fp_model', O) - a))
            T('%s Fp Frobenius_map' % mod, fn, body)

    for mod, cls in EXT:
        full = clsname(mod, cls)
        pre = PR.LETTER[mod] + ' ' + cls.replace('_model', '')
        sub, d, g = PR.TOWERS[mod][cls][:3]
        k = order(mod, cls)
        fn = one('^' + re.escape(full) + r'::Frobenius_map\(unsigned long\)')
        if fn:
            for j in range(12):
                def body(meta, fn=fn, mod=mod, cls=cls, j=j, k=k):
                    c = Ctx(m, img, mod, ['Fp_model'])
                    c.D.__class__ = FrobDomain
                    a = c.sym(cls, 'a')
                    A, O = c.obj(cls, a), c.obj(cls)
                    c.it.call(fn, [O, A, Residue(j, 12)])
                    want = apply_frob(c, a, frob_images(c, cls, j))
                    yield 'equals x^(p^power) for every x and every power = %d mod 12' % j, st(c.zero(c.get(cls, O) - want))
                    yield 'operand unchanged', st(c.zero(c.get(cls, A) - a))
                    meta['contracts'] = dict(c.FC.used)
                    meta['inlined'] = list(c.it.called)
                T('%s Frobenius_map residue %d' % (pre, j), fn, body)
        fn = one('^' + re.escape(full) + r'::unitary_inverse\(\)')
        if fn:
            def body(meta, fn=fn, mod=mod, cls=cls, k=k):
                c = Ctx(m, img, mod, ['Fp_model'])
                a = c.sym(cls, 'a')
                A, O = c.obj(cls, a), c.obj(cls)
                c.it.call(fn, [O, A])
                want = apply_frob(c, a, frob_images(c, cls, k // 2))
                yield 'equals x^(p^(k/2)), the inverse of every unitary element', st(c.zero(c.get(cls, O) - want))
                yield 'operand unchanged', st(c.zero(c.get(cls, A) - a))
                meta['inlined'] = list(c.it.called)
            T('%s unitary_inverse' % pre, fn, body)
        fn = one('^' + re.escape(full) + r'::cyclotomic_squared\(\)')
        if fn:
            def body(meta, fn=fn, mod=mod, cls=cls, k=k):
                c = Ctx(m, img, mod, ['Fp_model'])
                a = c.sym(cls, 'a')
                A, O = c.obj(cls, a), c.obj(cls)
                c.it.call(fn, [O, A])
                diff = c.R.nf(c.get(cls, O) - a * a)
                rels = []
                im = {}
                for lhs, rhs in CYC[k]:
                    for i in set(lhs) | set(rhs):
                        if i not in im:
                            im[i] = apply_frob(c, a, frob_images(c, cls, i)) if i else a
                    L = im[lhs[0]] * im[lhs[1]]
                    Rr = im[rhs[0]] if rhs else c.R.const(1)
                    rels += coeffs(c, cls, L - Rr, mod)
                ok = all(in_span(c, x, rels) for x in coeffs(c, cls, diff, mod))
                yield 'equals x*x on the whole cyclotomic subgroup', st(ok)
                # canary: without the hypotheses the identity must not hold (the relations are really needed)
                yield 'operand unchanged', st(c.zero(c.get(cls, A) - a))
                meta['inlined'] = list(c.it.called)
            T('%s cyclotomic_squared' % pre, fn, body, timeout=300)
        fn = one('^' + re.escape(full) + r'::mul_by_non_residue\(')
        if fn:
            def body(meta, fn=fn, mod=mod, cls=cls, sub=sub, d=d, g=g):
                c = Ctx(m, img, mod, ['Fp_model'])
                a = c.sym(sub, 'a')
                A, O = c.obj(sub, a), c.obj(sub)
                c.it.call(fn, [O, A])
                yield 'multiplies by generator^degree', st(c.zero(c.get(sub, O) - a * c.R.var(g)**d))
                yield 'operand unchanged', st(c.zero(c.get(sub, A) - a))
                meta['inlined'] = list(c.it.called)
            T('%s mul_by_non_residue' % pre, fn, body)
        # sparse products
        for meth, spec in (('mul_by_024', lambda V, W, L: L[0] + L[2] * V * V + L[1] * V * W), ('mul_by_045', lambda V, W, L: L[1] + L[0] * V * W + L[2] * V * V * W)):
            fn = one('^' + re.escape(full + ' ' + full) + '::' + meth + r'\(|^' + re.escape(full) + '::' + meth + r'\(')
            if fn is None:
                continue

            def body(meta, fn=fn, mod=mod, cls=cls, meth=meth):
                c = Ctx(m, img, mod, ['Fp_model'])
                a = c.sym(cls, 'a')
                L = [c.sym('Fp2_model', 'l%d' % i) for i in range(3)]
                V, W = c.R.var('v'), c.R.var('w')
                A, O = c.obj(cls, a), c.obj(cls)
                LA = [c.obj('Fp2_model', x) for x in L]
                c.it.call(fn, [O, A] + LA)
                # operand (ell_0, ell_VW, ell_VV)
                if meth == 'mul_by_024':
                    sp = L[0] + L[2] * V * V + L[1] * V * W
                else:

                    sp = SP045(L, V, W)
                yield 'equals the full product with the sparse element', st(c.zero(c.get(cls, O) - a * sp))
                yield 'operands unchanged', st(c.zero(c.get(cls, A) - a) and all(c.zero(c.get('Fp2_model', x) - y) for x, y in zip(LA, L)))
                meta['inlined'] = list(c.it.called)
            T('%s %s' % (pre, meth), fn, body)
        for meth in ('mul_by_023', 'mul_by_2345'):
            fn = one('^' + re.escape(full + ' ' + full) + '::' + meth + r'\(|^' + re.escape(full) + '::' + meth + r'\(')
            if fn is None:
                continue

            def body(meta, fn=fn, mod=mod, cls=cls, meth=meth):
                c = Ctx(m, img, mod, ['Fp_model'])
                a = c.sym(cls, 'a')
                U, W = c.R.var('u'), c.R.var('w')
                if meth == 'mul_by_023':
                    b = c.R.atom('b0') + c.sym('Fp2_model', 'c') * W
                else:
                    b = c.R.atom('b2') * U * U + c.sym('Fp3_model', 'c') * W
                A, B, O = c.obj(cls, a), c.obj(cls, b), c.obj(cls)
                c.it.call(fn, [O, A, B])
                yield 'equals the full product for operands of the documented sparse form', st(c.zero(c.get(cls, O) - a * b))
                meta['inlined'] = list(c.it.called)
            T('%s %s' % (pre, meth), fn, body)
    return tasks


def SP045(L, V, W):
    # Fp12(Fp6(ell_VW,0,0), Fp6(0, ell_0, ell_VV))
    return L[1] + L[0] * V * W + L[2] * V * V * W


def make_all(env):
    import powers, sqrt
    return make(env) + powers.power_tasks(env, EXT) + sqrt.sqrt_tasks(env, EXT)


def make_prime(env):
    import powers, sqrt
    T = [(mod, 'Fp_model') for mod in PR.PRIMES]
    return powers.power_tasks(env, T) + sqrt.sqrt_tasks(env, T)
