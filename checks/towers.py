"""C05: extension-tower arithmetic (layer 2)."""
import re
from oblig import *
import core, ring, params as PR
from core import Abs

EXT = [(mod, cls) for mod in PR.TOWERS for cls in PR.TOWERS[mod]]


class Ctx:
    """a fresh symbolic state over one modulus"""

    def __init__(self, m, img, mod, classes, skip=(), extra=(), decisions=()):
        self.R = ring.Ring(mod)
        self.D = ring.RingDomain(self.R)
        self.D.decisions = list(decisions)
        self.it = core.Interp(m, self.D, img)
        self.FC = ring.FieldContracts(self.it, self.D, classes, skip, extra)
        self.mod = mod

    def obj(self, cls, val=None, name=''):
        a = self.it.alloc(PR.tsize(self.mod, cls), name or cls)
        if val is not None:
            self.D.put(cls, a, val)
        return a

    def get(self, cls, a):
        return self.D.get(cls, a)

    def sym(self, cls, name, level='Fp_model'):
        return self.D.symbolic(cls, name, level)

    def zero(self, P):
        return self.R.is_zero(P)


def st(ok):
    return PROVED if ok else REFUTED


def norm2(c, cls, a0, a1):
    g = c.R.var(c.R.gens[cls][2])
    return a0 * a0 - a1 * a1 * g * g


def norm3(c, cls, a):
    R = c.R
    b = R.var(R.gens[cls][2])**3
    a0, a1, a2 = a
    return a0**3 + b * a1**3 + b * b * a2**3 - 3 * b * a0 * a1 * a2


def make(env):
    m, img = env.m, env.img
    tasks = []

    def T(name, fn, body, **kw):
        tasks.append(Task(name, m.dem(fn), body, **kw))

    for mod, cls in EXT:
        n = PR.PRIMES[mod][1]
        full = 'libff::%s<%dl, libff::%s>' % (cls, n, mod)
        pre = PR.LETTER[mod] + ' ' + cls.replace('_model', '')

        def find(meth, full=full):
            r = m.find('^' + re.escape(full) + '::' + meth + '$')
            return r[0] if len(r) == 1 else None

        def simple(meth, sig, spec, inplace=False, binary=True, mod=mod, cls=cls, pre=pre, find=find):
            fn = find(meth + sig)
            if fn is None:
                return

            def body(meta, fn=fn):
                for alias in ([False, True] if binary else [False]):
                    c = Ctx(m, img, mod, ['Fp_model'])
                    a = c.sym(cls, 'a')
                    b = a if alias else c.sym(cls, 'b')
                    A = c.obj(cls, a)
                    B = A if alias else c.obj(cls, b)
                    O = c.obj(cls)
                    args = ([A] if inplace else [O, A]) + ([B] if binary else [])
                    r = c.it.call(fn, args)
                    nm = 'aliased operands' if alias else 'all operands'
                    res = c.get(cls, A if inplace else O)
                    want = spec(c, a, b)
                    yield 'result equals the quotient-ring value (%s)' % nm, st(c.zero(res - want)), 'difference %r' % (res - want,) if not c.zero(res - want) else ''
                    if inplace:
                        if sig.endswith(')') and r is not None:
                            yield 'returns its own object', st(r == A)
                    else:
                        yield 'left operand unchanged', st(c.zero(c.get(cls, A) - a))
                    if binary and not alias:
                        yield 'right operand unchanged', st(c.zero(c.get(cls, B) - b))
                    meta['contracts'] = dict(c.FC.used)
                    meta['inlined'] = list(c.it.called)
            T('%s %s' % (pre, meth.replace('\\', '')), fn, body)

        cr = re.escape(full + ' const&')
        for o, f in (('+', lambda c, a, b: a + b), ('-', lambda c, a, b: a - b), ('*', lambda c, a, b: a * b)):
            simple('operator\\' + o, r'\(' + cr + r'\) const', f)
            simple('operator\\' + o + '=', r'\(' + cr + r'\)', f, inplace=True)
        simple('operator-', r'\(\) const', lambda c, a, b: -a, binary=False)
        for s in ('squared', 'squared_karatsuba', 'squared_complex'):
            simple(s, r'\(\) const', lambda c, a, b: a * a, binary=False)
        simple('square', r'\(\)', lambda c, a, b: a * a, inplace=True, binary=False)

        # inverse / invert: norm of a nonzero element of a field extension is nonzero (lemma, towers are fields by C03)
        sub, d, g = PR.TOWERS[mod][cls][:3]
        for meth, inpl in (('inverse', False), ('invert', True)):
            fn = find(meth + (r'\(\)' if inpl else r'\(\) const'))
            if fn is None:
                continue

            def body(meta, fn=fn, inpl=inpl, mod=mod, cls=cls, sub=sub, d=d, g=g):
                # chain of subclasses whose contracts are used
                chain = ['Fp_model']
                s = sub
                up = []
                while s != 'Fp_model':
                    up.append(s)
                    s = PR.TOWERS[mod][s][0]
                c = Ctx(m, img, mod, chain + up, skip={m.dem(fn)}, extra=[(cls, 'mul_by_non_residue')])
                at = [c.R.atom('a%d' % i, sub) for i in range(d)]
                gv = c.R.var(g)
                a = at[0] + at[1] * gv + (at[2] * gv * gv if d == 3 else 0)
                nrm = norm2(c, cls, at[0], at[1]) if d == 2 else norm3(c, cls, at)
                c.R.nonzero.append(nrm)
                A = c.obj(cls)
                sz = PR.tsize(mod, sub)
                for i in range(d):
                    c.D.put(sub, A + i * sz, at[i])
                O = c.obj(cls)
                r = c.it.call(fn, [A] if inpl else [O, A])
                if c.D.path:
                    yield 'no case split beyond a != 0', UNDECIDED, repr(c.D.path)
                res = c.get(cls, A if inpl else O)
                yield 'a * inverse(a) == 1 for every a != 0', st(c.zero(res * a - 1))
                if not inpl:
                    yield 'operand unchanged', st(c.zero(c.get(cls, A) - a))
                meta['contracts'] = dict(c.FC.used)
                meta['inlined'] = list(c.it.called)
            T('%s %s' % (pre, meth), fn, body)

        # predicates
        for meth, sig, two in (('operator==', r'\(' + cr + r'\) const', True), ('operator!=', r'\(' + cr + r'\) const', True), ('is_zero', r'\(\) const', False)):
            fn = find(meth + sig)
            if fn is None:
                continue

            def body(meta, fn=fn, meth=meth, two=two, mod=mod, cls=cls):
                neg = meth == 'operator!='

                def run(dec):
                    c = Ctx(m, img, mod, ['Fp_model'], decisions=dec)
                    a = c.sym(cls, 'a')
                    b = c.sym(cls, 'b') if two else c.R.const(0)
                    A = c.obj(cls, a)
                    args = [A]
                    if two:
                        args.append(c.obj(cls, b))
                    r = c.it.call(fn, args)
                    c.D.ctx = (c, a, b)
                    return c.D, r
                seen = set()
                for D, r in explore(run):
                    c, a, b = D.ctx
                    truth = bool(r & 1) != neg
                    seen.add(truth)
                    if truth:
                        yield 'true only when all coefficients agree', st(c.zero(a - b))
                    else:
                        diffs = coeffs(c, cls, a - b, mod)
                        ok = any((not dd) and any(prop(S, x) for x in diffs) for S, dd in D.path)
                        yield 'false only when some coefficient differs', st(ok)
                    meta['contracts'] = dict(c.FC.used)
                    meta['inlined'] = list(c.it.called)
                yield 'both outcomes reachable', st(seen == {True, False})
            T('%s %s' % (pre, meth), fn, body, expect=3)

        for meth, val in (('zero', 0), ('one', 1)):
            fn = find(meth + r'\(\)')
            if fn is None:
                continue

            def body(meta, fn=fn, val=val, mod=mod, cls=cls):
                c = Ctx(m, img, mod, ['Fp_model'])
                O = c.obj(cls)
                c.it.call(fn, [O])
                yield 'is the constant %d' % val, st(c.zero(c.get(cls, O) - val))
                meta['contracts'] = dict(c.FC.used)
                meta['inlined'] = list(c.it.called)
            T('%s %s()' % (pre, meth), fn, body)

    # scalar multiplication by subfield elements
    for fn in m.find(r'^libff::Fp\w+<\d+l, libff::\w+> libff::operator\*<\d+l, libff::\w+>\(libff::Fp'):
        dm = m.dem(fn)
        mm = re.match(r'^libff::(Fp\w+)<\d+l, libff::(\w+)> libff::operator\*<\d+l, libff::\w+>\(libff::(Fp\w+)<\d+l, libff::\w+> const&, libff::(Fp\w+)<', dm)
        rc, mod, c1, c2 = mm.groups()

        def body(meta, fn=fn, rc=rc, mod=mod, c1=c1, c2=c2):
            for alias in (False,):
                c = Ctx(m, img, mod, ['Fp_model'])
                a = c.sym(c1, 'a')
                b = c.sym(c2, 'b')
                A, B, O = c.obj(c1, a), c.obj(c2, b), c.obj(rc)
                c.it.call(fn, [O, A, B])
                res = c.get(rc, O)
                yield 'scalar times element equals the embedded product', st(c.zero(res - a * b)), '%r' % (res - a * b)
                meta['contracts'] = dict(c.FC.used)
                meta['inlined'] = list(c.it.called)
        T('%s %s*%s' % (PR.LETTER[mod], c1, c2), fn, body)
    return tasks


def coeffs(c, cls, P, mod):
    """the F_p coefficients of a tower value built from Fp atoms"""
    if cls == 'Fp_model':
        return [P]
    sub, d, g = PR.TOWERS[mod][cls][:3]
    P = c.R.nf(P)
    r = []
    for i in range(d):
        r += coeffs(c, sub, P.coeff(c.R.slot[g], i), mod)
    return r


def prop(S, x):
    """S is a nonzero scalar multiple of x"""
    if set(S.c) != set(x.c) or not S.c:
        return False
    k = next(iter(S.c))
    p = S.ring.p
    f = S.c[k] * pow(x.c[k], -1, p) % p
    return all(x.c[t] * f % p == S.c[t] for t in S.c)
