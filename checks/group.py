"""C08 / C09: the ten curve groups (layer 2 over the coordinate field)."""
import re
from oblig import *
import core, ring, params as PR
from core import Abs
from towers import st


def const_cls(mod, cls):
    r = ['Fp_model']
    while cls != 'Fp_model':
        r.append(cls)
        cls = PR.TOWERS[mod][cls][0]
    return r


class G:
    """fresh symbolic state for one group; coordinates are opaque elements of the coordinate field"""

    def __init__(self, m, img, cv, decisions=(), level=None, coeff_contracts=True):
        self.m, self.cv, self.mod, self.cls = m, cv, cv.mod, cv.cls
        self.level = level or cv.cls
        self.R = R = ring.Ring(cv.mod)
        self.D = ring.RingDomain(R)
        self.D.decisions = list(decisions)
        self.it = core.Interp(m, self.D, img)
        self.FC = ring.FieldContracts(self.it, self.D, const_cls(cv.mod, self.level))
        self.size = PR.tsize(cv.mod, cv.cls)
        self.a = R.tower(cv.cls, cv.a)
        self.b = R.tower(cv.cls, cv.b)
        self.conj = {}
        self.it.on(r'^(?:libff::Fp\w+_model<\d+l?, libff::\w+>&? )?libff::(Fp\w*_model)<(\d+)l?, libff::(\w+)>::Frobenius_map\(unsigned long\) const$', self.frob)
        self.it.on(r'^std::__throw_', self.throw)
        if coeff_contracts and cv.cls != 'Fp_model':
            for meth, c in (('a', self.a), ('b', self.b), ('d', self.b)):
                if m.find(r'^libff::%s::mul_by_%s\(' % (cv.name, meth)):
                    self.it.on(r'^libff::%s::mul_by_%s\(.*\)$' % (cv.name, meth), self.coeff(meth, c))

    def throw(self, it, a, mm):
        raise core.Thrown('library throw')

    def coeff(self, meth, c):
        def h(it, a, mm):
            self.FC.note(self.cv.name, 'mul_by_' + meth)
            self.D.put(self.cls, a[0], self.D.get(self.cls, a[1]) * c)
            return None
        return h

    def frob(self, it, a, mm):
        cls, n, mod = mm.groups()
        if mod != self.mod or cls != self.cls or a[2] != 1:
            return NotImplemented
        self.FC.note(cls, 'Frobenius_map(1)')
        self.D.put(cls, a[0], self.q(self.D.get(cls, a[1])))
        return None

    def atomq(self, s):
        """the q-power conjugate of an atom"""
        R = self.R
        n = R.names[s]
        if R.level[s] == 'Fp_model':
            return R.var(n)
        if s not in self.conj:
            self.conj[s] = R.atom(n + '_q', self.cls, s in R.nz_mono)
        return self.conj[s]

    def q(self, P):
        """q-power Frobenius of a polynomial over the coordinate field"""
        R = self.R
        acc = R.const(0)
        for m, c in R.nf(P).c.items():
            t = R.const(c)
            s = 0
            while m:
                e = m & ring.FM
                if e:
                    t = t * self.genq(s)**e
                m >>= ring.SH
                s += 1
            acc = acc + t
        return acc

    def genq(self, s):
        R = self.R
        if R.level[s] is not None:
            return self.atomq(s)
        n = R.names[s]
        v = PR.power(self.mod, self.cls, PR.gen(self.mod, self.cls, n), PR.PRIMES[self.mod][0])
        return R.tower(self.cls, v)

    # ---- points
    def raw(self, T):
        o = self.it.alloc(3 * self.size, 'point')
        for i in range(3):
            self.D.put(self.cls, o + i * self.size, T[i])
        return o

    def out(self):
        return self.it.alloc(3 * self.size, 'result')

    def read(self, o):
        return [self.D.get(self.cls, o + i * self.size) for i in range(3)]

    def rep(self, P, z):
        """raw coordinates of affine P=(p,q) (for inverted coordinates P holds 1/x, 1/y)"""
        x, y = P
        if self.cv.model == 'jac':
            return [x * z * z, y * z * z * z, z]
        return [x * z, y * z, z]

    def affine(self, i):
        """a generic affine point of odd prime order: (x, y), or (1/x, 1/y) for inverted coordinates"""
        R = self.R
        if self.cv.model == 'inv':
            I = R.atom('i%d' % i, self.cls, True)
            J = R.atom('j%d' % i, self.cls, True)
            mono = next(iter((I * I * J * J).c))
            R.mrules.append((mono, self.a * J * J + I * I - self.b))
            return I, J
        x = R.atom('x%d' % i, self.cls)
        y = R.atom('y%d' % i, self.cls, True)
        w = x * x * x + self.a * x + self.b
        R.rule('y%d' % i, 2, w)
        R.fact(w)
        return x, y

    def z(self, i):
        return self.R.atom('z%d' % i, self.cls, True)

    def zero(self, i):
        R = self.R
        Z = R.const(0)
        if self.cv.model == 'jac':
            return [R.atom('ox%d' % i, self.cls), R.atom('oy%d' % i, self.cls), Z]
        if self.cv.model == 'proj':
            return [Z, R.atom('oy%d' % i, self.cls, True), Z]
        return [R.atom('ox%d' % i, self.cls, True), Z, Z]

    def negate(self, P):
        return (-P[0], P[1]) if self.cv.model == 'inv' else (P[0], -P[1])

    def law(self, P, Q, rel):
        """expected sum as numerators/denominators.  rel: diff, same, opp"""
        R = self.R
        if rel == 'opp':
            return None
        if self.cv.model == 'inv':
            i1, j1 = P
            i2, j2 = Q
            xn, xd = j1 * i2 + i1 * j2, i1 * i2 * j1 * j2 + self.b
            yn, yd = i1 * i2 - self.a * j1 * j2, i1 * i2 * j1 * j2 - self.b
            for f in (xn, xd, yn, yd):
                R.fact(f)
            return (xn, xd, yn, yd)
        x1, y1 = P
        x2, y2 = Q
        if rel == 'same':
            ln, ld = 3 * x1 * x1 + self.a, 2 * y1
        else:
            ln, ld = y2 - y1, x2 - x1
        d2 = ld * ld
        xn = ln * ln - (x1 + x2) * d2
        yn = ln * (x1 * d2 - xn) - y1 * d2 * ld
        return (xn, d2, yn, d2 * ld)

    def const_affine(self, P):
        """affine value as (xn, xd, yn, yd)"""
        one = self.R.const(1)
        if self.cv.model == 'inv':
            return (one, P[0], one, P[1])
        return (P[0], one, P[1], one)

    def judge(self, T, want):
        """T raw result; want None for the identity or (xn, xd, yn, yd).  -> list of (name, status, info)"""
        R = self.R
        X, Y, Z = T
        weak = getattr(self.D, 'weak', False)
        bad = UNDECIDED if weak else REFUTED
        r = []

        def eq(nm, P):
            P = R.clear_den(P)
            r.append((nm, PROVED if not P.c else bad, '' if not P.c else 'difference %r' % P))

        def nz(nm, P):
            P = R.clear_den(P)
            ok, rest = R.known_nonzero(P)
            r.append((nm, PROVED if ok else (UNDECIDED if P.c else bad), '' if ok else 'factor %r' % rest))
        m = self.cv.model
        if want is None:
            if m == 'jac':
                eq('identity: Z is zero', Z)
            elif m == 'proj':
                eq('identity: X is zero', X)
                eq('identity: Z is zero', Z)
                nz('identity: Y is nonzero', Y)
            else:
                eq('identity: Y is zero', Y)
                eq('identity: Z is zero', Z)
            return r
        xn, xd, yn, yd = want
        if m == 'jac':
            eq('x-coordinate', X * xd - xn * Z * Z)
            eq('y-coordinate', Y * yd - yn * Z * Z * Z)
            nz('not the identity', Z)
        elif m == 'proj':
            eq('x-coordinate', X * xd - xn * Z)
            eq('y-coordinate', Y * yd - yn * Z)
            nz('not the identity', Z)
        else:
            eq('x-coordinate', Z * xd - xn * X)
            eq('y-coordinate', Z * yd - yn * Y)
            nz('X nonzero', X)
            nz('Y nonzero', Y)
            nz('Z nonzero', Z)
        return r


SETUPS = ('O+O', 'O+A', 'A+O', 'diff', 'same', 'opp')


def setup(g, kind, special=False, aliased=False):
    """-> (raw P, raw Q, expected)"""
    R = g.R
    z2 = (lambda: R.const(1)) if special else (lambda: g.z(2))
    if kind == 'O+O':
        return g.zero(1), g.zero(2), None
    if kind == 'O+A':
        Q = g.affine(2)
        return g.zero(1), g.rep(Q, z2()), g.const_affine(Q)
    P = g.affine(1)
    z1 = g.z(1)
    if kind == 'A+O':
        return g.rep(P, z1), g.zero(2), g.const_affine(P)
    if kind == 'diff':
        Q = g.affine(2)
        if g.cv.model != 'inv':
            R.fact(Q[0] - P[0])
        return g.rep(P, z1), g.rep(Q, z2()), g.law(P, Q, 'diff')
    if kind == 'same':
        return g.rep(P, z1), g.rep(P, z2()), g.law(P, P, 'same')
    Q = g.negate(P)
    return g.rep(P, z1), g.rep(Q, z2()), None


NAMES = {'O+O': 'identity plus identity', 'O+A': 'identity plus point', 'A+O': 'point plus identity', 'diff': 'points with different x', 'same': 'equal points in any two representations', 'opp': 'opposite points'}


def merge(lists):
    """several paths of one case -> worst status per obligation name"""
    order = {PROVED: 0, UNDECIDED: 1, REFUTED: 2}
    out = {}
    for l in lists:
        for nm, s, i in l:
            if nm not in out or order[s] > order[out[nm][0]]:
                out[nm] = (s, i)
    return [(n, s, i) for n, (s, i) in out.items()]


def paths(meta, mk, body):
    """mk(decisions)->G; body(g)-> list of obligations.  Explores every path of the real function."""
    def run(dec):
        g = mk(dec)
        g.D.weak = False
        try:
            res = body(g)
        except ring.PreconditionFailed as e:
            res = [('callee preconditions hold', UNDECIDED if g.D.weak else REFUTED, str(e))]
        except (core.Thrown, core.Aborted, core.MemError) as e:
            res = [('no exception, abort or memory error', UNDECIDED if g.D.weak else REFUTED, str(e))]
        if g.D.path:
            d = '; '.join('%r %s 0' % (S, '==' if v else '!=') for S, v in g.D.path)[:400]
            res = [(n, s, (i + ' on path ' + d) if s != PROVED else '') for n, s, i in res]
        meta.setdefault('contracts', {}).update(g.FC.used)
        meta.setdefault('inlined', []).extend(g.it.called)
        return g.D, res
    return merge([r for D, r in explore(run, 64)])


def find(m, cv, meth):
    r = m.find(r'^libff::%s::%s$' % (cv.name, meth))
    return r[0] if len(r) == 1 else None


def law_tasks(env):
    m, img = env.m, env.img
    tasks = []
    for cv in PR.CURVES.values():
        me = re.escape('libff::%s const&' % cv.name)
        ops = [('operator+', r'operator\+\(' + me + r'\) const', False, SETUPS), ('add', r'add\(' + me + r'\) const', False, SETUPS),
               ('mixed_add', r'mixed_add\(' + me + r'\) const', True, SETUPS), ('operator-', r'operator-\(' + me + r'\) const', False, SETUPS)]
        for nm, rx, special, kinds in ops:
            fn = find(m, cv, rx)
            if fn is None:
                tasks.append(missing(cv, nm))
                continue
            if nm == 'add' and cv.model == 'inv':
                kinds = ('diff', 'same', 'opp')     # documented: add() does not handle the identity
            for kind in kinds:
                for alias in ((False, True) if kind in ('same', 'O+O') and not special else (False,)):
                    def body(meta, cv=cv, fn=fn, nm=nm, kind=kind, special=special, alias=alias):
                        def one(g):
                            P, Q, want = setup(g, kind, special)
                            if alias:
                                Q = P
                            if nm == 'operator-' and not alias:
                                # subtract the negative of Q: -Q as raw coordinates
                                Qn = ([-Q[0], Q[1], Q[2]] if cv.model == 'inv' else [Q[0], -Q[1], Q[2]])
                            elif nm == 'operator-':
                                Qn, want = Q, None
                            else:
                                Qn = Q
                            a = g.raw(P)
                            b = a if alias else g.raw(Qn)
                            o = g.out()
                            g.it.call(fn, [o, a, b])
                            res = g.judge(g.read(o), want)
                            fr = all(g.R.is_zero(u - v) for u, v in zip(g.read(a) + g.read(b), P + Qn))
                            return res + [('operands unchanged', st(fr), '')]
                        for n, s, i in paths(meta, lambda d: G(m, img, cv, d), one):
                            yield NAMES[kind] + (' (same object)' if alias else '') + ': ' + n, s, i
                    tasks.append(Task('%s %s %s%s' % (cv.name, nm, kind, ' aliased' if alias else ''), m.dem(fn), body, weight=3 if kind == 'diff' else 1))
        for nm, rx in (('dbl', r'dbl\(\) const'), ('operator-()', r'operator-\(\) const')):
            fn = find(m, cv, rx)
            if fn is None:
                tasks.append(missing(cv, nm))
                continue
            for kind in ('O', 'A'):
                def body(meta, cv=cv, fn=fn, nm=nm, kind=kind):
                    def one(g):
                        if kind == 'O':
                            T, want = g.zero(1), None
                        else:
                            P = g.affine(1)
                            T = g.rep(P, g.z(1))
                            want = g.law(P, P, 'same') if nm == 'dbl' else g.const_affine(g.negate(P))
                        a = g.raw(T)
                        o = g.out()
                        g.it.call(fn, [o, a])
                        res = g.judge(g.read(o), want)
                        return res + [('operand unchanged', st(all(g.R.is_zero(u - v) for u, v in zip(g.read(a), T))), '')]
                    for n, s, i in paths(meta, lambda d: G(m, img, cv, d), one):
                        yield ('identity: ' if kind == 'O' else 'every point and representation: ') + n, s, i
                tasks.append(Task('%s %s %s' % (cv.name, nm, kind), m.dem(fn), body))
        tasks += coeff_tasks(env, cv)
    return tasks


def missing(cv, nm):
    def body(meta):
        yield 'function found', UNDECIDED, 'libff::%s::%s is not in the compiled program' % (cv.name, nm)
    return Task('%s %s' % (cv.name, nm), '', body)


def coeff_tasks(env, cv):
    """mul_by_a / mul_by_b / mul_by_d at the level of base-field coefficients"""
    m, img = env.m, env.img
    r = []
    if cv.cls == 'Fp_model':
        return r
    for meth, which in (('mul_by_a', 'a'), ('mul_by_b', 'b'), ('mul_by_d', 'b')):
        fn = find(m, cv, meth + r'\(.*\)')
        if fn is None:
            continue

        def body(meta, fn=fn, which=which):
            g = G(m, img, cv, coeff_contracts=False, level='Fp_model')
            e = g.D.symbolic(cv.cls, 'e', 'Fp_model')
            a, o = g.it.alloc(g.size, 'e'), g.it.alloc(g.size, 'o')
            g.D.put(cv.cls, a, e)
            g.it.call(fn, [o, a])
            c = g.a if which == 'a' else g.b
            d = g.R.nf(g.D.get(cv.cls, o) - e * c)
            yield 'multiplies every element by the curve coefficient', st(not d.c), repr(d)
            meta['contracts'] = dict(g.FC.used)
        r.append(Task('%s %s' % (cv.name, meth), m.dem(fn), body))
    return r


# ---------------------------------------------------------------- C09
def bool_cases(cv, which):
    """named situations and the required answer of a predicate"""
    r = []
    if which == 'is_zero':
        r.append(('every representation of the identity', lambda g: [g.zero(1)], True))
        r.append(('every representation of a point', lambda g: [g.rep(g.affine(1), g.z(1))], False))
        return r
    if which == 'is_special':
        r.append(('every representation of the identity', lambda g: [g.zero(1)], True))
        r.append(('points with Z = 1', lambda g: [g.rep(g.affine(1), g.R.const(1))], True))

        def nz1(g):
            z = g.z(1)
            g.R.fact(z - 1)
            return [g.rep(g.affine(1), z)]
        r.append(('points with Z different from 1', nz1, False))
        return r
    if which == 'is_well_formed':
        r.append(('every representation of the identity', lambda g: [g.zero(1)], True))
        r.append(('every representation of a point of the curve', lambda g: [g.rep(g.affine(1), g.z(1))], True))

        def off(g):
            R = g.R
            X, Y, Z = R.atom('X', g.cls), R.atom('Y', g.cls), R.atom('Z', g.cls, True)
            if cv.model == 'jac':
                W = Y * Y - X**3 - g.a * X * Z**4 - g.b * Z**6
            elif cv.model == 'proj':
                W = Y * Y * Z - X**3 - g.a * X * Z * Z - g.b * Z**3
            else:
                W = Z * Z * (g.a * Y * Y + X * X - g.b * Z * Z) - X * X * Y * Y
            R.fact(W)
            return [[X, Y, Z]]
        r.append(('all coordinates with Z nonzero off the curve', off, False))
        if cv.model == 'proj':
            r.append(('all coordinates with Z zero and X nonzero', lambda g: [[g.R.atom('X', g.cls, True), g.R.atom('Y', g.cls), g.R.const(0)]], False))
        if cv.model == 'inv':
            r.append(('all coordinates with Z zero, X and Y nonzero', lambda g: [[g.R.atom('X', g.cls, True), g.R.atom('Y', g.cls, True), g.R.const(0)]], False))
        return r
    # equality: two points
    r.append(('identity, identity', lambda g: [g.zero(1), g.zero(2)], True))
    r.append(('identity, point', lambda g: [g.zero(1), g.rep(g.affine(2), g.z(2))], False))
    r.append(('point, identity', lambda g: [g.rep(g.affine(1), g.z(1)), g.zero(2)], False))

    def same(g):
        P = g.affine(1)
        return [g.rep(P, g.z(1)), g.rep(P, g.z(2))]
    r.append(('the same point in any two representations', same, True))

    def opp(g):
        P = g.affine(1)
        Q = g.negate(P)
        return [g.rep(P, g.z(1)), g.rep(Q, g.z(2))]
    r.append(('opposite points', opp, False))

    def diff(k):
        def f(g):
            P, Q = g.affine(1), g.affine(2)
            g.R.fact(P[k] - Q[k])
            return [g.rep(P, g.z(1)), g.rep(Q, g.z(2))]
        return f
    r.append(('points with different x', diff(0), False))
    r.append(('points with different y', diff(1), False))
    return r


def rep_tasks(env):
    m, img = env.m, env.img
    tasks = []
    for cv in PR.CURVES.values():
        me = re.escape('libff::%s const&' % cv.name)
        for meth, rx, which in (('is_zero', r'is_zero\(\) const', 'is_zero'), ('is_special', r'is_special\(\) const', 'is_special'), ('is_well_formed', r'is_well_formed\(\) const', 'is_well_formed'),
                                ('operator==', r'operator==\(' + me + r'\) const', 'eq'), ('operator!=', r'operator!=\(' + me + r'\) const', 'eq')):
            fn = find(m, cv, rx)
            if fn is None:
                tasks.append(missing(cv, meth))
                continue

            def body(meta, cv=cv, fn=fn, meth=meth, which=which):
                for nm, mk, want in bool_cases(cv, which):
                    if meth == 'operator!=':
                        want = not want

                    def one(g, mk=mk, want=want):
                        Ts = mk(g)
                        os_ = [g.raw(T) for T in Ts]
                        r = g.it.call(fn, os_)
                        ok = type(r) is int and bool(r & 1) == want
                        weak = getattr(g.D, 'weak', False)
                        fr = all(g.R.is_zero(u - v) for o, T in zip(os_, Ts) for u, v in zip(g.read(o), T))
                        return [('answers %s' % str(want).lower(), PROVED if ok else (UNDECIDED if weak else REFUTED), repr(r)), ('arguments unchanged', st(fr), '')]
                    for n, s, i in paths(meta, lambda d: G(m, img, cv, d), one):
                        yield nm + ': ' + n, s, i
            tasks.append(Task('%s %s' % (cv.name, meth), m.dem(fn), body))
        tasks += norm_tasks(env, cv)
        tasks += coeff_tasks(env, cv)
        tasks += endo_tasks(env, cv)
    return tasks


def norm_tasks(env, cv):
    m, img = env.m, env.img
    tasks = []
    for meth in ('to_affine_coordinates', 'to_special'):
        fn = find(m, cv, meth + r'\(\)')
        if fn is None:
            tasks.append(missing(cv, meth))
            continue

        def body(meta, fn=fn, meth=meth):
            inv = cv.model == 'inv'
            for kind in ('O', 'A', 'A1'):
                def one(g, kind=kind):
                    R = g.R
                    if kind == 'O':
                        T = g.zero(1)
                        want = None
                    else:
                        want = g.affine(1)
                        T = g.rep(want, g.z(1) if kind == 'A' else R.const(1))
                    o = g.raw(T)
                    g.it.call(fn, [o])
                    X, Y, Z = g.read(o)
                    bad = UNDECIDED if g.D.weak else REFUTED

                    def eq(nm, P):
                        P = R.clear_den(P)
                        return (nm, PROVED if not P.c else bad, repr(P))
                    if kind == 'O':
                        if inv and meth == 'to_special':
                            return g.judge([X, Y, Z], None)
                        r = [eq('X is zero', X), eq('Y is one', Y - 1), eq('Z is %d' % inv, Z - (1 if inv else 0))]
                        return r
                    x, y = want
                    if inv and meth == 'to_affine_coordinates':
                        return [eq('X is the affine x', X * x - 1), eq('Y is the affine y', Y * y - 1), eq('Z is one', Z - 1)]
                    return [eq('X is the normal form', X - x), eq('Y is the normal form', Y - y), eq('Z is one', Z - 1)]
                nm = {'O': 'identity', 'A': 'every point and representation', 'A1': 'points already normalised'}[kind]
                for n, s, i in paths(meta, lambda d: G(m, img, cv, d), one):
                    yield nm + ': ' + n, s, i
        tasks.append(Task('%s %s' % (cv.name, meth), m.dem(fn), body, expect=6))
    fn = find(m, cv, r'batch_to_special_all_non_zeros\(.*\)')
    if fn is None:
        tasks.append(missing(cv, 'batch_to_special_all_non_zeros'))
    else:
        def body(meta, fn=fn):
            for k in (0, 1, 2, 3, 4):
                def one(g, k=k):
                    R = g.R
                    ps, arr = [], (g.it.alloc(3 * g.size * k, 'elements') if k else 0)
                    for i in range(k):
                        P = g.affine(i + 1)
                        ps.append(P)
                        for j, c in enumerate(g.rep(P, g.z(i + 1))):
                            g.D.put(g.cls, arr + (3 * i + j) * g.size, c)
                    v = g.it.alloc(24, 'vector')
                    g.it.store(v, 8, arr)
                    g.it.store(v + 8, 8, arr + 3 * g.size * k)
                    g.it.store(v + 16, 8, arr + 3 * g.size * k)
                    g.it.call(fn, [v])
                    out = [('vector storage kept', st(g.it.load(v, 8) == arr and g.it.load(v + 8, 8) == arr + 3 * g.size * k), '')]
                    for i, P in enumerate(ps):
                        X, Y, Z = g.read(arr + 3 * g.size * i)
                        for nm, d in (('X', X - P[0]), ('Y', Y - P[1]), ('Z', Z - 1)):
                            d = R.clear_den(d)
                            out.append(('element %d: %s normal' % (i, nm), PROVED if not d.c else (UNDECIDED if g.D.weak else REFUTED), repr(d)))
                    return out
                for n, s, i in paths(meta, lambda d: G(m, img, cv, d), one):
                    yield 'all lists of %d elements: %s' % (k, n), s, i
        tasks.append(Task('%s batch_to_special_all_non_zeros' % cv.name, m.dem(fn), body, weight=3))
        import anylen
        tasks.append(anylen.batch_special_task(env, m, img, cv, fn, PR.tsize(cv.mod, cv.cls)))
    return tasks


def endo_tasks(env, cv):
    m, img = env.m, env.img
    tasks = []
    fn = find(m, cv, r'mul_by_q\(\) const')
    if fn is not None:
        def body(meta, fn=fn):
            mod, cls = cv.mod, cv.cls
            p = PR.PRIMES[mod][0]
            # the q-power endomorphism is (x, y) -> (cx x^q, cy y^q); the constants are the ones that give [q] on the generator
            F = lambda v: PR.power(mod, cls, v, p)
            Gn = cv.gen
            qG = cv.mul(Gn, p % cv.r)
            cx = PR.mul(mod, cls, qG[0], PR.inv(mod, cls, F(Gn[0])))
            cy = PR.mul(mod, cls, qG[1], PR.inv(mod, cls, F(Gn[1])))
            # lemma (numerical, exact): this map sends the curve to itself and G to qG, hence is [q] on the subgroup
            M = lambda u, v: PR.mul(mod, cls, u, v)
            if cv.model != 'inv':
                cx3, cy2 = M(M(cx, cx), cx), M(cy, cy)
                # cy^2 (x^3q + a^q x^q + b^q) = cx^3 x^3q + a cx x^q + b
                ok = cx3 == cy2 and M(F(cv.a), cy2) == M(cv.a, cx) and M(F(cv.b), cy2) == cv.b
            else:
                # a cx^2 x^2q + cy^2 y^2q = 1 + d cx^2 cy^2 ..., from a^q x^2q + y^2q = 1 + d^q ...
                cx2, cy2 = M(cx, cx), M(cy, cy)
                ok = M(cv.a, cx2) == F(cv.a) and cy2 == PR.one(mod, cls) and M(cv.b, M(cx2, cy2)) == F(cv.b)
            yield 'lemma: the scaled q-power map is an endomorphism sending the generator to q times itself', PROVED if ok else UNDECIDED, ''
            for kind in ('O', 'A'):
                def one(g, kind=kind):
                    R = g.R
                    if kind == 'O':
                        T = g.zero(1)
                        want = None
                    else:
                        P = g.affine(1)
                        T = g.rep(P, g.z(1))
                        px, py = R.tower(cls, cx), R.tower(cls, cy)
                        o = R.const(1)
                        xq, yq = g.q(P[0]), g.q(P[1])
                        want = (px, xq, py, yq) if cv.model == 'inv' else (px * xq, o, py * yq, o)
                    a, o = g.raw(T), g.out()
                    g.it.call(fn, [o, a])
                    return g.judge(g.read(o), want)
                for n, s, i in paths(meta, lambda d: G(m, img, cv, d), one):
                    yield ('identity' if kind == 'O' else 'every point and representation') + ': ' + n, s, i
        tasks.append(Task('%s mul_by_q' % cv.name, m.dem(fn), body))
    fn = find(m, cv, r'mul_by_cofactor\(\) const')
    if fn is not None:
        import group_cases

        def body(meta, fn=fn):
            g = G(m, img, cv)
            h = group_cases.COF[cv.name]
            a, o = g.raw([g.R.atom(n, cv.cls) for n in 'XYZ']), g.out()
            seen = []

            def smul(it, args, mm):
                # operator*(bigint<k> const&, G const&): contract proved under C10
                k = int(mm.group(1))
                v = it.load(args[1], 8 * k)
                seen.append((v, args[2]))
                g.D.put(cv.cls, args[0], g.R.atom('R0', cv.cls))
                g.D.put(cv.cls, args[0] + g.size, g.R.atom('R1', cv.cls))
                g.D.put(cv.cls, args[0] + 2 * g.size, g.R.atom('R2', cv.cls))
                return None
            g.it.on(r'^libff::%s libff::operator\*<(\d+)l>\(libff::bigint<\d+l?> const&, libff::%s const&\)$' % (cv.name, cv.name), smul)
            g.it.call(fn, [o, a])
            if seen:
                yield 'calls scalar multiplication once, by the published cofactor, on itself', st(len(seen) == 1 and seen[0] == (h, a)), repr(seen)
                yield 'returns that product', st(g.read(o)[0].__repr__() == 'R0'), ''
            else:
                yield 'returns itself and the cofactor is one', st(h == 1 and all(g.R.is_zero(u - v) for u, v in zip(g.read(o), g.read(a)))), ''
        tasks.append(Task('%s mul_by_cofactor' % cv.name, m.dem(fn), body))
    return tasks
