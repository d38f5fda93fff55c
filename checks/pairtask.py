"""C13 / C15: obligations over the executions of checks/pairing.py."""
import re, math
from oblig import *
import core, ring, params as PR
from core import Unsupported
from pairing import Pair, Failed
from pair_cases import CURVES, top, fe_exponent

BIG = 8192


def published(name):
    """T (or the line terms) of the published pairing: divisor terms of the Miller function in Q"""
    g1 = PR.CURVES[CURVES[name][0]]
    q, r = PR.PRIMES[g1.mod][0], g1.r
    if name == 'alt_bn128':
        s = 6 * PR.BN_U + 2
        return [('f', s), ('l', s, q), ('l', s + q, -q * q)], s
    if name == 'bls12_381':
        return [('f', PR.BLS_X)], PR.BLS_X
    T = q % r                   # trace - 1, as the residue of least absolute value
    T = T if T <= r // 2 else T - r
    if name == 'edwards':       # this one is defined over |T|, which is q^4 modulo r
        T = -T
    return [('f', T)], T


class Run:
    def __init__(self, p, env, meta):
        self.p, self.m, self.meta = p, env.m, meta
        self.L = {}
        self.res = []

    def fn(self, rx):
        f = self.m.find(rx)
        if len(f) != 1:
            raise Unsupported('no single function matches ' + rx)
        return f[0]

    def target(self, rx, args):
        O = self.p.it.alloc(self.p.size, 'result')
        self.p.it.call(self.fn(rx), [O] + args)
        return self.p.tget(O)

    def prec(self, rx, P):
        O = self.p.it.alloc(BIG, 'precomputation')
        self.p.it.call(self.fn(rx), [O, P])
        return O

    def line(self, i):
        if i not in self.L:
            self.L[i] = self.p.line(i)
        return self.L[i]

    def bad(self, generic=UNDECIDED):
        d = self.p.D
        if not d.path:
            return generic
        return UNDECIDED if getattr(d, 'weak', False) else REFUTED

    def add(self, nm, ok, info='', generic=UNDECIDED):
        self.res.append((nm, PROVED if ok else self.bad(generic), '' if ok else str(info)[:700]))

    def unfold(self, d):
        """a reduced value -> (Miller product, True); otherwise the product itself"""
        if len(d) == 1:
            ((k, c), n), = d.items()
            if type(k) is tuple and k[0] == 'fe':
                D = dict(k[1:])
                s = -n if c else n
                return {a: b * s for a, b in D.items()}, True
        if any(type(k) is tuple for (k, c) in d):
            raise Unsupported('a mixture of reduced and unreduced values')
        return d, False

    @staticmethod
    def flat(d):
        """conjugates are inverses up to a factor the final exponentiation maps to one"""
        o = {}
        for (k, c), n in d.items():
            o[k] = o.get(k, 0) + (-n if c else n)
        return {k: n for k, n in o.items() if n}

    def lines(self, nm, d):
        lost = [i for (i, c) in d if self.line(i) is None]
        self.add(nm + ': every factor is the line through two multiples of one argument at the other one, up to a factor the final exponentiation kills',
                 not lost and d, 'factor %r' % (self.p.gs[lost[0]] if lost else 'none'))
        return not lost and bool(d)

    def div(self, d):
        return self.p.divisor(d, self.line)

    def steps(self, nm):
        self.add(nm + ': every step computes the sum of the points it passes through, in a valid representation', not self.p.fails, self.p.fails[:2])

    def frame(self, nm):
        """nothing but the result and fresh memory is written"""
        p = self.p
        w = []
        for g, a in p.it.gaddr.items():
            o = p.it.objs.get(a >> 32)
            if o is not None and not o.const and o.cells:
                n = p.m.dem(g)
                if not re.match(r'std::__ioinit|guard variable|libff::inhibit|libff::indent|libff::block_names', n) and self.changed(o):
                    w.append(n)
        self.add(nm + ': no global state is written', not w, w[:3])

    def changed(self, o):
        for k, e in o.cells.items():
            n, v = e[0], e[1]
            if type(v) is not int:
                return True
            if o.base is None or int.from_bytes(o.base[k:k + n], 'little') != v:
                return True
        return False


def entry(env, name, what, script, timeout=240, watch=False, weight=3):
    def body(meta):
        out, order = {}, {PROVED: 0, UNDECIDED: 1, REFUTED: 2}

        def run(dec):
            p = Pair(env.m, env.img, name)
            p.D.decisions = dec
            p.D.weak = False
            p.watch = watch
            r = Run(p, env, meta)
            try:
                script(r)
            except Failed:
                r.steps(what)
            except (core.Thrown, core.Aborted, core.MemError, ring.PreconditionFailed) as e:
                r.add(what + ': no exception, abort or memory error', False, e, REFUTED)
            except ring.Infeasible:
                e2 = ring.Infeasible(p.D)
                e2.dom = p.D
                raise e2
            if p.D.path:
                d = '; '.join('%r %s 0' % (S, '==' if v else '!=') for S, v in p.D.path)[:300]
                r.res = [(n, s, (i + ' on path ' + d) if s != PROVED else '') for n, s, i in r.res]
            meta.setdefault('contracts', {}).update(p.notes)
            meta.setdefault('inlined', []).extend(p.it.called)
            return p.D, r.res
        for D, res in explore(run, 16):
            for n, s, i in res:
                if n not in out or order[s] > order[out[n][0]]:
                    out[n] = (s, i)
        for n, (s, i) in out.items():
            yield n, s, i
    fn = what
    return Task('%s %s' % (name, what), 'libff::' + fn, body, backend='polynomial identities over the tower and divisor arithmetic modulo r', timeout=timeout, expect=1, weight=weight)


def same(D, w, e, want):
    return D == ({(w, e): want} if want else {})


P1, Q1, P2, Q2 = (0, 1), (1, 1), (0, 2), (1, 2)


def c13_tasks(env):
    out = []
    for name in CURVES:
        terms, T = published(name)
        ents = [('%s_pp::reduced_pairing' % name, True), ('%s_reduced_pairing' % name, True), ('%s_ate_reduced_pairing' % name, True),
                ('%s_pp::pairing' % name, False), ('%s_pairing' % name, False), ('%s_ate_pairing' % name, False)]
        for f, red in ents:
            def script(r, f=f, red=red, terms=terms):
                p = r.p
                A, B = p.raw(0, 1), p.raw(1, 1)
                before = [p.coords(x, c)[:3] for x, c in ((A, 0), (B, 1))]
                d = r.target(r'^libff::%s\(' % f, [A, B])
                d, got = r.unfold(d)
                if red:
                    r.add(f + ': the value is the final exponentiation of a Miller value', got)
                elif got:
                    raise Unsupported('a reduced value')
                r.steps(f)
                if r.lines(f, d):
                    D = r.div(d)
                    r.add(f + ': the divisor of the Miller function is the published one or its inverse', same(D, Q1, P1, p.miller_div(terms)) or same(D, Q1, P1, {l: -v for l, v in p.miller_div(terms).items()}), {k: {l: v for l, v in list(x.items())[:6]} for k, x in D.items()}, REFUTED)
                after = [p.coords(x, c)[:3] for x, c in ((A, 0), (B, 1))]
                r.add(f + ': the arguments are unchanged', all(p.key(u) == p.key(v) for x, y in zip(before, after) for u, v in zip(x, y)))
                r.frame(f)
            out.append(entry(env, name, f, script))
        out.append(conditions(name, terms, T))
    for f, red in (('edwards_tate_reduced_pairing', True), ('edwards_tate_pairing', False)):
        def script(r, f=f, red=red):
            p = r.p
            d = r.target(r'^libff::%s\(' % f, [p.raw(0, 1), p.raw(1, 1)])
            d, got = r.unfold(d)
            if red:
                r.add(f + ': the value is the final exponentiation of a Miller value', got)
            r.steps(f)
            if r.lines(f, d):
                D = r.div(d)
                r.add(f + ': the divisor of the Miller function is r times the first argument', same(D, P1, Q1, p.miller_div([('f', p.r)])), {k: {l: v for l, v in list(x.items())[:6]} for k, x in D.items()}, REFUTED)
            r.frame(f)
        out.append(entry(env, 'edwards', f, script))
    return out


def conditions(name, terms, T):
    """hypotheses of the bilinearity and non-degeneracy theorems, in exact integer arithmetic"""
    def body(meta):
        mod, tp = top(name)
        q, k = PR.PRIMES[mod][0], CURVES[name][2]
        r = PR.CURVES[CURVES[name][0]].r
        N = q**k - 1
        yield 'r divides q^k-1 and no q^d-1 with d<k', PROVED if N % r == 0 and all((q**d - 1) % r for d in range(1, k)) else REFUTED, ''
        if name == 'alt_bn128':
            s = T
            lam = s + q - q * q + q**3
            yield 'r divides 6z+2+q-q^2+q^3', PROVED if lam % r == 0 else REFUTED, ''
            m = lam // r
            # Vercauteren: non-degenerate iff m k q^(k-1) != ((q^k-1)/r) sum i c_i q^(i-1) mod r
            co = [s, 1, -1, 1]
            lhs = m * k * pow(q, k - 1, r)
            rhs = (N // r) * sum(i * c * pow(q, i - 1, r) for i, c in enumerate(co) if i)
            yield 'non-degeneracy condition of the optimal ate pairing', PROVED if (lhs - rhs) % r else REFUTED, ''
            sums = (s + q - q * q) % r
            yield 'the last line is the vertical through the remaining sum', PROVED if (sums + q**3) % r == 0 else REFUTED, ''
        else:
            yield 'the loop length is a power of q modulo r', PROVED if any((T - q**i) % r == 0 for i in range(1, k)) else REFUTED, ''
            g = math.gcd(T**k - 1, N)
            yield 'non-degeneracy condition of the ate pairing: r does not divide (T^k-1)/gcd(T^k-1,q^k-1)', PROVED if (T**k - 1) // g % r else REFUTED, ''
        e = fe_exponent(name)
        yield 'the final exponent is a multiple of (q^k-1)/r prime to r', PROVED if e % (N // r) == 0 and math.gcd(e // (N // r), r) == 1 else REFUTED, ''
        yield 'the final exponentiation maps every element of the half field to one', PROVED if (N // r) % (q**(k // 2) - 1) == 0 else REFUTED, ''
    return Task('%s theorem hypotheses' % name, 'libff::%s parameters' % name, body, backend='integer arithmetic')


def c15_tasks(env):
    out = []
    for name in CURVES:
        n = name
        # precomputed against direct
        variants = [('%s_pp::precompute_G1' % n, '%s_pp::precompute_G2' % n, '%s_pp::miller_loop' % n, '%s_pp::pairing' % n),
                    ('%s_precompute_G1' % n, '%s_precompute_G2' % n, '%s_miller_loop' % n, '%s_pairing' % n),
                    ('%s_ate_precompute_G1' % n, '%s_ate_precompute_G2' % n, '%s_ate_miller_loop' % n, '%s_ate_pairing' % n)]
        red = ['%s_pp::reduced_pairing' % n, '%s_reduced_pairing' % n, '%s_ate_reduced_pairing' % n]
        for i, (f1, f2, ml, pr) in enumerate(variants):
            def script(r, f1=f1, f2=f2, ml=ml, pr=pr, rd=red[i], n=n):
                p = r.p
                A, B = p.raw(0, 1), p.raw(1, 1)
                x = r.target(r'^libff::%s\(' % ml, [r.prec(r'^libff::%s\(' % f1, A), r.prec(r'^libff::%s\(' % f2, B)])
                y = r.target(r'^libff::%s\(' % pr, [A, B])
                z = r.target(r'^libff::%s\(' % rd, [A, B])
                s = r.target(r'^libff::%s_ate_pairing\(' % n, [A, B])
                r.steps(ml)
                r.add('%s: on precomputed arguments it equals the direct pairing' % ml, x == y, 'formal products differ')
                r.add('%s: equals the ate pairing' % pr, y == s, 'formal products differ')
                zz, got = r.unfold(z)
                r.add('%s: is the final exponentiation of the direct pairing' % rd, got and r.flat(zz) == r.flat(y), 'formal products differ')
            out.append(entry(env, name, ml, script))
        for f1, f2, ml, db in [variants[0][:3] + ('%s_pp::double_miller_loop' % n,), variants[1][:3] + ('%s_double_miller_loop' % n,), variants[2][:3] + ('%s_ate_double_miller_loop' % n,)]:
            def script(r, f1=f1, f2=f2, ml=ml, db=db):
                p = r.p
                a = [r.prec(r'^libff::%s\(' % f1, p.raw(0, i)) for i in (1, 2)]
                b = [r.prec(r'^libff::%s\(' % f2, p.raw(1, i)) for i in (1, 2)]
                x = [r.target(r'^libff::%s\(' % ml, [a[i], b[i]]) for i in (0, 1)]
                y = r.target(r'^libff::%s\(' % db, [a[0], b[0], a[1], b[1]])
                r.add('%s: equals the product of the two single Miller loops' % db, p.mulp(x[0], x[1]) == y, 'formal products differ: %r' % sorted(p.mulp(y, p.mulp(x[0], x[1]), -1).items())[:4])
                r.frame(db)
            out.append(entry(env, name, db, script))
    f = 'edwards_tate_miller_loop'

    def script(r):
        p = r.p
        A, B = p.raw(0, 1), p.raw(1, 1)
        x = r.target(r'^libff::edwards_tate_miller_loop\(', [r.prec(r'^libff::edwards_tate_precompute_G1\(', A), r.prec(r'^libff::edwards_tate_precompute_G2\(', B)])
        y = r.target(r'^libff::edwards_tate_pairing\(', [A, B])
        z, got = r.unfold(r.target(r'^libff::edwards_tate_reduced_pairing\(', [A, B]))
        r.steps(f)
        r.add(f + ': on precomputed arguments it equals the direct pairing', x == y, 'formal products differ')
        r.add('edwards_tate_reduced_pairing: is the final exponentiation of the direct pairing', got and r.flat(z) == r.flat(y), 'formal products differ')
    out.append(entry(env, 'edwards', f, script))
    for name in ('mnt4', 'mnt6'):
        out += affine_tasks(env, name)
    return out


def affine_tasks(env, name):
    out = []
    terms, T = published(name)
    for f in ('%s_affine_reduced_pairing' % name, '%s_pp::affine_reduced_pairing' % name):
        def script(r, f=f):
            p = r.p
            d, got = r.unfold(r.target(r'^libff::%s\(' % f, [p.raw(0, 1), p.raw(1, 1)]))
            r.add(f + ': the value is the final exponentiation of a Miller value', got)
            r.steps(f)
            if r.lines(f, d):
                r.add(f + ': has the divisor of the standard pairing', same(r.div(d), Q1, P1, p.miller_div(terms)), r.div(d), REFUTED)
            r.frame(f)
        out.append(entry(env, name, f, script, watch=True))
    pre = {'': ('%s_affine_ate_precompute_G1' % name, '%s_affine_ate_precompute_G2' % name, '%s_affine_ate_miller_loop' % name),
           'pp': ('%s_pp::affine_ate_precompute_G1' % name, '%s_pp::affine_ate_precompute_G2' % name, '%s_pp::affine_ate_miller_loop' % name)}
    for f1, f2, ml in pre.values():
        def script(r, f1=f1, f2=f2, ml=ml):
            p = r.p
            d, got = r.unfold(r.target(r'^libff::%s\(' % ml, [r.prec(r'^libff::%s\(' % f1, p.raw(0, 1)), r.prec(r'^libff::%s\(' % f2, p.raw(1, 1))]))
            r.steps(ml)
            if r.lines(ml, d):
                D = r.div(d)
                W = p.miller_div(terms)
                r.add(ml + ': has the divisor of the standard Miller function' + (' [mnt6-affine-sign]' if T < 0 else ''), same(D, Q1, P1, W), D, REFUTED)
                if T < 0:
                    r.add(ml + ': has the divisor of the standard Miller function or of its inverse', same(D, Q1, P1, W) or same(D, Q1, P1, {l: -v for l, v in W.items()}), D, REFUTED)
        out.append(entry(env, name, ml, script, watch=True))
    f1, f2, ml = pre['pp']
    for k, f in ((2, '%s_pp::affine_ate_e_over_e_miller_loop' % name), (3, '%s_pp::affine_ate_e_times_e_over_e_miller_loop' % name)):
        def script(r, k=k, f=f):
            p = r.p
            a = [r.prec(r'^libff::%s\(' % f1, p.raw(0, i + 1)) for i in range(k)]
            b = [r.prec(r'^libff::%s\(' % f2, p.raw(1, i + 1)) for i in range(k)]
            x = [r.target(r'^libff::%s\(' % ml, [u, v]) for u, v in zip(a, b)]
            y = r.target(r'^libff::%s\(' % f, [v for uv in zip(a, b) for v in uv])
            w = {}
            for i in range(k):
                w = p.mulp(w, x[i], -1 if i == k - 1 else 1)
            r.add(f + ': is the quotient of the affine Miller loops after the final exponentiation', r.flat(w) == r.flat(y), 'formal products differ')
            r.frame(f)
        out.append(entry(env, name, f, script, watch=True, timeout=400))
    return out
