"""C13 / C15: the pairings.

One execution of the real code per entry point.  The arguments are generic
points in a generic representation; every point the precomputations pass
through is m*Q for an integer m known modulo r.  Its coordinates are cut at
each step (the step is shown to compute the sum, then the coordinates become
fresh atoms constrained by the curve equation only).  The Miller value is kept
as a formal product of the elements multiplied in.  Each of these is shown to
be the line (conic) function through the expected points, evaluated at the
other argument, up to a factor the final exponentiation maps to one; the
divisor of the product is then compared with the published one."""
import re, math
from oblig import *
import core, ring, params as PR
from core import Abs, Unsupported, MASK
from finalexp import FE
from pair_cases import CURVES, top, fe_exponent


class PRing(ring.Ring):
    def __init__(self, mod):
        self.mix = {}
        self.mseen = 0
        ring.Ring.__init__(self, mod)

    def active_mrules(self, o):
        while self.mseen < len(self.mrules):
            mr = self.mrules[self.mseen]
            self.mix.setdefault(max(sh for sh, e in ring.mono_exps(mr[0])), []).append(mr)
            self.mseen += 1
        return [mr for s in ring.slots_of(o) for mr in self.mix.get(s * ring.SH, ())]

    def inverse(self, P):
        P = self.nf(P)
        if self.is_const_tower(P) and not (len(P.c) == 1 and 0 in P.c):
            for cls in [k for k in PR.TOWERS[self.mod]]:
                try:
                    return self.tower(cls, PR.inv(self.mod, cls, self.value(cls, P)))
                except KeyError:
                    continue
        n = len(self.names)
        i = ring.Ring.inverse(self, P)
        if len(self.names) > n and len(P.c) == 1:
            (m, c), = P.c.items()
            self.mrules.append((m + next(iter(i.c)), self.const(pow(c, -1, self.p))))
        return i

    def value(self, cls, P):
        """constant polynomial -> exact tower value"""
        if cls == 'Fp_model':
            if any(m for m in P.c):
                raise KeyError
            return P.c.get(0, 0)
        sub, d, g = self.gens[cls]
        s = self.slot[g]
        if any(((m >> (ring.SH * s)) & ring.FM) >= d for m in P.c):
            raise KeyError
        return tuple(self.value(sub, P.coeff(s, i)) for i in range(d))


class Dom(ring.RingDomain):
    """coordinate-field values are polynomials; every store may be recognised as a coordinate of a known point"""

    def put(self, cls, addr, P):
        if cls == self.pr.cls and self.pr.watch:
            P = self.pr.recognise(P)
        ring.RingDomain.put(self, cls, addr, P)

    def decide_zero(self, P):
        if len(self.path) > 40:
            raise Unsupported('too many branches')
        return ring.RingDomain.decide_zero(self, P)


class Failed(Exception):
    pass


class Pair:
    def __init__(self, m, img, name):
        self.m, self.name = m, name
        g1, g2, self.k = CURVES[name]
        self.g1, self.g2 = PR.CURVES[g1], PR.CURVES[g2]
        self.mod, self.top = top(name)
        self.q, self.nl = PR.PRIMES[self.mod]
        self.r = self.g1.r
        self.cls = self.g2.cls              # coordinate field of the twist
        self.R = R = PRing(self.mod)
        self.D = D = Dom(R)
        D.pr = self
        self.watch = False
        self.it = it = core.Interp(m, D, img)
        D.it = it
        import group
        self.classes = group.const_cls(self.mod, self.cls)
        self.FC = ring.FieldContracts(it, D, self.classes)
        self.N = self.q**self.k - 1
        self.notes = {}
        self.fails = []
        self.base, self.memo, self.pairs = {}, {}, set()
        self.pts = {}        # (curve index, canonical label) -> (x, y)
        self.reps = {}       # known representations: key of coordinates -> (curve, label)
        self.known = {}      # polynomial key -> list of (curve, label, which)
        self.zs = {}
        self.steps = []
        self.gs = []         # multiplied elements
        self.gid = {}
        self.full = 'libff::%s<%dl, libff::%s>' % (self.top, self.nl, self.mod)
        self.size = PR.tsize(self.mod, self.top)
        e = re.escape(self.full)
        it.on(r'^(?:%s&? )?%s::(operator[^(<]*|\w+)(?:<\d+l?>)?\((.*)\)( const)?$' % (e, e), self.method)
        it.on(r'^libff::(enter_block|leave_block)\(', lambda *a: None)
        it.on(r'^std::__cxx11::basic_string<|^std::allocator<char>::', lambda *a: None)
        it.on(r'^libff::bigint<(\d+)l?>::bigint\(char const\*\)$', self.bigstr)
        it.on(r'^libff::%s_final_exponentiation\(' % name, self.fexp)
        for c, gname in ((0, g1), (1, g2)):
            it.on(r'^libff::%s::to_affine_coordinates\(\)$' % gname, self.affine(c))
        it.on(r'^libff::%s::mul_by_a\(' % g2, self.mulc(self.g2.a))
        it.on(r'^libff::%s::mul_by_d\(' % g2, self.mulc(self.g2.b))
        it.on(r'^libff::%s::mul_by_q\(\) const$' % g2, self.mulq)
        it.on(r'^libff::\w*(?:doubling|addition|add|double|dbl)_?\w*\(', self.step)
        it.on(r'^__gmpn_(lshift|rshift|add_1|sub_1)$', self.mpn)
        it.on(r'^(printf|fflush|putchar|puts)$', lambda *a: 0)
        it.on(r'^libff::%s<%dl?, libff::%s>::%s\(\)$' % (self.cls, self.nl, self.mod, self.cls), lambda it, a, mm: self.D.put(self.cls, a[0], self.R.const(0)))
        self.mulnr()
        self.twist()

    # ---- setting
    def mulnr(self):
        # Fp6::mul_by_non_residue and similar on the coordinate class: multiplication by the published non-residue
        sub, d, g = self.R.gens[self.top]
        if sub == self.cls:
            rx = re.escape(self.full) + r'::mul_by_non_residue\('

            def h(it, a, mm):
                self.note('%s::mul_by_non_residue' % self.top)
                self.D.put(self.cls, a[0], self.D.get(self.cls, a[1]) * self.R.var(g)**d)
                return None
            self.it.on(rx, h)

    def twist(self):
        """psi(x,y) = (alpha x, beta y) from the twist to the base curve over the target field"""
        mod, T = self.mod, self.top
        w = PR.gen(mod, T, 'w') if 'w' in [PR.TOWERS[mod][c][2] for c in PR.TOWERS[mod]] else None
        gname = PR.TOWERS[mod][T][2]
        g = PR.gen(mod, T, gname)
        A, B = self.g1.a, self.g1.b
        emb = lambda x, c: PR.embed(mod, T, x, c)
        M = lambda x, y: PR.mul(mod, T, x, y)
        P = lambda x, e: PR.power(mod, T, x, e)
        found = None
        for e in list(range(-6, 7)):
            if self.g1.model == 'inv':
                al, be = P(g if e >= 0 else PR.inv(mod, T, g), abs(e)), PR.one(mod, T)
                # a (al x)^2 + y^2 = 1 + d (al x)^2 y^2
                a2 = M(al, al)
                ok = M(emb(A, 'Fp_model'), a2) == emb(self.g2.a, self.cls) and M(emb(B, 'Fp_model'), a2) == emb(self.g2.b, self.cls)
            else:
                gi = g if e >= 0 else PR.inv(mod, T, g)
                al, be = P(gi, 2 * abs(e)), P(gi, 3 * abs(e))
                a3, b2 = M(M(al, al), al), M(be, be)
                ok = a3 == b2 and M(emb(A, 'Fp_model'), al) == M(b2, emb(self.g2.a, self.cls)) and emb(B, 'Fp_model') == M(b2, emb(self.g2.b, self.cls))
            if ok and e:
                found = (al, be)
                if abs(e) == 1 or not found:
                    break
        if not found:
            raise Unsupported('no twist isomorphism')
        self.al, self.be = found
        ai, bi = PR.inv(mod, T, self.al), PR.inv(mod, T, self.be)
        t = lambda v: self.R.tower(T, v)
        self.sub2 = (t(self.al), t(self.be))       # twist point into functions of the base curve
        self.sub1 = (t(ai), t(bi))
        self.killed = {}

    # ---- points: c = 0 the base curve, c = 1 the twist; argument names P/Q with index
    def canon(self, l):
        l %= self.r
        return (l, 1) if l <= self.r - l else (self.r - l, -1)

    def curve(self, c):
        cv = (self.g1, self.g2)[c]
        return cv, cv.cls, self.R.tower(cv.cls, cv.a), self.R.tower(cv.cls, cv.b)

    def pt(self, w, label):
        """affine coordinates of label * (base point w = (curve, index))"""
        R = self.R
        l, sg = self.canon(label)
        if l == 0:
            raise Unsupported('identity')
        if (w, l) not in self.pts:
            cv, cls, a, b = self.curve(w[0])
            n = '%s%d_%d' % ('PQ'[w[0]], w[1], len(self.pts))
            x = R.atom('x' + n, cls, cv.model == 'inv')
            y = R.atom('y' + n, cls, True)
            if cv.model == 'inv':
                mono = next(iter((x * x * y * y).c))
                R.mrules.append((mono, (a * x * x + y * y - 1) * R.tower(cls, PR.inv(self.mod, cls, cv.b))))
                R.fact(y - 1)
                R.fact(y + 1)
            else:
                R.rule('y' + n, 2, x * x * x + a * x + b)
                R.fact(x * x * x + a * x + b)
            self.pts[(w, l)] = (x, y)
            self.known[self.key(x)] = (w, l, 'x')
            self.known[self.key(y)] = (w, l, 'y')
            self.slots = getattr(self, 'slots', {})
            for v in (x, y):
                self.slots[v.slots()[0]] = (w, l)
            # distinct odd-order points that are not opposite differ in x (and y on Edwards curves)
            for o in self.anchors(w):
                if o != l:
                    x2, y2 = self.pts[(w, o)]
                    self.distinct(cv, (x, y), (x2, y2), a, b)
            if cv.model == 'inv':
                R.fact(a * x * x + y * y)
                R.fact(R.const(2) - a * x * x - y * y)
                R.fact((a * x * x + y * y) * (R.const(2) - a * x * x - y * y))
        x, y = self.pts[(w, l)]
        if sg > 0:
            return x, y
        return (-x, y) if self.curve(w[0])[0].model == 'inv' else (x, -y)

    def anchors(self, w):
        return [l for (v, l) in self.pts if v == w and l in self.base.get(w, ())]

    def distinct(self, cv, A, B, a, b):
        R = self.R
        if cv.model == 'inv':
            R.fact(A[1] - B[1])
            R.fact(A[0] - B[0])
            R.fact(A[0] + B[0])
            R.fact(A[0] * B[1] - A[1] * B[0])
            R.fact(A[0] * B[1] + A[1] * B[0])
            R.fact(A[1] * B[1] + a * A[0] * B[0])
            R.fact(A[1] * B[1] - a * A[0] * B[0])
        else:
            R.fact(A[0] - B[0])

    def key(self, P):
        return frozenset(self.R.nf(P).c.items())

    def raw(self, c, idx, label=1):
        """memory object with a generic representation of the point"""
        w = (c, idx)
        self.base.setdefault(w, set()).add(1)
        x, y = self.pt(w, label)
        cv = self.curve(c)[0]
        z = self.R.atom('rep%s%d' % ('PQ'[c], idx), cv.cls, True)
        T = [x * z * z, y * z * z * z, z] if cv.model == 'jac' else [x * z, y * z, z] if cv.model == 'proj' else [y * z, x * z, x * y * z]
        s = PR.tsize(self.mod, cv.cls)
        o = self.it.alloc(3 * s, 'point')
        for i in range(3):
            self.D.put(cv.cls, o + i * s, T[i])
        self.reps[(c,) + tuple(self.key(v) for v in T)] = (w, label)
        return o

    def note(self, n):
        self.notes[n] = self.notes.get(n, 0) + 1

    # ---- contracts
    def bigstr(self, it, a, mm):
        s = ''
        p = a[1]
        while True:
            ch = it.load(p, 1)
            if ch == 0:
                break
            s += chr(ch)
            p += 1
        v = int(s)
        for i in range(int(mm.group(1))):
            it.store(a[0] + 8 * i, 8, (v >> (64 * i)) & MASK[64] if isinstance(MASK, dict) else (v >> (64 * i)) & (2**64 - 1))
        self.note('bigint(decimal string)')
        return None

    def mpn(self, it, a, mm):
        n = a[2]
        w = [it.load(a[1] + 8 * i, 8) for i in range(n)]
        if any(type(x) is not int for x in w):
            raise Unsupported('symbolic limbs')
        v = sum(x << (64 * i) for i, x in enumerate(w))
        if type(a[3]) is not int:
            raise Unsupported('symbolic limbs')
        if mm.group(1) in ('add_1', 'sub_1'):
            v += a[3] if mm.group(1) == 'add_1' else -a[3]
            out = int(not 0 <= v < 1 << (64 * n))
        elif mm.group(1) == 'rshift':
            out, v = (v << 64 >> a[3]) & (2**64 - 1), v >> a[3]
        else:
            v <<= a[3]
            out = v >> (64 * n)
        for i in range(n):
            it.store(a[0] + 8 * i, 8, (v >> (64 * i)) & (2**64 - 1))
        return out

    def affine(self, c):
        def h(it, a, mm):
            cv = self.curve(c)[0]
            s = PR.tsize(self.mod, cv.cls)
            T = [self.D.get(cv.cls, a[0] + i * s) for i in range(3)]
            hit = self.reps.get((c,) + tuple(self.key(v) for v in T))
            if hit is None:
                if self.key(T[2]) == self.key(self.R.const(1)) and self.known.get(self.key(T[0]), (None, None, ''))[2] == 'x':
                    return None
                raise Unsupported('to_affine_coordinates of an unknown point')
            self.note('%s::to_affine_coordinates' % cv.name)
            x, y = self.pt(*hit)
            for i, v in enumerate((x, y, self.R.const(1))):
                self.D.put(cv.cls, a[0] + i * s, v)
            return None
        return h

    def mulc(self, c):
        def h(it, a, mm):
            self.note('%s coefficient product' % self.g2.name)
            self.D.put(self.cls, a[0], self.D.get(self.cls, a[1]) * self.R.tower(self.cls, c))
            return None
        return h

    def locate(self, w0, x, y):
        """which known point (of curve w0) has these affine coordinates"""
        for (P, sx) in ((x, 1), (-x, -1)):
            k = self.known.get(self.key(P))
            if k and k[2] == 'x' and k[0][0] == w0:
                w, l, _ = k
                X, Y = self.pts[(w, l)]
                inv = self.curve(w0)[0].model == 'inv'
                if inv:
                    if self.key(y) == self.key(Y):
                        return w, l * sx
                elif sx == 1:
                    for s in (1, -1):
                        if self.key(y) == self.key(Y if s > 0 else -Y):
                            return w, l * s
        return None

    def mulq(self, it, a, mm):
        s = PR.tsize(self.mod, self.cls)
        T = [self.D.get(self.cls, a[1] + i * s) for i in range(3)]
        hit = self.locate(1, T[0], T[1])
        if hit is None or self.key(T[2]) != self.key(self.R.const(1)):
            raise Unsupported('mul_by_q of an unknown point')
        self.note('%s::mul_by_q' % self.g2.name)
        w, l = hit
        n = l * self.q % self.r
        self.base[w].add(self.canon(n)[0])
        for i, v in enumerate(self.pt(w, n) + (self.R.const(1),)):
            self.D.put(self.cls, a[0] + i * s, v)
        return None

    # ---- cutting at steps
    def coords(self, p, c):
        """the polynomials stored at p as coordinates of curve c: up to four"""
        cls = self.curve(c)[1]
        s = PR.tsize(self.mod, cls)
        out = []
        for i in range(4):
            try:
                out.append(self.D.get(cls, p + i * s))
            except (Unsupported, core.MemError):
                break
        return out

    def lookup(self, T, c):
        """known representation at the start of T -> (w, label, model)"""
        for n in (4, 3):
            if len(T) >= n:
                k = self.reps.get((c, n) + tuple(self.key(v) for v in T[:n]))
                if k:
                    return k + (n,)
        if len(T) >= 3 and self.key(T[2]) == self.key(self.R.const(1)):
            h = self.locate(c, T[0], T[1])
            if h:
                w, l = h
                if len(T) == 4 and self.key(T[3]) in (self.key(self.R.const(1)), self.key(T[0] * T[1])):
                    return w, l, 4
                return w, l, 3
        return None

    def step(self, it, a, mm):
        if self.busy:
            return NotImplemented
        name = mm.string
        pre = {}
        for p in a:
            if type(p) is int and p >> 32 and (p >> 32) in it.objs:
                for c in (0, 1):
                    T = self.coords(p, c)
                    h = self.lookup(T, c) if len(T) >= 3 else None
                    if h:
                        pre.setdefault(p, (c, h, [self.key(v) for v in T]))
        fn = [f for f in self.m.find('^' + re.escape(name) + '$')]
        if len(fn) != 1:
            return NotImplemented
        self.busy = True
        try:
            r = it.run(self.m.functions[fn[0]], a)
        finally:
            self.busy = False
        for p, (c, h, old) in pre.items():
            T = self.coords(p, c)
            if [self.key(v) for v in T][:h[2]] == old[:h[2]]:
                continue
            self.cut(p, c, h, T, name)
        return r

    busy = False

    def expected(self, w, la, lb):
        """affine sum as (nx, dx, ny, dy)"""
        R = self.R
        cv, cls, a, b = self.curve(w[0])
        xa, ya = self.pt(w, la)
        xb, yb = self.pt(w, lb)
        ca, cb = self.canon(la)[0], self.canon(lb)[0]
        if ca != cb and (w, ca, cb) not in self.pairs and not (cb in self.base[w] & {1} or ca in self.base[w] & {1}):
            self.pairs |= {(w, ca, cb), (w, cb, ca)}
            self.distinct(cv, self.pts[(w, ca)], self.pts[(w, cb)], a, b)
        if cv.model == 'inv':
            n = xa * xb * ya * yb * b
            return xa * yb + ya * xb, n + 1, ya * yb - a * xa * xb, R.const(1) - n
        if (la - lb) % self.r == 0:
            nu, de = 3 * xa * xa + a, 2 * ya
        else:
            nu, de = yb - ya, xb - xa
        d2 = de * de
        x3 = nu * nu - (xa + xb) * d2
        return x3, d2, nu * (xa * d2 - x3) - ya * d2 * de, d2 * de

    def cut(self, p, c, h, T, name):
        R = self.R
        w, la, n = h
        cv, cls, a, b = self.curve(c)
        s = PR.tsize(self.mod, cls)
        short = re.sub(r'\(.*', '', name).split('::')[-1]
        T = T[:n]
        if R.is_zero(T[2]) or cv.model == 'inv' and R.is_zero(T[0]) and R.is_zero(T[1] - T[2]):
            self.reps[(c, n) + tuple(self.key(v) for v in T)] = (w, 0)
            return                      # the identity
        cands = {la}
        for P in T:
            for sl in P.slots():
                if sl in self.slots and self.slots[sl][0] == w:
                    cands |= {self.slots[sl][1], -self.slots[sl][1]}
        bases = sorted(cands, key=lambda l: (l != la, l))
        # the doubling reads no other point
        for lb in bases:
            if (la + lb) % self.r == 0:
                continue
            nx, dx, ny, dy = self.expected(w, la, lb)
            X, Y, Z = T[:3]
            model = None
            for mo in (('ext',) if cv.model == 'inv' else ('proj', 'jac')):
                zx, zy = (Z, Z) if mo != 'jac' else (Z * Z, Z * Z * Z)
                if R.is_zero(X * dx - nx * zx) and R.is_zero(Y * dy - ny * zy):
                    model = mo
            if model is None:
                continue
            if n == 4:
                want = X * Y - T[3] * Z if model == 'ext' else T[3] - Z * Z
                if not R.is_zero(want):
                    self.fails.append(('%s keeps the auxiliary coordinate consistent' % short, 'label %d' % la))
                    return self.lost()
            nz = R.known_nonzero(R.clear_den(Z))[0]
            if not nz:
                self.fails.append(('%s: the third coordinate of the sum is nonzero' % short, repr(Z)[:300]))
                return self.lost()
            lab = (la + lb) % self.r
            self.steps.append((short, w, la, lb))
            kk = (w, lab, model) + tuple(self.key(v) for v in T)
            if kk not in self.zs:
                self.zs[kk] = R.atom('z%d' % len(self.zs), cls, True)
            z = self.zs[kk]
            x, y = self.pt(w, lab)
            if model == 'jac':
                N = [x * z * z, y * z * z * z, z, z * z]
            elif model == 'proj':
                N = [x * z, y * z, z]
            else:
                N = [x * z, y * z, z, x * y * z]
            for i in range(n):
                self.D.put(cls, p + i * s, N[i])
            self.reps[(c, n) + tuple(self.key(v) for v in N[:n])] = (w, lab)
            return
        self.fails.append(('%s: the new coordinates represent the sum of the current point and one of the points read' % short, 'current %d, new X %r' % (la, T[0])))
        self.lost()

    def lost(self):
        raise Failed()

    # ---- recognition of single affine coordinates (inline steps)
    def recognise(self, P):
        R = self.R
        P = R.nf(P)
        sl = P.slots()
        if not any(s in R.den for s in sl):
            return P
        k = self.key(P)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = P
        den = set()
        for s in sl:
            if s in R.den:
                den |= set(R.den[s].slots())
        labs = {self.slots[s] for s in list(sl) + sorted(den) if s in self.slots}
        ws = {w for w, l in labs}
        for w in ws:
            ls = sorted(l for v, l in labs if v == w)
            for i, la in enumerate(ls):
                for lb in ls[i:]:
                    for sg in (1, -1):
                        if (la + sg * lb) % self.r == 0:
                            continue
                        if la != lb and (la not in self.base[w] and lb not in self.base[w]):
                            continue
                        nx, dx, ny, dy = self.expected(w, la, sg * lb)
                        lab = (la + sg * lb) % self.r
                        if R.is_zero(P * dx - nx):
                            self.steps.append(('x', w, la, sg * lb))
                            self.memo[k] = self.pt(w, lab)[0]
                            return self.memo[k]
        # y coordinate: gamma (x_a - x_new) - y_a, with x_new already an atom
        for w in ws:
            ls = sorted(l for v, l in labs if v == w)
            for la in ls:
                for lb in ls:
                    for sa in (1, -1):
                        for sg in (1, -1):
                            t = (sa * la + sg * lb) % self.r
                            if t == 0 or self.canon(t)[0] not in ls and not (w, self.canon(t)[0]) in self.pts:
                                continue
                            if (w, self.canon(t)[0]) not in self.pts:
                                continue
                            xa, ya = self.pt(w, sa * la)
                            xb, yb = self.pt(w, sg * lb)
                            a = self.curve(w[0])[2]
                            nu, de = (3 * xa * xa + a, 2 * ya) if (sa * la - sg * lb) % self.r == 0 else (yb - ya, xb - xa)
                            xn, yn = self.pt(w, t)
                            if not set(xn.slots()) & set(sl):
                                continue
                            for s2 in (1, -1):
                                if R.is_zero(P * de - s2 * (nu * (xa - xn) - ya * de)):
                                    self.steps.append(('y', w, sa * la, sg * lb))
                                    self.memo[k] = yn if s2 == 1 else -yn
                                    return self.memo[k]
        return P

    # ---- target field: formal products
    def tget(self, addr):
        it = self.it
        o, off = it.obj(addr, self.size)
        e = o.cells.get(off)
        if e is not None and e[0] == self.size and isinstance(e[1], Abs) and e[1].kind == 'prod':
            return dict(e[1].val)
        P = self.D.get(self.top, addr)
        return {self.element(P): 1}

    def tput(self, addr, d):
        self.it.store(addr, self.size, Abs(self.size, 'prod', tuple(sorted((k, v) for k, v in d.items() if v))))

    def element(self, P):
        P = self.R.nf(P)
        k = self.key(P)
        if k not in self.gid:
            self.gid[k] = len(self.gs)
            self.gs.append(P)
        return (self.gid[k], 0)

    @staticmethod
    def mulp(a, b, s=1):
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + s * v
        return {k: v for k, v in r.items() if v}

    def method(self, it, a, mm):
        meth, sig, const = mm.groups()
        same = sig.replace(' ', '') == (self.full + ' const&').replace(' ', '')
        g, put = self.tget, self.tput
        short = self.top
        if (meth == short or meth == 'operator=') and same:
            it.copy(a[0], a[1], self.size)
            return a[0]
        if meth == short:
            return None if sig == '' else NotImplemented
        self.note('%s::%s' % (short, meth))
        if meth == 'operator*' and same:
            put(a[0], self.mulp(g(a[1]), g(a[2])))
        elif meth == 'operator*=' and same:
            put(a[0], self.mulp(g(a[0]), g(a[1])))
            return a[0]
        elif meth in ('squared', 'squared_karatsuba', 'squared_complex'):
            x = g(a[1])
            put(a[0], self.mulp(x, x))
        elif meth in ('square',):
            x = g(a[0])
            put(a[0], self.mulp(x, x))
            return a[0]
        elif meth == 'inverse':
            put(a[0], self.mulp({}, g(a[1]), -1))
        elif meth == 'invert':
            put(a[0], self.mulp({}, g(a[0]), -1))
            return a[0]
        elif meth == 'unitary_inverse':
            put(a[0], {(i, 1 - c) if type(i) is int else (i, c): (v if type(i) is int else -v) for (i, c), v in g(a[1]).items()})
        elif meth == 'one':
            put(a[0], {})
        elif meth in ('mul_by_024', 'mul_by_045'):
            R = self.R
            L = [self.D.get(self.cls, a[2 + i]) for i in range(3)]
            V, W = R.var('v'), R.var('w')
            if meth == 'mul_by_024':
                P = L[0] + L[2] * V * V + L[1] * V * W
            else:
                P = L[1] + L[0] * V * W + L[2] * V * V * W
            put(a[0], self.mulp(g(a[1]), {self.element(P): 1}))
        elif meth in ('mul_by_023', 'mul_by_2345') and same:
            P = self.D.get(self.top, a[2])
            gs = self.R.slot[self.R.gens[self.top][2]]
            lo = P.coeff(gs, 0)
            ub = self.R.slot['u']
            e = 0 if meth == 'mul_by_023' else 2
            ok = all(((m >> (ring.SH * ub)) & ring.FM) == e for m in lo.c) and all(self.R.level[s] in (None, 'Fp_model') for s in lo.slots())
            if not ok:
                self.fails.append(('the operand of %s has the documented sparse form' % meth, repr(lo)[:200]))
            put(a[0], self.mulp(g(a[1]), {self.element(P): 1}))
        else:
            return NotImplemented
        return None

    def fexp(self, it, a, mm):
        if 'chunk' in mm.string.split('(')[0]:
            return NotImplemented
        self.note('%s_final_exponentiation' % self.name)
        d = self.tget(a[1])
        self.tput(a[0], {(('fe',) + tuple(sorted(d.items())), 0): 1})
        return None

    # ---- lines
    def is_killed(self, j):
        """the power gen^j of the outer generator is mapped to one by the final exponentiation"""
        if j not in self.killed:
            g = PR.gen(self.mod, self.top, 'w' if 'w' in self.tgens() else self.R.gens[self.top][2])
            self.killed[j] = PR.power(self.mod, self.top, PR.power(self.mod, self.top, g, j), self.N // self.r) == PR.one(self.mod, self.top)
        return self.killed[j]

    def tgens(self):
        """generators of the target field above the coordinate field"""
        gens, c = [], self.top
        while c != self.cls:
            sub, d, g = self.R.gens[c]
            gens.append((g, d))
            c = sub
        return [g for g, d in gens]

    def comps(self, P):
        """components over the coordinate field: exponents of the outer generators -> Poly"""
        R = self.R
        gs = [R.slot[g] for g in self.tgens()]
        out = {}
        for m, c in R.nf(P).c.items():
            e = tuple((m >> (ring.SH * s)) & ring.FM for s in gs)
            m2 = m
            for s, x in zip(gs, e):
                m2 -= x << (ring.SH * s)
            out.setdefault(e, {})[m2] = c
        return {e: ring.Poly(R, d) for e, d in out.items()}

    def unit(self, P):
        """P = (nonzero element of the coordinate field) * (monomial in the outer generators killed by the final exponentiation)"""
        R = self.R
        cs = self.comps(R.clear_den(P))
        if len(cs) != 1:
            return False
        (e, c), = cs.items()
        if not R.known_nonzero(c)[0]:
            return False
        w = PR.one(self.mod, self.top)
        for g, x in zip(self.tgens(), e):
            w = PR.mul(self.mod, self.top, w, PR.power(self.mod, self.top, PR.gen(self.mod, self.top, g), x))
        k = e
        if k not in self.killed:
            self.killed[k] = PR.power(self.mod, self.top, w, self.N // self.r) == PR.one(self.mod, self.top)
        return self.killed[k]

    def line(self, gidx):
        """which function the element is: returns (w, la, lb, evalpoint) / 'trivial' / None"""
        R = self.R
        G = R.clear_den(self.gs[gidx])
        sl = [s for s in G.slots() if s in self.slots]
        pts = {self.slots[s] for s in sl}
        for mc in (1, 0):               # the curve whose multiples move
            ev = {w for w, l in pts if w[0] != mc}
            mv = {w for w, l in pts if w[0] == mc}
            if len(ev) != 1 or len(mv) != 1:
                continue
            (e,), (w,) = ev, mv
            if {l for v, l in pts if v == e} != {1}:
                continue
            labs = sorted(l for v, l in pts if v == w)
            t = self.try_line(G, e, w, labs)
            if t:
                return t
        if self.trivial(G, pts):
            return 'trivial'
        return None

    def trivial(self, G, pts):
        """vertical line at one point: alpha x_m - x_P times a unit, which lies in a proper subfield"""
        R = self.R
        cs = self.comps(G)
        if len(cs) != 1:
            return False
        (e, c), = cs.items()
        by = {}
        for w, l in pts:
            by.setdefault(w[0], []).append((w, l))
        if len(by.get(0, [])) == 1 and by.get(1):
            j = 1 if self.g1.model == 'inv' else 0
            xp = self.pts[by[0][0]][j]
            for q in by[1]:
                xq = self.pts[q][j]
                if j:
                    V = self.comps(xp - xq)
                else:
                    V = self.comps(R.clear_den(xp - self.sub2[0] * xq))
                if len(V) != 1:
                    continue
                (_, v), = V.items()
                f = ring.exact_div(R.nf(c), R.nf(v))
                if f is not None:
                    gm = R.const(1)
                    for g, x in zip(self.tgens(), e):
                        gm = gm * R.var(g)**x
                    return self.unit(f * gm)
        return False

    def try_line(self, G, e, w, labs):
        R = self.R
        xe, ye = self.pts[(e, 1)]
        sx, sy = xe.slots()[0], ye.slots()[0]
        F = {}
        for m, c in G.c.items():
            k = ((m >> (ring.SH * sx)) & ring.FM, (m >> (ring.SH * sy)) & ring.FM)
            F.setdefault(k, {})[m - (k[0] << (ring.SH * sx)) - (k[1] << (ring.SH * sy))] = c
        F = {k: ring.Poly(R, d) for k, d in F.items()}
        Z = R.const(0)
        cv = self.curve(w[0])[0]
        ax, by = self.sub2 if w[0] == 1 else self.sub1
        if cv.model == 'inv':
            if set(F) - {(0, 0), (0, 1), (1, 1), (1, 0)}:
                return None
            c1 = F.get((0, 0), Z)
            if not R.is_zero(c1 - F.get((0, 1), Z)):
                return None
        else:
            if set(F) - {(0, 0), (1, 0), (0, 1)}:
                return None
            c1 = F.get((0, 1), Z)
        if not self.unit(c1):
            return None
        a, d = self.curve(w[0])[2:]
        f0, fx, fy, fxy = F.get((0, 0), Z), F.get((1, 0), Z), F.get((0, 1), Z), F.get((1, 1), Z)

        def at(l):
            x, y = self.pt(w, l)
            X, Y = ax * x, by * y
            return f0 + fx * X + fy * Y + fxy * X * Y

        def tangent(l):
            x, y = self.pt(w, l)
            X, Y = ax * x, by * y
            if cv.model == 'inv':
                dx, dy = -(y - d * x * x * y), a * x - d * x * y * y
            else:
                dx, dy = 2 * y, 3 * x * x + a
            return (fx + fxy * Y) * ax * dx + (fy + fxy * X) * by * dy
        zeros = [l for b in labs for l in (b, -b) if R.is_zero(at(l))]
        if not zeros:
            return None
        for l in zeros:
            if R.is_zero(tangent(l)):
                return (w, l % self.r, l % self.r, e)
        # two distinct points
        for i, l in enumerate(zeros):
            for n in zeros[i + 1:]:
                if (l - n) % self.r and (l + n) % self.r:
                    return (w, l % self.r, n % self.r, e)
        return None

    # ---- divisors modulo verticals: {(moving base, evaluation base): {label: coefficient}}
    def divisor(self, prod, lines):
        out = {}
        for (i, conj), n in prod.items():
            L = lines(i)
            if L == 'trivial':
                continue
            w, a, b, e = L
            n = -n if conj else n
            D = out.setdefault((w, e), {})
            for l, s in ((a, 1), (b, 1), (a + b, -1)):
                c, sg = self.canon(l)
                if c:
                    D[c] = D.get(c, 0) + s * sg * n
        return {k: {l: v for l, v in D.items() if v} for k, D in out.items()}

    def miller_div(self, terms):
        """divisor of a product of f_{T,label} and lines: list of ('f', T) or ('l', a, b)"""
        D = {}

        def add(l, v):
            c, sg = self.canon(l)
            if c:
                D[c] = D.get(c, 0) + sg * v
        for t in terms:
            if t[0] == 'f':
                add(1, t[1])
                add(t[1], -1)
            else:
                add(t[1], 1)
                add(t[2], 1)
                add(t[1] + t[2], -1)
        return {l: v for l, v in D.items() if v}
