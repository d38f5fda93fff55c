"""Layer-2 domain: field elements as polynomials over F_p (exact), with the
tower generators u, v, w reduced by their defining relations, atoms for symbolic
inputs, inverse atoms for inversions, and rewriting rules for hypotheses
(curve equations, case equalities).

Contracts for the field classes (the postconditions proved by layer 1 for
Fp_model, and by the tower checks for the extension classes) are applied by
`FieldContracts`."""
import re
from core import Abs, UNDEF, MASK, Unsupported, MemError, Thrown, Aborted, NullDomain
import params as PR

SH = 12
FM = (1 << SH) - 1


class Fork(Exception):
    pass


class Infeasible(Unsupported):
    """the decisions taken contradict a hypothesis"""

    def __init__(self, dom):
        Unsupported.__init__(self, 'contradictory path')
        self.dom = dom


class PathLimit(Unsupported):
    pass


class Ring:
    def __init__(self, mod):
        self.mod = mod
        self.p = PR.PRIMES[mod][0]
        self.names = []
        self.level = []
        self.den = {}       # slot -> denominator poly
        self.rules = {}     # slot -> (k, Poly)
        self.mrules = []    # (monomial, Poly): rewriting of a product of several atoms
        self.slot = {}
        self.nonzero = []   # known nonzero polys (normal forms)
        self.nz_mono = set()  # slots known nonzero
        self.gens = {}
        for g in ('u', 'v', 'w'):
            self.newvar(g, None)
        for cls, (s, d, g, rel) in PR.TOWERS.get(mod, {}).items():
            self.gens[cls] = (s, d, g)
            rhs = Poly(self, {})
            for c, ge in rel:
                t = self.const(c)
                for gn, e in ge.items():
                    t = t * self.var(gn)**e
                rhs = rhs + t
            self.rules[self.slot[g]] = (d, rhs)
            if g == 'u':
                pass

    def newvar(self, name, level='Fp_model'):
        i = len(self.names)
        self.names.append(name)
        self.level.append(level)
        self.slot[name] = i
        return Poly(self, {1 << (SH * i): 1})

    def var(self, name):
        return Poly(self, {1 << (SH * self.slot[name]): 1})

    def const(self, c):
        c %= self.p
        return Poly(self, {0: c} if c else {})

    def tower(self, cls, v):
        """exact constant (params value) as a polynomial in the generators"""
        if cls == 'Fp_model':
            return self.const(v)
        sub, d, g = self.gens[cls]
        acc = self.const(0)
        for i in range(d):
            acc = acc + self.tower(sub, v[i]) * self.var(g)**i
        return acc

    def fact(self, P):
        """hypothesis: P is nonzero"""
        self.nonzero.append(self.strip(self.nf(P)))

    def strip(self, P):
        """P nonzero: every atom dividing it is nonzero too; drop that factor"""
        for s in P.slots():
            sh = SH * s
            e = min((m >> sh) & FM for m in P.c)
            if e:
                if s >= 3:
                    self.nz_mono.add(s)
                P = Poly(self, {m - (e << sh): c for m, c in P.c.items()})
        return P

    def atom(self, name, level='Fp_model', nonzero=False):
        v = self.newvar(name, level)
        if nonzero:
            self.nz_mono.add(self.slot[name])
        return v

    def rule(self, name, k, rhs):
        """impose name^k = rhs (rhs must not contain name)"""
        self.rules[self.slot[name]] = (k, self.nf(rhs))

    def active_mrules(self, o):
        return self.mrules

    def nf(self, P):
        d = P.c
        rl = self.rules
        if not rl and not self.mrules:
            return P
        while True:
            todo = None
            o = 0
            for m in d:
                o |= m
            for mono, rhs in self.active_mrules(o):
                ex = mono_exps(mono)
                if any(not (o >> sh) & FM for sh, e in ex):
                    continue
                bad = [m for m in d if all(((m >> sh) & FM) >= e for sh, e in ex)]
                if bad:
                    todo = mono
                    d = dict(d)
                    p = self.p
                    for m in bad:
                        c = d.pop(m, 0)
                        if not c:
                            continue
                        q = m - mono
                        for m2, c2 in rhs.c.items():
                            x = (d.get(m2 + q, 0) + c * c2) % p
                            if x:
                                d[m2 + q] = x
                            elif m2 + q in d:
                                del d[m2 + q]
            for s in slots_of(o) if len(rl) > 12 else list(rl):
                if s not in rl:
                    continue
                k, rhs = rl[s]
                sh = SH * s
                bad = [m for m in d if ((m >> sh) & FM) >= k]
                if bad:
                    todo = (s, k, rhs, bad)
                    d = dict(d)
                    p = self.p
                    byq = {}
                    for m in bad:
                        c = d.pop(m)
                        q, r = divmod((m >> sh) & FM, k)
                        m2 = m - (((m >> sh) & FM) << sh) + (r << sh)
                        byq.setdefault(q, {})
                        byq[q][m2] = (byq[q].get(m2, 0) + c) % p
                    for q, dd in byq.items():
                        t = rhs
                        for _ in range(q - 1):
                            t = Poly(self, mulraw(t.c, rhs.c, p))
                            t = self.nf(t)
                        for m, c in mulraw(dd, t.c, p).items():
                            x = (d.get(m, 0) + c) % p
                            if x:
                                d[m] = x
                            elif m in d:
                                del d[m]
            if todo is None:
                break
        return Poly(self, d)

    def inverse(self, P):
        """P known nonzero (or assumed): returns inverse poly"""
        P = self.nf(P)
        if len(P.c) == 1:
            (m, c), = P.c.items()
            if m == 0:
                return self.const(pow(c, -1, self.p))
        for s, d in self.den.items():
            if d.c == P.c:
                return Poly(self, {1 << (SH * s): 1})
        if self.is_const_tower(P):
            # constant of an extension field: exact inverse by linear algebra via params
            raise Unsupported('inverse of tower constant')
        lv = None
        i = self.newvar('inv%d' % len(self.names), self.levelof(P))
        self.den[len(self.names) - 1] = P
        # simple monomial case: i * z = 1
        return i

    def is_const_tower(self, P):
        return P.c and all(m >> (3 * SH) == 0 for m in P.c)

    def levelof(self, P):
        """largest class any atom of P belongs to"""
        best = 'Fp_model'
        bs = 0
        for s in P.slots():
            l = self.level[s]
            if l is None:
                for cls, (sub, d, g) in self.gens.items():
                    if self.slot[g] == s:
                        l = cls
            n = PR.tsize(self.mod, l)
            if n > bs:
                bs, best = n, l
        return best

    def clear_den(self, P):
        """multiply by denominators until no inverse atom remains"""
        P = self.nf(P)
        for s in sorted(self.den, reverse=True):
            sh = SH * s
            if not any((m >> sh) & FM for m in P.c):
                continue
            by = {}
            for m, c in P.c.items():
                e = (m >> sh) & FM
                by.setdefault(e, {})[m - (e << sh)] = c
            K = max(by) if by else 0
            if K == 0:
                continue
            d = self.den[s]
            acc = Poly(self, {})
            # Horner: sum by[e] * d^(K-e)
            for e in range(0, K + 1):
                acc = acc * d + Poly(self, by.get(e, {}))
            P = self.nf(acc)
        return P

    def is_zero(self, P):
        return not self.clear_den(P).c

    def known_nonzero(self, P):
        """P (no inverse atoms) certainly nonzero? returns True or the stripped poly"""
        P = self.nf(P)
        while True:
            if not P.c:
                return False, P
            # strip known nonzero monomial factors
            for s in P.slots():
                if s not in self.nz_mono:
                    continue
                sh = SH * s
                e = min((m >> sh) & FM for m in P.c)
                if e:
                    P = Poly(self, {m - (e << sh): c for m, c in P.c.items()})
            if len(P.c) == 1 and 0 in P.c:
                return True, P
            if self.is_const_tower(P):
                return True, P
            done = True
            sl = set(P.slots())
            for f in self.nonzero:
                if self.is_const_tower(f) or not sl.issuperset(f.slots()):
                    continue
                q = exact_div(P, f)
                if q is not None:
                    P = q
                    done = False
                    break
            if done:
                return False, P


def mono_exps(m):
    r = []
    b = 0
    while m:
        k = ((m & -m).bit_length() - 1) // SH * SH
        m >>= k
        b += k
        r.append((b, m & FM))
        m >>= SH
        b += SH
    return r


def slots_of(o):
    r = []
    b = 0
    while o:
        k = ((o & -o).bit_length() - 1) // SH
        o >>= SH * (k + 1)
        b += k
        r.append(b)
        b += 1
    return r


def mulraw(a, b, p):
    if len(a) > len(b):
        a, b = b, a
    r = {}
    g = r.get
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m1 + m2
            r[m] = g(m, 0) + c1 * c2
    out = {}
    for m, c in r.items():
        c %= p
        if c:
            out[m] = c
    return out


def exact_div(P, f):
    if not f.c:
        return None
    p = P.ring.p
    lf = max(f.c)
    ex = mono_exps(lf)
    li = pow(f.c[lf], -1, p)
    r = dict(P.c)
    q = {}
    n = 0
    while r:
        n += 1
        if n > 3000:
            return None
        m = max(r)
        # divisibility of monomial m by lf
        d = m - lf
        if d < 0:
            return None
        if any(((m >> sh) & FM) < e for sh, e in ex):
            return None
        c = r[m] * li % p
        q[d] = c
        for m2, c2 in f.c.items():
            mm = m2 + d
            v = (r.get(mm, 0) - c * c2) % p
            if v:
                r[mm] = v
            elif mm in r:
                del r[mm]
    return P.ring.nf(Poly(P.ring, q)) if True else None


class Poly:
    __slots__ = ('ring', 'c')

    def __init__(self, ring, c):
        self.ring = ring
        self.c = c

    def slots(self):
        o = 0
        for m in self.c:
            o |= m
        return slots_of(o)

    def _co(self, x):
        return x if isinstance(x, Poly) else self.ring.const(x)

    def __add__(self, o):
        o = self._co(o)
        a, b = self.c, o.c
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        p = self.ring.p
        for m, c in b.items():
            v = r.get(m, 0) + c
            if v >= p:
                v -= p
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Poly(self.ring, r)

    __radd__ = __add__

    def __neg__(self):
        p = self.ring.p
        return Poly(self.ring, {m: p - c for m, c in self.c.items()})

    def __sub__(self, o):
        return self + (-self._co(o))

    def __rsub__(self, o):
        return self._co(o) - self

    def __mul__(self, o):
        o = self._co(o)
        return self.ring.nf(Poly(self.ring, mulraw(self.c, o.c, self.ring.p)))

    __rmul__ = __mul__

    def __pow__(self, e):
        r = self.ring.const(1)
        b = self
        while e:
            if e & 1:
                r = r * b
            e >>= 1
            if e:
                b = b * b
        return r

    def coeff(self, slot, e):
        sh = SH * slot
        return Poly(self.ring, {m - (e << sh): c for m, c in self.c.items() if ((m >> sh) & FM) == e})

    def __repr__(self):
        out = []
        for m, c in sorted(self.c.items(), reverse=True)[:12]:
            t = []
            i = 0
            while m:
                e = m & FM
                if e:
                    t.append(self.ring.names[i] + ('^%d' % e if e > 1 else ''))
                m >>= SH
                i += 1
            cc = c if c < 2**40 else (c - self.ring.p if self.ring.p - c < 2**40 else c)
            out.append('%s%s' % ('' if cc == 1 and t else str(cc) + ('*' if t else ''), '*'.join(t)))
        return ' + '.join(out) + (' + ...%d terms' % len(self.c) if len(self.c) > 12 else '') if out else '0'

    def eval(self, vals):
        """vals: slot-> int; generators not allowed"""
        p = self.ring.p
        r = 0
        for m, c in self.c.items():
            i = 0
            while m:
                e = m & FM
                if e:
                    c = c * pow(vals[i], e, p) % p
                m >>= SH
                i += 1
            r += c
        return r % p


class RingDomain(NullDomain):
    def __init__(self, ring):
        self.ring = ring
        self.decisions = []
        self.pos = 0
        self.path = []

    # ---- decisions
    def decide_zero(self, P):
        R = self.ring
        P = R.clear_den(P)
        if not P.c:
            return True
        nz, S = R.known_nonzero(P)
        if nz:
            return False
        if not S.c:
            return True
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
        else:
            d = False
            self.decisions.append(d)
        self.pos += 1
        self.path.append((S, d))
        if d:
            if not self.impose_zero(S):
                self.weak = True
            else:
                R.nonzero = [R.strip(R.nf(f)) for f in R.nonzero]
                if any(not f.c for f in R.nonzero):
                    raise Infeasible(self)
        else:
            R.nonzero.append(S)
        return d

    def impose_zero(self, S):
        """add S = 0 as a rewriting rule if S is linear in an atom with a unit coefficient"""
        R = self.ring
        for s in sorted(S.slots(), reverse=True):
            if s < 3 or s in R.rules or s in R.den:
                continue
            if any(((m >> (SH * s)) & FM) > 1 for m in S.c):
                continue
            co = S.coeff(s, 1)
            rest = S.coeff(s, 0)
            nz, _ = R.known_nonzero(co)
            if not nz:
                continue
            if any(s in d.slots() for d in R.den.values()):
                continue
            R.rule(R.names[s], 1, -rest * R.inverse(co))
            # renormalise rules
            for t in list(R.rules):
                k, rhs = R.rules[t]
                if t != s and s in rhs.slots():
                    R.rules[t] = (k, R.nf(rhs))
            return True
        return False

    # ---- memory views
    def split_abs(self, v, at, n):
        R = self.ring
        cls = v.kind
        if cls not in R.gens:
            return None
        sub, d, g = R.gens[cls]
        sz = PR.tsize(R.mod, sub)
        if at // sz != (at + n - 1) // sz:
            return None
        P = R.nf(v.val)
        gs = R.slot[g]
        for s in P.slots():
            l = R.level[s]
            if l is None:
                continue
            if PR.tsize(R.mod, l) > sz:
                raise Unsupported('component of an opaque %s value' % l)
        a = Abs(sz, sub, P.coeff(gs, at // sz))
        at -= at // sz * sz
        if at == 0 and n == sz:
            return a
        return self.split_abs(a, at, n)

    def get(self, cls, addr):
        R = self.ring
        it = self.it
        size = PR.tsize(R.mod, cls)
        o, off = it.obj(addr, size)
        e = o.cells.get(off)
        if e is not None and e[0] == size and isinstance(e[1], Abs):
            if e[1].kind != cls:
                raise Unsupported('view of %s as %s' % (e[1].kind, cls))
            return e[1].val
        if cls == 'Fp_model':
            v = it.load(addr, size)
            if isinstance(v, Abs):
                return v.val
            if type(v) is int:
                if v >= R.p:
                    raise MemError('non-canonical field constant')
                return R.const(v * pow(1 << (8 * size), -1, R.p))
            if v is UNDEF:
                raise MemError('read of uninitialised field element')
            raise Unsupported('field element from mixed words')
        # larger covering cell?
        ov = it._overlap(o, off, size)
        for k in ov:
            s, v = o.cells[k]
            if k <= off and k + s >= off + size and isinstance(v, Abs):
                x = self.split_abs(v, off - k, size)
                if x is None or x.kind != cls:
                    raise Unsupported('view')
                return x.val
        sub, d, g = R.gens[cls]
        sz = PR.tsize(R.mod, sub)
        acc = Poly(R, {})
        gv = R.var(g)
        gp = R.const(1)
        for i in range(d):
            acc = acc + self.get(sub, addr + i * sz) * gp
            gp = gp * gv
        return acc

    def put(self, cls, addr, P):
        size = PR.tsize(self.ring.mod, cls)
        self.it.store(addr, size, Abs(size, cls, P))

    def symbolic(self, cls, name, atom_level, nonzero=False):
        """symbolic element of cls made of atoms of class atom_level"""
        R = self.ring
        if cls == atom_level:
            return R.atom(name, cls, nonzero)
        sub, d, g = R.gens[cls]
        acc = Poly(R, {})
        for i in range(d):
            acc = acc + self.symbolic(sub, '%s%d' % (name, i), atom_level) * R.var(g)**i
        return acc


CLS = re.compile(r'libff::(Fp\w*_model)<(\d+)l?, libff::(\w+)>')


class FieldContracts:
    """installs contracts for all field classes over ring.mod whose size is at
    most that of `level` (and everything with exactly the class names given)"""

    def __init__(self, it, dom, classes, skip=(), extra=()):
        self.extra = set(extra)
        self.it = it
        self.dom = dom
        self.classes = set(classes)
        self.skip = set(skip)      # demangled names never replaced (the function under test)
        self.used = {}
        it.on(r'^(?:libff::Fp\w+_model<\d+l?, libff::\w+>&? )?libff::(Fp\w*_model)<(\d+)l?, libff::(\w+)>::(operator[^(<]*|[\w~]+)(<[^(]*>)?\((.*)\)( const)?$', self.method)
        it.on(r'^libff::(Fp\w*_model)<(\d+)l?, libff::(\w+)> libff::operator\*<\d+l, libff::\w+>\(libff::(Fp\w*_model)<\d+l?, libff::(\w+)> const&, libff::(Fp\w*_model)<\d+l?, libff::(\w+)> const&\)$', self.scalar_mul)

    def note(self, cls, m):
        k = '%s<%s>::%s' % (cls, self.dom.ring.mod, m)
        self.used[k] = self.used.get(k, 0) + 1

    def scalar_mul(self, it, a, mm):
        rc, n, mod, c1, m1, c2, m2 = mm.groups()
        if mod != self.dom.ring.mod or rc not in self.classes or c1 not in self.classes or mm.group(0) in self.skip:
            return NotImplemented
        self.note(rc, 'operator*(%s)' % c1)
        self.dom.put(rc, a[0], self.dom.get(c1, a[1]) * self.dom.get(c2, a[2]))
        return None

    def method(self, it, a, mm):
        cls, n, mod, meth, targs, sig, const = mm.groups()
        if mod != self.dom.ring.mod:
            if cls == 'Fp_model' or cls in self.classes:
                return NotImplemented
            return NotImplemented
        if mm.group(0) in self.skip:
            return NotImplemented
        if meth == 'mul_by_non_residue' and (cls, meth) in self.extra:
            sub, dg, gn = self.dom.ring.gens[cls]
            self.note(cls, meth)
            self.dom.put(sub, a[0], self.dom.get(sub, a[1]) * self.dom.ring.var(gn)**dg)
            return None
        if cls not in self.classes:
            return NotImplemented
        d = self.dom
        R = d.ring
        g = lambda i: d.get(cls, a[i])
        meth = meth.strip()
        same = sig.startswith('libff::' + cls) or sig == ''
        self.note(cls, meth)
        if meth in ('operator+', 'operator*') and same:
            x, y = g(1), g(2)
            d.put(cls, a[0], x + y if meth == 'operator+' else x * y)
            return None
        if meth == 'operator-':
            if sig == '':
                d.put(cls, a[0], -g(1))
            else:
                d.put(cls, a[0], g(1) - g(2))
            return None
        if meth in ('operator+=', 'operator-=', 'operator*='):
            x, y = g(0), g(1)
            d.put(cls, a[0], x + y if meth == 'operator+=' else (x - y if meth == 'operator-=' else x * y))
            return a[0]
        if meth in ('squared', 'squared_complex', 'squared_karatsuba'):
            x = g(1)
            d.put(cls, a[0], x * x)
            return None
        if meth == 'square':
            x = g(0)
            d.put(cls, a[0], x * x)
            return a[0]
        if meth in ('inverse', 'invert'):
            x = g(1 if meth == 'inverse' else 0)
            if d.decide_zero(x):
                raise PreconditionFailed('%s of a zero %s' % (meth, cls))
            d.put(cls, a[0], R.inverse(x))
            return None if meth == 'inverse' else a[0]
        if meth == 'operator==':
            return int(d.decide_zero(g(0) - g(1)))
        if meth == 'operator!=':
            return int(not d.decide_zero(g(0) - g(1)))
        if meth == 'is_zero':
            return int(d.decide_zero(g(0)))
        if meth == 'zero':
            d.put(cls, a[0], R.const(0))
            return None
        if meth == 'one':
            d.put(cls, a[0], R.const(1))
            return None
        if meth == 'clear':
            d.put(cls, a[0], R.const(0))
            return None
        if meth == 'Fp_model':
            if sig == '':
                d.put(cls, a[0], R.const(0))
                return None
            if sig == 'long, bool':
                v = a[1]
                if type(v) is int and (a[2] & 1) == 0:
                    from core import sgn
                    d.put(cls, a[0], R.const(sgn(v, 64)))
                    return None
            if sig.startswith('libff::bigint'):
                v = it.load(a[1], PR.tsize(R.mod, cls))
                if type(v) is int:
                    d.put(cls, a[0], R.const(v))
                    return None
            raise Unsupported('Fp constructor')
        if meth in ('operator^',) and sig == 'unsigned long' and type(a[2]) is int:
            d.put(cls, a[0], g(1)**a[2])
            return None
        if meth == 'operator=' :
            d.put(cls, a[0], g(1))
            return a[0]
        self.used['%s<%s>::%s' % (cls, self.dom.ring.mod, meth)] -= 1
        return NotImplemented


class PreconditionFailed(Exception):
    pass
