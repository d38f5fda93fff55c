"""Loops over lists of arbitrary length.

Indices, sizes and pointers are linear forms (LI) over integer symbols; a list of
n elements is a region whose content is a stack of layers (single writes, ranges
written by a loop, the initial content), all of them functions of the index.

A loop whose condition depends on such a form is cut: the first iterations are
executed to *guess* how every cell depends on the iteration number t; the guess
is then proved (holds on entry; one iteration from an arbitrary t re-establishes
it for t+1; the condition decreases by one) and only then used for the exit."""
from math import gcd
from core import Abs, UNDEF, MASK, Poison, Obj, Interp, Unsupported, MemError, Thrown, sgn, _MISSING, merge_branch
from scalar import ScalarDomain, Lin

W = 64


class LI:
    __slots__ = ('t', 'c', 'h')

    def __init__(self, t, c):
        self.t = t          # sorted tuple of (symbol, coefficient)
        self.c = c
        self.h = hash((t, c))

    def __eq__(self, o):
        return isinstance(o, LI) and self.t == o.t and self.c == o.c

    def __hash__(self):
        return self.h

    def __repr__(self):
        r = '+'.join(s if k == 1 else '%d%s' % (k, s) for s, k in self.t).replace('+-', '-')
        return r + ('%+d' % self.c if self.c else '') if r else str(self.c)


def li(x):
    """as a linear form; machine words are read as signed"""
    if isinstance(x, LI):
        return x
    return LI((), sgn(x & MASK[W], W))


def lsum(a, b, k=1):
    a, b = li(a), li(b)
    d = dict(a.t)
    for s, q in b.t:
        d[s] = d.get(s, 0) + k * q
    return LI(tuple(sorted((s, q) for s, q in d.items() if q)), a.c + k * b.c)


def lmul(a, k):
    a = li(a)
    return LI(tuple((s, q * k) for s, q in a.t) if k else (), a.c * k)


def lsub(a, b):
    return lsum(a, b, -1)


def out(a):
    """a linear form as a value of the executor"""
    return a if a.t else a.c & MASK[W]


def subst(a, s, v):
    a = li(a)
    for n, k in a.t:
        if n == s:
            return lsum(LI(tuple(x for x in a.t if x[0] != s), a.c), lmul(v, k))
    return a


class Cond:
    """d >= 1, or its negation"""
    __slots__ = ('d', 'neg', 'eq')

    def __init__(self, d, neg=False, eq=False):
        d = li(d)
        k = 0
        for _, q in d.t:
            k = gcd(k, q)
        if k > 1 and d.c % k == 0:
            d = LI(tuple((s, q // k) for s, q in d.t), d.c // k)
        self.d, self.neg, self.eq = d, neg, eq      # eq: d != 0 instead of d >= 1

    def key(self):
        return (self.d, self.neg, self.eq)


HINTS = set()           # iteration numbers at which a proof failed


class NoProof(Unsupported):
    pass


# ---------------------------------------------------------------- element values
def ps(sym, idx):
    """sum of the first idx entries of the family sym"""
    idx = li(idx)
    if not idx.t and idx.c == 0:
        return Lin({})
    return Lin({(('ps', sym, idx), None): 1})


def unit(sym, idx):
    return ps(sym, lsum(idx, 1)) - ps(sym, idx)


def unit_index(v, sym):
    """idx with v == unit(sym, idx), or None"""
    for (b, t), k in v.c.items():
        if k == 1 and isinstance(b, tuple) and b[:2] == ('ps', sym):
            i = lsum(b[2], -1)
            return i if v == unit(sym, i) else None
    return None


def mapidx(v, f):
    r = Lin({})
    for (b, t), k in v.c.items():
        if isinstance(b, tuple) and b[0] == 'ps':
            r = r + ps(b[1], f(b[2])).scale(k)
        else:
            r = r + Lin({(b, t): k})
    return r


def vsub(v, s, e):
    """substitute a symbol in a cell value"""
    if isinstance(v, LI):
        return out(subst(v, s, e))
    if isinstance(v, Cond):
        return Cond(subst(v.d, s, e), v.neg, v.eq)
    if isinstance(v, Abs) and isinstance(v.val, Lin):
        return Abs(v.size, v.kind, mapidx(v.val, lambda i: subst(i, s, e)))
    return v


def same(x, y):
    if x is y:
        return True
    if isinstance(x, Abs) and isinstance(y, Abs):
        if x.kind == 'half' == y.kind:
            return x.val[1] == y.val[1] and same(x.val[0], y.val[0])
        return x.kind == y.kind and x.val == y.val
    if isinstance(x, (int, LI)) and isinstance(y, (int, LI)):
        d = lsub(x, y)
        return not d.t and d.c % (1 << W) == 0
    if isinstance(x, Cond) and isinstance(y, Cond):
        return x.key() == y.key()
    return False


def agree(x, y, w):
    if same(x, y):
        return x
    raise Unsupported('depends on an unknown number')


def affine(xs):
    """linear forms at t = 2, 3, 4 -> form in 't' or None"""
    xs = [li(x) for x in xs]
    d = lsub(xs[1], xs[0])
    if d.t or lsub(xs[2], xs[1]) != d:
        return None
    if not -(1 << 40) < d.c < 1 << 40:
        return None
    return lsum(xs[0], LI((('t', d.c),) if d.c else (), -2 * d.c))


def guess(v):
    """values of a cell at t = 2, 3, 4 -> value in the symbol 't', or None"""
    if same(v[0], v[1]) and same(v[1], v[2]):
        return v[0]
    if all(isinstance(x, (int, LI)) and not isinstance(x, bool) for x in v):
        a = affine(v)
        return None if a is None else out(a)
    if all(isinstance(x, Cond) for x in v) and len({(x.neg, x.eq) for x in v}) == 1:
        a = affine([x.d for x in v])
        return None if a is None else Cond(a, v[0].neg, v[0].eq)
    if all(isinstance(x, Abs) and isinstance(x.val, Lin) for x in v) and len({x.kind for x in v}) == 1:
        cs = [dict(x.val.c) for x in v]
        common = {k: q for k, q in cs[0].items() if cs[1].get(k) == q and cs[2].get(k) == q}
        r = Lin(dict(common))
        rest = []
        for c in cs:
            g = {}
            for (b, t), q in c.items():
                if common.get((b, t)) == q:
                    continue
                if not (isinstance(b, tuple) and b[0] == 'ps'):
                    return None
                g.setdefault((b[1], q, b[2].t), []).append(b[2])
            rest.append({k: sorted(l, key=lambda i: i.c) for k, l in g.items()})
        if not (rest[0].keys() == rest[1].keys() == rest[2].keys()):
            return None
        for k in rest[0]:
            l = [x[k] for x in rest]
            if not len(l[0]) == len(l[1]) == len(l[2]):
                return None
            for three in zip(*l):
                a = affine(three)
                if a is None:
                    return None
                r = r + ps(k[0], a).scale(k[1])
        return Abs(v[0].size, v[0].kind, r)
    return None


# ---------------------------------------------------------------- memory
class Region(Obj):
    """es-byte elements 0 <= idx < n; cells['L'] = (0, layers), newest first:
    ('pt', idx, {off: (size, value)}) or ('rng', lo, hi, f) with f(idx) -> {off: (size, value)}"""
    __slots__ = ('es', 'n')


class CutInterp(Interp):
    def gep_global(self, name):
        new = name not in self.gaddr
        a = Interp.gep_global(self, name)
        if new and a >> 32 in self.objs:
            self.__dict__.setdefault('ginit', {})[a >> 32] = dict(self.objs[a >> 32].cells)
        return a

    def region(self, es, n, name='list', content=None):
        i = self.nextid
        self.nextid += 1
        o = Region(i, 0, name, None)
        o.es, o.n = es, li(n)
        o.cells['L'] = (0, (('rng', li(0), o.n, content),) if content else ())
        self.objs[i] = o
        return i << 32

    def where(self, addr):
        """-> region, idx, offset; None for ordinary memory"""
        if type(addr) is int:
            o = self.objs.get(addr >> 32)
            if not isinstance(o, Region):
                return None
            d = LI((), addr & 0xffffffff)
        elif isinstance(addr, LI):
            i = (addr.c + (1 << 31)) >> 32
            o = self.objs.get(i)
            if not isinstance(o, Region):
                raise Unsupported('symbolic address outside a list')
            d = lsum(addr, LI((), -(i << 32)))
        else:
            raise Unsupported('symbolic address')
        if o.freed:
            raise MemError('use after free of %s' % o.name)
        if any(k % o.es for _, k in d.t):
            raise Unsupported('address not a multiple of the element size')
        return o, LI(tuple((s, k // o.es) for s, k in d.t), d.c // o.es), d.c % o.es

    def inside(self, o, idx):
        dom = self.dom
        if dom.proves(idx) and dom.proves(lsum(lsub(o.n, idx), -1)):
            return
        if dom.proves(lsub(idx, o.n)) or dom.proves(lsum(lmul(idx, -1), -1)):
            raise MemError('element %r of %s, which has %r' % (idx, o.name, o.n))
        raise Unsupported('element %r of a list of %r: bounds not proved' % (idx, o.n))

    def cell(self, layers, idx, off, size):
        dom = self.dom
        for l in layers:
            if l[0] == 'pt':
                d = lsub(idx, l[1])
                if not d.t:
                    hit = d.c == 0
                else:
                    hit = not dom.decide(Cond(d)) and not dom.decide(Cond(lmul(d, -1)))
                cells = l[2] if hit else None
            else:
                if dom.decide(Cond(lsum(lsub(idx, l[1]), 1))) and dom.decide(Cond(lsub(l[2], idx))):
                    cells = l[3](idx)
                else:
                    cells = None
            if cells is None:
                continue
            e = cells.get(off)
            if e is not None and e[0] == size:
                return e[1]
            if any(k < off + size and off < k + s for k, (s, _) in cells.items()):
                raise Unsupported('part of an element cell')
        return UNDEF

    def spans(self, layers, idx):
        """{off: size} of the cells known at idx (newest layer that covers each)"""
        r = {}
        dom = self.dom
        for l in layers:
            cells = None
            if l[0] == 'pt':
                if lsub(idx, l[1]) == li(0):
                    cells = l[2]
            elif dom.proves(lsub(idx, l[1])) and dom.proves(lsum(lsub(l[2], idx), -1)):
                cells = l[3](idx)
            for k, (s, _) in (cells or {}).items():
                if not any(k < q + z and q < k + s for q, z in r.items()):
                    r[k] = s
        return r

    def load(self, addr, size):
        w = self.where(addr)
        if w is None:
            return Interp.load(self, addr, size)
        o, idx, off = w
        self.inside(o, idx)
        v = self.cell(o.cells['L'][1], idx, off, size)
        if v.__class__ is Poison:
            raise Unsupported(v.why)
        return v

    def store(self, addr, size, val):
        w = self.where(addr)
        if w is None:
            return Interp.store(self, addr, size, val)
        o, idx, off = w
        self.inside(o, idx)
        L = o.cells['L'][1]
        if L and L[0][0] == 'pt' and lsub(L[0][1], idx) == li(0):
            cells = dict(L[0][2])
            for k, (s, _) in list(cells.items()):
                if k < off + size and off < k + s and (k, s) != (off, size):
                    if not (off <= k and k + s <= off + size):
                        raise Unsupported('element cells of different sizes')
                    del cells[k]        # overwritten altogether
            cells[off] = (size, val)
            L = L[1:]
        else:
            cells = {off: (size, val)}
        self._wr(o, 'L', (0, (('pt', idx, cells),) + L))

    def copy(self, dst, src, n):
        if isinstance(n, LI):
            return self.copy_range(dst, src, n)
        if n == 0:
            return
        ws, wd = self.where(src), self.where(dst)
        if ws is None and wd is None:
            return Interp.copy(self, dst, src, n)
        if ws is not None:
            o, idx, off = ws
            self.inside(o, idx)
            sp = [(k - off, s) for k, s in self.spans(o.cells['L'][1], idx).items() if off <= k and k + s <= off + n]
        else:
            o, off = self.obj(src, n)
            sp = [(k - off, s) for k, (s, _) in o.cells.items() if off <= k and k + s <= off + n]
        if sum(s for _, s in sp) != n:
            raise Unsupported('copy of an element that is not made of whole cells')
        for k, s in sorted(sp):
            self.store(lsum_addr(dst, k), s, self.load(lsum_addr(src, k), s))

    def copy_range(self, dst, src, n):
        if self.dom.proves(lmul(n, -1)) and self.dom.proves(n):
            return
        ws, wd = self.where(src), self.where(dst)
        if ws is None or wd is None or ws[2] or wd[2] or ws[0].es != wd[0].es or any(k % ws[0].es for _, k in n.t) or n.c % ws[0].es:
            raise Unsupported('copy of symbolic length')
        so, i, _ = ws
        do, j, _ = wd
        cnt = LI(tuple((s, k // so.es) for s, k in n.t), n.c // so.es)
        p = self.dom.proves
        if not (p(i) and p(j) and p(lsub(so.n, lsum(i, cnt))) and p(lsub(do.n, lsum(j, cnt)))):
            raise Unsupported('copy of symbolic length: bounds')
        layers = so.cells['L'][1]
        sh = lsub(i, j)

        def f(idx):
            k = lsum(idx, sh)
            return {o: (s, self.cell(layers, k, o, s)) for o, s in self.spans(layers, k).items()}
        self._wr(do, 'L', (0, (('rng', j, lsum(j, cnt), f),) + do.cells['L'][1]))


def lsum_addr(a, k):
    return out(lsum(a, k)) if isinstance(a, LI) else a + k


# ---------------------------------------------------------------- domain
class CutDomain(ScalarDomain):
    def __init__(self, decisions=()):
        ScalarDomain.__init__(self)
        self.decisions = list(decisions)
        self.pos = 0
        self.path = []
        self.lfacts = []        # linear forms known to be >= 0
        self.cutting = {}       # (frame, block) -> True while a loop is unrolled / proved
        self.cuts = 0
        self.noforks = 0
        self.local = None       # case distinctions in an arbitrary iteration: (decisions, path)

    # -- linear facts
    def fact(self, d):
        self.lfacts.append(li(d))

    def proves(self, d):
        """d >= 0 follows from the facts (bounded search of nonnegative combinations)"""
        d = li(d)
        if not d.t:
            return d.c >= 0
        todo = [(d, 0)]
        seen = set()
        fs = self.lfacts
        while todo:
            x, n = todo.pop()
            if not x.t:
                if x.c >= 0:
                    return True
                continue
            if n == 4:
                continue
            s, k = x.t[0]
            for f in fs:
                q = dict(f.t).get(s)
                if q and (q > 0) == (k > 0) and k % q == 0:
                    y = lsum(x, lmul(f, -(k // q)))
                    if y not in seen:
                        seen.add(y)
                        todo.append((y, n + 1))
        return False

    def truth(self, c):
        """True, False or None"""
        if c.eq:
            r = True if self.proves(lsum(c.d, -1)) or self.proves(lsum(lmul(c.d, -1), -1)) else False if self.proves(c.d) and self.proves(lmul(c.d, -1)) else None
        else:
            r = True if self.proves(lsum(c.d, -1)) else False if self.proves(lmul(c.d, -1)) else None
        return r if r is None else r != c.neg

    def assume(self, c, val):
        v = val != c.neg
        if c.eq:
            if v:
                if self.proves(c.d):
                    self.fact(lsum(c.d, -1))
                elif self.proves(lmul(c.d, -1)):
                    self.fact(lsum(lmul(c.d, -1), -1))
            else:
                self.fact(c.d)
                self.fact(lmul(c.d, -1))
        else:
            self.fact(lsum(c.d, -1) if v else lmul(c.d, -1))

    def decide(self, c):
        r = self.truth(c)
        if r is not None:
            return r
        if self.noforks:
            if self.local is None:
                raise Unsupported('case distinction inside a loop body')
            dec, path = self.local
            if len(path) == len(dec):
                dec.append(False)
            v = dec[len(path)]
            path.append((c, v))
            self.assume(c, v)
            return v
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
        else:
            d = False
            self.decisions.append(d)
        self.pos += 1
        self.path.append((c, d))
        self.assume(c, d)
        return d

    # -- instructions
    def binop(self, op, w, a, b):
        if isinstance(a, LI) or isinstance(b, LI):
            if isinstance(a, (int, LI)) and isinstance(b, (int, LI)):
                if op in ('add', 'sub'):
                    return out(lsum(a, b, 1 if op == 'add' else -1))
                if op == 'mul':
                    if isinstance(a, LI) != isinstance(b, LI):
                        return out(lmul(a, sgn(b, w)) if isinstance(a, LI) else lmul(b, sgn(a, w)))
                if op == 'shl' and type(b) is int:
                    return out(lmul(a, 1 << b))
                if op in ('sdiv', 'udiv', 'ashr', 'lshr') and type(b) is int:
                    k = sgn(b, w) if op[1:] == 'div' else 1 << b
                    if k > 0 and all(q % k == 0 for _, q in a.t) and (op == 'ashr' or self.proves(a) or op == 'sdiv' and a.c % k == 0):
                        return LI(tuple((s, q // k) for s, q in a.t), a.c // k)       # rounds down
                if op in ('srem', 'urem') and type(b) is int:
                    k = sgn(b, w)
                    if k > 0 and self.proves(a):
                        if all(q % k == 0 for _, q in a.t):
                            return a.c % k
                        return self.fresh(LI((), k - 1))
            raise Unsupported('%s on a symbolic size' % op)
        if isinstance(a, Cond) and type(b) is int and (b & 1) and op == 'xor':
            return Cond(a.d, not a.neg, a.eq)
        if isinstance(a, Cond) and type(b) is int and op == 'and':
            return a if b & 1 else 0
        return ScalarDomain.binop(self, op, w, a, b)

    def icmp(self, pred, w, a, b):
        if isinstance(a, Cond) and type(b) is int and b == 0 and pred in ('eq', 'ne'):
            return a if pred == 'ne' else Cond(a.d, not a.neg, a.eq)
        if isinstance(a, LI) or isinstance(b, LI):
            if not isinstance(a, (int, LI)) or not isinstance(b, (int, LI)):
                raise Unsupported('comparison of a symbolic size')
            ra, rb = self.rid(a), self.rid(b)
            if ra != rb:
                if (ra is None and type(a) is int and a == 0 or rb is None and type(b) is int and b == 0) and pred in ('eq', 'ne'):
                    return int(pred == 'ne')
                if pred[0] == 'u' and ra is None and rb is None:
                    pass
                else:
                    raise Unsupported('comparison of pointers into different objects')
            if pred in ('eq', 'ne'):
                c = Cond(lsub(a, b), pred == 'eq', True)
            else:
                if pred[0] == 'u':
                    for x in (a, b):
                        if not self.proves(li(x)):
                            if type(x) is int and x >> 63:
                                # an unsigned bound beyond every size
                                big = pred[1:] in ('lt', 'le') if x is b else pred[1:] in ('gt', 'ge')
                                if self.proves(li(a if x is b else b)):
                                    return int(big)
                            raise Unsupported('unsigned comparison of a possibly negative value')
                d = lsub(a, b)
                p = pred[1:]
                c = {'gt': Cond(d), 'le': Cond(d, True), 'lt': Cond(lmul(d, -1)), 'ge': Cond(lmul(d, -1), True)}[p]
            if not c.d.t:
                return int(self.truth(c))
            return c
        return ScalarDomain.icmp(self, pred, w, a, b)

    def rid(self, a):
        """identity of the list a pointer points into"""
        if isinstance(a, LI):
            i = (a.c + (1 << 31)) >> 32
        else:
            i = a >> 32
        return i if i and i in self.it.objs else None

    def trunc(self, v, w, w2):
        if isinstance(v, Cond):
            return v
        if isinstance(v, LI):
            raise Unsupported('truncated size')
        return ScalarDomain.trunc(self, v, w, w2)

    def zext(self, v, w, w2):
        if isinstance(v, Cond):
            return v
        if isinstance(v, LI):
            raise Unsupported('extended size')
        return ScalarDomain.zext(self, v, w, w2)

    def sext(self, v, w, w2):
        if isinstance(v, LI):
            raise Unsupported('extended size')
        return ScalarDomain.sext(self, v, w, w2)

    def ite(self, c, a, b, w):
        if isinstance(c, Cond):
            return a if self.decide(c) else b
        return ScalarDomain.ite(self, c, a, b, w)

    def ptr_add(self, a, idx, sc):
        if isinstance(a, (int, LI)) and isinstance(idx, (int, LI)):
            return out(lsum(a, lmul(idx, sc)))
        return ScalarDomain.ptr_add(self, a, idx, sc)

    def load_sym(self, a, t):
        if isinstance(a, LI):
            return self.it.load_t(a, t) if t[0] in ('i', 'ptr') else self.agg(a, t)
        return ScalarDomain.load_sym(self, a, t)

    def agg(self, a, t):
        raise Unsupported('aggregate load from a list')

    def store_sym(self, a, t, v):
        if not isinstance(a, LI) or t[0] not in ('i', 'ptr'):
            raise Unsupported('symbolic store')
        self.it.store_t(a, t, v)

    def fresh(self, top):
        """an integer of which only 0 <= x <= top is known"""
        self.nfresh = getattr(self, 'nfresh', 0) + 1
        x = LI((('?%d' % self.nfresh, 1),), 0)
        self.fact(x)
        self.fact(lsub(top, x))
        return x

    # -- branches and loops
    def branch(self, it, fr, b, c, tb, fb, stop):
        if isinstance(c, Cond) and any(s[0] == '?' for s, _ in c.d.t) and self.truth(c) is None:
            # nothing is known: both sides must have the same effect
            return merge_branch(self, it, fr, b, tb, fb, lambda pos: None, lambda: None, agree, nodecide=True, poison=True)
        if not isinstance(c, Cond):
            return ScalarDomain.branch(self, it, fr, b, c, tb, fb, stop)
        if self.cutting.get((id(fr), b)):
            return ('cut', c)
        rt, rf = reaches(fr.fn, tb, b), reaches(fr.fn, fb, b)
        r = self.truth(c)
        if rt == rf or r == rf and r is not None:
            return ('goto', tb if self.decide(c) else fb)
        return self.cut(it, fr, b, c if rt else Cond(c.d, not c.neg, c.eq), tb if rt else fb, fb if rt else tb, c, rt)

    def cut(self, it, fr, b, c0, body, leave, craw, pos):
        if it.undo is not None:
            raise NoProof('loop inside a merged branch')
        key = (id(fr), b)
        flip = lambda c: c if pos else Cond(c.d, not c.neg, c.eq)

        def g(c):
            """the condition as g >= 1"""
            if c.eq:
                if c.neg:
                    raise NoProof('loop while equal')
                return c.d
            return lsum(lmul(c.d, -1), 1) if c.neg else c.d
        F0 = list(self.lfacts)
        S0 = snap(it, fr)
        self.cutting[key] = True
        self.noforks += 1
        local0, self.local = self.local, None
        try:
            states, conds = [S0], [c0]
            for _ in range(4):
                self.assume(conds[-1], True)
                r = it.blocks(fr, body, b, None)
                if r[0] != 'cut':
                    raise NoProof('loop left from inside')
                conds.append(flip(r[1]))
                states.append(snap(it, fr))
            G = affine([g(c) for c in conds[2:]])
            if G is None or any(c.eq != c0.eq or c.neg != c0.neg for c in conds):
                raise NoProof('condition of the loop')
            gs = dict(G.t).get('t')
            if gs == 1 and c0.eq:
                # ... != with the operands the other way round
                G = lmul(G, -1)
                gs, sign = -1, -1
            else:
                sign = 1
            if gs != -1:
                raise NoProof('step of the loop')
            G0 = subst(G, 't', li(0))
            if not same(out(G0), out(lmul(g(c0), sign))):
                raise NoProof('condition at entry')
            restore(it, fr, S0)
            self.lfacts = list(F0)
            if not self.proves(G0):
                raise NoProof('trip count may be negative')
            T = template(it, states)
            # base
            check_base(T, S0)
            # step from an arbitrary t
            self.cuts += 1
            t = 't%d' % self.cuts
            ts = LI(((t, 1),), 0)
            stack = [[]]
            while stack:
                if len(stack) > 64:
                    raise NoProof('cases of one iteration')
                dec = stack.pop()
                n0 = len(dec)
                self.lfacts = list(F0)
                install(it, fr, S0, T, ts)
                self.fact(ts)
                self.fact(lsum(subst(G, 't', ts), -1))
                self.local = (dec, [])
                try:
                    r = it.blocks(fr, body, b, None)
                    if r[0] != 'cut':
                        raise NoProof('loop left from inside')
                    c1 = flip(r[1])
                    if c1.eq != c0.eq or c1.neg != c0.neg or not same(out(lmul(g(c1), sign)), out(subst(G, 't', lsum(ts, 1)))):
                        raise NoProof('condition after one iteration')
                    check_step(it, fr, S0, T, ts)
                except Unsupported:
                    # the iterations that are special are worth a concrete try
                    for c, _ in self.local[1]:
                        if len(c.d.t) == 1 and c.d.t[0][0] == t:
                            HINTS.add(-c.d.c // c.d.t[0][1])
                    raise
                for i in range(n0, len(dec)):
                    stack.append(dec[:i] + [True])
            self.local = None
            # exit after exactly G0 iterations
            restore(it, fr, S0)
            self.lfacts = list(F0)
            install(it, fr, S0, T, G0)
        finally:
            self.noforks -= 1
            self.local = local0
            del self.cutting[key]
        return ('goto', leave)


def reaches(fn, a, b):
    seen, todo = set(), [a]
    r = False
    while todo:
        x = todo.pop()
        if x == b:
            r = True
            break
        if x in seen:
            continue
        seen.add(x)
        todo += fn.succs(x)
    return r


def snap(it, fr):
    return ({i: (o, dict(o.cells), o.freed) for i, o in it.objs.items()}, dict(fr.regs), list(fr.objs))


def restore(it, fr, S):
    objs, regs, fo = S
    it.objs = {}
    for i, (o, cells, freed) in objs.items():
        o.cells = dict(cells)
        o.freed = freed
        it.objs[i] = o
    # globals touched for the first time since then are created anew when needed
    for n, a in list(it.gaddr.items()):
        if a >> 32 not in it.objs and a not in it.fnaddr:
            del it.gaddr[n]
    fr.regs.clear()
    fr.regs.update(regs)
    fr.objs[:] = fo


def template(it, states):
    """-> {(obj, key): guess(value in 't') or None}, regions {obj: (idx form, {off: (size, guess)})}, regs"""
    S0 = states[0]
    last = states[-1][0]
    for i, (o, cells, freed) in last.items():
        if i not in S0[0] and not freed and o.name not in ('byval',) and not o.name.startswith('%') and o.name == 'heap':
            raise NoProof('memory allocated in every iteration')
    cells, regions = {}, {}
    for i, (o, c0, fr0) in S0[0].items():
        after = [s[0].get(i) for s in states]
        if any(a is None or a[2] != fr0 for a in after):
            raise NoProof('memory released in the loop')
        if isinstance(o, Region):
            L0 = c0['L'][1]
            Ls = [a[1]['L'][1] for a in after]
            if all(L is L0 for L in Ls):
                continue
            pts = []
            for t in range(4):
                pts.append(coalesce(Ls[t + 1], Ls[t]))
            use = pts[1:]
            if len({tuple(sorted((k, s) for k, (s, _) in p[1].items())) for p in use}) != 1:
                raise NoProof('writes of different shape')
            # pts[j] is the write of iteration j: values at t = 1, 2, 3
            idx = affine([p[0] for p in use])
            if idx is None or abs(dict(idx.t).get('t', 0)) != 1:
                raise NoProof('index of a write')
            idx = subst(idx, 't', LI((('t', 1),), 1))       # affine() numbers its samples 2, 3, 4
            vals = {}
            for k, (s, _) in use[0][1].items():
                v = guess([p[1][k][1] for p in use])
                if v is None:
                    raise NoProof('value of a write')
                vals[k] = (s, vsub(v, 't', LI((('t', 1),), 1)))
            regions[i] = (idx, vals)
            continue
        keys = set()
        for a in after[1:]:
            for k in set(a[1]) | set(c0):
                if a[1].get(k) is not c0.get(k):
                    keys.add(k)
        for k in keys:
            vs = [a[1].get(k) for a in after]
            if any(v is None for v in vs[2:]) or len({v[0] for v in vs[2:]}) != 1:
                raise NoProof('cell layout changes in the loop')
            cells[(i, k)] = (vs[2][0], guess([v[1] for v in vs[2:]]))
    regs = set()
    for r in states[1][1]:
        vs = [s[1].get(r, _MISSING) for s in states]
        if any(v is not vs[0] for v in vs):
            regs.add(r)
    return cells, regions, regs


def coalesce(L, base):
    """the layers on top of base -> (idx, cells)"""
    k = len(L) - len(base)
    new = L[:max(k, 0)]
    if k <= 0 or any(x is not y for x, y in zip(L[k:], base)):
        raise NoProof('writes of one iteration')
    idx, cells = None, {}
    for l in reversed(new):
        if l[0] != 'pt' or (idx is not None and lsub(l[1], idx) != li(0)):
            raise NoProof('writes at several places')
        idx = l[1]
        cells.update(l[2])
    return idx, cells


def check_base(T, S0):
    cells = T[0]
    for (i, k), (s, v) in list(cells.items()):
        e = S0[0][i][1].get(k)
        if v is None or e is None or e[0] != s or not same(e[1], vsub(v, 't', li(0))):
            cells[(i, k)] = (s, None)       # not described: unreadable until overwritten


def at(T, S0, ts):
    """the template at iteration ts: {obj: {key: cell}}"""
    r = {}
    for (i, k), (s, v) in T[0].items():
        r.setdefault(i, {})[k] = (s, Poison('value of a loop variable') if v is None else vsub(v, 't', ts))
    for i, (idx, vals) in T[1].items():
        L0 = S0[0][i][1]['L'][1]
        step = dict(idx.t)['t']
        i0 = subst(idx, 't', li(0))
        lo, hi = (i0, lsum(i0, ts)) if step == 1 else (lsum(lsub(i0, ts), 1), lsum(i0, 1))

        def f(x, vals=vals, i0=i0, step=step):
            tt = lsub(x, i0) if step == 1 else lsub(i0, x)
            return {k: (s, vsub(v, 't', tt)) for k, (s, v) in vals.items()}
        r[i] = {'L': (0, (('rng', lo, hi, f),) + L0)}
    return r


def install(it, fr, S0, T, ts):
    restore(it, fr, S0)
    for i, cs in at(T, S0, ts).items():
        o = it.objs[i]
        for k, v in cs.items():
            if k != 'L':
                for q in it._overlap(o, k, v[0]):
                    if q != k or o.cells[q][0] != v[0]:
                        o.cells.pop(q, None)
            o.cells[k] = v
            if k != 'L' and v[0] > o.maxc:
                o.maxc = v[0]
    for r in T[2]:
        fr.regs.pop(r, None)


def check_step(it, fr, S0, T, ts):
    nx = lsum(ts, 1)
    for i, (o, c0, fr0) in S0[0].items():
        if i not in it.objs or it.objs[i].freed != fr0:
            raise NoProof('memory released in the loop')
        if isinstance(o, Region):
            L = o.cells['L'][1]
            if i not in T[1]:
                if L is not c0['L'][1]:
                    raise NoProof('unexpected write to a list')
                continue
            idx, vals = T[1][i]
            # everything below the range layer is untouched
            k = len(L) - len(c0['L'][1])
            if k < 2 or any(x is not y for x, y in zip(L[k:], c0['L'][1])) or L[k - 1][0] != 'rng':
                raise NoProof('writes of an arbitrary iteration')
            p = coalesce(L, L[k - 1:])
            if lsub(p[0], subst(idx, 't', ts)) != li(0) or p[1].keys() != vals.keys():
                raise NoProof('write of an arbitrary iteration')
            for k, (s, v) in vals.items():
                if p[1][k][0] != s or not same(p[1][k][1], vsub(v, 't', ts)):
                    raise NoProof('value written by an arbitrary iteration')
            continue
        for k in set(o.cells) | set(c0):
            if (i, k) in T[0]:
                s, v = T[0][(i, k)]
                if v is None:
                    continue
                e = o.cells.get(k)
                if e is None or e[0] != s or not same(e[1], vsub(v, 't', nx)):
                    raise NoProof('loop variable after an arbitrary iteration')
            elif o.cells.get(k) is not c0.get(k):
                e, f = o.cells.get(k), c0.get(k)
                if e is None or f is None or e[0] != f[0] or not same(e[1], f[1]):
                    raise NoProof('unexpected write in an arbitrary iteration')
    for i, o in it.objs.items():
        if i not in S0[0] and not o.freed and o.name == 'heap':
            raise NoProof('memory allocated in every iteration')
        g = getattr(it, 'ginit', {}).get(i) if i not in S0[0] else None
        if g is not None and g != o.cells:
            raise NoProof('global state written in a loop')


def attach(it):
    """allocation and block copies of symbolic size"""
    def new(it, a, m):
        if isinstance(a[0], LI):
            es = 0
            for _, k in a[0].t:
                es = gcd(es, k)
            es = gcd(es, a[0].c)
            return it.region(es, LI(tuple((s, k // es) for s, k in a[0].t), a[0].c // es), 'heap')
        return it.alloc(a[0], 'heap')

    def cp(it, a, m):
        it.copy(a[0], a[1], a[2])
        return a[0]

    def delete(it, a, m):
        if isinstance(a[0], LI):
            raise MemError('invalid free')
        if a[0] == 0:
            return None
        o = it.objs.get(a[0] >> 32)
        if o is None or o.freed or a[0] & 0xffffffff:
            raise MemError('invalid free')
        o.freed = True
        return None
    it.on(r'^operator new(\[\])?\(unsigned long\)$', new)
    it.on(r'^llvm\.mem(cpy|move)|^mem(cpy|move)$', cp)
    it.on(r'^operator delete(\[\])?\(', delete)
