"""Bit-vector domain: machine words as z3 terms; path conditions by
re-execution; every obligation is a z3 validity query under the path condition."""
import re, time
import z3
import core
from core import Abs, UNDEF, MASK, Unsupported, MemError, NullDomain, merge_branch, _MISSING

CTX = None


class SV:
    """symbolic machine word"""
    __slots__ = ('e', 'w', 'pow2')

    def __init__(self, e, w, pow2=False):
        self.e, self.w, self.pow2 = e, w, pow2

    def __repr__(self):
        return str(self.e)[:200]


def term(v, w):
    if isinstance(v, SV):
        if v.w == w:
            return v.e
        raise Unsupported('width %d used as %d' % (v.w, w))
    if type(v) is int:
        return z3.BitVecVal(v, w)
    raise Unsupported('word %r' % (v,))


def mk(e, w, pow2=False):
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    return SV(e, w, pow2)


def mkb(c):
    """boolean term -> i1"""
    c = z3.simplify(c)
    if z3.is_true(c):
        return 1
    if z3.is_false(c):
        return 0
    return SV(z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), 1)


class PathEnd(Exception):
    pass


class SMT(NullDomain):
    def __init__(self, decisions=(), timeout=60000):
        self.decisions = list(decisions)
        self.pos = 0
        self.pc = []
        self.side = []        # (name, condition, path condition length): safety obligations met on the way
        self.events = []
        self.record = False   # keep stores through symbolic pointers as events
        self.timeout = timeout
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout)
        self.queries = 0
        self.secs = 0.0
        self.inmerge = 0
        self.models = []      # models of the path condition met so far

    def var(self, name, w=64):
        return SV(z3.BitVec(name, w), w)

    def assume(self, c):
        self.pc.append(c)
        self.solver.add(c)
        if self.models:
            self.models = [m for m in self.models if z3.is_true(m.eval(c, model_completion=True))]

    def both(self, c):
        """(may be true, may be false) on this path; an unknown answer counts as possible"""
        a = b = False
        for m in self.models:
            v = m.eval(c, model_completion=True)
            a = a or z3.is_true(v)
            b = b or z3.is_false(v)
            if a and b:
                return True, True
        if not a:
            a = self.check(c) != z3.unsat
            if self.model is not None:
                self.models.append(self.model)
        if not b:
            b = self.check(z3.Not(c)) != z3.unsat
            if self.model is not None:
                self.models.append(self.model)
        del self.models[:-24]
        return a, b

    def check(self, *cs):
        t = time.time()
        self.solver.push()
        self.solver.add(*cs)
        r = self.solver.check()
        self.model = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        self.queries += 1
        self.secs += time.time() - t
        return r

    def valid(self, c):
        """(True, None) / (False, model) / (None, None)"""
        c = z3.simplify(c) if z3.is_expr(c) else z3.BoolVal(bool(c))
        if z3.is_true(c):
            return True, None
        r = self.check(z3.Not(c))
        if r == z3.unsat:
            return True, None
        if r == z3.sat:
            return False, self.model
        return None, None

    def choose(self, n):
        if self.pos < len(self.decisions):
            r = self.decisions[self.pos][0]
        else:
            r = 0
            self.decisions.append((0, n))
        self.pos += 1
        return r

    def decide(self, c):
        """boolean term: truth on this path (splits when both are possible)"""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        # the choice is recorded even when forced so that re-execution is deterministic
        if self.pos < len(self.decisions):
            v = self.decisions[self.pos][0]
            self.pos += 1
        else:
            a, b = self.both(c)
            if a and b:
                if self.inmerge:
                    raise Unsupported('case distinction inside a merged branch')
                v = 0
                self.decisions.append((0, 2))
            else:
                v = 0 if a else 1
                self.decisions.append((v, v + 1 if v else 1))
            self.pos += 1
        self.assume(c if v == 0 else z3.Not(c))
        return v == 0

    # ---- operations
    def zext(self, v, w, w2):
        return mk(z3.ZeroExt(w2 - w, v.e), w2, v.pow2)

    def sext(self, v, w, w2):
        return mk(z3.SignExt(w2 - w, v.e), w2)

    def trunc(self, v, w, w2):
        return mk(z3.Extract(w2 - 1, 0, v.e), w2)

    def extract(self, v, tot, lo, n):
        return mk(z3.Extract(lo + n - 1, lo, v.e), n)

    def concat(self, parts):
        es = [term(v, 8 * n) if not (isinstance(v, SV) and v.w == 1) else z3.ZeroExt(8 * n - 1, v.e) for n, v in parts]
        w = sum(8 * n for n, _ in parts)
        return mk(z3.Concat(*reversed(es)) if len(es) > 1 else es[0], w)

    def binop(self, op, w, a, b):
        if op in ('shl', 'lshr', 'ashr') and isinstance(b, SV):
            self.side.append(('shift amount is below the width', z3.ULT(b.e, z3.BitVecVal(w, w)), len(self.pc)))
        if op in ('udiv', 'urem', 'sdiv', 'srem') and isinstance(b, SV):
            self.side.append(('no division by zero', b.e != z3.BitVecVal(0, w), len(self.pc)))
        if type(b) is int and op in ('udiv', 'urem', 'sdiv', 'srem') and b == 0:
            raise MemError('division by zero')
        p2 = op == 'shl' and a == 1 and type(a) is int
        if op == 'urem' and isinstance(b, SV) and b.pow2:
            return mk(term(a, w) & (b.e - 1), w)
        x, y = term(a, w), term(b, w)
        if op == 'mul':
            # (x / y) * y is x - x mod y in machine arithmetic, also where the quotient overflows or y is zero
            for q, v in ((x, y), (y, x)):
                if z3.is_app(q) and q.num_args() == 2 and q.arg(1).eq(v):
                    k = q.decl().kind()
                    if k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I):
                        return mk(q.arg(0) - z3.SRem(q.arg(0), v), w)
                    if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I):
                        return mk(q.arg(0) - z3.URem(q.arg(0), v), w)
        f = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
             'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y, 'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y),
             'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y)}.get(op)
        if f is None:
            raise Unsupported('symbolic %s' % op)
        return mk(f(), w, p2)

    def cmp(self, pred, x, y):
        return {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'ugt': lambda: z3.UGT(x, y),
                'uge': lambda: z3.UGE(x, y), 'slt': lambda: x < y, 'sle': lambda: x <= y, 'sgt': lambda: x > y, 'sge': lambda: x >= y}[pred]()

    def icmp(self, pred, w, a, b):
        if isinstance(a, tuple) or isinstance(b, tuple):
            raise Unsupported('comparison of symbolic pointers')
        if isinstance(a, SV):
            w = a.w
        elif isinstance(b, SV):
            w = b.w
        return mkb(self.cmp(pred, term(a, w), term(b, w)))

    def ite(self, c, x, y, w=64):
        w = x.w if isinstance(x, SV) else y.w if isinstance(y, SV) else w
        return mk(z3.If(c.e == 1, term(x, w), term(y, w)), w)

    def branch(self, it, fr, b, c, tb, fb, stop):
        cond = z3.simplify(c.e == z3.BitVecVal(1, c.w))
        if not (z3.is_true(cond) or z3.is_false(cond)) and simple_region(fr.fn, b, tb, fb):
            replay = self.pos < len(self.decisions)
            if replay and self.decisions[self.pos][0] == 2 or not replay and all(self.both(cond)):
                r = self.merged(it, fr, b, cond, tb, fb)
                if r is not None:
                    return r
        return ('goto', tb if self.decide(cond) else fb)

    def merged(self, it, fr, b, cond, tb, fb):
        """both sides of a short branch without loops and calls as one state"""
        p0 = self.pos
        replay = p0 < len(self.decisions)
        if not replay:
            self.decisions.append((2, 3))
        self.pos += 1
        pc0, side0 = len(self.pc), len(self.side)
        undo0 = it.undo
        state = []

        def enter(pos):
            state.append((cond if pos else z3.Not(cond), len(self.side), self.models))
            self.models = list(self.models)
            self.solver.push()
            self.inmerge += 1
            self.assume(state[-1][0])

        def leave():
            cd, n, self.models = state.pop()
            self.inmerge -= 1
            self.solver.pop()
            for i in range(n, len(self.side)):
                nm, c, k = self.side[i]
                self.side[i] = (nm, z3.Implies(z3.And(*self.pc[pc0:k]), c), pc0)
            del self.pc[pc0:]
        it.undo = []
        try:
            r = merge_branch(self, it, fr, b, tb, fb, enter, leave, lambda x, y, w: self.join_value(cond, x, y, w))
            if undo0 is not None:
                undo0.extend(it.undo)
            it.undo = undo0
            return r
        except Unsupported:
            for o, k, old in reversed(it.undo or ()):
                if old is _MISSING:
                    o.cells.pop(k, None)
                else:
                    o.cells[k] = old
            it.undo = undo0
            if replay:
                raise
            del self.decisions[p0:]
            del self.side[side0:]
            self.pos = p0
            return None

    def summary(self, it, fn, args, limit=80):
        """value of a call of a function without effects as one term: its paths
        are explored apart from the caller's and joined by their conditions"""
        saved = (self.decisions, self.pos, self.models, it.undo, self.inmerge)
        pc0 = len(self.pc)
        outs, stack = [], [[]]
        try:
            self.inmerge = 0
            while stack:
                dec = stack.pop()
                self.decisions, self.pos, self.models = list(dec), 0, list(saved[2])
                side0 = len(self.side)
                known = set(it.objs)
                it.undo = []
                self.solver.push()
                try:
                    r = it.run(fn, args)
                    cond = z3.And(*self.pc[pc0:]) if len(self.pc) > pc0 else z3.BoolVal(True)
                    for i in range(side0, len(self.side)):
                        nm, c, k = self.side[i]
                        self.side[i] = (nm, z3.Implies(z3.And(*self.pc[pc0:k]), c), pc0)
                    if any(o.id in known for o, k, old in it.undo):
                        raise Unsupported('effect')
                finally:
                    self.solver.pop()
                    for o, k, old in reversed(it.undo or ()):
                        if old is _MISSING:
                            o.cells.pop(k, None)
                        else:
                            o.cells[k] = old
                    del self.pc[pc0:]
                full = self.decisions[:self.pos]
                for i in range(len(dec), len(full)):
                    for x in range(full[i][0] + 1, full[i][1]):
                        stack.append(full[:i] + [(x,) + full[i][1:]])
                outs.append((cond, r))
                if len(outs) > limit:
                    raise Unsupported('path limit')
        finally:
            self.decisions, self.pos, self.models, it.undo, self.inmerge = saved
        v = outs[-1][1]
        for c, x in outs[:-1]:
            v = self.join_value(c, x, v, 1)
        return v

    def join_value(self, cond, x, y, w):
        if type(x) is int and type(y) is int and x == y:
            return x
        if all(type(v) is int or isinstance(v, SV) for v in (x, y)):
            w = x.w if isinstance(x, SV) else y.w if isinstance(y, SV) else w
            return mk(z3.If(cond, term(x, w), term(y, w)), w)
        raise Unsupported('merge')

    def concretize(self, v, w, limit=72):
        """a value of v on this path; every other possible value is explored too"""
        for _ in range(limit):
            if self.pos < len(self.decisions):
                c, n, k = self.decisions[self.pos]
            else:
                if self.inmerge:
                    raise Unsupported('case distinction inside a merged branch')
                if self.check() != z3.sat:
                    raise Unsupported('no model')
                k = self.model.eval(v.e, model_completion=True).as_long()
                c = 0
                self.decisions.append((c, 1 if self.check(v.e != k) == z3.unsat else 2, k))
            self.pos += 1
            self.assume(v.e == k if c == 0 else v.e != k)
            if c == 0:
                return k
        raise Unsupported('more than %d values' % limit)

    def number(self, v, w=64):
        return v if type(v) is int else self.concretize(v, w) if isinstance(v, SV) else self.address(v)

    def address(self, a):
        if isinstance(a, tuple) and a[0] == 'sp':
            return a[1] + core.sgn(self.concretize(SV(a[2], 64), 64), 64)
        raise Unsupported('symbolic address')

    def switch(self, v, w, cases):
        for c in cases:
            if self.decide(v.e == c):
                return c
        return None

    def ptr_add(self, a, idx, sc):
        if isinstance(a, tuple):
            base, off = a[1], a[2]
        else:
            base, off = a, z3.BitVecVal(0, 64)
        if type(idx) is int:
            off = off + idx * sc
        elif isinstance(idx, SV):
            e = idx.e if idx.w == 64 else z3.SignExt(64 - idx.w, idx.e)
            off = off + e * sc
        else:
            raise Unsupported('symbolic pointer')
        off = z3.simplify(off)
        if z3.is_bv_value(off):
            k = off.as_long()
            return base + (k - (1 << 64) if k >> 63 else k)
        return ('sp', base, off)

    def store_sym(self, ptr, t, v):
        if not self.record:
            self.it.store_t(self.address(ptr), t, v)
            return
        self.events.append(('store', ptr, t, v, len(self.pc)))

    def load_sym(self, ptr, t):
        h = getattr(self, 'on_load', None)
        if h is None:
            return self.it.load_t(self.address(ptr), t)
        return h(ptr, t)

    def intrinsic(self, name, w, a):
        x = a[0]
        if name == 'ctlz':
            r = z3.BitVecVal(w, w)
            for i in range(w):
                r = z3.If(z3.Extract(i, i, x.e) == 1, z3.BitVecVal(w - 1 - i, w), r)
            return mk(r, w)
        if name == 'cttz':
            r = z3.BitVecVal(w, w)
            for i in reversed(range(w)):
                r = z3.If(z3.Extract(i, i, x.e) == 1, z3.BitVecVal(i, w), r)
            return mk(r, w)
        if name == 'abs':
            return mk(z3.If(x.e < 0, -x.e, x.e), w)
        if name.endswith('.ovf'):
            op = name[:-4]
            p, q = term(a[0], w), term(a[1], w)
            if op == 'uadd':
                return [mk(p + q, w), mkb(z3.ULT(p + q, p))]
            if op == 'usub':
                return [mk(p - q, w), mkb(z3.ULT(p, q))]
        raise Unsupported('intrinsic ' + name)

    # ---- inline assembly
    def less(self, a, b):
        return self.decide(z3.ULT(term(a, 64), term(b, 64)))

    def equal(self, a, b):
        return self.decide(term(a, 64) == term(b, 64))

    def nonzero(self, a):
        return self.decide(term(a, a.w if isinstance(a, SV) else 64) != 0)

    def addc(self, a, b, c):
        z = lambda v: z3.ZeroExt(65 - (v.w if isinstance(v, SV) else 64), term(v, v.w if isinstance(v, SV) else 64))
        r = z(a) + z(b) + z(c)
        return mk(z3.Extract(63, 0, r), 64), mk(z3.Extract(64, 64, r), 1)

    def subb(self, a, b, c):
        z = lambda v: z3.ZeroExt(65 - (v.w if isinstance(v, SV) else 64), term(v, v.w if isinstance(v, SV) else 64))
        r = z(a) - z(b) - z(c)
        return mk(z3.Extract(63, 0, r), 64), mk(z3.Extract(64, 64, r), 1)

    def mulw(self, a, b):
        r = z3.ZeroExt(64, term(a, 64)) * z3.ZeroExt(64, term(b, 64))
        return mk(z3.Extract(63, 0, r), 64), mk(z3.Extract(127, 64, r), 64)

    def sides(self):
        """discharge the safety obligations collected on this path"""
        for nm, c, k in self.side:
            s = z3.Solver()
            s.set('timeout', self.timeout)
            s.add(*self.pc[:k])
            s.add(z3.Not(c))
            r = s.check()
            self.queries += 1
            yield nm, (True if r == z3.unsat else False if r == z3.sat else None), (s.model() if r == z3.sat else None)


def simple_region(fn, b, tb, fb):
    """the blocks between a branch and its join are few, without loops, calls and returns"""
    key = (b, tb, fb)
    cache = fn.module.__dict__.setdefault('_simple', {}) if hasattr(fn.module, '__dict__') else {}
    k = (fn.name,) + key
    if k in cache:
        return cache[k]
    join = fn.ipdom.get(b)
    ok = join is not None and join != '%exit%'
    done, open_ = set(), set()

    def walk(x):
        if x == join or x in done:
            return True
        if x == b or x in open_ or len(done) > 5:
            return False
        open_.add(x)
        for ins in fn.blocks[x]:
            if ins[0] in ('call', 'invoke', 'ret', 'unreachable', 'switch'):
                return False
        if not all(walk(y) for y in fn.succs(x)):
            return False
        open_.discard(x)
        done.add(x)
        return True
    ok = ok and walk(tb) and walk(fb)
    cache[k] = ok
    return ok


def explore(run, limit=3000):
    """run(decisions) -> domain, for every feasible path"""
    stack = [[]]
    n = 0
    while stack:
        dec = stack.pop()
        d = run(list(dec))
        n += 1
        if n > limit:
            raise Unsupported('path limit')
        full = d.decisions[:d.pos]
        for i in range(len(dec), len(full)):
            for x in range(full[i][0] + 1, full[i][1]):
                stack.append(full[:i] + [(x,) + full[i][1:]])
        yield d


def words(d, name, n, w=64):
    return [d.var('%s%d' % (name, i), w) for i in range(n)]


def join(ws, w=64, extra=0):
    """little-endian words -> one term, zero-extended by extra bits"""
    es = [term(x, w) for x in ws]
    e = z3.Concat(*reversed(es)) if len(es) > 1 else es[0]
    return z3.ZeroExt(extra, e) if extra else e


def gmp(it, d):
    def pure(it_, a, mm):
        fn = next((f for f in it_.m.find(re.escape(mm.string) + '$')), None)
        fn = it_.m.functions.get(fn)
        if fn is None:
            return NotImplemented
        side = len(d.side)
        try:
            return d.summary(it_, fn, a)
        except Unsupported:
            del d.side[side:]
            return NotImplemented
    it.on(r'^libff::bigint<\d+l>::(operator(<|==|!=)|is_zero|is_even)\(.*\) const$', pure)

    """contracts of the GMP mpn functions on bit-vectors"""
    def rd(a, n):
        return join([it.load(a + 8 * i, 8) for i in range(n)])

    def wr(a, n, e):
        for i in range(n):
            it.store(a + 8 * i, 8, mk(z3.Extract(64 * i + 63, 64 * i, e), 64))

    def need(n):
        return d.number(n)

    def add_1(it_, a, mm):
        n = need(a[2])
        x = z3.ZeroExt(1, rd(a[1], n))
        v = z3.ZeroExt(64 * n - 63, term(a[3], 64))
        r = x + v if mm.group(1) == 'add' else x - v
        wr(a[0], n, z3.Extract(64 * n - 1, 0, r))
        return mk(z3.ZeroExt(63, z3.Extract(64 * n, 64 * n, r)), 64)
    it.on(r'^__gmpn_(add|sub)_1$', add_1)

    def add_n(it_, a, mm):
        n = need(a[3])
        x, y = z3.ZeroExt(1, rd(a[1], n)), z3.ZeroExt(1, rd(a[2], n))
        r = x + y if mm.group(1) == 'add' else x - y
        wr(a[0], n, z3.Extract(64 * n - 1, 0, r))
        return mk(z3.ZeroExt(63, z3.Extract(64 * n, 64 * n, r)), 64)
    it.on(r'^__gmpn_(add|sub)_n$', add_n)

    def shift(it_, a, mm):
        n, k = need(a[2]), a[3]
        x = rd(a[1], n)
        if type(k) is not int or not 1 <= k <= 63:
            raise Unsupported('shift count of mpn_%sshift' % mm.group(1))
        if mm.group(1) == 'r':
            wr(a[0], n, z3.LShR(x, k))
            return mk(z3.Extract(63, 0, x) << (64 - k), 64)
        wr(a[0], n, x << k)
        return mk(z3.LShR(z3.Extract(64 * n - 1, 64 * n - 64, x), 64 - k), 64)
    it.on(r'^__gmpn_(r|l)shift$', shift)

    def cmp(it_, a, mm):
        n = need(a[2])
        x, y = rd(a[0], n), rd(a[1], n)
        return mk(z3.If(x == y, z3.BitVecVal(0, 32), z3.If(z3.ULT(x, y), z3.BitVecVal(-1, 32), z3.BitVecVal(1, 32))), 32)
    it.on(r'^__gmpn_cmp$', cmp)

    def zero_p(it_, a, mm):
        n = need(a[1])
        return mk(z3.If(rd(a[0], n) == 0, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)), 32)
    it.on(r'^__gmpn_zero_p$', zero_p)

    def copy(it_, a, mm):
        it.copy(a[0], a[1], 8 * need(a[2]))
        return None
    it.on(r'^__gmpn_copy[id]$', copy)

    def zero(it_, a, mm):
        it.fill(a[0], 0, 8 * need(a[1]))
        return None
    it.on(r'^__gmpn_zero$', zero)
