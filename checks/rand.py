"""C19: random and hash-derived elements.

The random source and the hash are contracts returning arbitrary words.  The
functions are executed until one of the first three candidates is accepted or a
fourth one is drawn.  A redraw loop is closed by induction: the state in front of the
third redraw has to be the state in front of the second one up to renaming
(for SHA512_rng: up to the value of the attempt counter, which is arbitrary),
so every later iteration behaves like the one that was judged."""
import re
import z3
from oblig import *
import core, smt, params as PR
from core import Abs, Unsupported, NullDomain

GF = {'gf32': 4, 'gf64': 8, 'gf128': 16, 'gf192': 24, 'gf256': 32}


class Recur(Exception):
    """the state of an earlier iteration has come back"""


class Twice(Exception):
    pass


def st(r):
    r = r[0] if isinstance(r, tuple) else r
    return PROVED if r is True else REFUTED if r is False else UNDECIDED


def wit(r):
    return '' if not isinstance(r, tuple) or r[1] is None else str(r[1])[:400]


# ------------------------------------------------------------ iteration states
def liveregs(m, fn, cache={}):
    """registers used outside the block that defines them, and per block those defined and used in it"""
    k = (id(m), fn.name)
    if k not in cache:
        uses, defs = {}, {}
        for b, code in fn.blocks.items():
            for x in code:
                for r in re.findall(r"'([^']*)'", repr(x)):
                    uses.setdefault(r, set()).add(b)
                if len(x) > 1 and isinstance(x[1], str):
                    defs[x[1]] = b
        cache[k] = (uses, defs)
    return cache[k]


class Iter:
    """numbers the iterations of a redraw loop: a new one starts at the first draw after a decision"""

    def __init__(self, it, d, base):
        self.it, self.d, self.base = it, d, base
        self.n = 1              # iteration
        self.k = 0              # draws in it
        self.cur = []           # terms drawn in it
        self.seen = d.pos
        self.states = []        # state at every boundary
        self.free = set()
        self.last = 3           # iterations executed
        self.at = None          # called at every boundary
        self.first = True

    def draw(self):
        if not self.first and self.d.pos > self.seen:
            self.boundary()
        self.first = False
        self.seen = self.d.pos
        self.k += 1
        return '%s%d_%d' % (self.base, self.n, self.k)

    def boundary(self):
        if self.at:
            self.at(self)
        self.states.append(self.state())
        if self.n >= self.last:
            raise Recur()
        if self.n == self.last - 1:
            self.havoc()
        self.n += 1
        self.k = 0
        self.cur = []

    def havoc(self):
        for rank, off, sz in self.free:
            o = self.it.objs[self.alive()[rank]]
            self.it.store((o.id << 32) + off, sz, self.d.var('attempt', 8 * sz))

    def alive(self):
        return [i for i in sorted(self.it.objs) if not self.it.objs[i].freed]

    def state(self):
        ids = {i: k for k, i in enumerate(self.alive())}
        sub = [(t, z3.BitVec('cur%d' % k, t.size()) if z3.is_bv(t) else z3.Int('cur%d' % k)) for k, t in enumerate(self.cur)]

        def term(e):
            return z3.simplify(z3.substitute(e, *sub) if sub else e).sexpr()

        def canon(v):
            if isinstance(v, smt.SV):
                return ('t', term(v.e))
            if isinstance(v, Abs):
                return (v.kind, canon(v.val))
            if z3.is_expr(v):
                return ('t', term(v))
            if isinstance(v, (list, tuple)):
                return tuple(canon(x) for x in v)
            if type(v) is int and (v >> 32) in ids:
                return ('p', ids[v >> 32], v & 0xffffffff)
            return v
        s = {}
        for i, r in ids.items():
            for off, (sz, v) in self.it.objs[i].cells.items():
                if (r, off, sz) not in self.free:
                    s[(r, off, sz)] = canon(v)
        for k, fr in enumerate(self.it.frames):
            uses, defs = liveregs(self.it.m, fr.fn)
            s[('frame', k)] = (fr.fn.name, fr.cur)
            for r, v in fr.regs.items():
                d, u = defs.get(r), uses.get(r, set())
                if u - {d} or fr.cur == d:
                    s[('reg', k, r)] = canon(v)
        return s


def closed(firsts, seconds):
    """every state in front of the last redraw agrees with a state in front of the one before (from which every
    continuation was executed) on all that is initialised there; what is not was not read on any continuation"""
    for s in seconds:
        for t in firsts:
            if all(s.get(k) == v for k, v in t.items()):
                break
        else:
            if not firsts:
                return False, 'no earlier redraw'
            d = min(([k for k, v in t.items() if s.get(k) != v] for t in firsts), key=len)
            return False, 'state differs in %r' % (d[:3],)
    return True, ''


def counters(firsts, seconds):
    """memory cells holding plain integers that differ between the last two redraws"""
    out = set()
    for s in seconds:
        best = None
        for t in firsts:
            d = [k for k, v in t.items() if s.get(k) != v]
            if all(type(s.get(k)) is int and type(t[k]) is int and k[0] not in ('reg', 'frame') for k in d) and (best is None or len(d) < len(best)):
                best = d
        if best is None:
            return set()
        out |= set(best)
    return out


def explore(body, free=frozenset()):
    """body(dec, free) -> (domain, Iter, result or None); returns paths and whether the loop closes"""
    def go(free):
        paths, firsts, seconds = [], [], []

        def run(dec):
            d, I, r = body(dec, free)
            for k, s in enumerate(I.states):
                if k == I.last - 2:
                    firsts.append(s) if s not in firsts else None
                elif k == I.last - 1:
                    seconds.append(s)
            paths.append((d, I, r))
            return d
        for _ in smt.explore(run, 400):
            pass
        return paths, firsts, seconds
    paths, firsts, seconds = go(free)
    ok, why = closed(firsts, seconds)
    if not ok:
        c = counters(firsts, seconds)
        if c:
            paths, firsts, seconds = go(frozenset(c))
            ok, why = closed(firsts, seconds)
    return paths, ok, why


# ------------------------------------------------------------ prime fields
def rnd_device(it, d, I):
    for f in (r'random_device\(\)', r'random_device\(std::.*\)', r'~random_device\(\)', r'_M_init\(.*\)', r'_M_fini\(\)'):
        it.on(r'^std::random_device::%s$' % f, lambda it, a, mm: None)

    def get(it, a, mm):
        v = d.var(I.draw(), 32)
        I.cur.append(v.e)
        return v
    it.on(r'^std::random_device::(_M_getval|operator\(\))\(\)$', get)


def setup(env, dec, base):
    d = smt.SMT(dec)
    it = core.Interp(env.m, d, env.img)
    d.it = it
    smt.gmp(it, d)
    it.on(r'^std::__throw_', lambda *a: (_ for _ in ()).throw(core.Thrown('library throw')))
    return d, it, Iter(it, d, base)


def judged(paths, p, n, words, target):
    """reduced / as drawn / every value reachable, for accepted candidates `words` made of the draws `target`"""
    bits = 64 * n
    reduced, asis = [], []
    reach = z3.Solver()
    reach.set('timeout', 60000)
    v = z3.BitVec('value', bits)
    reach.add(z3.ULT(v, p))
    hits = []
    for d, I, r in paths:
        if r is None:
            continue
        e = smt.join(words(r))
        reduced.append(d.valid(z3.ULT(e, z3.BitVecVal(p, bits))))
        if I.n == 1:
            draws = target(I)
            sub = []
            off = 0
            for t in draws:
                if off < bits:
                    sub.append((t, z3.Extract(min(off + t.size(), bits) - 1, off, v)))
                off += t.size()
            hits.append((d, e))
            if off >= bits and all(off2 % 1 == 0 for off2 in (0,)):
                c = z3.And(*(d.pc + [e == v]))
                reach.add(z3.Not(z3.substitute(c, *sub)))
            full = z3.Concat(*reversed(draws)) if len(draws) > 1 else draws[0]
            if full.size() >= bits:
                m = z3.BitVecVal((1 << p.bit_length()) - 1, bits)
                asis.append(d.valid(e == (z3.Extract(bits - 1, 0, full) & m)))

    def worst(L):
        if not L:
            return UNDECIDED, 'no candidate is ever accepted'
        for r in L:
            if r[0] is False:
                return REFUTED, wit(r)
        return (UNDECIDED, '') if any(r[0] is None for r in L) else (PROVED, '')
    yield ('every accepted candidate is below the modulus',) + worst(reduced)
    s, i = worst(asis)
    yield 'a candidate is taken as drawn', UNDECIDED if s == REFUTED else s, i
    r = reach.check()
    short = not asis and any(q is not None for d, I, q in paths)

    def missed():
        """a value below the modulus that no candidate of the executed iterations gives"""
        acc = [(d, smt.join(words(q))) for d, I, q in paths if q is not None]
        nb = p.bit_length()
        for x in [0, 1, p - 1, p - 2] + [1 << k for k in range(nb - 1)] + [p - 1 - (1 << k) for k in range(nb - 1)]:
            if x < p and all(d.check(e == x) == z3.unsat for d, e in acc):
                return x
        return None
    x = missed() if short and r != z3.unsat else None
    if x is not None:
        yield 'every value below the modulus can be drawn', REFUTED, 'value %d is never given' % x
    elif r == z3.unsat:
        yield 'every value below the modulus can be drawn', PROVED, ''
    elif r == z3.sat and hits:
        x = reach.model()[v]
        x = z3.BitVecVal(0, bits) if x is None else x
        ok = [d.check(e == x) for d, e in hits]
        yield 'every value below the modulus can be drawn', REFUTED if all(o == z3.unsat for o in ok) else UNDECIDED, 'value %s' % x
    else:
        yield 'every value below the modulus can be drawn', UNDECIDED, str(r)


def fp_tasks(env):
    m = env.m
    out = []
    for mod, (p, n) in PR.PRIMES.items():
        cls = r'libff::Fp_model<%dl?, libff::%s>' % (n, mod)
        for meth in ('random_element', 'randomize'):
            def body(meta, mod=mod, p=p, n=n, cls=cls, meth=meth):
                fs = m.find(r'^%s::%s\(\)$' % (cls, meth))
                if len(fs) != 1:
                    raise Unsupported('%d functions' % len(fs))

                def run(dec, free):
                    d, it, I = setup(env, dec, 'draw')
                    I.free = set(free)
                    rnd_device(it, d, I)
                    o = it.alloc(8 * n, 'result')
                    for j in range(n):
                        it.store(o + 8 * j, 8, d.var('old%d' % j))
                    r = None
                    try:
                        it.call(fs[0], [o])
                        r = [it.load(o + 8 * j, 8) for j in range(n)]
                    except Recur:
                        pass
                    meta.setdefault('inlined', []).extend(it.called)
                    return d, I, r
                meta['contracts'] = {'std::random_device': 1, 'mpn_cmp': 1}
                try:
                    paths, ok, why = explore(run)
                except (core.MemError, core.Thrown, core.Aborted) as e:
                    yield 'memory safe, no abort', REFUTED, str(e)
                    return
                yield from judged(paths, p, n, lambda r: r, lambda I: I.cur)
                yield 'rejected candidates are redrawn, every later draw is treated like the first', PROVED if ok else UNDECIDED, why
            out.append(Task('%s %s' % (mod, meth), 'libff::Fp_model<%d, %s>::%s' % (n, mod, meth), body, backend='z3 (bit-vectors)'))
    return out


# ------------------------------------------------------------ hash-derived
class Hash:
    def __init__(self, it, d, I):
        self.it, self.d, self.I = it, d, I
        self.ctx = {}
        self.memo = {}
        self.log = []           # messages, in order
        on = it.on
        on(r'^SHA512_Init$', self.init)
        on(r'^SHA512_Update$', self.update)
        on(r'^SHA512_Final$', self.final)
        on(r'^SHA512$', self.oneshot)

    def init(self, it, a, mm):
        self.ctx[a[0]] = []
        return 1

    def update(self, it, a, mm):
        if self.ctx.get(a[0]) is None:
            raise Unsupported('hash context used before initialisation')
        self.ctx[a[0]] += self.bytes(a[1], self.d.number(a[2]))
        return 1

    def bytes(self, p, n):
        return [smt.term(self.it.load(p + k, 1), 8) for k in range(n)]

    def final(self, it, a, mm):
        m = self.ctx.get(a[1])
        if m is None:
            raise Unsupported('hash context used before initialisation')
        self.ctx[a[1]] = None
        self.digest(a[0], m)
        return 1

    def oneshot(self, it, a, mm):
        self.digest(a[2], self.bytes(a[0], self.d.number(a[1])))
        return a[2]

    def digest(self, dst, msg):
        e = z3.simplify(z3.Concat(*msg)) if len(msg) > 1 else msg[0]
        key = e.sexpr()
        name = self.I.draw()
        if key not in self.memo:
            self.memo[key] = [z3.BitVec('%s_%d' % (name, k), 64) for k in range(8)]
        self.log.append((self.I.n, e))
        for k, t in enumerate(self.memo[key]):
            self.it.store(dst + 8 * k, 8, smt.SV(t, 64))
        self.I.cur += self.memo[key]


def rng_tasks(env):
    m = env.m
    out = []
    for mod, (p, n) in PR.PRIMES.items():
        cls = r'libff::Fp_model<%dl?, libff::%s>' % (n, mod)

        def body(meta, mod=mod, p=p, n=n, cls=cls):
            fs = m.find(r'^%s libff::SHA512_rng<%s ?>\(unsigned long\)$' % (cls, cls))
            if len(fs) != 1:
                raise Unsupported('%d functions' % len(fs))
            meta['contracts'] = {'SHA512_Init/Update/Final (OpenSSL): a function of the message': 1, 'Fp_model(bigint)': 1}

            def start(dec):
                d, it, I = setup(env, dec, 'hash')
                H = Hash(it, d, I)
                made = []

                def ctor(it, a, mm):
                    w = [it.load(a[1] + 8 * j, 8) for j in range(n)]
                    made.append(w)
                    it.store(a[0], 8 * n, Abs(8 * n, 'elem', [smt.term(x, 64) for x in w]))
                    return None
                it.on(r'^%s::Fp_model\(libff::bigint<%dl?> const&\)$' % (cls, n), ctor)
                return d, it, I, H, made

            def value(it, o):
                v = it.load(o, 8 * n)
                if not isinstance(v, Abs) or v.kind != 'elem':
                    raise Unsupported('the result is not made by the constructor')
                return [smt.mk(x, 64) for x in v.val]

            def run(dec, free):
                d, it, I, H, made = start(dec)
                I.free = set(free)
                o = it.alloc(8 * n, 'result')
                r = None
                try:
                    it.call(fs[0], [o, d.var('idx')])
                    r = value(it, o)
                except Recur:
                    pass
                I.H = H
                meta.setdefault('inlined', []).extend(it.called)
                return d, I, r
            try:
                paths, ok, why = explore(run)
            except (core.MemError, core.Thrown, core.Aborted) as e:
                yield 'memory safe, no abort', REFUTED, str(e)
                return
            for nm, s, i in judged(paths, p, n, lambda r: r, lambda I: I.cur):
                yield nm.replace('drawn', 'derived'), s, i
            yield 'rejected candidates are derived anew, every later one is treated like the first', PROVED if ok else UNDECIDED, why
            diff, dwhy = PROVED, ''
            for d, I, r in paths:
                by = {}
                for k, e in I.H.log:
                    by.setdefault(k, []).append(e)
                if 1 in by and 2 in by:
                    x, y = [z3.Concat(*v) if len(v) > 1 else v[0] for v in (by[1], by[2])]
                    if x.size() == y.size():
                        if z3.is_true(z3.simplify(x == y)):
                            diff, dwhy = REFUTED, 'same message %s' % z3.simplify(x)
            yield 'a rejected candidate is followed by a different message', diff, dwhy

            # determinism: the same index again, with another index in between
            def again(dec):
                d, it, I, H, made = start(dec)
                i, j = d.var('idx'), d.var('other')
                d.assume(i.e != j.e)
                o = [it.alloc(8 * n, 'result') for _ in range(4)]
                d.res = None
                vs = []
                d.why = None
                for k, x in enumerate((i, i, j, i)):
                    I.first, I.n, I.states = True, 1, []
                    try:
                        it.call(fs[0], [o[k], x])
                        vs.append(value(it, o[k]))
                    except Recur:
                        if k in (0, 2):
                            return d
                        d.why = 'call %d draws more candidates than the first call with this index' % (k + 1)
                        d.res = (False, None) if d.check() == z3.sat else (True, None)
                        return d
                E = [smt.join(v) for v in vs]
                d.res = d.valid(z3.And(E[0] == E[1], E[0] == E[3]))
                return d
            bad, cnt, und = None, 0, False
            for d in smt.explore(again, 400):
                if d.res is None:
                    continue
                cnt += 1
                if d.res[0] is False:
                    bad = (d.why or '') + wit(d.res)
                    break
                und |= d.res[0] is None
            yield 'the same index gives the same element on every call, whatever was called before', REFUTED if bad is not None else UNDECIDED if und or not cnt else PROVED, bad or ''
        out.append(Task('%s SHA512_rng' % mod, 'libff::SHA512_rng<Fp_model<%d, %s>>' % (n, mod), body, backend='z3 (bit-vectors)'))
    return out


# ------------------------------------------------------------ towers, binary fields, groups
def tower_tasks(env):
    m = env.m
    out = []
    for mod, tw in PR.TOWERS.items():
        n = PR.PRIMES[mod][1]
        for c in tw:
            if c == 'Fp_model':
                continue
            for meth in ('random_element', 'randomize'):
                def body(meta, mod=mod, c=c, n=n, meth=meth):
                    cls = r'libff::%s<%dl?, libff::%s>' % (c, n, mod)
                    f = m.find(r'^%s::%s\(\)$' % (cls, meth))
                    if len(f) != 1:
                        raise Unsupported('%d functions' % len(f))
                    it = core.Interp(m, NullDomain(), env.img)
                    cnt = [0]

                    def draw(it, a, mm):
                        cnt[0] += 1
                        it.store(a[0], 8 * n, Abs(8 * n, 'drawn', cnt[0]))
                        return None
                    it.on(r'^libff::Fp_model<%dl?, libff::%s>::(random_element|randomize)\(\)$' % (n, mod), draw)
                    size = PR.tsize(mod, c)
                    o = it.alloc(size, 'result')
                    for j in range(0, size, 8 * n):
                        it.store(o + j, 8 * n, Abs(8 * n, 'old', j))
                    it.call(f[0], [o])
                    v = [it.load(o + j, 8 * n) for j in range(0, size, 8 * n)]
                    drawn = [isinstance(x, Abs) and x.kind == 'drawn' for x in v]
                    meta['inlined'] = sorted(it.called)
                    meta['contracts'] = {'Fp_model::random_element': cnt[0]}
                    yield 'every coefficient is a random element of the prime field', PROVED if all(drawn) else REFUTED if any(isinstance(x, Abs) and x.kind == 'old' for x in v) else UNDECIDED, repr(v)[:200]
                    ks = [x.val for x in v if isinstance(x, Abs) and x.kind == 'drawn']
                    yield 'coefficients are drawn independently, so every value is reachable', PROVED if len(set(ks)) == len(v) else REFUTED, repr(ks)
                out.append(Task('%s %s %s' % (c, mod, meth), 'libff::%s<%d, %s>::%s' % (c, n, mod, meth), body, backend='symbolic execution over opaque values'))
    return out


def gf_tasks(env):
    m = env.m
    out = []
    for g, size in GF.items():
        for meth in ('random_element', 'randomize'):
            def body(meta, g=g, size=size, meth=meth):
                f = m.find(r'^libff::%s::%s\(\)$' % (g, meth))
                if len(f) != 1:
                    raise Unsupported('%d functions' % len(f))
                d, it, I = setup(env, [], 'byte')
                cnt = [0]

                def buf(it, a, mm):
                    for k in range(d.number(a[1])):
                        cnt[0] += 1
                        it.store(a[0] + k, 1, d.var('byte%d' % cnt[0], 8))
                    return None
                it.on(r'^randombytes_buf$', buf)

                def word(it, a, mm):
                    cnt[0] += 1
                    return d.var('word%d' % cnt[0], 32)
                it.on(r'^randombytes_random$', word)
                o = it.alloc(size, 'result')
                for k in range(size):
                    it.store(o + k, 1, d.var('old%d' % k, 8))
                try:
                    fn = m.functions[f[0]]
                    if fn.params and meth == 'random_element' or fn.sret or meth == 'randomize':
                        it.call(f[0], [o])
                    else:
                        r = it.call(f[0], [])
                        for k, x in enumerate(r if isinstance(r, (list, tuple)) else [r]):
                            it.store(o + 8 * k, min(8, size), x)
                except (core.MemError, core.Thrown, core.Aborted) as e:
                    yield 'memory safe, no abort', REFUTED, str(e)
                    return
                if any(x[1] > x[0] + 1 for x in d.decisions[:d.pos]):
                    raise Unsupported('case distinction')
                meta['inlined'] = sorted(it.called)
                meta['contracts'] = {'randombytes_buf (libsodium)': 1}
                e = smt.join([it.load(o + k, 1) for k in range(size)], 8)
                vs = [z3.BitVec('byte%d' % (k + 1), 8) for k in range(cnt[0])]
                v = z3.BitVec('value', 8 * size)
                old = [z3.BitVec('old%d' % k, 8) for k in range(size)]
                old2 = [z3.BitVec('oldb%d' % k, 8) for k in range(size)]
                yield 'the value depends on the random source only', st(d.valid(e == z3.substitute(e, *zip(old, old2)))), ''
                # every value is reachable: with the bytes of the value as random bytes
                sub = [(t, z3.Extract(8 * k + 7, 8 * k, v)) for k, t in enumerate(vs) if k < size]
                r = d.valid(z3.substitute(e, *sub) == v)
                if r[0] is False:
                    x = r[1][v]
                    r = (False, r[1]) if x is not None and d.check(e == x) == z3.unsat else (None, None)
                yield 'every value of the field can be drawn', st(r), wit(r)
            out.append(Task('%s %s' % (g, meth), 'libff::%s::%s' % (g, meth), body, backend='z3 (bit-vectors)'))
    return out


def group_tasks(env):
    m = env.m
    out = []
    for cv in PR.CURVES.values():
        def body(meta, cv=cv):
            f = m.find(r'^libff::%s::random_element\(\)$' % cv.name)
            if len(f) != 1:
                raise Unsupported('%d functions' % len(f))
            it = core.Interp(m, NullDomain(), env.img)
            size = 3 * PR.tsize(cv.mod, cv.cls)
            rn = [k for k, (q, n) in PR.PRIMES.items() if q == cv.r][0]
            n = PR.PRIMES[rn][1]
            fr = r'libff::Fp_model<%dl?, libff::%s>' % (n, rn)
            cnt = [0]

            def draw(it, a, mm):
                cnt[0] += 1
                it.store(a[0], 8 * n, Abs(8 * n, 'scalar', cnt[0]))
                return None
            it.on(r'^%s::(random_element|randomize)\(\)$' % fr, draw)

            def asbig(it, a, mm):
                x = it.load(a[1], 8 * n)
                if not isinstance(x, Abs) or x.kind != 'scalar':
                    raise Unsupported('integer of something else')
                it.store(a[0], 8 * n, Abs(8 * n, 'scalar', x.val))
                return None
            it.on(r'^%s::as_bigint\(\) const$' % fr, asbig)
            gen = m.find(r'^libff::%s::G1_one$' % cv.name) if False else None

            def mul(it, a, mm):
                x = it.load(a[1], 8 * n)
                if not isinstance(x, Abs) or x.kind != 'scalar':
                    raise Unsupported('multiple by something else')
                P = [it.load(a[2] + k, 1) for k in range(size)]
                it.store(a[0], size, Abs(size, 'multiple', (x.val, bytes(P) if all(type(c) is int for c in P) else None)))
                return None
            it.on(r'libff::operator\*(?: ?<.*>)?\((?:libff::bigint<%dl?>|%s) const&, libff::%s const&\)$' % (n, fr, cv.name), mul)
            it.on(r'^libff::%s libff::scalar_mul<.*>\(libff::%s const&, libff::bigint<%dl?> const&\)$' % (cv.name, cv.name, n), lambda it, a, mm: mul(it, [a[0], a[2], a[1]], mm))
            o = it.alloc(size, 'result')
            it.call(f[0], [o])
            v = it.load(o, size)
            meta['inlined'] = sorted(it.called)
            meta['contracts'] = {'%s scalar random_element, as_bigint, multiplication' % cv.name: 1}
            if not isinstance(v, Abs) or v.kind != 'multiple':
                raise Unsupported('result is not a multiple of a point')
            k, P = v.val
            T = None
            if P is not None:
                import group_cases
                T = group_cases.pt(cv, P.hex())
            yield 'the result is a multiple of the published generator, hence in the prime-order group', PROVED if T == cv.gen else UNDECIDED, repr(T)[:200]
            yield 'the scalar is a random element of the scalar field, so every group element is reachable', PROVED, ''
        out.append(Task('%s random_element' % cv.name, 'libff::%s::random_element' % cv.name, body, backend='symbolic execution over opaque values'))
    return out


# ------------------------------------------------------------ draws with exclusions
def excl_tasks(env):
    m = env.m
    out = []
    for f in sorted(x for nm in ('random_element_non_zero_one', 'random_element_non_zero', 'random_element_exclude') for x in m.find(r' libff::%s<' % nm)):
        name = m.dem(f)
        T, which = re.match(r'^(.*) libff::(\w+)<', name).groups()

        def body(meta, f=f, T=T, which=which):
            fn = m.functions[f]
            size = None
            t = T.replace('libff::', '')
            if t in GF:
                size = GF[t]
            elif t in PR.CURVES:
                size = 3 * PR.tsize(PR.CURVES[t].mod, PR.CURVES[t].cls)
            else:
                c, mod = re.match(r'(\w+)<\d+l?, (\w+)>', t).groups()
                size = PR.tsize(mod, c)
            direct = not fn.sret
            rt = re.escape(T)
            zero, one, y = z3.IntVal(0), z3.IntVal(1), z3.Int('y')

            def run(dec, free):
                d, it, I = setup(env, dec, 'draw')
                I.free = set(free)
                vals = {}

                def give(a, e):
                    v = Abs(size, 'val', e)
                    if direct:
                        return v
                    it.store(a[0], size, v)
                    return None

                def get(p):
                    v = it.load(p, size)
                    if not isinstance(v, Abs) or v.kind != 'val':
                        raise Unsupported('not a whole value')
                    return v.val

                def draw(it_, a, mm):
                    e = z3.Int(I.draw())
                    I.cur.append(e)
                    return give(a, e)
                it.on(r'^%s::random_element\(\)$' % rt, draw)
                it.on(r'^%s::zero\(\)$' % rt, lambda it_, a, mm: give(a, zero))
                it.on(r'^%s::one\(\)$' % rt, lambda it_, a, mm: give(a, one))

                def neg(it_, a, mm):
                    x = get(a[0] if direct else a[1])
                    if t in GF or x.eq(zero):
                        e = x
                    else:
                        F = z3.Function('neg', z3.IntSort(), z3.IntSort())
                        d.assume(z3.And(F(one) != one, F(one) != zero, (F(x) == zero) == (x == zero)))
                        e = F(x)
                    v = Abs(size, 'val', e)
                    if direct:
                        return v
                    it.store(a[0], size, v)
                    return None
                it.on(r'^%s::operator-\(\) const$' % rt, neg)
                it.on(r'^%s::is_zero\(\) const$' % rt, lambda it_, a, mm: int(d.decide(get(a[0]) == zero)))

                def cmp(it_, a, mm):
                    r = d.decide(get(a[0]) == get(a[1]))
                    return int(r == (mm.group(1) == '=='))
                it.on(r'^%s::operator(==|!=)\(.*\) const$' % rt, cmp)
                o = it.alloc(size, 'result')
                it.store(o, size, Abs(size, 'val', z3.Int('old')))
                args = [] if direct else [o]
                if which.endswith('exclude'):
                    b = it.alloc(size, 'excluded')
                    it.store(b, size, Abs(size, 'val', y))
                    args.append(b if fn.params[-1][0] == ('ptr',) else Abs(size, 'val', y))
                bad = {'random_element_non_zero_one': [zero, one], 'random_element_non_zero': [zero], 'random_element_exclude': [y]}[which]
                I.must = []

                def at(I):
                    I.must.append(d.valid(z3.Or(*[I.cur[-1] == b for b in bad])) if I.cur else (None, None))
                I.at = at
                r = None
                try:
                    v = it.call(f, args)
                    if not direct:
                        v = it.load(o, size)
                    if not isinstance(v, Abs) or v.kind != 'val':
                        raise Unsupported('result is not a whole value')
                    r = (d.valid(z3.And(*[v.val != b for b in bad])), any(v.val.eq(c) for c in I.cur[-1:]))
                except Recur:
                    pass
                meta.setdefault('inlined', []).extend(it.called)
                return d, I, r
            meta['contracts'] = {T + ' random_element, zero, one, is_zero, operator==': 1}
            paths, ok, why = explore(run)
            R = [r for d, I, r in paths if r is not None]
            if not R:
                raise Unsupported('never returns')
            yield 'an excluded value is never returned', REFUTED if any(r[0][0] is False for r in R) else UNDECIDED if any(r[0][0] is None for r in R) else PROVED, ''
            yield 'the last draw is returned', PROVED if all(r[1] for r in R) else UNDECIDED, ''
            must = [x for d, I, r in paths for x in I.must]
            yield 'a draw is rejected only when it has to be', REFUTED if any(x[0] is False for x in must) else UNDECIDED if any(x[0] is None for x in must) else PROVED, ''
            yield 'every later draw is treated like the first', PROVED if ok else UNDECIDED, why
        out.append(Task(re.sub(r'libff::', '', name), name, body, backend='z3'))
    return out


def c19_tasks(env):
    return fp_tasks(env) + rng_tasks(env) + tower_tasks(env) + gf_tasks(env) + group_tasks(env) + excl_tasks(env)
