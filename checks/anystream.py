"""C16: vectors of every length.  The vector operators are executed with a symbolic
length (loops cut by proved invariants, as in anylen.py); the element operators enter
by contract (their own obligations).  What is written is a number, a text, and one
record per element: the element and the text that follows it."""
import re
from oblig import *
import core, stream
from core import Abs, Unsupported, MemError
from scalar import Lin
from cut import *
import cut
from anylen import every, vector, arbitrary, family, thresholds, MAXN
from stream import Bad, OS, IS, st, is_text

WS = ' \n\t\r\v\f'


class Log(stream.Streams):
    """stream contracts over records; all state is in memory cells, so that loops can be cut"""
    NUM, HEAD, WCNT, RCNT, REM, CUR, RST = range(0, 56, 8)

    def __init__(self, it, d, n, size, kind, text, raw):
        self.codes, self.strs = {'': 0}, ['']
        self.d, self.size, self.kind, self.textmode, self.raw = d, size, kind, text, raw
        self.log = it.region(size + 8, lsum(n, 1), 'stream records')
        self.st8 = it.alloc(64, 'stream state')
        for f in range(0, 56, 8):
            it.store(self.st8 + f, 8, 0)
        stream.Streams.__init__(self, it)
        out = []
        for nm in ('ostream', 'istream'):
            vt = it.alloc(64, 'vtable', bytes(64))
            o = it.alloc(512, nm, bytes(512))
            it.store(o, 8, vt + 32)
            out.append(o)
        self.o, self.i = out

    def g(self, f):
        v = self.it.load(self.st8 + f, 8)
        if v.__class__ is core.Poison:
            raise Unsupported('stream state')
        return v

    def s(self, f, v):
        self.it.store(self.st8 + f, 8, v)

    def st(self, p):
        if p >> 32 not in (self.o >> 32, self.i >> 32):
            raise Unsupported('operation on an unknown stream')
        return self

    def code(self, t):
        if t not in self.codes:
            self.codes[t] = len(self.strs)
            self.strs.append(t)
        return self.codes[t]

    def string(self, c):
        if type(c) is not int:
            raise Unsupported('text of the stream')
        return self.strs[c]

    def rec(self, i, off):
        return out(lsum(self.log + off, lmul(li(i), self.size + 8)))

    # ---- writing
    def text(self, t):
        if not t:
            return
        c = self.g(self.WCNT)
        if c == 0 and type(c) is int:
            self.s(self.HEAD, self.code(self.string(self.g(self.HEAD)) + t))
        elif self.d.proves(lsum(li(c), -1)):
            a = self.rec(lsum(c, -1), self.size)
            self.it.store(a, 8, self.code(self.string(self.it.load(a, 8)) + t))
        else:
            raise Unsupported('text at an unknown place')

    def write(self, p, src, n):
        if n != 0:
            raise Unsupported('raw bytes around the elements')
        return p

    def num(self, it, a, mm):
        self.st(a[0])
        if mm.group(1) not in ('unsigned long', 'long', 'unsigned long long', 'long long') or self.g(self.RST):
            raise Unsupported('another number')
        if self.g(self.WCNT) != 0 or self.g(self.HEAD) != 0:
            raise Unsupported('a number after other output')
        self.s(self.NUM, a[1])
        self.s(self.RST, 1)
        return a[0]

    def welem(self, it, a, mm):
        self.st(a[0])
        v = it.load(a[1], self.size)
        if not (isinstance(v, Abs) and v.kind == self.kind):
            raise Unsupported('element written from raw words')
        if self.g(self.RST) != 1:
            raise Unsupported('an element before the length')
        c = self.g(self.WCNT)
        it.store(self.rec(c, 0), self.size, v)
        it.store(self.rec(c, self.size), 8, 0)
        self.s(self.WCNT, out(lsum(c, 1)))
        return a[0]

    # ---- reading
    def rem(self):
        r = self.g(self.REM)
        if type(r) is not int:
            raise Unsupported('position in the text')
        return r

    def nextc(self):
        """the next character if text is next, or None"""
        r = self.rem()
        if not r:
            return None
        t = self.string(self.g(self.CUR))
        return t[len(t) - r]

    def read(self, p, dst, n):
        self.st(p)
        if type(n) is not int:
            raise Unsupported('symbolic length')
        for j in range(n):
            c = self.nextc() if self.g(self.RST) == 2 else None
            if c is None:
                raise Bad('reads raw bytes where a number or an element was written')
            self.it.store(dst + j, 1, ord(c))
            self.s(self.REM, self.rem() - 1)
        return p

    def ws(self):
        while True:
            c = self.nextc()
            if c is None:
                return
            if c not in WS:
                raise Bad('reads a value where text was written')
            self.s(self.REM, self.rem() - 1)

    def rchar(self, it, a, mm):
        raise Unsupported('formatted character input')

    def start(self, t):
        self.s(self.CUR, self.code(t))
        self.s(self.REM, len(t))

    def rnum(self, it, a, mm):
        self.st(a[0])
        if mm.group(1) not in ('unsigned long', 'long', 'unsigned long long', 'long long'):
            raise Unsupported('length read into a narrower integer')
        if self.g(self.RST) != 1:
            raise Bad('reads a number where none was written')
        t = self.string(self.g(self.HEAD))
        if not t or t[0].isdigit():
            raise Bad('the number read is not delimited: what follows may continue it')
        self.s(self.RST, 2)
        self.start(t)
        it.store(a[1], 8, self.g(self.NUM))
        return a[0]

    def relem(self, it, a, mm):
        self.st(a[0])
        if self.g(self.RST) != 2:
            raise Bad('reads an element where a number was written')
        if self.textmode and not self.raw:
            self.ws()
        elif self.rem():
            raise Bad('reads an element where text was written')
        c = self.g(self.RCNT)
        v = it.load(self.rec(c, 0), self.size)
        if not (isinstance(v, Abs) and v.kind == self.kind):
            raise Bad('reads an element past the last one written')
        t = self.string(it.load(self.rec(c, self.size), 8))
        if self.textmode and not (t and t[0] in WS):
            raise Bad('the value read is not delimited: what follows continues it')
        it.store(a[1], self.size, v)
        self.s(self.RCNT, out(lsum(c, 1)))
        self.start(t)
        return a[0]


def run_any(env, t, size, dec, meta, raw=False):
    m = env.m
    d = CutDomain(dec)
    it = CutInterp(m, d, env.img)
    attach(it)
    it.on(r'^std::__throw_', stream_throw)
    n = LI((('n', 1),), 0)
    d.fact(n)
    d.fact(lsum(LI((), MAXN), n, -1))
    kind = 'element'
    L = Log(it, d, n, size, kind, is_text(env), raw)

    def copy(it, a, mm):
        v = it.load(a[1], size)
        it.store(a[0], size, v)
        return a[0]
    short = re.sub(r'<.*', '', t).split('::')[-1]
    it.on(r'^(?:%s& )?%s::(?:operator=|%s(?:<.*>)?)\(%s(?: const&|&&)\)$' % (t, t, short, t), copy)
    it.on(r'operator<<.*\(%s&, %s const&\)$' % (OS, t), L.welem)
    it.on(r'operator>>.*\(%s&, %s&\)$' % (IS, t), L.relem)
    V = stream.vec(t)
    wf, rf = stream.find1(m, r'^vf_w\(%s&, %s const&\)$' % (OS, V)), stream.find1(m, r'^vf_r\(%s&, %s&\)$' % (IS, V))
    con = family('x', kind, size)
    src, arr, end = vector(it, size, n, con, 'vector written')
    # the destination has room and some older elements
    cap = LI((('cap', 1),), 0)
    d.fact(lsub(cap, n))
    d.fact(lsum(cap, -3))
    d.fact(lsum(LI((), MAXN), cap, -1))
    old = it.region(size, cap, 'vector read')
    dst = it.alloc(24, 'vector')
    for j, x in enumerate((old, old + 3 * size, out(lsum(old, lmul(cap, size))))):
        it.store(dst + 8 * j, 8, x)
    res = []

    def add(nm, ok, info=''):
        res.append((nm, bool(ok), info))
    try:
        it.call(wf, [L.o, src])
        w = L.g(L.WCNT)
        add('one record per element is written', same(w, out(n)) or d.proves(lsub(w, n)) and d.proves(lsub(n, w)), repr(w))
        it.call(rf, [L.i, dst])
        r, rem = L.g(L.RCNT), L.rem()
        add('reading consumes exactly what was written', rem == 0 and d.proves(lsub(r, n)) and d.proves(lsub(n, r)), 'read %r records, %r characters left' % (r, rem))
        b, e = it.load(dst, 8), it.load(dst + 8, 8)
        z = lsub(lsub(e, b), lmul(n, size))
        add('the vector read has the length written', d.proves(z) and d.proves(lmul(z, -1)), '%r' % (lsub(e, b),))
        k = arbitrary(d, n)
        if k is not None:
            def at(base):
                return it.load(out(lsum(li(base), lmul(k, size))), size)
            want = con(k)[0][1]
            add('every element is read back', same(at(b), want), repr(at(b)))
            add('the vector written is unchanged', same(at(it.load(src, 8)), want) and same(it.load(src, 8), arr) and same(it.load(src + 8, 8), end), '')
    except Bad as x:
        add('reading consumes exactly what was written', False, str(x))
    finally:
        meta['inlined'] = sorted(set(meta.get('inlined', [])) | set(it.called))
    d.res = res
    return d, res


def stream_throw(it, a, m):
    raise core.Thrown(m.string)


def lengths(env, meta, extra=()):
    """list lengths worth running natively"""
    lens = thresholds(env.m, meta['inlined'], 5000)
    for h in sorted(cut.HINTS)[:3]:
        lens += [x for x in (h, h + 1, h + 2) if 0 < x <= 1 << 17]
    lens += [x for x in extra if type(x) is int]
    return sorted(set(lens))[-16:] + [101, 999, 65537]


def obligations(env, t, size, meta, raw=False):
    """a failure here leaves the obligation open: the path may be infeasible; lengths 0 to 4 are decided
    separately and the others run natively"""
    cut.HINTS.clear()
    try:
        for nm, (ok, wit, info) in every(meta, lambda dec: run_any(env, t, size, dec, meta, raw)).items():
            yield ('vectors of every length: ' + nm, PROVED, info) if ok else ('vectors of every length: ' + nm, UNDECIDED, info, lengths(env, meta, [wit]))
    except (Unsupported, TypeError, KeyError, core.Aborted, core.Thrown, MemError) as e:
        yield 'vectors of every length', UNDECIDED, 'outside the engine: %s' % e, lengths(env, meta)
