"""C16: what the stream operators write is read back as an equal value, and
exactly what was written is consumed.

Streams are sequences of items: raw bytes taken from memory, literal text, and
decimal numbers of symbolic value (whose end is only recognisable if a
non-digit follows).  The standard library's stream members are contracts over
this sequence; the operators of libff are executed."""
import re
from oblig import *
import core, ring, group, scalar, params as PR
from core import Abs, Unsupported, NullDomain, UNDEF

OS = r'(?:std::ostream|std::basic_ostream<char, std::char_traits<char> >)'
IS = r'(?:std::istream|std::basic_istream<char, std::char_traits<char> >)'
SS = r'std::(?:__cxx11::)?(?:basic_)?(?:i|o)?stringstream(?:<char, std::char_traits<char>, std::allocator<char> >)?'


class Bad(Exception):
    """the reader does not match what was written"""


class Stream:
    def __init__(self):
        self.items = []      # ('m', object address, length) | ('t', str) | ('n', value, bits)
        self.at = 0          # item
        self.off = 0         # bytes consumed of that item

    def text(self, s):
        if s:
            self.items.append(('t', s))

    def rest(self):
        return self.at < len(self.items)

    def shape(self):
        out = []
        for i in self.items:
            out.append((i[0], i[1] if i[0] in 'tz' else i[2]))
        return out


class Streams:
    def __init__(self, it):
        self.it = it
        self.of = {}         # object id -> Stream
        on = it.on
        on(r'^%s::write\(char const\*, long\)$' % OS, lambda it, a, mm: self.write(a[0], a[1], a[2]))
        on(r'^%s::put\(char\)$' % OS, lambda it, a, mm: self.char(a[0], a[1]))
        on(r'^%s::flush\(\)$' % OS, lambda it, a, mm: a[0])
        on(r'^%s::operator<<\((int|unsigned int|long|unsigned long|long long|unsigned long long|short|unsigned short|bool)\)$' % OS, self.num)
        on(r'^(?:%s& )?std::operator<< ?<std::char_traits<char> >\(%s&, (char const\*|(?:signed |unsigned )?char)\)$' % (OS, OS), self.cstr)
        on(r'^%s::read\(char\*, long\)$' % IS, lambda it, a, mm: self.read(a[0], a[1], a[2]))
        on(r'^%s::get\(char&\)$' % IS, lambda it, a, mm: self.read(a[0], a[1], 1))
        on(r'^%s::get\(\)$' % IS, self.get)
        on(r'^%s::ignore\(long(?:, int)?\)$' % IS, self.ignore)
        on(r'^%s::operator>>\((int|unsigned int|long|unsigned long|long long|unsigned long long|short|unsigned short|bool)&\)$' % IS, self.rnum)
        on(r'^(?:%s& )?std::operator>> ?<(?:char, )?std::char_traits<char> >\(%s&, ((?:signed |unsigned )?char)&\)$' % (IS, IS), self.rchar)
        on(r'^%s::(?:basic_stringstream\(\)|~basic_stringstream\(\))$' % SS, self.ss)
        on(r'^std::(?:basic_)?ios(?:<char, std::char_traits<char> >)?::(good|fail|eof|bad|operator bool|operator!)\(\) const$', self.state)

    def state(self, it, a, mm):
        return int(mm.group(1) in ('good', 'operator bool'))

    def ss(self, it, a, mm):
        if '~' not in mm.string:
            self.of[a[0] >> 32] = Stream()
        return None

    def st(self, p):
        s = self.of.get(p >> 32)
        if s is None:
            raise Unsupported('operation on an unknown stream')
        return s

    def write(self, p, src, n):
        s = self.st(p)
        if type(n) is not int:
            raise Unsupported('symbolic length')
        if n:
            o = self.it.alloc(n, 'stream bytes')
            self.it.copy(o, src, n)
            s.items.append(('m', o, n))
        return p

    def char(self, p, c):
        if type(c) is not int:
            raise Unsupported('symbolic character')
        self.st(p).text(chr(c & 255))
        return p

    def cstr(self, it, a, mm):
        if mm.group(1).endswith('char'):
            return self.char(a[0], a[1])
        t, p = '', a[1]
        while True:
            c = it.load(p, 1)
            if c == 0:
                break
            t += chr(c)
            p += 1
        self.st(a[0]).text(t)
        return a[0]

    def num(self, it, a, mm):
        v, t = a[1], mm.group(1)
        bits = {'int': 32, 'unsigned int': 32, 'bool': 1, 'short': 16, 'unsigned short': 16}.get(t, 64)
        if type(v) is int:
            v &= (1 << bits) - 1
            if 'unsigned' not in t and t != 'bool':
                v = core.sgn(v, bits)
            self.st(a[0]).text(str(v))
        else:
            self.st(a[0]).items.append(('n', v, bits))
        return a[0]

    # ---- reading
    def peek(self, s):
        """next item kind and content: text character, or the item"""
        if not s.rest():
            return None, None
        i = s.items[s.at]
        if i[0] == 't':
            return 't', i[1][s.off]
        return i[0], i

    def step(self, s):
        i = s.items[s.at]
        s.off += 1
        if s.off >= (len(i[1]) if i[0] == 't' else i[2]):
            s.at, s.off = s.at + 1, 0

    def read(self, p, dst, n):
        s = self.st(p)
        if type(n) is not int:
            raise Unsupported('symbolic length')
        while n:
            k, x = self.peek(s)
            if k is None:
                raise Bad('reads past the end of what was written')
            if k == 't':
                self.it.store(dst, 1, ord(x))
                self.step(s)
                dst += 1
                n -= 1
            elif k == 'm':
                c = min(n, x[2] - s.off)
                self.it.copy(dst, x[1] + s.off, c)
                s.off += c
                dst += c
                n -= c
                if s.off == x[2]:
                    s.at, s.off = s.at + 1, 0
            else:
                raise Bad('reads raw bytes where a decimal number was written')
        return p

    # ---- decimal tokens of whole values (text encoding)
    def token(self, p, v):
        self.st(p).items.append(('z', v, 1))
        return p

    def rtoken(self, p, kind='z', skip=True):
        s = self.st(p)
        k, x = self.skip(s) if skip else self.peek(s)
        if k is None:
            raise Bad('reads a value past the end of what was written')
        if k != kind or s.off:
            raise Bad('reads a value where something else was written')
        s.at += 1
        k, y = self.peek(s)
        if k is not None and not (k == 't' and y in ' \n\t\r\v\f'):
            raise Bad('the value read is not delimited: what follows continues it')
        return x[1]

    def get(self, it, a, mm):
        t = it.alloc(1, 'character')
        self.read(a[0], t, 1)
        return it.load(t, 1)

    def ignore(self, it, a, mm):
        t = it.alloc(max(1, a[1]), 'ignored')
        self.read(a[0], t, a[1])
        return a[0]

    def skip(self, s):
        while True:
            k, x = self.peek(s)
            if k == 't' and x in ' \n\t\r\v\f':
                self.step(s)
            elif k == 'm' or k == 'p':
                raise Bad('formatted input at raw bytes, which may look like white space')
            else:
                return k, x

    def rchar(self, it, a, mm):
        s = self.st(a[0])
        k, x = self.skip(s)
        if k != 't':
            raise Bad('reads a character where %s was written' % ('a number' if k else 'nothing'))
        self.step(s)
        it.store(a[1], 1, ord(x))
        return a[0]

    def rnum(self, it, a, mm):
        s = self.st(a[0])
        t = mm.group(1)
        bits = {'int': 32, 'unsigned int': 32, 'bool': 8, 'short': 16, 'unsigned short': 16}.get(t, 64)
        k, x = self.skip(s)
        if k is None:
            raise Bad('reads a number past the end of what was written')
        if k == 'n':
            if x[2] > bits:
                raise Bad('a number of %d bits is read as one of %d bits' % (x[2], bits))
            s.at, s.off = s.at + 1, 0
            v = x[1]
            if x[2] < bits and type(v) is not int:
                if not isinstance(v, (scalar.BV, scalar.B)):
                    raise Unsupported('widened number')
                v = scalar.mk((scalar.bits_of(v, x[2]) + [0] * bits)[:bits])
        else:
            d = ''
            while k == 't' and (x.isdigit() or not d and x in '+-'):
                d += x
                self.step(s)
                k, x = self.peek(s)
            if not d or d in '+-':
                raise Bad('reads a number where other text was written')
            v = int(d) & ((1 << bits) - 1)
        k, x = self.peek(s)
        if k in ('n', 'm', 'z', 'p') or k == 't' and x.isdigit():
            raise Bad('the number read is not delimited: what follows may continue it')
        it.store(a[1], bits // 8, v)
        return a[0]


def open_pair(it, S):
    """an output and an input stream object over the same sequence"""
    s = Stream()
    out = []
    for n in ('ostream', 'istream'):
        vt = it.alloc(64, 'vtable', bytes(64))
        o = it.alloc(512, n, bytes(512))
        it.store(o, 8, vt + 32)
        S.of[o >> 32] = s
        out.append(o)
    return s, out[0], out[1]


TAIL = '7 4\n'            # other output that follows
# canonical storage words of the serialisable values: (size, word)
GF = {'gf32': (4, 4), 'gf64': (8, 8), 'gf128': (16, 8), 'gf192': (24, 8), 'gf256': (32, 8)}
BIG = (1, 2, 3, 4, 5, 6)


def st(b):
    return PROVED if b else REFUTED


def eqv(x, y):
    if isinstance(x, Abs) and isinstance(y, Abs):
        return (x.kind, x.val) == (y.kind, y.val)
    return type(x) is type(y) and x == y


def types():
    """(name, C++ type regex as it stands in a parameter list, size, word)"""
    out = [('bigint<%d>' % n, r'libff::bigint<%dl?>' % n, 8 * n, 8) for n in BIG]
    for mod, (q, n) in PR.PRIMES.items():
        out.append(('Fp %s' % mod, r'libff::Fp_model<%dl?, libff::%s>' % (n, mod), 8 * n, 8))
    for mod, tw in PR.TOWERS.items():
        n = PR.PRIMES[mod][1]
        for c in tw:
            if c != 'Fp_model':
                out.append(('%s %s' % (c, mod), r'libff::%s<%dl?, libff::%s>' % (c, n, mod), PR.tsize(mod, c), 8))
    for g, (sz, w) in GF.items():
        out.append((g, 'libff::' + g, sz, w))
    return out


def vec(t):
    return r'std::vector<%s, std::allocator<%s ?> ?>' % (t, t)


# ---------------------------------------------------------------- encodings
# (name, definitions removed from and added to those of the build)
ENCODINGS = [
    ('text', ('-DBINARY_OUTPUT',), ()),
    ('text, plain integers, uncompressed', ('-DBINARY_OUTPUT', '-DMONTGOMERY_OUTPUT'), ('-DNO_PT_COMPRESSION',)),
    ('binary, plain integers', ('-DMONTGOMERY_OUTPUT',), ()),
    ('binary, uncompressed', (), ('-DNO_PT_COMPRESSION',)),
]


class Variant:
    """the environment of a check with the sources compiled for another encoding"""

    def __init__(self, env, enc):
        import build
        self.base, self.enc = env, enc
        self.m = build.ir_module(env.srcs, [x for x in build.DEFS if x not in enc[1]] + list(enc[2]))
        self.m.demangle_all()

    @property
    def img(self):
        return self.base.img

    def __getattr__(self, k):
        return getattr(self.base, k)


def enc_of(env):
    return getattr(env, 'enc', None) if isinstance(env, Variant) else None


def is_text(env):
    e = enc_of(env)
    return bool(e) and '-DBINARY_OUTPUT' in e[1]


def encoding(env, it, S):
    """contracts of integers in text and of the plain-integer representation"""
    e = enc_of(env)
    if not e:
        return
    if is_text(env):
        def wbig(it_, a, mm):
            return S.token(a[0], [it.load(a[1] + 8 * j, 8) for j in range(int(mm.group(1)))])

        def rbig(it_, a, mm):
            v = S.rtoken(a[0])
            if len(v) != int(mm.group(1)):
                raise Bad('an integer of %d limbs is read as one of %s' % (len(v), mm.group(1)))
            for j, x in enumerate(v):
                it.store(a[1] + 8 * j, 8, x)
            return a[0]
        it.on(r'^(?:%s& )?libff::operator<< ?<(\d+)l?>\(%s&, libff::bigint<\d+l?> const&\)$' % (OS, OS), wbig)
        it.on(r'^(?:%s& )?libff::operator>> ?<(\d+)l?>\(%s&, libff::bigint<\d+l?>&\)$' % (IS, IS), rbig)
    if '-DMONTGOMERY_OUTPUT' in e[1]:
        memo = {}
        for mod, (q, n) in PR.PRIMES.items():
            R2 = pow(1 << 64 * n, 2, q)

            def asbig(it_, a, mm, n=n, mod=mod):
                w = [it.load(a[1] + 8 * j, 8) for j in range(n)]
                if not all(isinstance(x, Abs) for x in w):
                    raise Unsupported('integer value of these words')
                key = (mod,) + tuple((x.kind, x.val) for x in w)
                memo[key] = w
                for j in range(n):
                    it.store(a[0] + 8 * j, 8, Abs(8, 'plain', (key, j)))
                return None

            def mulred(it_, a, mm, n=n, mod=mod, R2=R2):
                w = [it.load(a[0] + 8 * j, 8) for j in range(n)]
                o = [it.load(a[1] + 8 * j, 8) for j in range(n)]
                if not all(type(x) is int for x in o) or sum(x << 64 * j for j, x in enumerate(o)) != R2:
                    raise Unsupported('Montgomery product other than with R^2')
                if not all(isinstance(x, Abs) and x.kind == 'plain' and x.val == (w[0].val[0], j) for j, x in enumerate(w)) or w[0].val[0][0] != mod:
                    # some other element comes out
                    for j in range(n):
                        it.store(a[0] + 8 * j, 8, Abs(8, 'product', (mod, tuple(repr(x) if type(x) is int else (x.kind, x.val) for x in w), j)))
                    return None
                for j, x in enumerate(memo[w[0].val[0]]):
                    it.store(a[0] + 8 * j, 8, x)
                return None
            t = r'^libff::Fp_model<%dl?, libff::%s>::' % (n, mod)
            it.on(t + r'as_bigint\(\) const$', asbig)
            it.on(t + r'mul_reduce\(libff::bigint<%dl?> const&\)$' % n, mulred)


class Setup:
    def __init__(self, env, meta):
        self.it = core.Interp(env.m, NullDomain(), env.img)
        self.S = Streams(self.it)
        self.s, self.o, self.i = open_pair(self.it, self.S)
        self.meta = meta
        self.m = env.m
        self.env = env
        encoding(env, self.it, self.S)

    def done(self):
        self.meta['inlined'] = sorted(self.it.called)
        self.meta['contracts'] = {'standard stream members': 1}
        if enc_of(self.env):
            self.meta['contracts'].update({'bigint operator<< and operator>> (own obligations)': 1, 'Fp_model as_bigint, mul_reduce (C01)': 1})

    def opaque(self, size, word, tag):
        a = self.it.alloc(size, str(tag))
        self.fill(a, size, word, tag)
        return a

    def fill(self, a, size, word, tag):
        for j in range(0, size, word):
            self.it.store(a + j, word, Abs(word, 'w', (tag, j)))

    def holds(self, a, size, word, tag):
        return all(eqv(self.it.load(a + j, word), Abs(word, 'w', (tag, j))) for j in range(0, size, word))

    def newline(self):
        self.it.call(self.m.find(r'^vf_nl\(')[0], [self.o])

    def rnewline(self):
        self.it.call(self.m.find(r'^vf_rnl\(')[0], [self.i])

    def pos(self):
        return (self.s.at, self.s.off)

    def end(self):
        return (len(self.s.items), 0)

    def vector(self, n, size, word, tag):
        a = self.it.alloc(max(1, n * size), 'elements')
        for k in range(n):
            self.fill(a + k * size, size, word, (tag, k))
        return self.header(a, n * size)

    def header(self, a, n):
        v = self.it.alloc(24, 'vector')
        self.it.store(v, 8, a)
        self.it.store(v + 8, 8, a + n)
        self.it.store(v + 16, 8, a + n)
        return v

    def contents(self, v):
        b, e = self.it.load(v, 8), self.it.load(v + 8, 8)
        return b, e - b


def guarded(X, gen):
    """a mismatch between reader and writer refutes the obligation being worked on"""
    try:
        yield from gen()
    except Bad as e:
        yield 'reading consumes exactly what was written', REFUTED, str(e)
    except core.MemError as e:
        yield 'the value read is fully determined by what was written', REFUTED, str(e)
    except (core.Thrown, core.Aborted) as e:
        yield 'no exception or abort', REFUTED, str(e)


def find1(m, rx):
    f = m.find(rx)
    if len(f) != 1:
        raise Unsupported('%d functions match %s' % (len(f), rx))
    return f[0]


def value_tasks(env):
    m = env.m
    out = []
    for name, t, size, word in types():
        if is_text(env) and name.startswith('bigint'):
            out.append(vec_task(env, name, t, size, word, range(0, 5)))
            continue

        def body(meta, t=t, size=size, word=word):
            X = Setup(env, meta)
            wf, rf = find1(m, r'^vf_w\(%s&, %s const&\)$' % (OS, t)), find1(m, r'^vf_r\(%s&, %s&\)$' % (IS, t))

            def go():
                src = [X.opaque(size, word, k) for k in range(2)]
                dst = [X.opaque(size, word, 'old%d' % k) for k in range(2)]
                ends = []
                for a in src:
                    X.it.call(wf, [X.o, a])
                    ends.append(X.end())
                    X.newline()
                X.s.text(TAIL)
                tail = len(X.s.items) - 1
                for k in range(2):
                    X.it.call(rf, [X.i, dst[k]])
                    yield 'value %d of two in one stream: reading consumes exactly what was written' % (k + 1), st(X.pos() == ends[k]), 'position %r, written up to %r, %r' % (X.pos(), ends[k], X.s.shape())
                    yield 'value %d of two in one stream: every word is read back' % (k + 1), st(X.holds(dst[k], size, word, k)), ''
                    X.rnewline()
                yield 'what follows is untouched', st(X.pos() == (tail, 0)), repr(X.pos())
                yield 'the values written are unchanged', st(all(X.holds(src[k], size, word, k) for k in range(2))), ''
            yield from guarded(X, go)
            X.done()
        out.append(Task(name + ' operator<< and operator>>', 'libff::operator<< / operator>> ' + name, body, backend='symbolic execution over opaque words'))

        def rbody(meta, t=t, size=size, word=word):
            X = Setup(env, meta)
            f = find1(m, r'^vf_reser\(%s const&\)$' % t)

            def go():
                a, o = X.opaque(size, word, 0), X.it.alloc(max(size, 16), 'result')
                if size <= 16 and name not in () and ret_direct(m, f):
                    r = X.it.call(f, [a])
                    store_ret(X.it, o, r)
                else:
                    X.it.call(f, [o, a])
                yield 'reserialize returns the same value', st(X.holds(o, size, word, 0)), ''
            yield from guarded(X, go)
            X.done()
        out.append(Task(name + ' reserialize', 'libff::reserialize<%s>' % name, rbody, backend='symbolic execution over opaque words'))
        out.append(vec_task(env, name, t, size, word, range(0, 5)))
    return out


def ret_direct(m, f):
    return not m.functions[f].sret


def store_ret(it, o, r):
    if isinstance(r, list):
        p = o
        for x in r:
            it.store(p, 8, x)
            p += 8
    else:
        it.store(o, r.size if isinstance(r, Abs) else 8, r)


def vec_task(env, name, t, size, word, lens, prepare=None):
    m = env.m

    def body(meta):
        agg = {}
        for n in lens:
            X = Setup(env, meta)
            if prepare:
                prepare(X)
            wf, rf = find1(m, r'^vf_w\(%s&, %s const&\)$' % (OS, vec(t))), find1(m, r'^vf_r\(%s&, %s&\)$' % (IS, vec(t)))

            def go():
                v, u = X.vector(n, size, word, 'a'), X.vector(2, size, word, 'b')
                d, e = X.vector(3, size, word, 'old'), X.header(0, 0)
                X.it.call(wf, [X.o, v])
                e1 = X.end()
                X.newline()
                X.it.call(wf, [X.o, u])
                e2 = X.end()
                X.s.text('\n' + TAIL)
                for k, (tgt, tag, ln, en) in enumerate(((d, 'a', n, e1), (e, 'b', 2, e2))):
                    X.it.call(rf, [X.i, tgt])
                    yield 'reading consumes exactly what was written', st(X.pos() == en), 'length %d: position %r, written up to %r' % (ln, X.pos(), en)
                    b, sz = X.contents(tgt)
                    yield 'the vector read has the length written', st(sz == ln * size), 'length %d: %r' % (ln, sz)
                    yield 'every element is read back', st(sz == ln * size and all(X.holds(b + i * size, size, word, (tag, i)) for i in range(ln))), 'length %d' % ln
                    if k == 0:
                        X.rnewline()
                b, sz = X.contents(v)
                yield 'the vector written is unchanged', st(sz == n * size and all(X.holds(b + i * size, size, word, ('a', i)) for i in range(n))), ''
            for nm, s, i in guarded(X, go):
                if nm not in agg or (agg[nm][0] == PROVED and s != PROVED):
                    agg[nm] = (s, i)
            X.done()
        for nm, (s, i) in agg.items():
            yield 'lengths %d to %d, twice in one stream: %s' % (min(lens), max(lens), nm), s, i
        import anystream
        yield from anystream.obligations(env, t, size, meta, prepare is not None)
    return Task('vector of %s' % name, 'libff::operator<< / operator>> std::vector<%s>' % name, body, backend='symbolic execution over opaque words', weight=2)


def bool_tasks(env):
    m = env.m

    def body(meta):
        for b in (0, 1):
            X = Setup(env, meta)

            def go():
                X.it.call(find1(m, r'^vf_wb\('), [X.o, b])
                e = X.end()
                X.s.text(TAIL)
                t = X.it.alloc(1, 'bool')
                X.it.store(t, 1, 1 - b)
                X.it.call(find1(m, r'^vf_rb\('), [X.i, t])
                yield 'output_bool and input_bool, %d: reading consumes exactly what was written' % b, st(X.pos() == e), ''
                yield 'output_bool and input_bool, %d: same value' % b, st(X.it.load(t, 1) == b), ''
            yield from guarded(X, go)
            X.done()
    return [Task('bool', 'libff::output_bool / input_bool', body, backend='symbolic execution')]


def bitvec_tasks(env, pairs):
    """vectors of bits: (name, writer, reader, exact) - exact: the trailing separator is consumed too"""
    import utilfn
    m = env.m
    out = []
    for nm, wr, rd, exact in pairs:
        def body(meta, wr=wr, rd=rd, exact=exact):
            agg = {}
            tot = 0
            meta['inlined'] = set()
            wf, rf = find1(m, wr), find1(m, rd)
            for n in (0, 1, 2, 5, 63, 64, 65, 130):
                for old in (0, 3, 66, 150):
                    d = scalar.ScalarDomain()
                    it = core.Interp(m, d, env.img)
                    it.on(r'^std::__throw_', utilfn.thrown)
                    utilfn.fresh(it)
                    S = Streams(it)
                    s, o, i = open_pair(it, S)
                    bits = {t: [scalar.B([((t, k), 0)]) for k in range(c)] for t, c in (('a', n), ('b', 2), ('old', old))}
                    rec = []
                    try:
                        v, u = utilfn.store_boolvec(it, bits['a'], 'a'), utilfn.store_boolvec(it, bits['b'], 'b')
                        e, f = utilfn.store_boolvec(it, bits['old'], 'old'), utilfn.store_boolvec(it, [], 'none')
                        ends = []
                        for x in (v, u):
                            it.call(wf, [o, x])
                            ends.append(len(s.items))
                        s.text(TAIL)
                        for k, (t, tag) in enumerate(((e, 'a'), (f, 'b'))):
                            it.call(rf, [i, t])
                            if not exact:
                                S.skip(s)
                            rec.append(('reading consumes exactly what was written' + ('' if exact else ', up to white space'), (s.at, s.off) == (ends[k], 0), 'position %r of %r' % ((s.at, s.off), ends[k])))
                            got = utilfn.read_boolvec(it, t)
                            rec.append(('the vector read has the length written', got is not None and len(got) == len(bits[tag]), '%s for %d' % (got and len(got), len(bits[tag]))))
                            rec.append(('every bit is read back', got == bits[tag], ''))
                        rec.append(('the vector written is unchanged', utilfn.read_boolvec(it, v) == bits['a'], ''))
                    except Bad as x:
                        rec.append(('reading consumes exactly what was written' + ('' if exact else ', up to white space'), False, str(x)))
                    except core.MemError as x:
                        rec.append(('the value read is fully determined by what was written', False, str(x)))
                    except (core.Thrown, core.Aborted) as x:
                        rec.append(('no exception or abort', False, str(x)))
                    tot += 1
                    meta['inlined'] |= set(it.called)
                    for a, ok, info in rec:
                        if a not in agg or (agg[a][0] and not ok):
                            agg[a] = (ok, '%d bits read over %d: %s' % (n, old, info))
            meta['inlined'] = sorted(meta['inlined'])
            meta['contracts'] = {'standard stream members': 1}
            for a, (ok, info) in agg.items():
                yield '%s (%d shapes, lengths up to 130, twice in one stream)' % (a, tot), st(ok), info
        out.append(Task('bit vector %s' % nm, '%s / %s' % (wr.strip('^'), rd.strip('^')), body, backend='symbolic execution over bits', weight=4))
    return out


BITIO = ('serialize_bit_vector', r'^libff::serialize_bit_vector\(', r'^libff::deserialize_bit_vector\(', False)
BOOLV = ('output_bool_vector', r'^vf_wbv\(', r'^vf_rbv\(', True)


# ---------------------------------------------------------------- points
class PDom(ring.RingDomain):
    """adds components of opaque coordinates and the parity of canonical integers"""

    def __init__(self, R):
        ring.RingDomain.__init__(self, R)
        self.par = {}
        self.known = []
        self.comps = {}
        self.coords = []      # coordinates (variables) whose components may be taken

    def choose(self, what):
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
        else:
            d = False
            self.decisions.append(d)
        self.pos += 1
        self.note.append((what, d))
        return d

    def split_abs(self, v, at, n):
        R = self.ring
        if v.kind in R.gens:
            P = R.nf(v.val)
            sub, d, g = R.gens[v.kind]
            sz = PR.tsize(R.mod, sub)
            if at % sz == 0 and n == sz:
                for root in self.coords:
                    for c in (1, -1):
                        if R.is_zero(R.clear_den(P - root * c)):
                            (mo, cc), = root.c.items()
                            sl = root.slots()[0]
                            k = (sl, at // sz)
                            if k not in self.comps:
                                self.comps[k] = R.atom('%s.c%d' % (R.names[sl], at // sz), sub)
                            return Abs(sz, sub, self.comps[k] * c)
        return ring.RingDomain.split_abs(self, v, at, n)

    def parity(self, P):
        R = self.ring
        P = R.nf(P)
        for root in self.known:
            for c in (1, -1):
                if R.is_zero(P - root * c):
                    P = R.nf(root * c)
        if not any(m for m in P.c):
            return P.c.get(0, 0) & 1
        if self.decide_zero(P):
            return 0
        P = R.nf(P)
        k, k2 = [tuple(sorted(x.c.items())) for x in (P, R.nf(-P))]
        key, flip = (k, 0) if k <= k2 else (k2, 1)
        if key not in self.par:
            self.par[key] = int(self.choose('parity of %r' % (P if not flip else -P)))
        return self.par[key] ^ flip

    def binop(self, op, w, x, y):
        if isinstance(x, Abs) and x.kind == 'low' and type(y) is int and (op == 'and' and y == 1 or op == 'urem' and y == 2):
            return self.parity(x.val)
        raise Unsupported('%s of a canonical integer' % op)

    def cast(self, op, fw, v, tw):
        if isinstance(v, Abs) and v.kind == 'low' and op == 'trunc':
            return v if tw > 1 else self.parity(v.val)
        raise Unsupported('cast of a canonical integer')


class PG(group.G):
    """group state over PDom, with contracts for the streams, field stream operators, as_bigint and sqrt"""

    def __init__(self, env, cv, dec, meta):
        group.G.__init__(self, env.m, env.img, cv, dec)
        R, it = self.R, self.it
        D = PDom(R)
        D.decisions = list(dec)
        D.note = D.path
        D.it = it
        it.dom = D
        self.FC.dom = D
        self.D = D
        self.S = Streams(it)
        self.s, self.o, self.i = open_pair(it, self.S)
        self.env = env
        mod = cv.mod
        n = PR.PRIMES[mod][1]
        self.roots = []
        for c in [k for k in ['Fp_model'] + list(PR.TOWERS[mod])]:
            if PR.tsize(mod, c) > self.size:
                continue
            t = r'libff::%s<%dl?, libff::%s>' % (c, n, mod)
            sz = PR.tsize(mod, c)
            it.on(r'^(?:%s& )?libff::operator<< ?<%dl?, libff::%s>\(%s&, %s const&\)$' % (OS, n, mod, OS, t), self.wr(c, sz))
            it.on(r'^(?:%s& )?libff::operator>> ?<%dl?, libff::%s>\(%s&, %s&\)$' % (IS, n, mod, IS, t), self.rd(c, sz))
        t = r'libff::Fp_model<%dl?, libff::%s>' % (n, mod)
        it.on(r'^%s::as_bigint\(\) const$' % t, self.asbig)
        it.on(r'^%s::as_ulong\(\) const$' % t, lambda it, a, mm: Abs(8, 'low', self.D.get('Fp_model', a[0])))
        it.on(r'^libff::%s<%dl?, libff::%s>::sqrt\(\) const$' % (cv.cls, n, mod), self.sqrt)
        self.used = {}

    def wr(self, c, sz):
        def h(it, a, mm):
            self.used['operator<<(%s)' % c] = 1
            if is_text(self.env):
                o = it.alloc(sz, 'stream value')
                it.copy(o, a[1], sz)
                return self.S.token(a[0], (c, o))
            self.S.write(a[0], a[1], sz)
            return a[0]
        return h

    def rd(self, c, sz):
        def h(it, a, mm):
            self.used['operator>>(%s)' % c] = 1
            if is_text(self.env):
                v = self.S.rtoken(a[0])
                if v[0] != c:
                    raise Bad('reads an element of %s where one of %s was written' % (c, v[0]))
                it.copy(a[1], v[1], sz)
                return a[0]
            s = self.S.st(a[0])
            k, x = self.S.peek(s)
            if k != 'm' or s.off or x[2] != sz:
                raise Bad('reads an element of %s where none starts' % c)
            self.S.read(a[0], a[1], sz)
            return a[0]
        return h

    def asbig(self, it, a, mm):
        self.used['Fp_model::as_bigint'] = 1
        P = self.D.get('Fp_model', a[1])
        for j in range(PR.PRIMES[self.mod][1]):
            it.store(a[0] + 8 * j, 8, Abs(8, 'low' if j == 0 else 'limb', P if j == 0 else (P, j)))
        return None

    def sqrt(self, it, a, mm):
        R = self.R
        self.used['%s::sqrt' % self.cls] = 1
        V = self.D.get(self.cls, a[1])
        for y in self.roots:
            if R.is_zero(R.clear_den(V - y * y)):
                s = y if not self.D.choose('sqrt returns the negative root') else -y
                self.D.put(self.cls, a[0], s)
                return None
        raise Unsupported('square root of a value that is not the square of a known coordinate: %r' % V)


def point_tasks(env):
    m = env.m
    out = []
    for cv in PR.CURVES.values():
        for kind in ('O', 'A', 'A1'):
            def body(meta, cv=cv, kind=kind):
                wf = find1(m, r'^libff::operator<<\(%s&, libff::%s const&\)$' % (OS, cv.name))
                rf = find1(m, r'^libff::operator>>\(%s&, libff::%s&\)$' % (IS, cv.name))

                def run(dec):
                    g = PG(env, cv, dec, meta)
                    g.D.weak = False
                    R = g.R
                    if kind == 'O':
                        T, want = g.zero(1), None
                        g.roots.append(R.const(1))
                    else:
                        P = g.affine(1)
                        xy = [R.inverse(c) for c in P] if cv.model == 'inv' else list(P)
                        g.roots.append(xy[1])
                        g.D.coords += xy
                        if g.size == PR.tsize(cv.mod, 'Fp_model'):
                            g.D.known = xy
                        if cv.model == 'inv' and cv.a != cv.b:
                            # 1 - d x^2 = 0 gives a x^2 + y^2 = 1 + y^2, so a = d
                            R.fact(P[0] * P[0] - g.b)
                            R.fact(P[1] * P[1] * (P[0] * P[0] - g.b))
                        T = g.rep(P, g.z(1) if kind == 'A' else R.const(1))
                        want = g.const_affine(P)
                    a = g.raw(T)
                    o = g.raw(g.rep(g.affine(2), g.z(2)))
                    res = []

                    def go():
                        g.it.call(wf, [g.o, a])
                        e = (len(g.s.items), 0)
                        g.s.text(('\n' if is_text(env) else '') + TAIL)
                        g.it.call(rf, [g.i, o])
                        yield 'reading consumes exactly what was written', st((g.s.at, g.s.off) == e), 'position %r of %r, %r' % ((g.s.at, g.s.off), e, g.s.shape())
                        for r in g.judge(g.read(o), want):
                            yield r
                        yield 'the point written is unchanged', st(all(R.is_zero(u - v) for u, v in zip(g.read(a), T))), ''
                    try:
                        res = list(guarded(g, go))
                    except ring.Infeasible as e2:
                        e2.dom = g.D
                        raise
                    except ring.PreconditionFailed as e:
                        res = [('callee preconditions hold', REFUTED, str(e))]
                    if infeasible(g, T):
                        e2 = ring.Infeasible(g.D)
                        e2.dom = g.D
                        raise e2
                    if g.D.weak:
                        res = [(n, UNDECIDED if s == REFUTED else s, i) for n, s, i in res]
                    if g.D.path:
                        d = '; '.join('%s: %s' % (('%r = 0' % (S,)) if not isinstance(S, str) else S, 'yes' if v else 'no') for S, v in g.D.path)[:400]
                        res = [(n, s, (str(i) + ' [' + d + ']') if s != PROVED else '') for n, s, i in res]
                    meta.setdefault('contracts', {}).update(g.used)
                    meta['contracts'].update(g.FC.used)
                    meta.setdefault('inlined', []).extend(g.it.called)
                    return g.D, res
                for r in group.merge([x for D, x in explore(run, 200)]):
                    yield {'O': 'identity: ', 'A': 'every point in every representation: ', 'A1': 'every affine point: '}[kind] + r[0], r[1], r[2]
            out.append(Task('%s operator<< and operator>>, %s' % (cv.name, {'O': 'identity', 'A': 'points', 'A1': 'affine points'}[kind]), 'libff::operator<< / operator>> %s' % cv.name, body))
    return out

def infeasible(g, T):
    """all components of a coordinate that is not zero were taken to be zero"""
    R, D = g.R, g.D
    by = {}
    for (s, i), P in D.comps.items():
        by.setdefault(s, {})[i] = P
    for s, c in by.items():
        if len(c) == R.gens[g.cls][1] and all(not R.nf(P).c for P in c.values()) and (s in R.den or R.known_nonzero(R.var(R.names[s]))[0]):
            return True
    return False


def gvec_tasks(env):
    m = env.m
    out = []
    for cv in PR.CURVES.values():
        size = 3 * PR.tsize(cv.mod, cv.cls)

        def prepare(X, cv=cv, size=size):
            def wr(it, a, mm):
                if is_text(env):
                    o = it.alloc(size, 'stream value')
                    it.copy(o, a[1], size)
                    X.S.st(a[0]).items.append(('p', o, 1))
                    return a[0]
                return X.S.write(a[0], a[1], size)
            X.it.on(r'^libff::operator<<\(%s&, libff::%s const&\)$' % (OS, cv.name), wr)

            def rd(it, a, mm):
                if is_text(env):
                    it.copy(a[1], X.S.rtoken(a[0], 'p', False), size)
                    return a[0]
                k, x = X.S.peek(X.S.st(a[0]))
                if k != 'm' or X.S.st(a[0]).off or x[2] != size:
                    raise Bad('reads a point where none starts')
                return X.S.read(a[0], a[1], size)
            X.it.on(r'^libff::operator>>\(%s&, libff::%s&\)$' % (IS, cv.name), rd)
        out.append(vec_task(env, cv.name, 'libff::' + cv.name, size, 8, range(0, 5), prepare))
    return out


# ---------------------------------------------------------------- pairing precomputation
def prec_types():
    """(type, curve, fixed size, sizes of the elements of the vectors that follow)"""
    out = []
    for c in ('alt_bn128', 'bls12_381', 'edwards', 'mnt4', 'mnt6'):
        mod = PR.CURVES[c + '_G1'].mod
        q = PR.tsize(mod, 'Fp_model')
        e = PR.tsize(mod, PR.CURVES[c + '_G2'].cls)
        if c == 'edwards':
            out += [(c + '_Fq_conic_coefficients', 3 * q, []), (c + '_Fq3_conic_coefficients', 3 * e, []), (c + '_tate_G2_precomp', 2 * e, []), (c + '_ate_G1_precomp', 3 * q, []),
                    ('vector ' + c + '_Fq_conic_coefficients', 0, [3 * q]), ('vector ' + c + '_Fq3_conic_coefficients', 0, [3 * e])]
        elif c.startswith('mnt'):
            out += [(c + '_ate_G1_precomp', 2 * q + 2 * e, []), (c + '_ate_dbl_coeffs', 4 * e, []), (c + '_ate_add_coeffs', 2 * e, []), (c + '_ate_G2_precomp', 5 * e, [4 * e, 2 * e])]
        else:
            out += [(c + '_ate_G1_precomp', 2 * q, []), (c + '_ate_ell_coeffs', 3 * e, []), (c + '_ate_G2_precomp', 2 * e, [3 * e])]
    return out


def prec_tasks(env):
    m = env.m
    out = []
    for name, fixed, vecs in prec_types():
        t = 'libff::' + name
        if name.startswith('vector '):
            t = vec('libff::' + name[7:])

        def body(meta, name=name, t=t, fixed=fixed, vecs=vecs):
            wf = find1(m, r'^libff::operator<<\(%s&, %s const&\)$' % (OS, t))
            rf = find1(m, r'^libff::operator>>\(%s&, %s&\)$' % (IS, t))
            agg = {}
            for n in range(0, 4) if vecs else [0]:
                X = Setup(env, meta)
                size = fixed + 24 * len(vecs)

                def make(tag, ns):
                    o = X.it.alloc(size, str(tag))
                    X.fill(o, fixed, 8, (tag, 'f'))
                    for k, (es, cnt) in enumerate(zip(vecs, ns)):
                        h = X.vector(cnt, es, 8, (tag, k))
                        X.it.copy(o + fixed + 24 * k, h, 24)
                    return o

                def same(o, tag, ns):
                    if not X.holds(o, fixed, 8, (tag, 'f')):
                        return 'fixed part'
                    for k, (es, cnt) in enumerate(zip(vecs, ns)):
                        b, sz = X.contents(o + fixed + 24 * k)
                        if sz != cnt * es:
                            return 'vector %d has %r bytes, written %d' % (k, sz, cnt * es)
                        if not all(X.holds(b + i * es, es, 8, ((tag, k), i)) for i in range(cnt)):
                            return 'vector %d' % k
                    return None

                def go():
                    na, nb = [n, (n + 1) % 4], [2, 1]
                    a, b = make('a', na), make('b', nb)
                    d, e = make('old', [3, 0]), make('new', [0, 0])
                    X.it.call(wf, [X.o, a])
                    e1 = X.end()
                    X.newline()
                    X.it.call(wf, [X.o, b])
                    e2 = X.end()
                    X.s.text('\n' + TAIL)
                    for k, (tgt, tag, ns, en) in enumerate(((d, 'a', na, e1), (e, 'b', nb, e2))):
                        X.it.call(rf, [X.i, tgt])
                        yield 'reading consumes exactly what was written', st(X.pos() == en), 'position %r, written up to %r' % (X.pos(), en)
                        w = same(tgt, tag, ns)
                        yield 'the value is read back', st(w is None), w
                        if k == 0:
                            X.rnewline()
                    yield 'the values written are unchanged', st(same(a, 'a', na) is None and same(b, 'b', nb) is None), ''
                for nm, s, i in guarded(X, go):
                    if nm not in agg or (agg[nm][0] == PROVED and s != PROVED):
                        agg[nm] = (s, i)
                X.done()
            for nm, (s, i) in agg.items():
                yield 'twice in one stream: ' + nm, s, i
        out.append(Task('%s operator<< and operator>>' % name, 'libff::operator<< / operator>> %s' % name, body, backend='symbolic execution over opaque words'))
    return out


class Digits(NullDomain):
    """characters of a decimal number: opaque digits, minus '0'"""

    def cast(self, op, fw, v, tw):
        return Abs(tw // 8, v.kind, v.val)

    def zext(self, v, w, w2):
        return Abs(w2 // 8, v.kind, v.val)

    sext = zext

    def trunc(self, v, w, w2):
        return Abs(w2 // 8, v.kind, v.val)

    def binop(self, op, w, x, y):
        if isinstance(x, Abs) and x.kind == 'digit' and type(y) is int and (op == 'sub' and y == 48 or op == 'add' and core.sgn(y, w) == -48 or op == 'xor' and y == 48):
            return Abs(w // 8, 'value', x.val)
        if isinstance(x, Abs) and x.kind == 'digit' and op == 'and' and y == 15:
            return Abs(w // 8, 'value', x.val)
        raise Unsupported('%s of a character' % op)


def bigtext_tasks(env):
    """bigint in the text encoding: every number of digits, every number of significant limbs"""
    m = env.m
    out = []
    ST = r'std::(?:__cxx11::)?(?:basic_)?string(?:<char, std::char_traits<char>, std::allocator<char> >)?'
    for n in BIG:
        def wbody(meta, n=n):
            it = core.Interp(m, NullDomain(), env.img)
            S = Streams(it)
            s, o, i = open_pair(it, S)
            Z = {}
            it.on(r'^__gmpz_init$', lambda it_, a, mm: Z.__setitem__(a[0], None))
            it.on(r'^__gmpz_clear$', lambda it_, a, mm: Z.pop(a[0], None))
            it.on(r'^libff::bigint<%dl?>::to_mpz\(__mpz_struct\*\) const$' % n, lambda it_, a, mm: Z.__setitem__(a[1], [it.load(a[0] + 8 * j, 8) for j in range(n)]))

            def put(it_, a, mm):
                if Z.get(a[1]) is None:
                    raise Bad('an integer that was never set is written')
                return S.token(a[0], Z[a[1]])
            it.on(r'^operator<<\(%s&, __mpz_struct const\*\)$' % OS, put)
            a = it.alloc(8 * n, 'integer')
            for j in range(n):
                it.store(a + 8 * j, 8, Abs(8, 'w', j))
            f = find1(m, r'^(?:%s& )?libff::operator<< ?<%dl?>\(%s&, libff::bigint<%dl?> const&\)$' % (OS, n, OS, n))
            meta['contracts'] = {'bigint::to_mpz (C17)': 1, 'decimal output of mpz_t (GMP)': 1}

            def go():
                r = it.call(f, [o, a])
                yield 'exactly the decimal digits of the integer are written', st([x[0] for x in s.items] == ['z'] and all(eqv(w, Abs(8, 'w', j)) for j, w in enumerate(s.items[0][1]))), repr(s.shape())[:200]
                yield 'the stream is returned, the integer is unchanged', st(r == o and all(eqv(it.load(a + 8 * j, 8), Abs(8, 'w', j)) for j in range(n))), ''
            yield from guarded(None, go)
            meta['inlined'] = sorted(it.called)
        out.append(Task('bigint<%d> operator<<' % n, 'libff::operator<< bigint<%d>' % n, wbody, backend='symbolic execution over opaque words'))

        def rbody(meta, n=n):
            f = find1(m, r'^(?:%s& )?libff::operator>> ?<%dl?>\(%s&, libff::bigint<%dl?>&\)$' % (IS, n, IS, n))
            top = len(str((1 << 64 * n) - 1))
            agg, inl = {}, set()
            meta['contracts'] = {'input of a word into std::string': 1, 'mpn_set_str (GMP)': 1}
            for l in range(1, top + 1):
                lo, hi = 0 if l == 1 else 10 ** (l - 1), min(10 ** l, 1 << 64 * n) - 1
                need = lambda x: (x.bit_length() + 63) // 64
                for k in range(need(lo), need(hi) + 1):
                    it = core.Interp(m, Digits(), env.img)
                    S = Streams(it)
                    s, o, i = open_pair(it, S)
                    strings = {}

                    def init(it_, a, mm):
                        strings[a[0]] = (it.alloc(1, 'string', bytes(1)), 0)

                    def word(it_, a, mm, l=l):
                        S.rtoken(a[0])
                        b = it.alloc(l + 1, 'string')
                        for j in range(l):
                            it.store(b + j, 1, Abs(1, 'digit', j))
                        it.store(b + l, 1, 0)
                        strings[a[1]] = (b, l)
                        return a[0]

                    def setstr(it_, a, mm, k=k, l=l):
                        if a[2] != l or a[3] != 10 or not all(eqv(it.load(a[1] + j, 1), Abs(1, 'value', j)) for j in range(l)):
                            raise Bad('the digits converted are not those read')
                        for j in range(k):
                            it.store(a[0] + 8 * j, 8, Abs(8, 'w', j))
                        return k
                    it.on(r'^%s::basic_string\(\)$' % ST, init)
                    it.on(r'^%s::~basic_string\(\)$' % ST, lambda it_, a, mm: strings.pop(a[0], None) and None)
                    it.on(r'^%s::(?:size|length)\(\) const$' % ST, lambda it_, a, mm: strings[a[0]][1])
                    it.on(r'^%s::(?:c_str|data)\(\)(?: const)?$' % ST, lambda it_, a, mm: strings[a[0]][0])
                    it.on(r'^%s::(?:operator\[\]|at)\(unsigned long\)(?: const)?$' % ST, lambda it_, a, mm: strings[a[0]][0] + a[1])
                    it.on(r'^(?:%s& )?std::operator>> ?<char, std::char_traits<char>, std::allocator<char> >\(%s&, %s&\)$' % (IS, IS, ST), word)
                    it.on(r'^__gmpn_set_str$', setstr)
                    d = it.alloc(8 * n, 'integer')
                    for j in range(n):
                        it.store(d + 8 * j, 8, Abs(8, 'old', j))

                    def go():
                        S.token(o, 'integer')
                        s.text('\n' + TAIL)
                        r = it.call(f, [i, d])
                        yield 'reading consumes exactly what was written', st((s.at, s.off) == (1, 0) and r == i), ''
                        yield 'every limb is read back', st(all(eqv(it.load(d + 8 * j, 8), Abs(8, 'w', j)) if j < k else it.load(d + 8 * j, 8) == 0 for j in range(n))), '%d digits, %d limbs' % (l, k)
                    for nm, v, info in guarded(None, go):
                        if nm not in agg or agg[nm][0] == PROVED and v != PROVED:
                            agg[nm] = (v, info)
                    inl |= set(it.called)
            meta['inlined'] = sorted(inl)
            for nm, (v, info) in agg.items():
                yield 'every number of digits up to %d: %s' % (top, nm), v, info
        out.append(Task('bigint<%d> operator>>' % n, 'libff::operator>> bigint<%d>' % n, rbody, backend='symbolic execution over opaque digits', weight=n * n))
    return out


def c16_tasks(env):
    out = value_tasks(env) + bool_tasks(env) + bitvec_tasks(env, [BITIO, BOOLV]) + point_tasks(env) + gvec_tasks(env) + prec_tasks(env)
    for e in ENCODINGS:
        v = Variant(env, e)
        T = point_tasks(v)
        if e[1]:
            T += value_tasks(v) + gvec_tasks(v) + prec_tasks(v)
        if e[0] == 'text':
            T += bigtext_tasks(v)
        for t in T:
            t.name = '[%s] %s' % (e[0], t.name)
        out += T
    return out
