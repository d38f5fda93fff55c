"""Symbolic executor for the LLVM IR of the real code.

Memory is a set of objects; addresses are concrete integers (id<<32 | offset),
every access is bounds checked (an out-of-bounds access is a failed safety
obligation).  Scalars are Python ints or values of a domain (domains.py);
opaque mathematical values (field elements, group elements, ...) live in memory
as Abs cells that only functions under contract can read or write.
"""
import re
from ir import Module, IRError

MASK = [(1 << i) - 1 for i in range(0, 1025)]


class Unsupported(Exception):
    """The engine cannot decide: never a verdict about the code."""


class MemError(Exception):
    """Out of bounds / null / dangling access on a feasible path."""


class Thrown(Exception):
    def __init__(self, what):
        self.what = what


class Aborted(Exception):
    pass


class _Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()


class Abs:
    """opaque value of `size` bytes of kind `kind`"""
    __slots__ = ('size', 'kind', 'val')

    def __init__(self, size, kind, val):
        self.size = size
        self.kind = kind
        self.val = val

    def __repr__(self):
        return 'Abs(%s,%r)' % (self.kind, self.val)


class Poison:
    """content of a cell that differs between two merged paths in a way the domain cannot express: may be overwritten, not read"""
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why


_MISSING = object()


class Obj:
    __slots__ = ('id', 'size', 'cells', 'base', 'name', 'maxc', 'const', 'freed')

    def __init__(self, id, size, name, base=None):
        self.id = id
        self.size = size
        self.cells = {}
        self.base = base
        self.name = name
        self.maxc = 1
        self.const = False
        self.freed = False


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


class Frame:
    __slots__ = ('fn', 'regs', 'objs', 'cur')


class Interp:
    def __init__(self, module, dom, image=None):
        self.m = module
        self.dom = dom
        dom.it = self
        dom.it = self
        self.image = image or {}      # global name -> bytes (dumped from the real library after init)
        self.patterns = []            # (regex, handler)
        self._h = {}
        self._prep = {}
        self.undo = None
        self.maxsteps = 50_000_000
        self.trace_calls = None
        self.called = set()           # real functions whose bodies were executed
        self.contracts_used = {}
        self.reset()
        install_runtime(self)

    def reset(self):
        self.objs = {}
        self.nextid = 16
        self.gaddr = {}
        self.fnaddr = {}
        self.steps = 0
        self.depth = 0
        self.frames = []
        self.out = []
        self.stop_hooks = {}
        self.undo = None

    # ------------------------------------------------------------ memory
    def alloc(self, size, name='', base=None):
        i = self.nextid
        self.nextid += 1
        self.objs[i] = Obj(i, size, name, base)
        return i << 32

    def obj(self, addr, size):
        if type(addr) is not int:
            if not hasattr(type(self.dom), 'address'):
                raise Unsupported('symbolic address')
            addr = self.dom.address(addr)
        o = self.objs.get(addr >> 32)
        off = addr & 0xffffffff
        if o is None:
            raise MemError('access to invalid address %#x' % addr)
        if o.freed:
            raise MemError('use after free of %s' % o.name)
        if off + size > o.size:
            raise MemError('out of bounds access of %d bytes at offset %d of %s (size %d)' % (size, off, o.name, o.size))
        return o, off

    def _wr(self, o, key, val):
        if self.undo is not None:
            self.undo.append((o, key, o.cells.get(key, _MISSING)))
        if val is _MISSING:
            o.cells.pop(key, None)
        else:
            o.cells[key] = val

    def _overlap(self, o, off, size):
        """keys of cells overlapping [off,off+size)"""
        r = []
        c = o.cells
        if len(c) < 64:
            for k, (s, _) in c.items():
                if k < off + size and off < k + s:
                    r.append(k)
        else:
            for k in range(max(0, off - o.maxc + 1), off + size):
                e = c.get(k)
                if e is not None and k + e[0] > off:
                    r.append(k)
        r.sort()
        return r

    def store(self, addr, size, val):
        o, off = self.obj(addr, size)
        if o.const:
            raise MemError('write to constant %s' % o.name)
        e = o.cells.get(off)
        if e is not None and e[0] == size:
            self._wr(o, off, (size, val))
            return
        ov = self._overlap(o, off, size)
        for k in ov:
            s, v = o.cells[k]
            self._wr(o, k, _MISSING)
            if k < off:
                self._wr(o, k, (off - k, self._sub(v, s, 0, off - k)))
            if k + s > off + size:
                self._wr(o, off + size, (k + s - off - size, self._sub(v, s, off + size - k, k + s - off - size)))
        self._wr(o, off, (size, val))
        if size > o.maxc:
            o.maxc = size

    def _sub(self, v, s, at, n):
        if v is UNDEF or v.__class__ is Poison:
            return v
        if type(v) is int:
            return (v >> (8 * at)) & ((1 << (8 * n)) - 1)
        if isinstance(v, Abs):
            r = self.dom.split_abs(v, at, n)
            return r if r is not None else UNDEF
        return self.dom.extract(v, s * 8, at * 8, n * 8)

    def load(self, addr, size):
        o, off = self.obj(addr, size)
        e = o.cells.get(off)
        if e is not None:
            if e[0] == size:
                if e[1].__class__ is Poison:
                    raise Unsupported(e[1].why)
                return e[1]
        return self._load_slow(o, off, size)

    def _load_slow(self, o, off, size):
        ov = self._overlap(o, off, size)
        if not ov:
            if o.base is None:
                return UNDEF
            return int.from_bytes(o.base[off:off + size], 'little')
        parts = []   # (nbytes, val) little endian order
        pos = off
        for k in ov:
            s, v = o.cells[k]
            if k > pos:
                parts.append((k - pos, UNDEF if o.base is None else int.from_bytes(o.base[pos:k], 'little')))
                pos = k
            end = min(k + s, off + size)
            parts.append((end - pos, v if (pos == k and end == k + s) else self._sub(v, s, pos - k, end - pos)))
            pos = end
        if pos < off + size:
            parts.append((off + size - pos, UNDEF if o.base is None else int.from_bytes(o.base[pos:off + size], 'little')))
        for _, v in parts:
            if v.__class__ is Poison:
                raise Unsupported(v.why)
        if len(parts) == 1:
            return parts[0][1]
        if all(type(v) is int for _, v in parts):
            r = 0
            sh = 0
            for n, v in parts:
                r |= v << sh
                sh += 8 * n
            return r
        if any(v is UNDEF for _, v in parts):
            return UNDEF
        if any(isinstance(v, Abs) for _, v in parts):
            r = self.dom.join_abs(parts, size)
            if r is not None:
                return r
            raise Unsupported('read of %d bytes across opaque cells at %s+%d' % (size, o.name, off))
        return self.dom.concat(parts)

    def copy(self, dst, src, n):
        if n == 0:
            return
        so, s = self.obj(src, n)
        do, d = self.obj(dst, n)
        e = so.cells.get(s)
        if e is not None and e[0] == n:
            self.store(dst, n, e[1])
            return
        ov = self._overlap(so, s, n)
        segs = []
        pos = s
        for k in ov:
            sz, v = so.cells[k]
            if k > pos:
                segs.append((pos, k - pos, None))
                pos = k
            end = min(k + sz, s + n)
            segs.append((pos, end - pos, v if (pos == k and end == k + sz) else self._sub(v, sz, pos - k, end - pos)))
            pos = end
        if pos < s + n:
            segs.append((pos, s + n - pos, None))
        for p, ln, v in segs:
            a = dst + (p - s)
            if v is None:
                if so.base is None:
                    self.store(a, ln, UNDEF)
                else:
                    q = p
                    while q < p + ln:
                        c = min(8, p + ln - q)
                        self.store(dst + (q - s), c, int.from_bytes(so.base[q:q + c], 'little'))
                        q += c
            else:
                self.store(a, ln, v)

    def fill(self, dst, byte, n):
        q = 0
        if n and n % 8 == 0 and n <= 4096:
            w = int.from_bytes(bytes([byte]) * 8, 'little')
            for q in range(0, n, 8):
                self.store(dst + q, 8, w)
            return
        if n > 4096:
            o, off = self.obj(dst, n)
            if off == 0 and n == o.size and self.undo is None:
                o.cells = {}
                o.base = bytes([byte]) * n
                return
        while q < n:
            c = min(8, n - q)
            self.store(dst + q, c, int.from_bytes(bytes([byte]) * c, 'little'))
            q += c

    def gep_global(self, name):
        a = self.gaddr.get(name)
        if a is not None:
            return a
        name = self.m.aliases.get(name, name)
        if name in self.m.functions or name in self.m.declared:
            i = self.nextid
            self.nextid += 1
            a = i << 32
            self.fnaddr[a] = name
            self.gaddr[name] = a
            return a
        g = self.m.globals.get(name)
        if g is None:
            raise Unsupported('unknown global ' + name)
        kind, rest, path = g
        from ir import P, tokenize
        toks = tokenize(rest)
        i = 0
        const = False
        while True:
            w = toks[i][1]
            if w in ('global', 'constant'):
                const = w == 'constant'
                i += 1
                break
            i += 1
        p = P(toks[i:], self.m)
        t = p.type()
        size = self.m.sizeof(t)
        base = None
        if name in self.image:
            base = self.image[name][:size].ljust(size, b'\0')
            a = self.alloc(size, name, base)
        elif kind == 'ext':
            a = self.alloc(size, name, None)
        else:
            a = self.alloc(size, name, bytes(size))
            self.gaddr[name] = a
            v = p.value(t)
            self._init_const(a, t, v)
        self.gaddr[name] = a
        if const:
            self.objs[a >> 32].const = True
        return a

    def _init_const(self, a, t, v):
        k = v[0]
        if k == 'zero' or k == 'undef':
            return
        if k == 'c':
            self.store(a, self.m.sizeof(t), v[1])
        elif k == 'bytes':
            o, off = self.obj(a, len(v[1]))
            b = bytearray(o.base)
            b[off:off + len(v[1])] = v[1]
            o.base = bytes(b)
        elif k == 'agg':
            rt = self.m.resolve(t)
            if rt[0] == 'struct':
                for i, (et, ev) in enumerate(v[2]):
                    off, _ = self.m.field_off(rt, i)
                    self._init_const(a + off, et, ev)
            else:
                es = self.m.sizeof(rt[2])
                for i, (et, ev) in enumerate(v[2]):
                    self._init_const(a + i * es, et, ev)
        elif k in ('g', 'ce'):
            self.store(a, self.m.sizeof(t), self.val(v, None))
        elif k == 'f':
            import struct
            self.store(a, 8, int.from_bytes(struct.pack('<d', float(v[1])) if not v[1].startswith('0x') else int(v[1], 16).to_bytes(8, 'little'), 'little'))
        else:
            raise Unsupported('constant %r' % (v,))

    # ------------------------------------------------------------ values
    def val(self, v, regs):
        k = v[0]
        if k == 'r':
            return regs[v[1]]
        if k == 'c':
            return v[1]
        if k == 'g':
            return self.gep_global(v[1])
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return self.zero_of(v[1])
        if k == 'agg':
            return [self.val(x, regs) for _, x in v[2]]
        if k == 'ce':
            if v[1] == 'gep':
                off, dyn = self.gep_plan(v[2], v[3][1:])
                b = self.val(v[3][0][1], regs) + off
                for op, sc, w in dyn:
                    b += sgn(self.val(op, regs), w) * sc
                return b & MASK[64]
            if v[1] == 'cast':
                return self.cast(v[2], v[3], self.val(v[4], regs), v[5])
            if v[1] == 'bin':
                return self.binop(v[2], v[3][1], self.val(v[4], regs), self.val(v[5], regs))
        if k == 'f':
            s = v[1]
            if s.startswith('0x'):
                import struct
                return struct.unpack('>d', int(s, 16).to_bytes(8, 'big'))[0]
            return float(s)
        raise Unsupported('operand %r' % (v,))

    def zero_of(self, t):
        t = self.m.resolve(t)
        if t[0] == 'struct':
            return [self.zero_of(e) for e in t[1]]
        if t[0] in ('array', 'vec'):
            return [self.zero_of(t[2]) for _ in range(t[1])]
        if t[0] in ('double', 'float'):
            return 0.0
        return 0

    def gep_plan(self, bt, idx):
        """-> const offset, [(operand, scale, width)]"""
        off = 0
        dyn = []
        t = bt
        for n, (ty, v) in enumerate(idx):
            if n == 0:
                sc = self.m.sizeof(t)
            else:
                rt = self.m.resolve(t)
                if rt[0] == 'struct':
                    o, t = self.m.field_off(rt, v[1])
                    off += o
                    continue
                t = rt[2]
                sc = self.m.sizeof(t)
            if v[0] == 'c':
                off += sgn(v[1], ty[1]) * sc
            else:
                dyn.append((v, sc, ty[1]))
        return off, dyn

    def load_t(self, addr, t):
        k = t[0]
        if k == 'i' or k == 'ptr':
            n = self.m.sizeof(t)
            v = self.load(addr, n)
            if k == 'i' and t[1] % 8:
                if type(v) is int:
                    v &= MASK[t[1]]
                elif v is not UNDEF:
                    v = self.dom.trunc(v, n * 8, t[1])
            return v
        rt = self.m.resolve(t)
        if rt[0] == 'struct':
            r = []
            for i in range(len(rt[1])):
                o, e = self.m.field_off(rt, i)
                r.append(self.load_t(addr + o, e))
            return r
        if rt[0] in ('array', 'vec'):
            es = self.m.sizeof(rt[2])
            return [self.load_t(addr + i * es, rt[2]) for i in range(rt[1])]
        if rt[0] == 'double':
            v = self.load(addr, 8)
            if type(v) is int:
                import struct
                return struct.unpack('<d', v.to_bytes(8, 'little'))[0]
            return v
        if rt[0] in ('i', 'ptr'):
            return self.load_t(addr, rt)
        raise Unsupported('load of %r' % (t,))

    def store_t(self, addr, t, v):
        k = t[0]
        if k == 'i' or k == 'ptr':
            n = self.m.sizeof(t)
            if k == 'i' and t[1] % 8 and type(v) is not int and v is not UNDEF:
                v = self.dom.zext(v, t[1], n * 8)
            self.store(addr, n, v)
            return
        rt = self.m.resolve(t)
        if v is UNDEF:
            self.store(addr, self.m.sizeof(rt), UNDEF)
            return
        if rt[0] == 'struct':
            for i in range(len(rt[1])):
                o, e = self.m.field_off(rt, i)
                self.store_t(addr + o, e, v[i])
            return
        if rt[0] in ('array', 'vec'):
            es = self.m.sizeof(rt[2])
            for i in range(rt[1]):
                self.store_t(addr + i * es, rt[2], v[i])
            return
        if rt[0] == 'double':
            import struct
            if isinstance(v, float):
                v = int.from_bytes(struct.pack('<d', v), 'little')
            self.store(addr, 8, v)
            return
        if rt[0] in ('i', 'ptr'):
            return self.store_t(addr, rt, v)
        raise Unsupported('store of %r' % (t,))

    def cast(self, op, t, v, t2):
        if isinstance(v, list):
            if op == 'bitcast':
                return self.bitcast_vec(v, t, t2)
            return [self.cast(op, t[2], x, t2[2]) for x in v]
        if v is UNDEF:
            return UNDEF
        if op in ('ptrtoint', 'inttoptr'):
            if op == 'ptrtoint' and t2[0] == 'i' and t2[1] < 64:
                return v & MASK[t2[1]]
            return v
        if op == 'bitcast':
            if t2[0] == 'vec' or t[0] == 'vec':
                return self.bitcast_vec([v], ('vec', 1, t), t2)
            return v
        if type(v) is int:
            if op == 'zext':
                return v
            if op == 'trunc':
                return v & MASK[t2[1]]
            if op == 'sext':
                return sgn(v, t[1]) & MASK[t2[1]]
            if op == 'uitofp':
                return float(v)
            if op == 'sitofp':
                return float(sgn(v, t[1]))
        elif isinstance(v, float):
            if op in ('fpext', 'fptrunc'):
                return v
            if op in ('fptoui', 'fptosi'):
                return int(v) & MASK[t2[1]]
        else:
            if op == 'zext':
                return self.dom.zext(v, t[1], t2[1])
            if op == 'sext':
                return self.dom.sext(v, t[1], t2[1])
            if op == 'trunc':
                return self.dom.trunc(v, t[1], t2[1])
        raise Unsupported('cast %s %r' % (op, v))

    def bitcast_vec(self, v, t, t2):
        def esz(t):
            return t[2][1] if t[0] == 'vec' else (t[1] if t[0] == 'i' else 64)
        a = esz(t)
        tt = t2 if t2[0] == 'vec' else ('vec', 1, t2)
        b = esz(tt)
        if a == b:
            r = list(v)
        elif any(x is UNDEF for x in v):
            raise Unsupported('bitcast undef')
        elif a < b:
            k = b // a
            r = []
            for i in range(0, len(v), k):
                ch = v[i:i + k]
                if all(type(x) is int for x in ch):
                    r.append(sum(x << (a * j) for j, x in enumerate(ch)))
                else:
                    r.append(self.dom.concat([(a // 8, x) for x in ch]))
        else:
            k = a // b
            r = []
            for x in v:
                for j in range(k):
                    r.append((x >> (b * j)) & MASK[b] if type(x) is int else self.dom.extract(x, a, b * j, b))
        return r if t2[0] == 'vec' else r[0]

    def binop(self, op, w, a, b):
        if isinstance(a, list):
            return [self.binop(op, w, x, y) for x, y in zip(a, b)]
        if a is UNDEF or b is UNDEF:
            raise Unsupported('arithmetic on uninitialised value')
        if type(a) is int and type(b) is int:
            if op == 'add':
                return (a + b) & MASK[w]
            if op == 'sub':
                return (a - b) & MASK[w]
            if op == 'mul':
                return (a * b) & MASK[w]
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                if b >= w:
                    raise MemError('shift of a %d-bit value by %d' % (w, b))
                return (a << b) & MASK[w]
            if op == 'lshr':
                if b >= w:
                    raise MemError('shift of a %d-bit value by %d' % (w, b))
                return a >> b
            if op == 'ashr':
                if b >= w:
                    raise MemError('shift of a %d-bit value by %d' % (w, b))
                return (sgn(a, w) >> b) & MASK[w]
            if op in ('udiv', 'urem', 'sdiv', 'srem') and b == 0:
                raise MemError('division by zero')
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            if op == 'sdiv':
                x, y = sgn(a, w), sgn(b, w)
                q = abs(x) // abs(y)
                return (q if (x < 0) == (y < 0) else -q) & MASK[w]
            if op == 'srem':
                x, y = sgn(a, w), sgn(b, w)
                q = abs(x) % abs(y)
                return (q if x >= 0 else -q) & MASK[w]
        if isinstance(a, float) and isinstance(b, float):
            if op == 'fadd':
                return a + b
            if op == 'fsub':
                return a - b
            if op == 'fmul':
                return a * b
            if op == 'fdiv':
                return a / b if b else float('nan')
        return self.dom.binop(op, w, a, b)

    def icmp(self, pred, w, a, b):
        if a is UNDEF or b is UNDEF:
            raise Unsupported('comparison of uninitialised value')
        if type(a) is int and type(b) is int:
            if pred[0] == 's':
                a, b = sgn(a, w), sgn(b, w)
            p = pred[-2:]
            if p == 'eq':
                return int(a == b)
            if p == 'ne':
                return int(a != b)
            if p == 'gt':
                return int(a > b)
            if p == 'ge':
                return int(a >= b)
            if p == 'lt':
                return int(a < b)
            return int(a <= b)
        return self.dom.icmp(pred, w, a, b)

    # ------------------------------------------------------------ calls
    def on(self, regex, handler):
        self.patterns.append((re.compile(regex), handler))
        self._h = {}

    def handler_for(self, name):
        h = self._h.get(name, _MISSING)
        if h is not _MISSING:
            return h
        d = self.m.dem(name)
        h = None
        for rx, f in reversed(self.patterns):
            mm = rx.search(d)
            if mm:
                h = (f, mm, d)
                break
        if h is None:
            for rx, f in self.runtime:
                mm = rx.search(name)
                if mm:
                    h = (f, mm, d)
                    break
        self._h[name] = h
        return h

    def call(self, name, args, rt=None):
        h = self.handler_for(name)
        if h is not None:
            f, mm, d = h
            r = f(self, args, mm)
            if r is not NotImplemented:
                if getattr(f, 'contract', None):
                    self.contracts_used[d] = self.contracts_used.get(d, 0) + 1
                return r
        fn = self.m.functions.get(name)
        if fn is None and name in self.m.aliases:
            return self.call(self.m.aliases[name], args, rt)
        if fn is None:
            raise Unsupported('call to function without body or contract: ' + self.m.dem(name))
        return self.run(fn, args)

    def run(self, fn, args):
        self.called.add(fn.name)
        self.depth += 1
        if self.depth > 400:
            raise Unsupported('call depth')
        fr = Frame()
        self.frames.append(fr)
        fr.fn = fn
        fr.regs = {}
        fr.objs = []
        if len(args) < len(fn.params):
            raise Unsupported('arity')
        for (t, nm, byval), a in zip(fn.params, args):
            if byval is not None:
                n = self.m.sizeof(byval)
                c = self.alloc(n, 'byval')
                fr.objs.append(c >> 32)
                self.copy(c, a, n)
                a = c
            fr.regs[nm] = a
        try:
            fn.blocks
            st, v = self.blocks(fr, fn.entry, None, None)
        finally:
            self.depth -= 1
            self.frames.pop()
        for i in fr.objs:
            self.objs.pop(i, None) if self.undo is None else None
        return v

    def prep(self, fn, b):
        key = (fn.name, b)
        r = self._prep.get(key)
        if r is None:
            r = [self._prep1(fn, x) for x in fn.blocks[b]]
            self._prep[key] = r
        return r

    def _prep1(self, fn, x):
        op = x[0]
        if op == 'gep':
            off, dyn = self.gep_plan(x[2], x[3][1:])
            return ('gep', x[1], x[3][0][1], off, dyn)
        if op == 'alloca':
            return ('alloca', x[1], self.m.sizeof(x[2]), x[3])
        return x

    def blocks(self, fr, b, pred, stop):
        """run from block b (entered from pred) until a return -> ('ret', v),
        or until about to enter block `stop` -> ('stop', pred)"""
        fn = fr.fn
        regs = fr.regs
        val = self.val
        while True:
            if b == stop:
                return ('stop', pred)
            code = self.prep(fn, b)
            fr.cur = b
            if self.stop_hooks:
                hk = self.stop_hooks.get((fn.name, b))
                if hk is not None:
                    r = hk(self, fr, b, pred)
                    if r is not None:
                        return r
            i = 0
            # phis in parallel
            if code[0][0] == 'phi':
                upd = {}
                while code[i][0] == 'phi':
                    x = code[i]
                    if pred == '%phi%':
                        upd[x[1]] = self.phi_vals[x[1]]
                        i += 1
                        continue
                    for v, pb in x[3]:
                        if pb == pred:
                            upd[x[1]] = val(v, regs)
                            break
                    else:
                        raise Unsupported('phi without matching edge')
                    i += 1
                regs.update(upd)
            n = len(code)
            self.steps += n
            if self.steps > self.maxsteps:
                raise Unsupported('step limit')
            nxt = None
            while i < n:
                x = code[i]
                i += 1
                op = x[0]
                if op == 'load':
                    a = val(x[3], regs)
                    if type(a) is not int:
                        regs[x[1]] = self.dom.load_sym(a, x[2])
                    else:
                        regs[x[1]] = self.load_t(a, x[2])
                elif op == 'store':
                    a = val(x[3], regs)
                    v = val(x[2], regs)
                    if type(a) is not int:
                        self.dom.store_sym(a, x[1], v)
                    else:
                        self.store_t(a, x[1], v)
                elif op == 'gep':
                    a = val(x[2], regs)
                    if a is UNDEF:
                        raise Unsupported('gep undef')
                    if type(a) is int:
                        a += x[3]
                    else:
                        a = self.dom.ptr_add(a, x[3], 1)
                    for v, sc, w in x[4]:
                        idx = val(v, regs)
                        if type(idx) is int and type(a) is int:
                            a += sgn(idx, w) * sc
                        else:
                            a = self.dom.ptr_add(a, idx, sc)
                    regs[x[1]] = a & MASK[64] if type(a) is int else a
                elif op == 'alloca':
                    if x[3] is not None:
                        cnt = val(x[3][1], regs)
                        a = self.alloc(x[2] * cnt, x[1])
                    else:
                        a = self.alloc(x[2], x[1])
                    fr.objs.append(a >> 32)
                    regs[x[1]] = a
                elif op == 'call' or op == 'invoke':
                    callee = x[3]
                    if callee[0] == 'g':
                        name = callee[1]
                        args = []
                        for t, v in x[4]:
                            if t[0] == 'metadata':
                                args.append(None)
                            else:
                                args.append(val(v, regs))
                        r = self.call(name, args, x[2])
                    elif callee[0] == 'asm':
                        args = [val(v, regs) for t, v in x[4]]
                        import asm
                        r = asm.execute(self, callee[1], callee[2], args, x[4], x[2])
                    else:
                        fa = val(callee, regs)
                        name = self.fnaddr.get(fa)
                        if name is None:
                            raise Unsupported('indirect call')
                        r = self.call(name, [val(v, regs) for t, v in x[4]], x[2])
                    if x[1] is not None:
                        regs[x[1]] = r
                    if op == 'invoke':
                        nxt = x[6]
                elif op == 'br':
                    nxt = x[1]
                elif op == 'condbr':
                    c = val(x[1], regs)
                    if type(c) is int:
                        nxt = x[2] if c else x[3]
                    elif c is UNDEF:
                        raise Unsupported('branch on uninitialised value')
                    else:
                        r = self.dom.branch(self, fr, b, c, x[2], x[3], stop)
                        if r[0] == 'goto':
                            nxt = r[1]
                            if len(r) > 2:
                                pred = r[2]
                                b = nxt
                                nxt = '%merged%'
                        else:
                            return r
                elif op == 'bin':
                    t = x[3]
                    w = t[1] if t[0] == 'i' else (t[2][1] if t[0] == 'vec' else 64)
                    regs[x[1]] = self.binop(x[2], w, val(x[4], regs), val(x[5], regs))
                elif op == 'icmp':
                    t = x[3]
                    regs[x[1]] = self.icmp(x[2], t[1] if t[0] == 'i' else 64, val(x[4], regs), val(x[5], regs))
                elif op == 'cast':
                    regs[x[1]] = self.cast(x[2], x[3], val(x[4], regs), x[5])
                elif op == 'ret':
                    return ('ret', None if x[1] is None else val(x[2], regs))
                elif op == 'select':
                    c = val(x[3], regs)
                    if type(c) is int:
                        regs[x[1]] = val(x[4], regs) if c else val(x[5], regs)
                    else:
                        regs[x[1]] = self.dom.ite(c, val(x[4], regs), val(x[5], regs), x[2][1] if x[2][0] == 'i' else 64)
                elif op == 'switch':
                    v = val(x[2], regs)
                    if type(v) is not int:
                        v = self.dom.switch(v, x[1][1], [cv for cv, _ in x[4]]) if hasattr(type(self.dom), 'switch') else self.dom.concretize(v, x[1][1])
                    nxt = x[3]
                    for cv, cb in x[4]:
                        if cv == v:
                            nxt = cb
                            break
                elif op == 'extractvalue':
                    v = val(x[3], regs)
                    for j in x[4]:
                        v = v[j]
                    regs[x[1]] = v
                elif op == 'insertvalue':
                    v = val(x[3], regs)
                    rt = self.m.resolve(x[2])
                    nv = list(v) if isinstance(v, list) else [UNDEF] * (len(rt[1]) if rt[0] == 'struct' else rt[1])
                    if len(x[6]) != 1:
                        raise Unsupported('nested insertvalue')
                    nv[x[6][0]] = val(x[5], regs)
                    regs[x[1]] = nv
                elif op == 'extractelement':
                    v = val(x[3], regs)
                    regs[x[1]] = v[val(x[4], regs)]
                elif op == 'insertelement':
                    v = val(x[3], regs)
                    nv = list(v) if isinstance(v, list) else [UNDEF] * x[2][1]
                    nv[val(x[5], regs)] = val(x[4], regs)
                    regs[x[1]] = nv
                elif op == 'shufflevector':
                    k = x[2][1]
                    a = val(x[3], regs)
                    bb = val(x[4], regs)
                    a = a if isinstance(a, list) else [UNDEF] * k
                    bb = bb if isinstance(bb, list) else [UNDEF] * k
                    ab = a + bb
                    mk = val(x[6], regs)
                    if not isinstance(mk, list):
                        mk = [mk] * x[5][1]
                    regs[x[1]] = [UNDEF if j is UNDEF else ab[j] for j in mk]
                elif op == 'fcmp':
                    a = val(x[4], regs)
                    bb = val(x[5], regs)
                    if not (isinstance(a, float) and isinstance(bb, float)):
                        raise Unsupported('symbolic fcmp')
                    p = x[2][1:]
                    regs[x[1]] = int({'eq': a == bb, 'ne': a != bb, 'gt': a > bb, 'ge': a >= bb, 'lt': a < bb, 'le': a <= bb}[p])
                elif op == 'unreachable':
                    raise Aborted('unreachable')
                elif op == 'fneg':
                    regs[x[1]] = -val(x[3], regs)
                else:
                    raise Unsupported('instruction %r' % (x[:2],))
            if nxt == '%merged%':
                continue
            pred = b
            b = nxt


# ---------------------------------------------------------------- runtime
def install_runtime(it):
    R = []

    def add(rx, f):
        R.append((re.compile(rx), f))

    def nop(it, a, m):
        return None

    def memcpy(it, a, m):
        if type(a[2]) is not int:
            raise Unsupported('memcpy with symbolic size')
        it.copy(a[0], a[1], a[2])
        return a[0]

    def memset(it, a, m):
        if type(a[2]) is not int or type(a[1]) is not int:
            raise Unsupported('memset symbolic')
        it.fill(a[0], a[1] & 255, a[2])
        return a[0]

    def new(it, a, m):
        if type(a[0]) is not int:
            raise Unsupported('allocation of symbolic size')
        return it.alloc(a[0], 'heap')

    def delete(it, a, m):
        if a[0] == 0:
            return None
        o = it.objs.get(a[0] >> 32)
        if o is None or o.freed or a[0] & 0xffffffff:
            raise MemError('invalid free')
        if it.undo is None:
            o.freed = True
        return None

    def throw(it, a, m):
        raise Thrown(m.group(0))

    def abort(it, a, m):
        raise Aborted(m.group(0))

    add(r'^llvm\.memcpy', memcpy)
    add(r'^llvm\.memmove', memcpy)
    add(r'^(memcpy|memmove)$', memcpy)
    add(r'^llvm\.memset|^memset$', memset)
    add(r'^_Znwm$|^_Znam$', new)
    add(r'^_ZdlPv|^_ZdaPv', delete)
    add(r'^llvm\.(lifetime|dbg|assume|stack|experimental|va_)', nop)
    add(r'^_ZSt\d+__throw|^__cxa_throw|^__cxa_rethrow|^_ZSt28__throw_bad_array_new_lengthv', throw)
    add(r'^__cxa_allocate_exception$', lambda it, a, m: it.alloc(a[0], 'exception'))
    add(r'^__cxa_free_exception$', nop)
    add(r'^(abort|exit|__assert_fail|_ZSt9terminatev|__clang_call_terminate|_ZSt21__glibcxx_assert_failPKciS0_S0_)$', abort)
    add(r'^__cxa_guard_acquire$', lambda it, a, m: 1)
    add(r'^__cxa_guard_release$|^__cxa_atexit$|^__cxa_guard_abort$', nop)
    add(r'^_ZSt\d+__is_constant_evaluatedv|^_ZSt21is_constant_evaluatedv', lambda it, a, m: 0)
    add(r'^llvm\.is\.constant', lambda it, a, m: 0)
    add(r'^llvm\.expect', lambda it, a, m: a[0])

    def ctlz(it, a, m):
        w = int(m.group(2))
        v = a[0]
        if type(v) is not int:
            return it.dom.intrinsic(m.group(1), w, a)
        if m.group(1) == 'ctlz':
            return w - v.bit_length()
        if m.group(1) == 'cttz':
            return (v & -v).bit_length() - 1 if v else w
        return bin(v).count('1')
    add(r'^llvm\.(ctlz|cttz|ctpop)\.i(\d+)$', ctlz)

    def minmax(it, a, m):
        w = int(m.group(2))
        x, y = a[0], a[1]
        k = m.group(1)
        p = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[k]
        c = it.icmp(p, w, x, y)
        if type(c) is int:
            return x if c else y
        return it.dom.ite(c, x, y, w)
    add(r'^llvm\.(umin|umax|smin|smax)\.i(\d+)$', minmax)

    def iabs(it, a, m):
        w = int(m.group(1))
        if type(a[0]) is not int:
            return it.dom.intrinsic('abs', w, a)
        return abs(sgn(a[0], w)) & MASK[w]
    add(r'^llvm\.abs\.i(\d+)$', iabs)

    def wovf(it, a, m):
        op = m.group(1)
        w = int(m.group(2))
        x, y = a[0], a[1]
        if type(x) is int and type(y) is int:
            if op[0] == 'u':
                r = {'uadd': x + y, 'usub': x - y, 'umul': x * y}[op]
                return [r & MASK[w], int(r != r & MASK[w])]
            xs, ys = sgn(x, w), sgn(y, w)
            r = {'sadd': xs + ys, 'ssub': xs - ys, 'smul': xs * ys}[op]
            return [r & MASK[w], int(sgn(r & MASK[w], w) != r)]
        return it.dom.intrinsic(op + '.ovf', w, a)
    add(r'^llvm\.(uadd|usub|umul|sadd|ssub|smul)\.with\.overflow\.i(\d+)$', wovf)
    add(r'^llvm\.x86\.(pclmulqdq)$', lambda it, a, m: it.dom.intrinsic('pclmulqdq', 64, a))
    it.runtime = R


def merge_branch(dom, it, fr, b, tb, fb, enter, leave, merge, nodecide=False, poison=False):
    """run both sides of a branch up to the join point and merge the memory
    cells and phi values that differ: merge(true value, false value, bits)"""
    join = fr.fn.ipdom.get(b)
    if join is None or join == '%exit%':
        raise Unsupported('symbolic branch without join')
    outer = it.undo
    sides = []
    for blk, pos in ((tb, True), (fb, False)):
        it.undo = []
        enter(pos)
        p0 = getattr(dom, 'pos', None)
        try:
            r = ('stop', b) if blk == join else it.blocks(fr, blk, b, join)
            if r[0] != 'stop':
                raise Unsupported('return inside a symbolic branch')
            if nodecide and dom.pos != p0:
                raise Unsupported('case distinction inside a symbolic branch')
            wr = {}
            for o, k, old in it.undo:
                wr[(o.id, k)] = o.cells.get(k, _MISSING)
            phis = {}
            for x in it.prep(fr.fn, join):
                if x[0] != 'phi':
                    break
                for v, pb in x[3]:
                    if pb == r[1]:
                        phis[x[1]] = it.val(v, fr.regs)
                        break
                else:
                    raise Unsupported('phi')
        finally:
            for o, k, old in reversed(it.undo):
                if old is _MISSING:
                    o.cells.pop(k, None)
                else:
                    o.cells[k] = old
            it.undo = outer
            leave()
        sides.append((wr, phis))
    (w1, p1), (w2, p2) = sides
    for key in list(dict.fromkeys(list(w1) + list(w2))):
        o = it.objs.get(key[0])
        if o is None:
            continue
        old = o.cells.get(key[1], _MISSING)
        a = w1.get(key, old)
        e = w2.get(key, old)
        if a is e:
            it._wr(o, key[1], a)
            continue
        if a is _MISSING or e is _MISSING:
            sz = (a if a is not _MISSING else e)[0]
            if o.base is None:
                # uninitialised on one side: dead unless read
                it._wr(o, key[1], (sz, Poison('value set on one of two merged paths only') if poison else UNDEF))
                continue
            bv = int.from_bytes(o.base[key[1]:key[1] + sz], 'little')
            a = (sz, bv) if a is _MISSING else a
            e = (sz, bv) if e is _MISSING else e
        if a[0] != e[0]:
            raise Unsupported('merge of differently sized cells')
        if poison and (a[1].__class__ is Poison or e[1].__class__ is Poison):
            v = a[1] if a[1].__class__ is Poison else e[1]
        elif poison and (a[1] is UNDEF) != (e[1] is UNDEF):
            v = Poison('value set on one of two merged paths only')
        else:
            try:
                v = merge(a[1], e[1], 8 * a[0])
            except Unsupported as x:
                if not poison:
                    raise
                v = Poison(str(x))
        it._wr(o, key[1], (a[0], v))
    if p1:
        def width(k):
            for x in it.prep(fr.fn, join):
                if x[0] == 'phi' and x[1] == k:
                    return x[2][1] if x[2][0] == 'i' else 64
            return 64
        it.phi_vals = {k: merge(p1[k], p2[k], width(k)) for k in p1}
        return ('goto', join, '%phi%')
    return ('goto', join, b)


class NullDomain:
    """all scalars concrete; opaque values only through contracts"""

    def split_abs(self, v, at, n):
        return None

    def join_abs(self, parts, size):
        return None

    def __getattr__(self, k):
        if k == 'it':
            raise AttributeError(k)

        def f(*a, **kw):
            raise Unsupported('symbolic %s in concrete domain' % k)
        return f
