"""Parser for the textual LLVM IR (clang 18, -O0) of the real libff code.

Nothing here knows about libff.  The IR is produced on every run from the
working tree of /repo by build.py.
"""
import re, subprocess

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%"(?:[^"\\]|\\.)*"|%[-a-zA-Z$._0-9]+)
 | (?P<glo>@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+)
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?|0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*:|])
 | (?P<ws>\s+)
 | (?P<cmt>;.*)
''', re.X)


class IRError(Exception):
    pass


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            raise IRError('tokenize: %r' % s[pos:pos + 60])
        k = m.lastgroup
        pos = m.end()
        if k == 'ws':
            continue
        if k == 'cmt':
            break
        out.append((k, m.group()))
    return out


def unq(name):
    # %"foo" -> %foo
    if len(name) > 1 and name[1] == '"':
        return name[0] + name[2:-1]
    return name


PARAM_ATTRS = set('''noundef nonnull noalias nocapture readonly writeonly readnone signext zeroext
 inreg returned immarg nofree swiftself nest noreturn nounwind writable dead_on_unwind allocalign allocptr'''.split())
PARAM_ATTRS_ARG = set('align dereferenceable dereferenceable_or_null sret byval byref elementtype range initializes captures preallocated inalloca'.split())


class P:
    """token cursor"""
    __slots__ = ('t', 'i', 'mod')

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self):
        return self.t[self.i][1] if self.i < len(self.t) else None

    def peekk(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        r = self.t[self.i][1]
        self.i += 1
        return r

    def accept(self, w):
        if self.i < len(self.t) and self.t[self.i][1] == w:
            self.i += 1
            return True
        return False

    def expect(self, w):
        if not self.accept(w):
            raise IRError('expected %r got %r in %r' % (w, self.peek(), ' '.join(x[1] for x in self.t)[:300]))

    def type(self):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'word':
            if v[0] == 'i' and v[1:].isdigit():
                ty = ('i', int(v[1:]))
            elif v == 'ptr':
                ty = ('ptr',)
                if self.peek() == 'addrspace':
                    raise IRError('addrspace')
            elif v in ('void', 'float', 'double', 'x86_fp80', 'label', 'metadata', 'token'):
                ty = (v,)
            else:
                raise IRError('type %r' % v)
        elif k == 'loc':
            ty = ('named', unq(v)[1:])
        elif v == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            ty = ('array', n, e)
        elif v == '<':
            if self.peek() == '{':
                self.next()
                el = self._tlist('}')
                self.expect('>')
                ty = ('struct', tuple(el), True)
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                ty = ('vec', n, e)
        elif v == '{':
            ty = ('struct', tuple(self._tlist('}')), False)
        else:
            raise IRError('type? %r' % v)
        # function type suffix, e.g. i32 (ptr, ...)
        while self.peek() == '(' and self.mod.allow_fnty:
            depth = 0
            while True:
                x = self.next()
                if x == '(':
                    depth += 1
                elif x == ')':
                    depth -= 1
                    if depth == 0:
                        break
            ty = ('fn', ty)
        return ty

    def _tlist(self, end):
        el = []
        if self.accept(end):
            return el
        while True:
            el.append(self.type())
            if self.accept(end):
                return el
            self.expect(',')

    def skip_attrs(self):
        while self.i < len(self.t):
            k, v = self.t[self.i]
            if k == 'attr':
                self.i += 1
            elif v in PARAM_ATTRS:
                self.i += 1
            elif v in PARAM_ATTRS_ARG:
                self.i += 1
                if v == 'align' and self.peekk() == 'num':
                    self.i += 1
                elif self.peek() == '(':
                    self._skip_paren()
            else:
                break

    def _skip_paren(self):
        depth = 0
        while True:
            x = self.next()
            if x == '(':
                depth += 1
            elif x == ')':
                depth -= 1
                if depth == 0:
                    return

    def value(self, ty):
        """operand of known type ->
           ('c', int) | ('r', name) | ('g', name) | ('undef',) | ('zero',ty) | ('agg', ty, [..]) | ('ce', op, ...)"""
        k, v = self.t[self.i]
        self.i += 1
        if k == 'loc':
            return ('r', unq(v)[1:])
        if k == 'glo':
            return ('g', unq(v)[1:])
        if k == 'num':
            if ty[0] == 'i':
                return ('c', int(v) & ((1 << ty[1]) - 1))
            return ('f', v)
        if k == 'str':
            body = v[2:-1]
            return ('bytes', unescape(body))
        if v == 'true':
            return ('c', 1)
        if v == 'false':
            return ('c', 0)
        if v == 'null':
            return ('c', 0)
        if v in ('undef', 'poison'):
            return ('undef',)
        if v == 'zeroinitializer':
            return ('zero', ty)
        if v in ('[', '{', '<'):
            if v == '<' and self.peek() == '{':
                self.next()
                r = self._vlist('}')
                self.expect('>')
                return ('agg', ty, r)
            end = {'[': ']', '{': '}', '<': '>'}[v]
            return ('agg', ty, self._vlist(end))
        if v == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                self.next()
                if self.peek() == '(' and self.t[self.i - 1][1] == 'inrange':
                    self._skip_paren()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            ops = []
            while True:
                if self.peek() == 'inrange':
                    self.next()
                t = self.type()
                ops.append((t, self.value(t)))
                if self.accept(')'):
                    break
                self.expect(',')
            return ('ce', 'gep', bt, ops)
        if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
            self.expect('(')
            t = self.type()
            x = self.value(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('ce', 'cast', v, t, x, t2)
        if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr'):
            while self.peek() in ('nuw', 'nsw'):
                self.next()
            self.expect('(')
            t = self.type()
            a = self.value(t)
            self.expect(',')
            t = self.type()
            b = self.value(t)
            self.expect(')')
            return ('ce', 'bin', v, t, a, b)
        if v == 'asm':
            flags = []
            while self.peekk() == 'word':
                flags.append(self.next())
            s = self.next()[1:-1]
            self.expect(',')
            c = self.next()[1:-1]
            return ('asm', unescape(s).decode('latin1'), c)
        if v == 'blockaddress' or v == 'no_cfi' or v == 'dso_local_equivalent':
            raise IRError('unsupported constant ' + v)
        raise IRError('value %r (%r)' % (v, ty))

    def _vlist(self, end):
        r = []
        if self.accept(end):
            return r
        while True:
            t = self.type()
            r.append((t, self.value(t)))
            if self.accept(end):
                return r
            self.expect(',')

    def tv(self):
        t = self.type()
        self.skip_attrs()
        return (t, self.value(t))


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        ch = s[i]
        if ch == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += ch.encode('latin1') if ord(ch) < 256 else ch.encode()
            i += 1
    return bytes(out)


class Function:
    __slots__ = ('name', 'module', 'lines', 'header', 'params', 'rettype', '_blocks', 'entry', '_ipdom', 'sret', 'srcfile')

    def __init__(self, name, module, header, lines):
        self.name = name
        self.module = module
        self.header = header
        self.lines = lines
        self._blocks = None
        self._ipdom = None
        self._parse_header()

    def _parse_header(self):
        m = self.module
        h = self.header
        # cut after name
        idx = h.index('@' + self.name + '(') if ('@' + self.name + '(') in h else h.index('@"' + self.name + '"(')
        pre = h[:idx]
        toks = tokenize(h[h.index('(', idx):])
        # return type: last type in pre
        pt = tokenize(pre)
        # strip leading linkage words
        words = []
        i = 0
        while i < len(pt):
            k, v = pt[i]
            if k == 'word' and (v in PARAM_ATTRS or v in ('define', 'linkonce_odr', 'dso_local', 'internal', 'weak_odr', 'hidden', 'noundef',
                                'available_externally', 'private', 'external', 'weak', 'fastcc', 'local_unnamed_addr', 'protected')):
                i += 1
            elif v in PARAM_ATTRS_ARG:
                i += 1
                if pt[i][0] == 'num':
                    i += 1
                elif pt[i][1] == '(':
                    while pt[i][1] != ')':
                        i += 1
                    i += 1
            else:
                break
        self.rettype = P(pt[i:], m).type()
        p = P(toks, m)
        p.expect('(')
        self.params = []
        self.sret = False
        n = 0
        if not p.accept(')'):
            while True:
                if p.peek() == '...':
                    p.next()
                    p.expect(')')
                    break
                t = p.type()
                st = p.i
                p.skip_attrs()
                if any(x[1] == 'sret' for x in p.t[st:p.i]):
                    self.sret = True
                byval = None
                for q in range(st, p.i):
                    if p.t[q][1] == 'byval':
                        pp = P(p.t[q + 2:], m)
                        byval = pp.type()
                nm = str(n)
                if p.peekk() == 'loc':
                    nm = unq(p.next())[1:]
                self.params.append((t, nm, byval))
                n += 1
                if p.accept(')'):
                    break
                p.expect(',')

    @property
    def blocks(self):
        if self._blocks is None:
            self._parse_body()
        return self._blocks

    def _parse_body(self):
        blocks = {}
        cur = None
        curname = None
        mod = self.module
        # implicit entry label number = number of unnamed params
        self.entry = None
        pend = None
        lines = self.lines
        i = 0
        # join continued lines (switch, invoke, landingpad)
        joined = []
        while i < len(lines):
            l = lines[i]
            s = l.strip()
            if s.startswith('switch') and s.endswith('['):
                while not lines[i].strip().startswith(']'):
                    i += 1
                    s += ' ' + lines[i].strip()
            elif ' invoke ' in (' ' + s) and 'unwind label' not in s:
                i += 1
                s += ' ' + lines[i].strip()
            elif ' landingpad ' in (' ' + s):
                while i + 1 < len(lines) and re.match(r'\s*(cleanup|catch|filter)\b', lines[i + 1]):
                    i += 1
                    s += ' ' + lines[i].strip()
            joined.append(s)
            i += 1
        for s in joined:
            if not s or s[0] == ';':
                continue
            mlab = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', s)
            if mlab:
                nm = mlab.group(1)
                if nm[0] == '"':
                    nm = nm[1:-1]
                cur = []
                blocks[nm] = cur
                if self.entry is None:
                    self.entry = nm
                continue
            if cur is None:
                nm = '%entry%'
                cur = []
                blocks[nm] = cur
                self.entry = nm
            cur.append(parse_instr(s, mod))
        self._blocks = blocks

    def succs(self, b):
        t = self.blocks[b][-1]
        op = t[0]
        if op == 'br':
            return [t[1]]
        if op == 'condbr':
            return [t[2], t[3]]
        if op == 'switch':
            return [t[3]] + [x[1] for x in t[4]]
        if op == 'invoke':
            return [t[6]]      # normal dest only: unwinding ends the path
        return []

    @property
    def ipdom(self):
        """immediate post-dominators, '%exit%' as the virtual exit; blocks that
        end in unreachable/resume do not count as reaching the exit"""
        if self._ipdom is None:
            bl = list(self.blocks)
            succ = {b: [] for b in bl}
            for b in bl:
                t = self.blocks[b][-1][0]
                succ[b] = ['%exit%'] if t == 'ret' else list(dict.fromkeys(self.succs(b)))
            # only blocks reaching exit
            reach = {'%exit%'}
            ch = True
            while ch:
                ch = False
                for b in bl:
                    if b not in reach and any(s in reach for s in succ[b]):
                        reach.add(b)
                        ch = True
            nodes = [b for b in bl if b in reach]
            full = set(nodes) | {'%exit%'}
            pd = {b: set(full) for b in nodes}
            pd['%exit%'] = {'%exit%'}
            ch = True
            while ch:
                ch = False
                for b in reversed(nodes):
                    ss = [pd[s] for s in succ[b] if s in reach]
                    new = set.intersection(*ss) | {b} if ss else {b}
                    if new != pd[b]:
                        pd[b] = new
                        ch = True
            ip = {}
            for b in nodes:
                c = pd[b] - {b}
                # the immediate one is the one post-dominated by all others
                best = None
                for x in c:
                    if all((y in pd[x]) for y in c):
                        best = x
                        break
                ip[b] = best
            self._ipdom = ip
        return self._ipdom


BIN = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CAST = set('zext sext trunc ptrtoint inttoptr bitcast uitofp sitofp fptoui fptosi fpext fptrunc'.split())


def parse_call(p):
    # after 'call'/'invoke' keyword
    while p.peek() in ('fastcc', 'ccc', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'):
        p.next()
    p.skip_attrs()
    rt = p.type()
    # optional function type "(...)": e.g. call i32 (ptr, ...) @printf(
    if p.peek() == '(':
        p._skip_paren()
    callee = p.value(('ptr',))
    p.expect('(')
    args = []
    if not p.accept(')'):
        while True:
            t = p.type()
            if t[0] == 'metadata':
                # skip
                d = 0
                while not (d == 0 and p.peek() in (',', ')')):
                    x = p.next()
                    if x in '([{':
                        d += 1
                    elif x in ')]}':
                        d -= 1
                args.append((t, ('undef',)))
            else:
                st = p.i
                p.skip_attrs()
                byval = None
                for q in range(st, p.i):
                    if p.t[q][1] == 'byval':
                        byval = P(p.t[q + 2:], p.mod).type()
                args.append((t, p.value(t)) if byval is None else (('byval', byval), p.value(t)))
            if p.accept(')'):
                break
            p.expect(',')
    return rt, callee, args


def parse_instr(s, mod):
    toks = tokenize(s)
    p = P(toks, mod)
    dst = None
    if len(toks) > 1 and toks[0][0] == 'loc' and toks[1][1] == '=':
        dst = unq(toks[0][1])[1:]
        p.i = 2
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op == 'call':
        rt, callee, args = parse_call(p)
        return ('call', dst, rt, callee, args)
    if op == 'invoke':
        rt, callee, args = parse_call(p)
        p.skip_attrs()
        p.expect('to')
        p.expect('label')
        n = unq(p.next())[1:]
        p.expect('unwind')
        p.expect('label')
        u = unq(p.next())[1:]
        return ('invoke', dst, rt, callee, args, None, n, u)
    if op == 'load':
        if p.accept('atomic'):
            pass
        p.accept('volatile')
        t = p.type()
        p.expect(',')
        _, ptr = p.tv()
        return ('load', dst, t, ptr)
    if op == 'store':
        p.accept('atomic')
        p.accept('volatile')
        t, v = p.tv()
        p.expect(',')
        _, ptr = p.tv()
        return ('store', t, v, ptr)
    if op == 'alloca':
        p.accept('inalloca')
        t = p.type()
        cnt = None
        if p.accept(','):
            if p.peek() != 'align':
                cnt = p.tv()
        return ('alloca', dst, t, cnt)
    if op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        bt = p.type()
        p.expect(',')
        ops = [p.tv()]
        while p.accept(','):
            ops.append(p.tv())
        return ('gep', dst, bt, ops)
    if op in BIN:
        while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
            p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return ('bin', dst, op, t, a, b)
    if op in ('icmp', 'fcmp'):
        while p.peek() in ('fast', 'nnan', 'ninf', 'samesign'):
            p.next()
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return (op, dst, pred, t, a, b)
    if op in CAST:
        p.accept('nneg')
        t = p.type()
        v = p.value(t)
        p.expect('to')
        t2 = p.type()
        return ('cast', dst, op, t, v, t2)
    if op == 'br':
        if p.accept('label'):
            return ('br', unq(p.next())[1:])
        t = p.type()
        c = p.value(t)
        p.expect(',')
        p.expect('label')
        a = unq(p.next())[1:]
        p.expect(',')
        p.expect('label')
        b = unq(p.next())[1:]
        return ('condbr', c, a, b)
    if op == 'switch':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.expect('label')
        d = unq(p.next())[1:]
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = p.type()
            cv = p.value(ct)
            p.expect(',')
            p.expect('label')
            cases.append((cv[1], unq(p.next())[1:]))
        return ('switch', t, v, d, cases)
    if op == 'ret':
        t = p.type()
        if t[0] == 'void':
            return ('ret', None, None)
        return ('ret', t, p.value(t))
    if op == 'phi':
        while p.peek() in ('fast', 'nnan'):
            p.next()
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            b = unq(p.next())[1:]
            p.expect(']')
            inc.append((v, b))
            if not p.accept(','):
                break
        return ('phi', dst, t, inc)
    if op == 'select':
        ct, c = p.tv()
        p.expect(',')
        t, a = p.tv()
        p.expect(',')
        _, b = p.tv()
        return ('select', dst, t, c, a, b, ct)
    if op == 'extractvalue':
        t, v = p.tv()
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return ('extractvalue', dst, t, v, idx)
    if op == 'insertvalue':
        t, v = p.tv()
        p.expect(',')
        t2, v2 = p.tv()
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return ('insertvalue', dst, t, v, t2, v2, idx)
    if op == 'extractelement':
        t, v = p.tv()
        p.expect(',')
        t2, i = p.tv()
        return ('extractelement', dst, t, v, i)
    if op == 'insertelement':
        t, v = p.tv()
        p.expect(',')
        t2, e = p.tv()
        p.expect(',')
        _, i = p.tv()
        return ('insertelement', dst, t, v, e, i)
    if op == 'shufflevector':
        t, a = p.tv()
        p.expect(',')
        t1, b = p.tv()
        p.expect(',')
        t2, m = p.tv()
        return ('shufflevector', dst, t, a, b, t2, m)
    if op == 'unreachable':
        return ('unreachable',)
    if op == 'landingpad':
        return ('landingpad', dst)
    if op == 'resume':
        return ('resume',)
    if op == 'freeze':
        t, v = p.tv()
        return ('cast', dst, 'bitcast', t, v, t)
    if op == 'fneg':
        t, v = p.tv()
        return ('fneg', dst, t, v)
    if op == 'va_arg' or op == 'fence':
        return ('unsupported', op)
    return ('unsupported', op, s)


class Module:
    """Several .ll files merged (linkonce duplicates collapse by name)."""
    allow_fnty = False

    def __init__(self):
        self.functions = {}
        self.types = {}
        self.globals = {}
        self.aliases = {}     # name -> (type, init | None, const)
        self.declared = set()
        self._dem = {}
        self._lay = {}

    def load(self, path, tag=''):
        ren = {}
        with open(path, encoding='latin1') as f:
            lines = f.read().split('\n')
        i = 0
        n = len(lines)
        localtypes = {}
        while i < n:
            l = lines[i]
            if l.startswith('define'):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', l)
                name = m.group(1)
                if name[0] == '"':
                    name = name[1:-1]
                j = i + 1
                while lines[j] != '}':
                    j += 1
                internal = ' internal ' in l.split('@')[0]
                if name not in self.functions:
                    fn = Function(name, self, l, lines[i + 1:j])
                    fn.srcfile = path
                    self.functions[name] = fn
                elif internal and self.functions[name].lines != lines[i + 1:j]:
                    pass
                i = j
            elif l.startswith('%') and ' = type ' in l:
                m = re.match(r'^(%"(?:[^"\\]|\\.)*"|%[-a-zA-Z$._0-9]+) = type (.*)$', l)
                nm = unq(m.group(1))[1:]
                if m.group(2).strip() == 'opaque':
                    t = ('struct', (), False)
                else:
                    t = P(tokenize(m.group(2)), self).type()
                if nm in self.types and self.types[nm] != t:
                    if not (self.types[nm][0] == 'struct' and len(self.types[nm][1]) == 0):
                        if not (t[0] == 'struct' and len(t[1]) == 0):
                            raise IRError('type clash %s' % nm)
                        i += 1
                        continue
                self.types[nm] = t
            elif l.startswith('@'):
                m = re.match(r'^@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) = (.*)$', l)
                if m:
                    nm = m.group(1)
                    if nm[0] == '"':
                        nm = nm[1:-1]
                    ma = re.search(r' alias .*, ptr @("[^"]*"|[-a-zA-Z$._0-9]+)$', m.group(2))
                    if ma:
                        self.aliases[nm] = ma.group(1).strip('"')
                        i += 1
                        continue
                    if nm not in self.globals or self.globals[nm][0] == 'ext':
                        rest = m.group(2)
                        w = rest.split(' ')
                        if nm.startswith('.str') or ' private ' in (' ' + rest):
                            pass
                        ext = w[0] == 'external' or ' external ' in rest[:40]
                        self.globals[nm] = ('ext' if ext else 'def', rest, path)
                    if nm.startswith('.str') or rest_private(m.group(2)):
                        self.globals[(path, nm)] = ('def', m.group(2), path)
            elif l.startswith('declare'):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', l)
                if m:
                    self.declared.add(m.group(1).strip('"'))
            i += 1

    def demangle_all(self):
        names = sorted(set(self.functions) | self.declared)
        todo = [x for x in names if x not in self._dem]
        if todo:
            r = subprocess.run(['c++filt'], input='\n'.join(todo) + '\n', capture_output=True, text=True)
            for a, b in zip(todo, r.stdout.split('\n')):
                # reference-typed template arguments are printed with a cast when the mangling spells the type out
                self._dem[a] = re.sub(r'\(libff::bigint<\d+l?> const&\)(?=libff::\w)', '', b)
        return self._dem

    def dem(self, name):
        if name not in self._dem:
            self.demangle_all()
        return self._dem.get(name, name)

    def find_global(self, dem):
        if not hasattr(self, '_gdem'):
            names = [x for x in self.globals if isinstance(x, str)]
            r = subprocess.run(['c++filt'], input='\n'.join(names) + '\n', capture_output=True, text=True)
            self._gdem = dict(zip(r.stdout.split('\n'), names))
        return self._gdem.get(dem)

    def find(self, dem_regex):
        rx = re.compile(dem_regex)
        self.demangle_all()
        return [n for n in self.functions if rx.search(self._dem[n])]

    # ---- layout
    def layout(self, t):
        r = self._lay.get(t)
        if r is None:
            r = self._layout(t)
            self._lay[t] = r
        return r

    def _layout(self, t):
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            a = 1
            while a < n:
                a *= 2
            if t[1] == 128:
                return (16, 16)
            return (a if n <= 8 else n, min(a, 16))
        if k == 'ptr':
            return (8, 8)
        if k == 'double':
            return (8, 8)
        if k == 'float':
            return (4, 4)
        if k == 'x86_fp80':
            return (16, 16)
        if k == 'named':
            return self.layout(self.types[t[1]])
        if k == 'array':
            s, a = self.layout(t[2])
            return (s * t[1], a)
        if k == 'vec':
            s, a = self.layout(t[2])
            return (s * t[1], max(s * t[1], 1))
        if k == 'struct':
            off = 0
            al = 1
            for e in t[1]:
                s, a = self.layout(e)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a
                off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            return (off, al)
        raise IRError('layout %r' % (t,))

    def sizeof(self, t):
        return self.layout(t)[0]

    def field_off(self, t, i):
        t = self.resolve(t)
        off = 0
        for j, e in enumerate(t[1]):
            s, a = self.layout(e)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off, e
            off += s
        raise IRError('field')

    def resolve(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t


def rest_private(rest):
    return rest.startswith('private') or rest.startswith('internal')
