"""Execution of the inline x86-64 assembly found in the IR (AT&T syntax, the
integer subset).  Every instruction is mapped onto five primitives of the
domain; flags are carried as values.  An instruction outside the subset makes
the obligation undecided."""
import re
from core import Unsupported, UNDEF, MemError

M64 = (1 << 64) - 1


class State:
    def __init__(self):
        self.r = {}
        self.cf = UNDEF
        self.cmp = None       # (a, b) of the last comparison-like instruction, or None
        self.zf = UNDEF


_prog = {}


def parse(text):
    if text in _prog:
        return _prog[text]
    t = re.sub(r'/\*.*?\*/', ' ', text, flags=re.S)
    ins, labels = [], {}
    for line in re.split(r'[\n;]', t):
        line = re.sub(r'//.*|#.*', '', line).strip()
        while True:
            m = re.match(r'([\w.$]+(?:\$\{:uid\})?):\s*', line)
            if not m:
                break
            labels[m.group(1)] = len(ins)
            line = line[m.end():]
        if not line:
            continue
        m = re.match(r'(\w+)\s*(.*)$', line)
        ops = [o.strip() for o in re.split(r',(?![^(]*\))', m.group(2))] if m.group(2) else []
        ins.append((m.group(1), ops))
    _prog[text] = (ins, labels)
    return _prog[text]


def _int(e):
    e = e.strip()
    if e == '':
        return 0
    if not re.match(r'^[-+*() 0-9xa-fA-F]+$', e):
        raise Unsupported('asm expression ' + e)
    return int(eval(e))      # digits, + - * ( ) only


def _num(constraints):
    parts = constraints.split(',')
    outs, ins = [], []
    for c in parts:
        if c.startswith('~'):
            continue
        if c.startswith('='):
            if '*' in c:
                raise Unsupported('asm constraint ' + c)
            outs.append(c)
        else:
            if not re.match(r'^(r|\d+|a|d)$', c):
                raise Unsupported('asm constraint ' + c)
            ins.append(c)
    return outs, ins


def execute(it, text, constraints, args, targs, rett):
    text = text.replace('\\0A', '\n').replace('\\09', '\t') if '\\0A' in text else text
    ins, labels = parse(text)
    outs, inc = _num(constraints)
    if len(inc) != len(args):
        raise Unsupported('asm operands')
    d = it.dom
    s = State()
    for k, a in enumerate(args):
        s.r['$%d' % (len(outs) + k)] = a
        if inc[k].isdigit():
            s.r['$' + inc[k]] = a

    def addr(o):
        m = re.match(r'^(.*)\((%\w+|\$\d+)\)$', o)
        if not m:
            return None
        b = s.r.get(m.group(2), UNDEF)
        if type(b) is not int:
            raise Unsupported('asm address register')
        return b + _int(m.group(1))

    def get(o):
        if o.startswith('$$'):
            return _int(o[2:]) & M64
        a = addr(o)
        if a is not None:
            return it.load(a, 8)
        v = s.r.get(o, UNDEF)
        return v

    def use(o):
        v = get(o)
        if v is UNDEF:
            raise MemError('assembly reads the uninitialised operand ' + o)
        return v

    def put(o, v):
        a = addr(o)
        if a is not None:
            it.store(a, 8, v)
        elif o.startswith('%') or o.startswith('$'):
            s.r[o] = v
        else:
            raise Unsupported('asm operand ' + o)

    pc = 0
    steps = 0
    while pc < len(ins):
        steps += 1
        if steps > 100000:
            raise Unsupported('asm step limit')
        op, o = ins[pc]
        pc += 1
        if op in ('movq', 'mov'):
            v = get(o[0])
            put(o[1], v)
        elif op in ('xorq', 'xor'):
            if o[0] == o[1]:
                put(o[1], 0)
                s.cf, s.zf, s.cmp = 0, 1, None
            else:
                a, b = use(o[0]), use(o[1])
                v = it.binop('xor', 64, a, b)
                put(o[1], v)
                s.cf, s.zf, s.cmp = 0, UNDEF, None
        elif op in ('addq', 'add', 'adcq', 'adc', 'subq', 'sub', 'sbbq', 'sbb'):
            b, a = use(o[0]), use(o[1])
            c = 0
            if op[:3] in ('adc', 'sbb'):
                c = s.cf
                if c is UNDEF:
                    raise MemError('assembly uses an undefined carry flag')
            if op[:3] in ('add', 'adc'):
                v, s.cf = d.addc(a, b, c)
                s.cmp = None
            else:
                v, s.cf = d.subb(a, b, c)
                s.cmp = (a, b) if op[:3] == 'sub' else None
            s.zf = UNDEF
            put(o[1], v)
        elif op in ('cmpq', 'cmp'):
            b, a = use(o[0]), use(o[1])
            s.cmp = (a, b)
            s.cf = UNDEF
            s.zf = UNDEF
        elif op in ('mulq', 'mul'):
            a, b = use('%rax'), use(o[0])
            lo, hi = d.mulw(a, b)
            s.r['%rax'], s.r['%rdx'] = lo, hi
            s.cf, s.zf, s.cmp = UNDEF, UNDEF, None
        elif op == 'jmp':
            pc = labels[o[0]]
        elif op in ('jb', 'jc', 'jnae', 'jae', 'jnc', 'jnb', 'ja', 'jnbe', 'jbe', 'jna', 'je', 'jz', 'jne', 'jnz'):
            if op in ('jb', 'jc', 'jnae', 'jae', 'jnc', 'jnb'):
                if s.cmp is not None and s.cf is UNDEF:
                    t = d.less(s.cmp[0], s.cmp[1])
                elif s.cf is UNDEF:
                    raise MemError('assembly branches on an undefined flag')
                else:
                    t = d.nonzero(s.cf)
                if op in ('jae', 'jnc', 'jnb'):
                    t = not t
            elif s.cmp is None:
                if s.zf is UNDEF:
                    raise Unsupported('asm flags')
                t = {'ja': not s.zf and not s.cf, 'jbe': s.zf or s.cf, 'je': s.zf, 'jz': s.zf, 'jne': not s.zf, 'jnz': not s.zf}[op]
            elif op in ('ja', 'jnbe'):
                t = d.less(s.cmp[1], s.cmp[0])
            elif op in ('jbe', 'jna'):
                t = not d.less(s.cmp[1], s.cmp[0])
            else:
                t = d.equal(s.cmp[0], s.cmp[1]) == (op in ('je', 'jz'))
            if t:
                if o[0] not in labels:
                    raise Unsupported('asm label ' + o[0])
                pc = labels[o[0]]
        elif op == 'nop':
            pass
        else:
            raise Unsupported('instruction ' + op)
    r = [s.r.get('$%d' % k, UNDEF) for k in range(len(outs))]
    if not outs:
        return None
    return r if len(outs) > 1 else r[0]
