"""Parser for the textual LLVM IR (clang 18, opaque pointers) of the code under
test.  Functions are parsed lazily, one list of decoded instructions per block."""
import re
import struct

TOK = re.compile(r'''
    c"(?:[^"\\]|\\.)*" | [%@]"[^"]*" | [%@][\w.$\-]+ | "[^"]*" | ![\w.]* | \#\d+ |
    0x[KMLHR]?[0-9A-Fa-f]+ | -?\d+\.\d+(?:e[+-]?\d+)? | -?\d+ | \.\.\. | [A-Za-z_][\w.]* | [()\[\]{}<>,=*:|]
''', re.X)


class Ty:
    __slots__ = ('k', 'n', 'e', 'size', 'align', 'offs')

    def __init__(self, k, n=None, e=None):
        self.k, self.n, self.e = k, n, e
        self.size = self.align = self.offs = None

    def __repr__(self):
        return f'{self.k}{self.n or ""}{self.e or ""}'


def layout(t):
    if t.size is not None:
        return t
    k = t.k
    if k == 'i':
        b = max(1, (t.n + 7) // 8)
        s = 1
        while s < b:
            s *= 2
        t.size, t.align = s, min(s, 16)
    elif k == 'float':
        t.size = t.align = 4
    elif k in ('double', 'ptr'):
        t.size = t.align = 8
    elif k in ('x86_fp80', 'fp128'):
        t.size = t.align = 16
    elif k in ('arr', 'vec'):
        layout(t.e)
        t.size, t.align = t.n * t.e.size, t.e.align
    elif k == 'struct':
        off, al, offs = 0, 1, []
        for e in t.e:
            layout(e)
            a = 1 if t.n else e.align
            off = (off + a - 1) // a * a
            offs.append(off)
            off += e.size
            al = max(al, a)
        t.offs, t.align = offs, al
        t.size = (off + al - 1) // al * al
    elif k in ('void', 'label', 'metadata', 'token', 'func'):
        t.size, t.align = 0, 1
    elif k == 'opaque':
        t.size, t.align = 0, 1
    else:
        raise ValueError(f'layout {t}')
    return t


INTS = {}
for _n in (1, 8, 16, 32, 64, 128):
    INTS[_n] = layout(Ty('i', _n))
DOUBLE, FLOAT, PTR, VOID = (layout(Ty(k)) for k in ('double', 'float', 'ptr', 'void'))

SIMPLE = {'double': DOUBLE, 'float': FLOAT, 'ptr': PTR, 'void': VOID, 'label': Ty('label'),
          'metadata': Ty('metadata'), 'opaque': Ty('opaque'), 'x86_fp80': Ty('x86_fp80'), 'token': Ty('token')}


class P:
    """token cursor"""
    __slots__ = ('t', 'i', 'm')

    def __init__(self, text, mod):
        self.t = TOK.findall(text)
        self.i = 0
        self.m = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        if not self.eat(x):
            raise ValueError(f'expected {x}, got {self.t[self.i:self.i+6]} in {" ".join(self.t[:40])}')

    def skip_parens(self):
        d = 0
        while True:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1
                if d == 0:
                    return

    # ------------------------------------------------------------- types
    def is_type(self):
        x = self.peek()
        return x in SIMPLE or re.fullmatch(r'i\d+', x or '') or x in ('{', '[', '<') or (x or '').startswith('%')

    def type(self):
        x = self.next()
        if x in SIMPLE:
            t = SIMPLE[x]
            if x == 'ptr' and self.peek() == 'addrspace':
                self.next()
                self.skip_parens()
        elif x[0] == 'i' and x[1:].isdigit():
            n = int(x[1:])
            t = INTS.get(n) or INTS.setdefault(n, layout(Ty('i', n)))
        elif x == '[':
            n = int(self.next())
            self.need('x')
            t = Ty('arr', n, self.type())
            self.need(']')
        elif x == '{':
            t = self._struct('}', False)
        elif x == '<':
            if self.peek() == '{':
                self.next()
                t = self._struct('}', True)
                self.need('>')
            else:
                n = int(self.next())
                self.need('x')
                t = Ty('vec', n, self.type())
                self.need('>')
        elif x.startswith('%'):
            t = self.m.named_type(x)
        else:
            raise ValueError(f'type {x}')
        # function type
        while self.peek() == '(':
            self.skip_parens()
            t = Ty('func', None, t)
        return t

    def _struct(self, end, packed):
        es = []
        if not self.eat(end):
            while True:
                es.append(self.type())
                if self.eat(end):
                    break
                self.need(',')
        return Ty('struct', packed, es)

    # ---------------------------------------------------------- operands
    # operand encodings: ('l', name) | ('c', value) | ('g', name) | ('z',) zero | ('u',) undef
    #                    ('agg', [ops]) | ('str', bytes) | ('gep', ty, base, [(ty, op)]) | ('cast', op, fromty, toty)
    def value(self, ty):
        x = self.peek()
        if x[0] == '%':
            self.i += 1
            return ('l', x)
        if x[0] == '@':
            self.i += 1
            return ('g', x)
        if x in ('zeroinitializer', 'null', 'none'):
            self.i += 1
            return ('z',)
        if x in ('undef', 'poison'):
            self.i += 1
            return ('u',)
        if x == 'true':
            self.i += 1
            return ('c', True)
        if x == 'false':
            self.i += 1
            return ('c', False)
        if x.startswith('c"'):
            self.i += 1
            return ('str', unesc(x[2:-1]))
        if ty.k == 'i' and re.fullmatch(r'-?\d+', x):
            self.i += 1
            v = int(x)
            if ty.n == 1:
                return ('c', bool(v))
            m = 1 << ty.n
            v %= m
            if v >= m >> 1:
                v -= m
            return ('c', v)
        if ty.k in ('double', 'float'):
            self.i += 1
            return ('c', fconst(x))
        if x in ('{', '[', '<'):
            self.i += 1
            if x == '<' and self.peek() == '{':
                self.i += 1
                end = ['}', '>']
            else:
                end = [{'{': '}', '[': ']', '<': '>'}[x]]
            ops = []
            if self.peek() != end[0]:
                while True:
                    t = self.type()
                    ops.append((t, self.value(t)))
                    if not self.eat(','):
                        break
            for e in end:
                self.need(e)
            return ('agg', ops)
        if x == 'getelementptr':
            self.i += 1
            while self.peek() != '(':
                self.i += 1
                if self.peek(-1) == 'inrange':
                    self.skip_parens()
            self.need('(')
            t = self.type()
            self.need(',')
            bt = self.type()
            b = self.value(bt)
            ix = []
            while self.eat(','):
                self.eat('inrange')
                it = self.type()
                ix.append((it, self.value(it)))
            self.need(')')
            return ('gep', t, b, ix)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.i += 1
            self.need('(')
            ft = self.type()
            o = self.value(ft)
            self.need('to')
            tt = self.type()
            self.need(')')
            return ('cast', x, o, ft, tt)
        if x in ('sub', 'add', 'mul'):
            self.i += 1
            while self.peek() != '(':
                self.i += 1
            self.need('(')
            t1 = self.type()
            a = self.value(t1)
            self.need(',')
            t2 = self.type()
            b = self.value(t2)
            self.need(')')
            return ('cbin', x, t1, a, b)
        if x == 'blockaddress':
            raise ValueError('blockaddress')
        raise ValueError(f'operand {self.t[self.i:self.i+5]} of type {ty}')

    def tv(self):
        t = self.type()
        return t, self.value(t)


def unesc(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
                continue
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def fconst(x):
    if x.startswith('0x'):
        return struct.unpack('>d', bytes.fromhex(x[2:].zfill(16)))[0]
    return float(x)


ATTRW = {'noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone',
         'inreg', 'returned', 'immarg', 'noalias', 'nofree', 'nest', 'swiftself', 'allocalign', 'allocptr', 'writable',
         'dead_on_unwind', 'range', 'noext'}
ATTRP = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'inalloca', 'preallocated',
         'elementtype', 'captures', 'initializes', 'nofpclass', 'range'}


def skip_attrs(p):
    while True:
        x = p.peek()
        if x in ATTRP:
            p.next()
            if p.peek() == '(':
                p.skip_parens()
            elif x == 'align':
                p.next()
        elif x in ATTRW:
            p.next()
        else:
            return


FAST = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}
FLAGS = {'nsw', 'nuw', 'exact', 'disjoint', 'nneg', 'inbounds', 'nusw', 'samesign'} | FAST
BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint',
        'inttoptr', 'bitcast', 'addrspacecast'}
CC = {'fastcc', 'ccc', 'coldcc', 'tailcc'}


class Instr:
    __slots__ = ('op', 'd', 'a', 'ty', 'fl', 'txt')

    def __init__(self, op, d, a, ty, fl, txt):
        self.op, self.d, self.a, self.ty, self.fl, self.txt = op, d, a, ty, fl, txt


class Func:
    __slots__ = ('name', 'params', 'ret', 'lines', 'blocks', 'order', 'phis', 'text', 'variadic')

    def parse(self, mod):
        if self.blocks is not None:
            return self
        blocks, order, cur = {}, [], None
        nparams = len(self.params)
        entry = None
        lines = self.lines
        i = 0
        while i < len(lines):
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s or s.startswith(';'):
                continue
            if not ln.startswith(' '):
                m = re.match(r'("[^"]*"|[\w.$\-]+):', s)
                if m:
                    nm = m.group(1)
                    cur = '%' + nm
                    blocks[cur] = []
                    order.append(cur)
                    continue
            if cur is None:
                # implicit entry label
                cur = '%' + self._implicit(nparams)
                blocks[cur] = []
                order.append(cur)
            # multi-line constructs
            if s.startswith('switch') or ' = landingpad' in s or s.startswith('invoke') or ' = invoke' in s:
                while i < len(lines):
                    nx = lines[i].strip()
                    if s.startswith('switch'):
                        s += ' ' + nx
                        i += 1
                        if nx.startswith(']'):
                            break
                    elif ' = landingpad' in s:
                        if re.match(r'(catch|cleanup|filter)\b', nx):
                            s += ' ' + nx
                            i += 1
                        else:
                            break
                    else:
                        if nx.startswith('to label'):
                            s += ' ' + nx
                            i += 1
                        break
            blocks[cur].append(parse_instr(s, mod))
        self.blocks, self.order = blocks, order
        return self

    def _implicit(self, n):
        # numbered unnamed params come first
        k = sum(1 for (_, nm) in self.params if nm is None or re.fullmatch(r'%\d+', nm))
        return str(k)


def strip_md(s):
    # drop trailing metadata attachments and comments
    i = s.find(', !')
    if i >= 0 and '"' not in s[i:]:
        s = s[:i]
    return s


def parse_instr(s, mod):
    s = strip_md(s)
    p = P(s, mod)
    d = None
    if p.peek(1) == '=' and p.peek()[0] == '%':
        d = p.next()
        p.next()
    op = p.next()
    fl = set()

    def flags():
        while p.peek() in FLAGS:
            fl.add(p.next())
            if p.peek() == '(':
                p.skip_parens()
    if op in BIN:
        flags()
        t = p.type()
        a = p.value(t)
        p.need(',')
        b = p.value(t)
        return Instr(op, d, (a, b), t, fl, s)
    if op == 'fneg':
        flags()
        t, a = p.tv()
        return Instr(op, d, (a,), t, fl, s)
    if op in ('icmp', 'fcmp'):
        flags()
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.need(',')
        b = p.value(t)
        return Instr(op, d, (pred, a, b), t, fl, s)
    if op in CAST:
        flags()
        t, a = p.tv()
        p.need('to')
        t2 = p.type()
        return Instr(op, d, (a, t), t2, fl, s)
    if op == 'load':
        p.eat('atomic')
        p.eat('volatile')
        t = p.type()
        p.need(',')
        _, a = p.tv()
        return Instr(op, d, (a,), t, {'atomic'} if ' atomic ' in s else fl, s)
    if op == 'store':
        at = p.eat('atomic')
        p.eat('volatile')
        t, v = p.tv()
        p.need(',')
        _, a = p.tv()
        return Instr(op, d, (v, a), t, {'atomic'} if at else fl, s)
    if op == 'alloca':
        t = p.type()
        n = ('c', 1)
        if p.eat(','):
            if p.is_type():
                _, n = p.tv()
        return Instr(op, d, (n,), t, fl, s)
    if op == 'getelementptr':
        flags()
        t = p.type()
        p.need(',')
        bt, b = p.tv()
        ix = []
        while p.eat(','):
            ix.append(p.tv())
        return Instr(op, d, (b, ix), t, fl, s)
    if op == 'phi':
        flags()
        t = p.type()
        inc = {}
        while True:
            p.need('[')
            v = p.value(t)
            p.need(',')
            inc[p.next()] = v
            p.need(']')
            if not p.eat(','):
                break
        return Instr(op, d, (inc,), t, fl, s)
    if op == 'select':
        flags()
        ct, c = p.tv()
        p.need(',')
        t, a = p.tv()
        p.need(',')
        _, b = p.tv()
        return Instr(op, d, (c, a, b, ct), t, fl, s)
    if op == 'br':
        if p.eat('label'):
            return Instr('jmp', None, (p.next(),), None, fl, s)
        _, c = p.tv()
        p.need(',')
        p.need('label')
        a = p.next()
        p.need(',')
        p.need('label')
        b = p.next()
        return Instr('br', None, (c, a, b), None, fl, s)
    if op == 'switch':
        t, v = p.tv()
        p.need(',')
        p.need('label')
        df = p.next()
        p.need('[')
        cases = []
        while not p.eat(']'):
            ct, c = p.tv()
            p.need(',')
            p.need('label')
            cases.append((c[1], p.next()))
        return Instr(op, None, (v, df, cases), t, fl, s)
    if op == 'ret':
        t = p.type()
        if t.k == 'void':
            return Instr(op, None, (None,), t, fl, s)
        return Instr(op, None, (p.value(t),), t, fl, s)
    if op == 'unreachable':
        return Instr(op, None, (), None, fl, s)
    if op == 'resume':
        t, v = p.tv()
        return Instr(op, None, (v,), t, fl, s)
    if op in ('extractvalue', 'insertvalue'):
        t, v = p.tv()
        w = None
        if op == 'insertvalue':
            p.need(',')
            w = p.tv()
        ix = []
        while p.eat(','):
            ix.append(int(p.next()))
        return Instr(op, d, (v, w, ix), t, fl, s)
    if op in ('extractelement', 'insertelement', 'shufflevector'):
        ops = [p.tv()]
        while p.eat(','):
            ops.append(p.tv())
        return Instr(op, d, tuple(ops), ops[0][0], fl, s)
    if op == 'landingpad':
        t = p.type()
        clauses = []
        while p.peek() is not None:
            w = p.next()
            if w == 'cleanup':
                clauses.append(('cleanup', None))
            else:
                clauses.append((w, p.tv()[1]))
        return Instr(op, d, (clauses,), t, fl, s)
    if op == 'freeze':
        t, v = p.tv()
        return Instr(op, d, (v,), t, fl, s)
    if op == 'fence':
        return Instr(op, d, (), None, fl, s)
    if op == 'atomicrmw':
        p.eat('volatile')
        o = p.next()
        _, a = p.tv()
        p.need(',')
        t, v = p.tv()
        return Instr(op, d, (o, a, v), t, fl, s)
    if op == 'cmpxchg':
        p.eat('weak')
        p.eat('volatile')
        _, a = p.tv()
        p.need(',')
        t, c = p.tv()
        p.need(',')
        _, n = p.tv()
        return Instr(op, d, (a, c, n), t, fl, s)
    if op in ('call', 'invoke', 'tail', 'musttail', 'notail'):
        if op in ('tail', 'musttail', 'notail'):
            p.need('call')
            op = 'call'
        while p.peek() in FLAGS or p.peek() in CC:
            p.next()
        skip_attrs(p)
        t = p.type()
        rt = t.e if t.k == 'func' else t
        callee = p.value(PTR)
        p.need('(')
        args = []
        while not p.eat(')'):
            at = p.type()
            if at.k == 'metadata':
                while p.peek() not in (',', ')'):
                    if p.peek() == '(':
                        p.skip_parens()
                    else:
                        p.next()
                args.append((at, ('u',)))
            else:
                byval = None
                while True:
                    x = p.peek()
                    if x == 'byval':
                        p.next()
                        p.need('(')
                        byval = p.type()
                        p.need(')')
                    elif x in ATTRP or x in ATTRW:
                        skip_attrs_one(p)
                    else:
                        break
                args.append((at, p.value(at)))
            p.eat(',')
        if op == 'invoke':
            while p.peek() != 'to':
                if p.peek() == '[':
                    while p.next() != ']':
                        pass
                else:
                    p.next()
            p.need('to')
            p.need('label')
            ok = p.next()
            p.need('unwind')
            p.need('label')
            bad = p.next()
            return Instr('invoke', d, (callee, args, ok, bad), rt, fl, s)
        return Instr('call', d, (callee, args), rt, fl, s)
    raise ValueError(f'instruction {s}')


def skip_attrs_one(p):
    x = p.next()
    if x in ATTRP:
        if p.peek() == '(':
            p.skip_parens()
        elif x == 'align':
            p.next()


class Module:
    def __init__(self, text):
        self.types = {}
        self._tydefs = {}
        self.funcs = {}
        self.decls = set()
        self.globals = {}
        self.aliases = {}
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            ln = lines[i]
            i += 1
            if not ln:
                continue
            c = ln[0]
            if c == '%':
                m = re.match(r'(%"[^"]*"|%[\w.$\-]+) = type (.*)', ln)
                self._tydefs[m.group(1)] = m.group(2)
            elif c == '@':
                m = re.match(r'(@"[^"]*"|@[\w.$\-]+) = (.*)', ln)
                self.globals[m.group(1)] = m.group(2)
            elif ln.startswith('define'):
                body = []
                hdr = ln
                while not lines[i].startswith('}'):
                    body.append(lines[i])
                    i += 1
                i += 1
                f = self._header(hdr)
                f.lines = body
                self.funcs[f.name] = f
            elif ln.startswith('declare'):
                m = re.search(r'(@"[^"]*"|@[\w.$\-]+)\(', ln)
                if m:
                    self.decls.add(m.group(1))

    def named_type(self, n):
        t = self.types.get(n)
        if t is None:
            t = self.types[n] = Ty('struct')
            d = self._tydefs.get(n, 'opaque')
            t2 = P(d, self).type()
            t.k, t.n, t.e = t2.k, t2.n, t2.e
        return t

    def _header(self, ln):
        f = Func()
        m = re.search(r'(@"[^"]*"|@[\w.$\-]+)\(', ln)
        f.name = m.group(1)
        # return type: last type before the name
        f.ret = None
        p = P(ln[m.end() - 1:], self)
        p.need('(')
        params = []
        f.variadic = False
        while not p.eat(')'):
            if p.eat('...'):
                f.variadic = True
                continue
            t = p.type()
            skip_attrs(p)
            nm = None
            if (p.peek() or '')[0] == '%':
                nm = p.next()
            params.append((t, nm))
            p.eat(',')
        f.params = params
        f.blocks = None
        f.text = ln
        return f
