"""Parser for the subset of textual LLVM IR that rustc emits for the code under test.

A Module keeps the raw text of every function and parses a function the first time it is called.
Anything outside the subset raises Unsupported: the check then ends with an error, never with a verdict.
"""
import re, struct
from fractions import Fraction


class Unsupported(Exception):
    pass


TOK = re.compile(r'''
   (?P<str>c"(?:[^"\\]|\\.)*")
 | (?P<q>[%@]"[^"]*")
 | (?P<id>[%@][-a-zA-Z$._0-9]+)
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#[0-9]+)
 | (?P<hex>[us]?f?0x[0-9A-Fa-fKLMHR]+)
 | (?P<num>[-+]?[0-9]+(?:\.[0-9]*(?:e[-+]?[0-9]+)?)?)
 | (?P<sinf>[-+](?:inf|nan|qnan)(?:\(0x[0-9a-fA-F]+\))?)
 | (?P<dots>\.\.\.)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z_$.0-9]*)
 | (?P<p>[()\[\]{}<>,=*|:])
 | (?P<s>"[^"]*")
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c in ' \t':
            i += 1
            continue
        if c == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise Unsupported('token at %r' % s[i:i + 40])
        out.append(m.group(0))
        i = m.end()
    return out


INT = re.compile(r'i[0-9]+$')


class P:
    """token cursor"""
    __slots__ = ('t', 'i', 'mod')

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.eat(x):
            raise Unsupported('expected %r at %r' % (x, self.t[max(0, self.i - 4):self.i + 6]))

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    def is_type(self):
        x = self.peek()
        if x is None:
            return False
        return x in ('void', 'ptr', 'double', 'float', 'half', 'metadata', 'label', '[', '{', '<', 'token', 'x86_fp80', 'fp128') \
            or INT.match(x) is not None or (x[0] == '%' and x in self.mod.types)

    def type(self):
        x = self.next()
        if x in ('void', 'double', 'float', 'half', 'metadata', 'label', 'token', 'x86_fp80', 'fp128'):
            r = x
        elif x == 'ptr':
            if self.peek() == 'addrspace':
                self.next()
                self.skip_parens()
            r = 'ptr'
        elif INT.match(x):
            r = x
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            t = self.type()
            self.expect(']')
            r = ('arr', n, t)
        elif x == '{':
            ts = []
            if not self.eat('}'):
                while True:
                    ts.append(self.type())
                    if self.eat('}'):
                        break
                    self.expect(',')
            r = ('st', tuple(ts), False)
        elif x == '<':
            if self.peek() == '{':
                self.next()
                ts = []
                if not self.eat('}'):
                    while True:
                        ts.append(self.type())
                        if self.eat('}'):
                            break
                        self.expect(',')
                self.expect('>')
                r = ('st', tuple(ts), True)
            else:
                n = int(self.next())
                self.expect('x')
                t = self.type()
                self.expect('>')
                r = ('vec', n, t)
        elif x[0] == '%' and x in self.mod.types:
            r = self.mod.types[x]
        else:
            raise Unsupported('type %r' % x)
        return r

    def attrs(self):
        """skip parameter / return attributes"""
        while True:
            x = self.peek()
            if x is None:
                return
            if x == 'align':
                self.next()
                if self.peek() == '(':
                    self.skip_parens()
                else:
                    self.next()
                continue
            if x[0] == '"':
                self.next()
                if self.eat('='):
                    self.next()
                continue
            if self.is_type() or not (x[0].isalpha() or x[0] == '_') or x in ('null', 'true', 'false', 'undef', 'poison', 'zeroinitializer', 'none', 'asm') \
                    or x in CEXPR or x.startswith('c"') or re.match(r'f0x', x) or x in ('inf', 'nan'):
                return
            self.next()
            if self.peek() == '(':
                self.skip_parens()

    def value(self, ty):
        x = self.next()
        c = x[0]
        if c == '%':
            return ('r', x)
        if c == '@':
            return ('g', x)
        if x in ('undef', 'poison'):
            return ('u', ty)
        if ty in ('double', 'float', 'half'):
            return ('f', parse_fp(x, ty))
        if x in ('true', 'false'):
            return ('i', 1 if x == 'true' else 0)
        if x == 'null':
            return ('i', 0)
        if x in ('undef', 'poison'):
            return ('u', ty)
        if x == 'zeroinitializer':
            return ('z', ty)
        if x == 'none':
            return ('u', ty)
        if c == 'c':
            if x[1:2] == '"':
                return ('s', parse_cstr(x))
        if x in CEXPR:
            return self.cexpr(x)
        if x == '[' or x == '{' or (x == '<'):
            close = {'[': ']', '{': '}', '<': '>'}[x]
            packed = False
            if x == '<' and self.peek() == '{':
                self.next()
                close = '}'
                packed = True
            vs = []
            if not self.eat(close):
                while True:
                    t = self.type()
                    self.attrs()
                    vs.append((t, self.value(t)))
                    if self.eat(close):
                        break
                    self.expect(',')
            if packed:
                self.expect('>')
            return ('a', vs)
        if x == 'splat':
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect(')')
            return ('a', [(t, v)] * ty[1])
        if x == 'blockaddress':
            raise Unsupported('blockaddress')
        try:
            return ('i', int(x) & mask(ty) if INT.match(str(ty)) else int(x))
        except ValueError:
            raise Unsupported('value %r of %r' % (x, ty))

    def cexpr(self, op):
        while self.peek() in ('inbounds', 'nuw', 'nusw', 'nsw', 'exact', 'disjoint', 'inrange'):
            w = self.next()
            if w == 'inrange' and self.peek() == '(':
                self.skip_parens()
        self.expect('(')
        if op == 'getelementptr':
            t = self.type()
            self.expect(',')
            args = []
            while True:
                ty = self.type()
                args.append((ty, self.value(ty)))
                if self.eat(')'):
                    break
                self.expect(',')
            return ('ce', 'gep', t, args)
        if op in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'addrspacecast', 'ptrtoaddr'):
            ty = self.type()
            v = self.value(ty)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('ce', 'cast', t2, [(ty, v)])
        ty = self.type()
        a = self.value(ty)
        self.expect(',')
        ty2 = self.type()
        b = self.value(ty2)
        self.expect(')')
        return ('ce', op, ty, [(ty, a), (ty2, b)])

    def tv(self):
        ty = self.type()
        self.attrs()
        return ty, self.value(ty)


CEXPR = {'getelementptr', 'inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'add', 'sub', 'xor', 'mul', 'shl', 'addrspacecast', 'ptrtoaddr'}


def mask(ty):
    return (1 << int(ty[1:])) - 1


def parse_fp(x, ty):
    """-> python float (exact for the format)"""
    if x.startswith('0x') or x.startswith('f0x'):
        h = x[x.index('0x') + 2:]
        if x.startswith('f0x') and ty == 'float':
            return struct.unpack('>f', bytes.fromhex(h.zfill(8)))[0]
        if h[0] in 'KLMHR':
            raise Unsupported('fp const ' + x)
        return struct.unpack('>d', bytes.fromhex(h.zfill(16)))[0]
    if 'inf' in x:
        return float('-inf') if x[0] == '-' else float('inf')
    if 'nan' in x:
        return float('nan')
    v = float(x)
    return v


def parse_cstr(x):
    s = x[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def sizeof(ty):
    if ty == 'ptr' or ty == 'double':
        return 8
    if ty == 'float':
        return 4
    if isinstance(ty, str) and ty[0] == 'i':
        b = int(ty[1:])
        s = 1
        while s * 8 < b:
            s *= 2
        return s
    if ty[0] == 'arr' or ty[0] == 'vec':
        return ty[1] * sizeof(ty[2])
    if ty[0] == 'st':
        off = 0
        al = 1
        for t in ty[1]:
            a = 1 if ty[2] else alignof(t)
            al = max(al, a)
            off = (off + a - 1) // a * a
            off += sizeof(t)
        return (off + al - 1) // al * al
    raise Unsupported('sizeof %r' % (ty,))


def alignof(ty):
    if isinstance(ty, str):
        return min(16, sizeof(ty))
    if ty[0] == 'arr':
        return alignof(ty[2])
    if ty[0] == 'vec':
        return sizeof(ty)
    return 1 if ty[2] else max([alignof(t) for t in ty[1]] + [1])


def field_offset(ty, k):
    if ty[0] in ('arr', 'vec'):
        return k * sizeof(ty[2])
    off = 0
    for j, t in enumerate(ty[1]):
        a = 1 if ty[2] else alignof(t)
        off = (off + a - 1) // a * a
        if j == k:
            return off
        off += sizeof(t)
    raise Unsupported('field')


def elem_type(ty, k):
    return ty[2] if ty[0] in ('arr', 'vec') else ty[1][k]


class Function:
    def __init__(self, name, header, body, mod):
        self.name, self.header, self.body, self.mod = name, header, body, mod
        self.blocks = None

    def parse(self):
        if self.blocks is not None:
            return
        p = P(tokenize(self.header), self.mod)
        # define ... @name(args)
        while p.peek() != self.name:
            p.next()
        p.next()
        p.expect('(')
        self.params = []
        if not p.eat(')'):
            k = 0
            while True:
                ty = p.type()
                p.attrs()
                if p.peek() and p.peek()[0] == '%':
                    nm = p.next()
                else:
                    nm = '%' + str(k)
                k += 1
                self.params.append((ty, nm))
                if p.eat(')'):
                    break
                p.expect(',')
        blocks = {}
        cur = None
        order = []
        lines = self.body
        i = 0
        while i < len(lines):
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s or s[0] == ';' or s[0] == '#':
                continue
            if not ln[0].isspace():
                m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
                if not m:
                    raise Unsupported('line %r' % ln[:80])
                cur = '%' + m.group(1)
                blocks[cur] = []
                order.append(cur)
                continue
            if cur is None:
                cur = '%' + str(len(self.params))
                blocks[cur] = []
                order.append(cur)
            # multi-line switch / landingpad
            if re.match(r'(switch|indirectbr)\b', s) and ']' not in s:
                while ']' not in s:
                    s += ' ' + lines[i].strip()
                    i += 1
            if s.endswith('(') or (s.count('(') > s.count(')') and ' c"' not in s):
                while s.count('(') > s.count(')'):
                    s += ' ' + lines[i].strip()
                    i += 1
            ins = self.instr(s)
            if ins is not None:
                blocks[cur].append(ins)
        self.entry = order[0]
        self.blocks = blocks

    def instr(self, s):
        p = P(tokenize(s), self.mod)
        dst = None
        if p.peek()[0] == '%' and p.peek(1) == '=':
            dst = p.next()
            p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        if op in ('call', 'invoke'):
            while p.peek() in FMF:
                p.next()
            p.attrs()     # cc + ret attrs
            if p.peek() == 'addrspace':
                p.next(); p.skip_parens()
            rty = p.type()
            if p.peek() == '(':   # function type
                p.skip_parens()
            x = p.peek()
            if x == 'asm':
                return ('asm',)
            callee = p.value('ptr')
            p.expect('(')
            args = []
            if not p.eat(')'):
                while True:
                    if p.peek() == 'metadata':
                        # metadata operand: skip to , or )
                        d = 0
                        while not (d == 0 and p.peek() in (',', ')')):
                            y = p.next()
                            if y in '([{':
                                d += 1
                            elif y in ')]}':
                                d -= 1
                        args.append(('metadata', None))
                    else:
                        args.append(p.tv())
                    if p.eat(')'):
                        break
                    p.expect(',')
            if op == 'invoke':
                while p.peek() != 'to':
                    p.next()
                p.next()
                p.expect('label')
                lab = p.next()
                return ('invoke', dst, rty, callee, args, lab)
            return ('call', dst, rty, callee, args)
        if op == 'br':
            if p.peek() == 'label':
                p.next()
                return ('jmp', p.next())
            p.expect('i1')
            c = p.value('i1')
            p.expect(','); p.expect('label'); a = p.next()
            p.expect(','); p.expect('label'); b = p.next()
            return ('br', c, a, b)
        if op == 'ret':
            if p.peek() == 'void':
                return ('ret', None, None)
            ty, v = p.tv()
            return ('ret', ty, v)
        if op == 'unreachable':
            return ('unreachable',)
        if op == 'switch':
            ty, v = p.tv()
            p.expect(','); p.expect('label'); d = p.next()
            p.expect('[')
            cases = []
            while not p.eat(']'):
                t2, v2 = p.tv()
                p.expect(','); p.expect('label')
                cases.append((v2[1], p.next()))
            return ('switch', ty, v, d, cases)
        if op == 'load':
            vol = p.eat('atomic') or p.eat('volatile')
            ty = p.type(); p.expect(',')
            pt, pv = p.tv()
            return ('load', dst, ty, pv)
        if op == 'store':
            p.eat('atomic') or p.eat('volatile')
            ty, v = p.tv(); p.expect(',')
            pt, pv = p.tv()
            return ('store', ty, v, pv)
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw', 'nsw'):
                p.next()
            t = p.type(); p.expect(',')
            pt, base = p.tv()
            idx = []
            while p.eat(','):
                if p.peek()[0] == '!':
                    break
                idx.append(p.tv())
            return ('gep', dst, t, base, idx)
        if op == 'alloca':
            t = p.type()
            n = 1
            if p.eat(','):
                if p.peek() != 'align' and p.is_type():
                    ty, v = p.tv()
                    n = v[1]
            return ('alloca', dst, t, n)
        if op == 'phi':
            while p.peek() in FMF:
                p.next()
            ty = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(ty)
                p.expect(',')
                inc.append((v, p.next()))
                p.expect(']')
                if not p.eat(','):
                    break
                if p.peek()[0] == '!':
                    break
            return ('phi', dst, ty, inc)
        if op == 'select':
            while p.peek() in FMF:
                p.next()
            ct, c = p.tv(); p.expect(',')
            ty, a = p.tv(); p.expect(',')
            ty, b = p.tv()
            return ('select', dst, ty, c, a, b, ct)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            while p.peek() in FMF:
                p.next()
            ty = p.type()
            a = p.value(ty); p.expect(',')
            b = p.value(ty)
            return ('fbin', dst, op, ty, a, b)
        if op == 'fneg':
            while p.peek() in FMF:
                p.next()
            ty = p.type()
            return ('fneg', dst, ty, p.value(ty))
        if op == 'fcmp':
            while p.peek() in FMF:
                p.next()
            pred = p.next()
            ty = p.type()
            a = p.value(ty); p.expect(',')
            b = p.value(ty)
            return ('fcmp', dst, pred, ty, a, b)
        if op == 'icmp':
            while p.peek() == 'samesign':
                p.next()
            pred = p.next()
            ty = p.type()
            a = p.value(ty); p.expect(',')
            b = p.value(ty)
            return ('icmp', dst, pred, ty, a, b)
        if op in IBIN:
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
                p.next()
            ty = p.type()
            a = p.value(ty); p.expect(',')
            b = p.value(ty)
            return ('ibin', dst, op, ty, a, b)
        if op in CASTS:
            while p.peek() in FMF or p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            ty, v = p.tv()
            p.expect('to')
            t2 = p.type()
            return ('cast', dst, op, ty, v, t2)
        if op == 'freeze':
            ty, v = p.tv()
            return ('copy', dst, ty, v)
        if op == 'extractvalue':
            ty, v = p.tv()
            idx = []
            while p.eat(','):
                if p.peek()[0] == '!':
                    break
                idx.append(int(p.next()))
            return ('extractvalue', dst, ty, v, idx)
        if op == 'insertvalue':
            ty, v = p.tv(); p.expect(',')
            t2, v2 = p.tv()
            idx = []
            while p.eat(','):
                if p.peek()[0] == '!':
                    break
                idx.append(int(p.next()))
            return ('insertvalue', dst, ty, v, t2, v2, idx)
        if op == 'extractelement':
            ty, v = p.tv(); p.expect(',')
            t2, v2 = p.tv()
            return ('extractelement', dst, ty, v, v2)
        if op == 'insertelement':
            ty, v = p.tv(); p.expect(',')
            t2, v2 = p.tv(); p.expect(',')
            t3, v3 = p.tv()
            return ('insertelement', dst, ty, v, t2, v2, v3)
        if op == 'shufflevector':
            ty, a = p.tv(); p.expect(',')
            ty2, b = p.tv(); p.expect(',')
            t3, m = p.tv()
            return ('shuffle', dst, ty, a, b, t3, m)
        if op in ('fence',):
            return None
        return ('unsupported', op, s[:160])


FMF = {'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'}
IBIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'ptrtoaddr'}


class Module:
    def __init__(self, text, tag):
        self.tag = tag
        self.types = {}
        self.functions = {}
        self.globals = {}      # name -> raw definition text
        self.external = set()
        self.aliases = {}
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('define'):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                name = '@' + m.group(1)
                body = []
                i += 1
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                self.functions[name] = Function(name, ln, body, self)
            elif ln.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                self.external.add('@' + m.group(1))
            elif ln.startswith('@'):
                m = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)', ln)
                self.globals[m.group(1)] = m.group(2)
            elif ln.startswith('%'):
                m = re.match(r'(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)', ln)
                if m:
                    self.types[m.group(1)] = P(tokenize(m.group(2)), self).type()
            i += 1

    def global_init(self, name):
        """-> (type, value) or None when external"""
        p = P(tokenize(self.globals[name]), self)
        ext = False
        while True:
            x = p.peek()
            if x in ('global', 'constant'):
                p.next()
                break
            if x == 'alias':
                p.next()
                ty = p.type()
                if p.peek() == '(':
                    p.skip_parens()
                p.expect(',')
                pt, v = p.tv()
                return ('alias', v)
            if x in ('external', 'extern_weak'):
                ext = True
            p.next()
            if p.peek() == '(':
                p.skip_parens()
        ty = p.type()
        if ext:
            return (ty, None)
        return (ty, p.value(ty))
