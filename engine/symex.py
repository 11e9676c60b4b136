"""Symbolic executor for LLVM IR: integers, pointers and memory are concrete, floats are symbolic terms.

One run follows one path. A branch on a symbolic condition asks domain.decide(cond); path enumeration
(re-execution with a growing decision prefix) lives in the domain (real.py / fp.py).
"""
import math, re, struct
from . import term as t
from .ll import Module, Unsupported, sizeof, field_offset, elem_type, mask
from .term import T, TRUE, FALSE


class Panic(Exception):
    pass


class Hang(Exception):
    pass


class SInt:
    """integer that depends on symbolic conditions: cond ? a : b"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


def sint(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if type(a) is type(b) and a == b:
        return a
    return SInt(c, a, b)


class FBits:
    """integer view of a float term (bit copy)"""
    __slots__ = ('f', 'n')

    def __init__(self, f, n):
        self.f, self.n = f, n

    def __eq__(self, o):
        return isinstance(o, FBits) and o.f is self.f

    def __hash__(self):
        return hash(self.f.id)


class Parts:
    """integer made of adjacent memory cells (a wide copy of several values), little endian"""
    __slots__ = ('ps',)

    def __init__(self, ps):
        self.ps = tuple(ps)         # ((value, bytes), ...)

    def cut(self, lo, hi):
        """bytes lo..hi, or None where this would split a symbolic part"""
        r, at = [], 0
        for v, w in self.ps:
            a, b = max(at, lo), min(at + w, hi)
            if a < b:
                if b - a == w:
                    r.append((v, w))
                elif isinstance(v, int):
                    r.append(((v >> 8 * (a - at)) & ((1 << 8 * (b - a)) - 1), b - a))
                else:
                    return None
            at += w
        return r

    @staticmethod
    def make(ps):
        if all(isinstance(v, int) for v, _ in ps):
            r, at = 0, 0
            for v, w in ps:
                r |= v << 8 * at
                at += w
            return r
        if len(ps) == 1:
            v, w = ps[0]
            return FBits(v, w) if isinstance(v, T) and v.ty != 'b' else v
        return Parts(ps)


def parts_of(v, n):
    if isinstance(v, Parts):
        k = sum(w for _, w in v.ps)
        return list(v.ps) + ([(0, n - k)] if n > k else [])
    if isinstance(v, FBits):
        return [(v, v.n)] + ([(0, n - v.n)] if n > v.n else [])
    if isinstance(v, int):
        return [(v, n)]
    return None


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Obj:
    __slots__ = ('base', 'size', 'cells', 'ro', 'fill')

    def __init__(self, base, size):
        self.base, self.size = base, size
        self.cells = {}     # offset -> (value, nbytes)
        self.fill = None


FT = {'double': 'f64', 'float': 'f32'}
MAXSTEPS = 400000

PANIC = re.compile(r'panic|unwrap_failed|expect_failed|handle_error|handle_alloc_error|capacity_overflow|slice_index_fail|slice_.*_fail|_fail(ed)?$|abort|unimplemented|unreachable|bounds_check|index_order_fail|rust_oom')


class Program:
    def __init__(self, texts):
        self.mods = [Module(x, tag) for tag, x in texts]
        self.calls = {}

    def find(self, mod, name):
        f = mod.functions.get(name)
        if f is not None:
            return f
        for m in [mod] + self.mods:
            if name in m.globals and re.search(r'\balias\b', m.globals[name].split('(')[0][:80]):
                init = m.global_init(name)
                if init[0] == 'alias' and init[1][0] == 'g' and init[1][1] != name:
                    return self.find(m, init[1][1])
        for m in self.mods:
            f = m.functions.get(name)
            if f is not None and ' internal ' not in f.header and ' private ' not in f.header:
                return f
        return None


class Exec:
    def __init__(self, prog, dom):
        self.prog, self.dom = prog, dom
        self.objs = {}
        self.nobj = 1
        self.steps = 0
        self.gaddr = {}
        self.faddr = {}
        self.funcs = set()
        self.depth = 0
        self.nbranch = 0

    # ---- memory -----------------------------------------------------
    def alloc(self, size):
        b = self.nobj << 32
        self.nobj += 1
        o = Obj(b, size)
        self.objs[b >> 32] = o
        return b

    def obj(self, p, n):
        if not isinstance(p, int):
            p = self.conc(p)
        o = self.objs.get(p >> 32)
        if o is None or (p & 0xffffffff) + n > o.size:
            raise Unsupported('memory access out of bounds at %#x (+%d)' % (p, n))
        return o, p & 0xffffffff

    def load(self, p, ty):
        if not isinstance(ty, str):
            if ty[0] == 'vec' or ty[0] == 'arr':
                es = sizeof(ty[2])
                p = self.conc(p)
                return [self.load(p + i * es, ty[2]) for i in range(ty[1])]
            p = self.conc(p)
            return [self.load(p + field_offset(ty, i), x) for i, x in enumerate(ty[1])]
        n = sizeof(ty)
        if isinstance(p, SInt):
            a, b = self.load(p.a, ty), self.load(p.b, ty)
            return self.ite(p.c, a, b, ty)
        o, off = self.obj(p, n)
        c = o.cells.get(off)
        if c is not None and c[1] == n:
            return self.conv(c[0], ty, n)
        # a wide integer over several cells, some of them symbolic
        if ty not in FT:
            ps, i = [], off
            while i < off + n:
                c = o.cells.get(i)
                if c is None or i + c[1] > off + n:
                    ps = None
                    break
                ps.append(c)
                i += c[1]
            if ps is not None and any(isinstance(v, (T, FBits)) and not (isinstance(v, T) and (v.ty == 'b' or v.op == 'const')) for v, _ in ps):
                r = []
                for v, w in ps:
                    if isinstance(v, T) and v.ty == 'b':
                        v = 1 if self.dom.decide(v) else 0
                    elif isinstance(v, T):
                        v = self.conv(v, 'i%d' % (8 * w), w)
                    elif isinstance(v, SInt):
                        v = self.conc(v)
                    elif v is UNDEF:
                        v = 0
                    r.append((v, w))
                return Parts.make(r)
        # assemble from bytes
        bs = []
        for i in range(n):
            bs.append(self.byte(o, off + i))
        if any(b is None for b in bs):
            return UNDEF
        v = int.from_bytes(bytes(bs), 'little')
        if ty in FT:
            return t.const(struct.unpack('<d' if n == 8 else '<f', bytes(bs))[0], FT[ty])
        if ty == 'i1':
            return TRUE if v & 1 else FALSE
        return v

    def byte(self, o, off):
        for s in (off, off - 1, off - 2, off - 3, off - 4, off - 5, off - 6, off - 7):
            c = o.cells.get(s)
            if c is not None and s + c[1] > off:
                v = c[0]
                if isinstance(v, (SInt,)):
                    v = self.conc(v)
                if isinstance(v, FBits):
                    v = v.f
                if isinstance(v, T):
                    if v.ty == 'b':
                        v = 1 if self.dom.decide(v) else 0
                    elif v.op == 'const':
                        v = int.from_bytes(struct.pack('<d' if c[1] == 8 else '<f', v.a[0]), 'little')
                    else:
                        raise Unsupported('byte of symbolic float')
                if v is UNDEF:
                    return 0
                return (v >> (8 * (off - s))) & 255
        if o.fill is not None:
            return o.fill
        return None

    def conv(self, v, ty, n):
        if ty in FT:
            if isinstance(v, T):
                if v.ty == FT[ty]:
                    return v
                raise Unsupported('float type pun')
            if isinstance(v, FBits):
                return v.f
            if isinstance(v, int):
                return t.const(struct.unpack('<d' if n == 8 else '<f', v.to_bytes(n, 'little'))[0], FT[ty])
            if v is UNDEF:
                return v
            if isinstance(v, SInt):
                return self.ite(v.c, self.conv(v.a, ty, n), self.conv(v.b, ty, n), ty)
            raise Unsupported('load conv %r' % (v,))
        if isinstance(v, T):
            if v.ty == 'b':
                if ty == 'i1':
                    return v
                return sint(v, 1, 0)
            if v.op == 'const':
                return int.from_bytes(struct.pack('<d' if n == 8 else '<f', v.a[0]), 'little')
            return FBits(v, n)
        if ty == 'i1' and isinstance(v, (int, SInt)):
            return self.tobool(v)
        return v

    def store(self, p, v, ty):
        if not isinstance(ty, str):
            p = self.conc(p)
            if v is UNDEF:
                return
            k = len(v)
            for i in range(k):
                self.store(p + field_offset(ty, i), v[i], elem_type(ty, i))
            return
        n = sizeof(ty)
        if isinstance(v, Parts):
            p = self.conc(p)
            for x, w in parts_of(v, n):
                o, off = self.obj(p, w)
                self.put(o, off, w, x)
                p += w
            return
        o, off = self.obj(p, n)
        self.put(o, off, n, v)

    def put(self, o, off, n, v):
        cells = o.cells
        for s in range(off - 7, off + n):
            c = cells.get(s)
            if c is not None and s != off and s + c[1] > off:
                # partial overlap: split into bytes
                self.explode(o, s)
        c = cells.get(off)
        if c is not None and c[1] != n:
            if c[1] > n:
                self.explode(o, off)
        for s in range(off, off + n):
            cells.pop(s, None)
        cells[off] = (v, n)

    def explode(self, o, s):
        c = o.cells[s]
        bs = [self.byte(o, s + i) for i in range(c[1])]
        del o.cells[s]
        for i, b in enumerate(bs):
            o.cells[s + i] = (b, 1)

    def memcpy(self, d, s, n):
        d, s, n = self.conc(d), self.conc(s), self.conc(n)
        if n == 0:
            return
        so, soff = self.obj(s, n)
        do, doff = self.obj(d, n)
        # collect source cells
        items = []
        i = soff
        end = soff + n
        for k in range(soff - 7, soff):
            c = so.cells.get(k)
            if c is not None and k + c[1] > soff:
                self.explode(so, k)
        while i < end:
            c = so.cells.get(i)
            if c is None:
                if so.fill is not None:
                    items.append((i - soff, so.fill, 1))
                i += 1
                continue
            if i + c[1] > end:
                self.explode(so, i)
                continue
            items.append((i - soff, c[0], c[1]))
            i += c[1]
        for k in range(doff - 7, doff + n):
            c = do.cells.get(k)
            if c is not None and (k < doff and k + c[1] > doff or k >= doff and k + c[1] > doff + n):
                self.explode(do, k)
        for k in range(doff, doff + n):
            do.cells.pop(k, None)
        if len(items) < n:
            # unwritten source bytes: keep undefined
            pass
        for off, v, w in items:
            do.cells[doff + off] = (v, w)

    def memset(self, d, b, n):
        d, b, n = self.conc(d), self.conc(b), self.conc(n)
        if n == 0:
            return
        o, off = self.obj(d, n)
        if off == 0 and n == o.size:
            o.cells.clear()
        i = 0
        while i + 8 <= n:
            self.put(o, off + i, 8, int.from_bytes(bytes([b]) * 8, 'little'))
            i += 8
        while i < n:
            self.put(o, off + i, 1, b)
            i += 1

    # ---- helpers ------------------------------------------------------
    def conc(self, v):
        """concretise an integer (forks)"""
        while isinstance(v, SInt):
            v = v.a if self.dom.decide(v.c) else v.b
        if isinstance(v, T) and v.ty == 'b':
            return 1 if self.truth(v) else 0
        if isinstance(v, (FBits, FKey)):
            raise Unsupported('integer use of symbolic float bits')
        if isinstance(v, IntOf):
            return self.intof(v)
        if v is UNDEF:
            raise Unsupported('use of undef')
        return v

    def integer(self, f):
        """a symbolic float truncated to an integer: forks over its value"""
        if self.truth(t.fcmp('uno', f, f)):
            return 0

        def ge(k):
            return self.truth(t.fcmp('oge', f, t.const(float(k), f.ty)))

        def le(k):
            return self.truth(t.fcmp('ole', f, t.const(float(k), f.ty)))
        if ge(1):
            at, s = ge, 1
        elif le(-1):
            at, s = (lambda k: le(-k)), -1
        else:
            return 0
        lo = 1
        while at(2 * lo):
            lo *= 2
            if lo > 1 << 12:
                raise Unsupported('integer part of a large symbolic value')
        hi = 2 * lo
        while hi - lo > 1:
            m = (lo + hi) // 2
            if at(m):
                lo = m
            else:
                hi = m
        return s * lo

    def sgnd(self, v):
        self.intof(v)
        return v.n

    def intof(self, v):
        if v.n is None:
            v.n = self.integer(v.f)
        return v.n & ((1 << v.bits) - 1)

    def fmath(self, op, ty, a):
        """float operation; integer parts of symbolic reals fork"""
        if op in ('floor', 'ceil', 'ftrunc', 'round', 'rem') and getattr(self.dom, 'REAL', False) and not all(x.op == 'const' for x in a):
            x = a[0] if op != 'rem' else t.fop('div', ty, *a)
            c = lambda k: t.const(float(k), ty)
            if op == 'round':
                x = t.fop('add', ty, x, c(0.5 if self.truth(t.fcmp('oge', x, c(0))) else -0.5))
            n = self.integer(x)
            if op == 'rem':
                return t.fop('sub', ty, a[0], t.fop('mul', ty, c(n), a[1])) if n else a[0]
            if op == 'floor' and self.truth(t.fcmp('olt', x, c(n))):
                n -= 1
            if op == 'ceil' and self.truth(t.fcmp('ogt', x, c(n))):
                n += 1
            return c(n)
        return t.fop(op, ty, *a)

    def truth(self, b):
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        if isinstance(b, int):
            return bool(b)
        if b is UNDEF:
            raise Unsupported('branch on undef')
        self.nbranch += 1
        return self.dom.decide(b)

    def tobool(self, v):
        if isinstance(v, T):
            return v
        if isinstance(v, int):
            return TRUE if v & 1 else FALSE
        if isinstance(v, SInt):
            return t.bite(v.c, self.tobool(v.a), self.tobool(v.b))
        raise Unsupported('tobool %r' % (v,))

    def ite(self, c, a, b, ty):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is b:
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if isinstance(a, list):
            return [self.ite(c, x, y, elem_type(ty, i)) for i, (x, y) in enumerate(zip(a, b))]
        if ty in FT:
            return t.fite(c, FT[ty], a, b)
        if ty == 'i1':
            return t.bite(c, self.tobool(a), self.tobool(b))
        if isinstance(a, FBits) and isinstance(b, FBits):
            return FBits(t.fite(c, a.f.ty, a.f, b.f), a.n)
        if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)):
            return sint(c, a, b)
        # incomparable: fork
        return a if self.truth(c) else b

    def lift2(self, f, a, b):
        if isinstance(a, SInt):
            return self.mksint(a.c, self.lift2(f, a.a, b), self.lift2(f, a.b, b))
        if isinstance(b, SInt):
            return self.mksint(b.c, self.lift2(f, a, b.a), self.lift2(f, a, b.b))
        if isinstance(a, T):
            a = 1 if self.truth(a) else 0
        if isinstance(b, T):
            b = 1 if self.truth(b) else 0
        if isinstance(a, IntOf):
            a = self.intof(a)
        if isinstance(b, IntOf):
            b = self.intof(b)
        if isinstance(a, (FBits, FKey)):
            a = self.bits(a)
        if isinstance(b, (FBits, FKey)):
            b = self.bits(b)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, Parts) or isinstance(b, Parts):
            raise Unsupported('integer use of a wide copy')
        return f(a, b)

    def bits(self, x):
        if x.f.op == 'const':
            return int.from_bytes(struct.pack('<d' if x.n == 8 else '<f', x.f.a[0]), 'little')
        raise Unsupported('arithmetic on symbolic float bits')

    def mksint(self, c, a, b):
        if isinstance(a, T) or isinstance(b, T):
            return t.bite(c, self.tobool(a), self.tobool(b))
        return sint(c, a, b)

    # ---- globals / functions -------------------------------------------
    def global_addr(self, mod, name):
        k = (mod.tag, name)
        if k in self.gaddr:
            return self.gaddr[k]
        if name in mod.globals:
            init = mod.global_init(name)
            if init[0] == 'alias':
                return self.const(mod, init[1], 'ptr')
            if init[1] is None:
                for m in self.prog.mods:
                    if m is not mod and name in m.globals:
                        return self.global_addr(m, name)
                a = self.alloc(max(1, sizeof(init[0])))
                self.gaddr[k] = a
                return a
            a = self.alloc(max(1, sizeof(init[0])))
            self.gaddr[k] = a
            self.init_mem(mod, a, init[0], init[1])
            return a
        f = self.prog.find(mod, name)
        if f is not None:
            kk = (f.mod.tag, name)
            if kk not in self.gaddr:
                a = self.alloc(1)
                self.gaddr[kk] = a
                self.faddr[a] = f
            return self.gaddr[kk]
        for m in self.prog.mods:
            if name in m.globals:
                return self.global_addr(m, name)
        a = self.alloc(1)
        self.gaddr[k] = a
        self.faddr[a] = name
        return a

    def init_mem(self, mod, a, ty, v):
        k = v[0]
        if k == 'z':
            o = self.objs[a >> 32]
            n = sizeof(ty)
            for i in range(n):
                o.cells[(a & 0xffffffff) + i] = (0, 1)
            return
        if k == 'u':
            return
        if k == 's':
            o = self.objs[a >> 32]
            for i, b in enumerate(v[1]):
                o.cells[(a & 0xffffffff) + i] = (b, 1)
            return
        if k == 'a':
            for i, (et, ev) in enumerate(v[1]):
                self.init_mem(mod, a + field_offset(ty, i), et, ev)
            return
        self.store(a, self.const(mod, v, ty), ty)

    def const(self, mod, v, ty):
        k = v[0]
        if k == 'i':
            if ty == 'i1':
                return TRUE if v[1] else FALSE
            return v[1]
        if k == 'f':
            return t.const(v[1], FT[ty])
        if k == 'g':
            return self.global_addr(mod, v[1])
        if k == 'u':
            if not isinstance(ty, str):
                n = ty[1] if ty[0] in ('arr', 'vec') else len(ty[1])
                return [UNDEF if isinstance(elem_type(ty, i), str) else self.const(mod, v, elem_type(ty, i)) for i in range(n)]
            return UNDEF
        if k == 'z':
            if isinstance(ty, str):
                if ty in FT:
                    return t.const(0.0, FT[ty])
                return FALSE if ty == 'i1' else 0
            n = ty[1] if ty[0] in ('arr', 'vec') else len(ty[1])
            return [self.const(mod, v, elem_type(ty, i)) for i in range(n)]
        if k == 'a':
            return [self.const(mod, ev, et) for et, ev in v[1]]
        if k == 's':
            return list(v[1])
        if k == 'ce':
            if v[1] == 'gep':
                args = v[3]
                base = self.const(mod, args[0][1], 'ptr')
                return self.gep(base, v[2], [(ty_, self.const(mod, x, ty_)) for ty_, x in args[1:]])
            if v[1] == 'cast':
                return self.const(mod, v[3][0][1], v[3][0][0])
            a = self.const(mod, v[3][0][1], v[3][0][0])
            b = self.const(mod, v[3][1][1], v[3][1][0])
            return self.ibin(v[1], v[2], a, b)
        raise Unsupported('const %r' % (v,))

    def gep(self, base, ty, idx):
        first = True
        off = 0
        cur = ty
        for ity, iv in idx:
            def sx(x, bits=int(ity[1:])):
                return x - (1 << bits) if x >> (bits - 1) else x
            if first:
                sz = sizeof(cur)
                d = self.lift2(lambda x, _: sx(x) * sz, iv, 0)
                first = False
            else:
                if cur[0] == 'st':
                    k = self.conc(iv)
                    d = field_offset(cur, k)
                    cur = elem_type(cur, k)
                else:
                    cur = cur[2]
                    sz = sizeof(cur)
                    d = self.lift2(lambda x, _: sx(x) * sz, iv, 0)
            off = self.lift2(lambda x, y: x + y, off, d)
        return self.lift2(lambda x, y: (x + y) & 0xffffffffffffffff, base, off)

    def ibin(self, op, ty, a, b):
        if ty == 'i1':
            a, b = self.tobool(a), self.tobool(b)
            if op == 'and':
                return t.band(a, b)
            if op == 'or':
                return t.bor(a, b)
            if op in ('xor', 'add', 'sub'):
                return t.bxor(a, b)
        if not isinstance(ty, str):
            return [self.ibin(op, ty[2], x, y) for x, y in zip(a, b)]
        bits = int(ty[1:])
        m = (1 << bits) - 1

        def sx(x):
            return x - (1 << bits) if x >> (bits - 1) else x

        def f(x, y):
            if op == 'add':
                r = x + y
            elif op == 'sub':
                r = x - y
            elif op == 'mul':
                r = x * y
            elif op == 'and':
                r = x & y
            elif op == 'or':
                r = x | y
            elif op == 'xor':
                r = x ^ y
            elif op == 'shl':
                r = x << y
            elif op == 'lshr':
                r = x >> y
            elif op == 'ashr':
                r = sx(x) >> y
            elif op == 'udiv':
                r = x // y
            elif op == 'urem':
                r = x % y
            elif op == 'sdiv':
                p, q = sx(x), sx(y)
                r = abs(p) // abs(q) * (1 if (p < 0) == (q < 0) else -1)
            elif op == 'srem':
                p, q = sx(x), sx(y)
                r = abs(p) % abs(q) * (1 if p >= 0 else -1)
            else:
                raise Unsupported(op)
            return r & m
        if isinstance(a, Parts) or isinstance(b, Parts) or (isinstance(a, FBits) or isinstance(b, FBits)) and op in ('shl', 'lshr', 'or'):
            n = bits // 8
            pa, pb = parts_of(a, n), parts_of(b, n)
            if pa is not None and pb is not None:
                if op in ('shl', 'lshr') and isinstance(b, int) and b % 8 == 0:
                    k = b // 8
                    if k == 0:
                        return a
                    A = Parts(pa)
                    r = A.cut(0, n - k) if op == 'shl' else A.cut(k, n)
                    if r is not None:
                        return Parts.make([(0, k)] + r if op == 'shl' else r + [(0, k)])
                if op == 'and' and isinstance(b, int):
                    k = (b.bit_length() + 7) // 8
                    if b == (1 << 8 * k) - 1:
                        r = Parts(pa).cut(0, k)
                        if r is not None:
                            return Parts.make(r + ([(0, n - k)] if k < n else []))
                if op in ('or', 'add', 'xor'):
                    cuts = {0, n}
                    for ps in (pa, pb):
                        at = 0
                        for _, w in ps:
                            at += w
                            cuts.add(at)
                    cuts = sorted(cuts)
                    r = []
                    for x, y in zip(cuts, cuts[1:]):
                        u, v = Parts(pa).cut(x, y), Parts(pb).cut(x, y)
                        if u is None or v is None or len(u) != 1 or len(v) != 1:
                            r = None
                            break
                        if u[0][0] == 0 and isinstance(u[0][0], int):
                            r.append(v[0])
                        elif v[0][0] == 0 and isinstance(v[0][0], int):
                            r.append(u[0])
                        elif op == 'or' and isinstance(u[0][0], int) and isinstance(v[0][0], int):
                            r.append((u[0][0] | v[0][0], y - x))
                        else:
                            r = None
                            break
                    if r is not None:
                        return Parts.make(r)
        # sign-bit tricks on float bits
        if isinstance(a, FBits) and isinstance(b, int) and op in ('ashr', 'lshr') and b == bits - 1 and a.f.op != 'const':
            return sint(t.fcmp('sign', a.f, t.const(0.0, a.f.ty)), m if op == 'ashr' else 1, 0)
        if op == 'xor' and (isinstance(a, FBits) and a.f.op != 'const' or isinstance(b, FBits) and b.f.op != 'const'):
            # total_cmp: negative numbers have their other bits flipped
            x, y = (a, b) if isinstance(a, FBits) else (b, a)
            if isinstance(y, SInt):
                if y.a == m >> 1 and y.b == 0 and isinstance(y.a, int) and y.c is t.fcmp('olt', x.f, t.const(0.0, x.f.ty)):
                    return FKey(x.f, x.n)
                y = self.conc(y)
            if isinstance(y, int):
                neg = self.truth(t.fcmp('olt', x.f, t.const(0.0, x.f.ty))) if y in (0, m >> 1) else None
                if neg is not None and y == (m >> 1 if neg else 0):
                    return FKey(x.f, x.n)
        if isinstance(a, FBits) and isinstance(b, int):
            if op == 'and' and b == m >> 1:
                return FBits(t.fop('abs', a.f.ty, a.f), a.n)
            if op == 'xor' and b == 1 << (bits - 1):
                return FBits(t.fop('neg', a.f.ty, a.f), a.n)
        return self.lift2(f, a, b)

    def icmp(self, pred, ty, a, b):
        if not isinstance(ty, str):
            return [self.icmp(pred, ty[2], x, y) for x, y in zip(a, b)]
        if ty == 'i1':
            a, b = self.tobool(a), self.tobool(b)
            if pred == 'eq':
                return t.bnot(t.bxor(a, b))
            if pred == 'ne':
                return t.bxor(a, b)
            if pred in ('ult', 'sgt'):
                return t.band(t.bnot(a), b)
            if pred in ('ugt', 'slt'):
                return t.band(a, t.bnot(b))
            if pred in ('ule', 'sge'):
                return t.bor(t.bnot(a), b)
            return t.bor(a, t.bnot(b))
        bits = 64 if ty == 'ptr' else int(ty[1:])

        def sx(x):
            return x - (1 << bits) if x >> (bits - 1) else x

        def f(x, y):
            if pred == 'eq':
                r = x == y
            elif pred == 'ne':
                r = x != y
            elif pred[0] == 'u':
                r = {'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[pred]
            else:
                x, y = sx(x), sx(y)
                r = {'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[pred]
            return TRUE if r else FALSE
        if isinstance(a, FKey) or isinstance(b, FKey):
            a, b = [FKey(t.const(struct.unpack('<d' if bits == 64 else '<f', (x ^ (((1 << bits) - 1) >> 1 if x >> (bits - 1) else 0)).to_bytes(bits // 8, 'little'))[0],
                                 'f64' if bits == 64 else 'f32'), bits // 8) if isinstance(x, int) else x for x in (a, b)]
            if isinstance(a, FKey) and isinstance(b, FKey) and pred[0] != 'u':
                return t.fcmp({'eq': 'oeq', 'ne': 'une', 'slt': 'olt', 'sle': 'ole', 'sgt': 'ogt', 'sge': 'oge'}[pred], a.f, b.f)
        # sign test of a float through its bits
        if isinstance(a, FBits) and isinstance(b, int) and a.f.op != 'const':
            if (pred == 'slt' and b == 0) or (pred == 'sgt' and b == (1 << bits) - 1):
                lt = t.fcmp('sign', a.f, t.const(0.0, a.f.ty))
                return lt if pred == 'slt' else t.bnot(lt)
        return self.lift2(f, a, b)

    # ---- calls -------------------------------------------------------------
    def call_fn(self, f, args):
        self.depth += 1
        if self.depth > 200:
            raise Unsupported('recursion')
        f.parse()
        if f.mod.tag != 'harness' or True:
            self.funcs.add(f.name)
        regs = {}
        for (ty, nm), v in zip(f.params, args):
            regs[nm] = v
        mod = f.mod
        prev = None
        bl = f.entry
        allocs = []
        blocks = f.blocks

        def val(v, ty):
            if v[0] == 'r':
                return regs[v[1]]
            return self.const(mod, v, ty)

        while True:
            instrs = blocks[bl]
            n = len(instrs)
            i = 0
            # phis
            if instrs and instrs[0][0] == 'phi':
                new = []
                while i < n and instrs[i][0] == 'phi':
                    ins = instrs[i]
                    for v, lab in ins[3]:
                        if lab == prev:
                            new.append((ins[1], val(v, ins[2])))
                            break
                    else:
                        raise Unsupported('phi')
                    i += 1
                for d, v in new:
                    regs[d] = v
            nxt = None
            while i < n:
                ins = instrs[i]
                i += 1
                self.steps += 1
                op = ins[0]
                if op == 'load':
                    regs[ins[1]] = self.load(val(ins[3], 'ptr'), ins[2])
                elif op == 'gep':
                    regs[ins[1]] = self.gep(val(ins[3], 'ptr'), ins[2], [(ty, val(v, ty)) for ty, v in ins[4]])
                elif op == 'fbin':
                    regs[ins[1]] = self.fbin(ins[2], ins[3], val(ins[4], ins[3]), val(ins[5], ins[3]))
                elif op == 'store':
                    self.store(val(ins[3], 'ptr'), val(ins[2], ins[1]), ins[1])
                elif op == 'call' or op == 'invoke':
                    r = self.call(mod, ins, val)
                    if ins[1] is not None:
                        regs[ins[1]] = r
                    if op == 'invoke':
                        nxt = ins[5]
                        break
                elif op == 'br':
                    nxt = ins[2] if self.truth(val(ins[1], 'i1')) else ins[3]
                    break
                elif op == 'jmp':
                    nxt = ins[1]
                    break
                elif op == 'ret':
                    self.depth -= 1
                    for a in allocs:
                        pass
                    return None if ins[1] is None else val(ins[2], ins[1])
                elif op == 'fcmp':
                    ty = ins[3]
                    a, b = val(ins[4], ty), val(ins[5], ty)
                    if isinstance(ty, str):
                        regs[ins[1]] = t.fcmp(ins[2], self.fl(a), self.fl(b))
                    else:
                        regs[ins[1]] = [t.fcmp(ins[2], self.fl(x), self.fl(y)) for x, y in zip(a, b)]
                elif op == 'select':
                    c = val(ins[3], ins[6])
                    if isinstance(c, list):
                        a, b = val(ins[4], ins[2]), val(ins[5], ins[2])
                        regs[ins[1]] = [self.ite(self.tobool(k), x, y, ins[2][2]) for k, x, y in zip(c, a, b)]
                    else:
                        c = self.tobool(c)
                        regs[ins[1]] = self.ite(c, val(ins[4], ins[2]), val(ins[5], ins[2]), ins[2])
                elif op == 'icmp':
                    regs[ins[1]] = self.icmp(ins[2], ins[3], val(ins[4], ins[3]), val(ins[5], ins[3]))
                elif op == 'ibin':
                    regs[ins[1]] = self.ibin(ins[2], ins[3], val(ins[4], ins[3]), val(ins[5], ins[3]))
                elif op == 'fneg':
                    ty = ins[2]
                    a = val(ins[3], ty)
                    if isinstance(a, list):
                        regs[ins[1]] = [t.fop('neg', x.ty, x) for x in a]
                    else:
                        regs[ins[1]] = t.fop('neg', FT[ty], self.fl(a))
                elif op == 'alloca':
                    regs[ins[1]] = self.alloc(max(1, sizeof(ins[2]) * ins[3]))
                elif op == 'cast':
                    regs[ins[1]] = self.cast(ins[2], ins[3], val(ins[4], ins[3]), ins[5])
                elif op == 'switch':
                    v = val(ins[2], ins[1])
                    v = self.conc(v) if ins[1] != 'i1' else (1 if self.truth(self.tobool(v)) else 0)
                    nxt = ins[3]
                    for cv, lab in ins[4]:
                        if cv == v:
                            nxt = lab
                            break
                    break
                elif op == 'extractvalue':
                    v = val(ins[3], ins[2])
                    for k in ins[4]:
                        v = v[k]
                    regs[ins[1]] = v
                elif op == 'insertvalue':
                    v = val(ins[3], ins[2])
                    regs[ins[1]] = self.insert(v, val(ins[5], ins[4]), ins[6])
                elif op == 'copy':
                    regs[ins[1]] = val(ins[3], ins[2])
                elif op == 'unreachable':
                    raise Unsupported('reached unreachable in ' + f.name)
                elif op == 'extractelement':
                    regs[ins[1]] = val(ins[3], ins[2])[self.conc(val(ins[4], 'i64'))]
                elif op == 'insertelement':
                    v = list(val(ins[3], ins[2]))
                    v[self.conc(val(ins[6], 'i64'))] = val(ins[5], ins[4])
                    regs[ins[1]] = v
                elif op == 'shuffle':
                    ab = list(val(ins[3], ins[2])) + list(val(ins[4], ins[2]))
                    m = val(ins[6], ins[5])
                    regs[ins[1]] = [UNDEF if k is UNDEF else ab[k] for k in m]
                elif op == 'unsupported':
                    raise Unsupported('instruction ' + str(ins))
                else:
                    raise Unsupported('op ' + op)
            if self.steps > MAXSTEPS:
                raise Hang('step limit')
            if nxt is None:
                raise Unsupported('fell off block %s of %s: %s' % (bl, f.name, f.header[:200]))
            prev, bl = bl, nxt

    def insert(self, agg, v, idx):
        agg = list(agg)
        if len(idx) == 1:
            agg[idx[0]] = v
        else:
            agg[idx[0]] = self.insert(agg[idx[0]], v, idx[1:])
        return agg

    def fl(self, v):
        if isinstance(v, T):
            return v
        if v is UNDEF:
            raise Unsupported('undef float')
        raise Unsupported('float operand %r' % (v,))

    FB = {'fadd': 'add', 'fsub': 'sub', 'fmul': 'mul', 'fdiv': 'div', 'frem': 'rem'}

    def fbin(self, op, ty, a, b):
        if isinstance(a, list):
            # an undefined lane stays undefined
            return [UNDEF if x is UNDEF or y is UNDEF else self.fbin(op, ty[2], x, y) for x, y in zip(a, b)]
        return self.fmath(self.FB[op], FT[ty], [self.fl(a), self.fl(b)])

    def cast(self, op, ty, v, t2):
        if isinstance(v, list):
            if op == 'bitcast':
                raise Unsupported('vector bitcast')
            return [self.cast(op, ty[2], x, t2[2]) for x in v]
        if v is UNDEF:
            return v
        if op in ('zext', 'sext'):
            if ty == 'i1':
                one = 1 if op == 'zext' else mask(t2)
                return sint(self.tobool(v), one, 0)
            if op == 'zext':
                if isinstance(v, (FBits, Parts)):
                    return Parts.make(parts_of(v, sizeof(t2)))
                return v
            b = int(ty[1:])
            return self.lift2(lambda x, _: (x - (1 << b) if x >> (b - 1) else x) & mask(t2), v, 0)
        if op == 'trunc':
            if t2 == 'i1':
                return self.tobool(v)
            if isinstance(v, Parts):
                r = v.cut(0, sizeof(t2))
                if r is not None:
                    return Parts.make(r)
            return self.lift2(lambda x, _: x & mask(t2), v, 0)
        if op in ('ptrtoint', 'inttoptr', 'addrspacecast', 'ptrtoaddr'):
            return v
        if op == 'bitcast':
            if ty in FT and t2 in FT or ty == t2:
                return v
            if ty in FT:
                n = sizeof(ty)
                if v.op == 'const':
                    return int.from_bytes(struct.pack('<d' if n == 8 else '<f', v.a[0]), 'little')
                return FBits(v, n)
            if t2 in FT:
                return self.conv(v, t2, sizeof(t2))
            return v
        if op == 'fpext':
            return t.fop('fpext', FT[t2], self.fl(v))
        if op == 'fptrunc':
            return t.fop('fptrunc', FT[t2], self.fl(v))
        if op in ('uitofp', 'sitofp'):
            if ty == 'i1':
                one = 1.0 if op == 'uitofp' else -1.0
                return t.fite(self.tobool(v), FT[t2], t.const(one, FT[t2]), t.const(0.0, FT[t2]))
            if isinstance(v, SInt):
                return t.fite(v.c, FT[t2], self.cast(op, ty, v.a, t2), self.cast(op, ty, v.b, t2))
            if isinstance(v, IntOf):
                return self.fmath('ftrunc', v.f.ty, [v.f]) if v.n is None and v.f.ty == FT[t2] else t.const(float(self.sgnd(v)), FT[t2])
            b = int(ty[1:])
            if op == 'sitofp' and v >> (b - 1):
                v -= 1 << b
            return t.const(float(v), FT[t2])
        if op in ('fptoui', 'fptosi'):
            x = self.fl(v)
            if x.op == 'const':
                return int(x.a[0]) & mask(t2)
            return IntOf(x, int(t2[1:]))
        raise Unsupported('cast ' + op)

    def call(self, mod, ins, val):
        callee = ins[3]
        if callee[0] == 'g':
            name = callee[1]
            if name.startswith('@llvm.'):
                return self.intrinsic(name, ins, val)
            f = self.prog.find(mod, name)
        else:
            a = self.conc(val(callee, 'ptr'))
            f = self.faddr.get(a)
            if f is None:
                raise Unsupported('indirect call')
            if isinstance(f, str):
                name, f = f, None
            else:
                name = f.name
        if f is not None:
            if PANIC.search(name) and self.is_diverging(f):
                raise Panic(name)
            return self.call_fn(f, [val(v, ty) if ty != 'metadata' else None for ty, v in ins[4]])
        return self.extern(name, ins, val)

    def is_diverging(self, f):
        return 'noreturn' in f.header or re.search(r'panic|handle_error|handle_alloc_error|begin_panic|unwrap_failed|expect_failed', f.name) is not None

    def extern(self, name, ins, val):
        args = [(ty, v) for ty, v in ins[4]]
        A = lambda k: val(args[k][1], args[k][0])
        if name.endswith('___rust_alloc') or name.endswith('___rust_alloc_zeroed') or name == '@malloc' or name == '@calloc':
            n = self.conc(A(0))
            if name == '@calloc':
                n *= self.conc(A(1))
            p = self.alloc(max(1, n))
            if 'zeroed' in name or name == '@calloc':
                self.objs[p >> 32].fill = 0
            return p
        if name.endswith('___rust_dealloc') or name == '@free' or 'no_alloc_shim' in name:
            return None
        if name.endswith('___rust_realloc'):
            old, n, new = self.conc(A(0)), self.conc(A(1)), self.conc(A(3))
            p = self.alloc(max(1, new))
            self.memcpy(p, old, min(n, new))
            return p
        base = name[1:]
        f32 = False
        m = MATH.get(base)
        if m:
            op, ar, ty = m
            return self.fmath(op, ty, [self.fl(A(k)) for k in range(ar)])
        if base in ('memcpy', 'memmove'):
            self.memcpy(A(0), A(1), A(2))
            return A(0)
        if base == 'memset':
            self.memset(A(0), A(1), A(2))
            return A(0)
        if base in ('memcmp', 'bcmp'):
            p, q, n = self.conc(A(0)), self.conc(A(1)), self.conc(A(2))
            for k in range(n):
                x, y = self.conc(self.load(p + k, 'i8')), self.conc(self.load(q + k, 'i8'))
                if x != y:
                    return 1 if x > y else 0xffffffff
            return 0
        if PANIC.search(name):
            raise Panic(name)
        if 'stdio6_print' in name or '_print' in name or '_eprint' in name:
            return None
        raise Unsupported('external call ' + name)

    def intrinsic(self, name, ins, val):
        args = ins[4]
        A = lambda k: val(args[k][1], args[k][0])
        b = name[6:]
        if b.startswith(('lifetime', 'assume', 'experimental.noalias', 'dbg', 'invariant', 'donothing', 'prefetch', 'sideeffect')):
            return None
        if b.startswith(('memcpy', 'memmove')):
            return self.memcpy(A(0), A(1), A(2))
        if b.startswith('memset'):
            return self.memset(A(0), A(1), A(2))
        k = b.split('.')[0]
        if b.startswith(('trap', 'ubsantrap', 'debugtrap')):
            raise Panic(name)
        if b.endswith(('.f64', '.f32')) or k == 'powi' or (re.search(r'\.v\d+f(32|64)$', b)):
            fty = 'f32' if re.search(r'f32', b) else 'f64'
            mv = re.search(r'\.v(\d+)f(32|64)$', b)
            vals = [A(j) for j in range(len(args))]
            if mv:
                return [self.fintr(k, fty, [x[j] if isinstance(x, list) else x for x in vals], b) for j in range(int(mv.group(1)))]
            return self.fintr(k, fty, vals, b)
        if k in ('umax', 'umin', 'smax', 'smin'):
            bits = int(b.split('.')[1][1:])
            sx = (lambda x: x - (1 << bits) if x >> (bits - 1) else x) if k[0] == 's' else (lambda x: x)
            return self.lift2(lambda x, y: (max if k[1:] == 'max' else min)(x, y, key=sx), A(0), A(1))
        if k == 'abs':
            bits = int(b.split('.')[1][1:])
            return self.lift2(lambda x, _: ((1 << bits) - x) & mask('i%d' % bits) if x >> (bits - 1) else x, A(0), 0)
        if b.split('.')[0] in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul') and 'overflow' in b:
            bits = int(b.split('.')[-1][1:])
            x, y = self.conc(A(0)), self.conc(A(1))
            if k[0] == 's':
                s = lambda v: v - (1 << bits) if v >> (bits - 1) else v
                x, y = s(x), s(y)
            r = {'add': x + y, 'sub': x - y, 'mul': x * y}[k[1:]]
            m = (1 << bits) - 1
            ov = (r & m) != r if k[0] == 'u' else not (-(1 << (bits - 1)) <= r < (1 << (bits - 1)))
            return [r & m, TRUE if ov else FALSE]
        if k in ('uadd', 'usub') and '.sat' in b:
            bits = int(b.split('.')[-1][1:])
            x, y = self.conc(A(0)), self.conc(A(1))
            return min(x + y, (1 << bits) - 1) if k == 'uadd' else max(x - y, 0)
        if k == 'expect':
            return A(0)
        if k in ('ctpop', 'ctlz', 'cttz', 'bswap', 'fshl', 'fshr'):
            bits = int(b.split('.')[-1][1:])
            x = self.conc(A(0))
            if k == 'ctpop':
                return bin(x).count('1')
            if k == 'ctlz':
                return bits - x.bit_length()
            if k == 'cttz':
                return (x & -x).bit_length() - 1 if x else bits
        if k == 'fptosi' or k == 'fptoui':
            x = self.fl(A(0))
            if x.op == 'const':
                bits = int(re.search(r'\.i(\d+)\.', b + '.').group(1))
                v = x.a[0]
                lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if k == 'fptosi' else (0, (1 << bits) - 1)
                v = 0 if v != v else (hi if v > hi else lo if v < lo else int(v))
                return v & ((1 << bits) - 1)
            return IntOf(x, int(re.search(r'\.i(\d+)\.', b + '.').group(1)))
        if k == 'scmp' or k == 'ucmp':
            bits = int(b.split('.')[-1][1:])
            rb = int(b.split('.')[1][1:])
            s = (lambda v: v - (1 << bits) if v >> (bits - 1) else v) if k[0] == 's' else (lambda v: v)
            if isinstance(A(0), FKey) and isinstance(A(1), FKey) and k == 'scmp':
                x, y = A(0).f, A(1).f
                return 1 if self.truth(t.fcmp('ogt', x, y)) else (1 << rb) - 1 if self.truth(t.fcmp('olt', x, y)) else 0
            return self.lift2(lambda x, y: ((s(x) > s(y)) - (s(x) < s(y))) & ((1 << rb) - 1), A(0), A(1))
        if k == 'vector':
            mv = re.match(r'vector\.reduce\.(f?\w+)\.v(\d+)(\w+)', b)
            if mv:
                op = mv.group(1)
                if op in ('and', 'or', 'xor', 'add'):
                    v = A(0)
                    ty = mv.group(3)
                    r = v[0]
                    for x in v[1:]:
                        r = self.ibin(op, ty, r, x)
                    return r
                if op in ('fadd', 'fmul'):
                    r = A(0)
                    for x in A(1):
                        r = t.fop(op[1:], x.ty, r, x)
                    return r
                if op in ('fmin', 'fmax'):
                    v = A(0)
                    r = v[0]
                    for x in v[1:]:
                        r = t.fop(op[1:], x.ty, r, x)
                    return r
        if k == 'is' and b.startswith('is.fpclass'):
            x = self.fl(A(0))
            return self.fpclass(x, self.conc(A(1)))
        if k == 'is' and b.startswith('is.constant'):
            return FALSE
        if k == 'objectsize':
            return mask('i64')
        raise Unsupported('intrinsic ' + name)

    def fpclass(self, x, m):
        z = t.const(0.0, x.ty)
        inf = t.const(math.inf, x.ty)
        ninf = t.const(-math.inf, x.ty)
        r = FALSE
        if m & 3:
            r = t.bor(r, t.fcmp('uno', x, x))
        if m & 4:
            r = t.bor(r, t.fcmp('oeq', x, ninf))
        if m & 512:
            r = t.bor(r, t.fcmp('oeq', x, inf))
        neg = m & (8 | 16 | 32)
        pos = m & (64 | 128 | 256)
        if (m & 0x1f8) == 0x1f8:
            return t.bor(r, t.band(t.fcmp('olt', x, inf), t.fcmp('ogt', x, ninf)))
        if (m & 0x60) == 0x60 and not (m & 0x198):
            return t.bor(r, t.fcmp('oeq', x, z))
        if m & 0x1f8:
            raise Unsupported('is.fpclass %#x' % m)
        return r

    def fintr(self, k, ty, vals, b):
        if k == 'powi':
            n = self.conc(vals[1])
            if n >> 31:
                n -= 1 << 32
            x = self.fl(vals[0])
            r = t.const(1.0, ty)
            for _ in range(abs(n)):
                r = x if r.op == 'const' and r.a[0] == 1.0 else t.fop('mul', ty, r, x)
            if n < 0:
                r = t.fop('div', ty, t.const(1.0, ty), r)
            return r
        op = {'sqrt': 'sqrt', 'fabs': 'abs', 'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'pow': 'pow', 'log': 'log', 'exp': 'exp',
              'minnum': 'min', 'maxnum': 'max', 'minimumnum': 'min', 'maximumnum': 'max', 'minimum': 'min', 'maximum': 'max',
              'fma': 'fma', 'fmuladd': 'fma', 'copysign': 'copysign', 'floor': 'floor', 'ceil': 'ceil', 'trunc': 'ftrunc', 'round': 'round',
              'acos': 'acos', 'asin': 'asin', 'atan': 'atan', 'atan2': 'atan2', 'exp2': 'exp2', 'log2': 'log2', 'log10': 'log10',
              'canonicalize': None}.get(k, 0)
        if op == 0:
            raise Unsupported('intrinsic ' + b)
        if op is None:
            return vals[0]
        return self.fmath(op, ty, [self.fl(v) for v in vals])


class IntOf:
    """integer obtained from a symbolic float by truncation"""
    __slots__ = ('f', 'bits', 'n')

    def __init__(self, f, bits):
        self.f, self.bits, self.n = f, bits, None


class FKey:
    """bits of a float, transformed so that signed integer order is float order"""
    __slots__ = ('f', 'n')

    def __init__(self, f, n):
        self.f, self.n = f, n


MATH = {}
for _n, _ar in (('sin', 1), ('cos', 1), ('tan', 1), ('asin', 1), ('acos', 1), ('atan', 1), ('atan2', 2), ('log', 1), ('exp', 1), ('pow', 2),
                ('sqrt', 1), ('hypot', 2), ('cbrt', 1), ('fma', 3), ('floor', 1), ('ceil', 1), ('trunc', 1), ('round', 1), ('exp2', 1), ('log2', 1), ('log10', 1),
                ('sinh', 1), ('cosh', 1), ('tanh', 1)):
    _o = {'trunc': 'ftrunc'}.get(_n, _n)
    MATH[_n] = (_o, _ar, 'f64')
    MATH[_n + 'f'] = (_o, _ar, 'f32')
MATH['fmod'] = ('rem', 2, 'f64')
MATH['fmodf'] = ('rem', 2, 'f32')
MATH['fmin'] = ('min', 2, 'f64')
MATH['fmax'] = ('max', 2, 'f64')
MATH['fminf'] = ('min', 2, 'f32')
MATH['fmaxf'] = ('max', 2, 'f32')


class ConcreteDomain:
    def decide(self, b):
        raise Unsupported('symbolic branch in concrete run')


def run_entry(prog, dom, entry, inputs, nout, k, ty):
    """Execute extern "C" fn entry(i: *const T, o: *mut T, k: u64) -> (outputs, exec).
    outputs that were not written are None."""
    ex = Exec(prog, dom)
    w = 8 if ty == 'f64' else 4
    lty = 'double' if ty == 'f64' else 'float'
    ip = ex.alloc(max(1, w * len(inputs)))
    op = ex.alloc(max(1, w * nout))
    for i, x in enumerate(inputs):
        ex.store(ip + i * w, x, lty)
    f = prog.find(prog.mods[0], '@' + entry)
    if f is None:
        raise Unsupported('no entry ' + entry)
    ex.call_fn(f, [ip, op, k])
    outs = []
    for i in range(nout):
        o, off = ex.obj(op + i * w, w)
        if not any(off + j in o.cells for j in range(-7, w)):
            outs.append(None)
            continue
        v = ex.load(op + i * w, lty)
        outs.append(None if v is UNDEF else v)
    return outs, ex
