"""Hash-consed float and boolean terms produced by the symbolic executor."""
import ctypes, ctypes.util, math, struct

_libm = ctypes.CDLL(ctypes.util.find_library('m') or 'libm.so.6')


def _lm(name, n, f32):
    f = getattr(_libm, name + ('f' if f32 else ''))
    t = ctypes.c_float if f32 else ctypes.c_double
    f.restype = t
    f.argtypes = [t] * n
    return f


_cache = {}


def libm(name, f32, *a):
    k = (name, f32, len(a))
    if k not in _cache:
        _cache[k] = _lm(name, len(a), f32)
    return _cache[k](*a)


def r32(x):
    """round a python float to binary32"""
    try:
        return struct.unpack('f', struct.pack('f', x))[0]
    except OverflowError:
        return math.inf if x > 0 else -math.inf


class T:
    __slots__ = ('op', 'a', 'id', 'ty')

    def __repr__(self):
        if self.op == 'const':
            return repr(self.a[0])
        if self.op == 'var':
            return self.a[0]
        return '%s(%s)' % (self.op, ','.join(map(repr, self.a)))


_tab = {}
_list = []


def mk(op, ty, *a):
    k = (op, ty) + tuple(x.id if isinstance(x, T) else ('#', x) for x in a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.ty, t.a = op, ty, a
        t.id = len(_list)
        _list.append(t)
        _tab[k] = t
    return t


def var(name, ty):
    return mk('var', ty, name)


def const(x, ty):
    x = float(x)
    if ty == 'f32':
        x = r32(x)
    b = struct.pack('>d', x) if x == x else b'nan'
    k = ('const', ty, b)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.ty, t.a = 'const', ty, (x,)
        t.id = len(_list)
        _list.append(t)
        _tab[k] = t
    return t


TRUE = mk('true', 'b')
FALSE = mk('false', 'b')


def isc(t):
    return t.op == 'const'


def fdiv(a, b):
    if b == 0 or b != b:
        if a != a or b != b or a == 0:
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)
    if math.isinf(a) and math.isinf(b):
        return math.nan
    return a / b


def fmul(a, b):
    return a * b


def fold(op, ty, vals):
    f32 = ty == 'f32'
    if op == 'add':
        x = vals[0] + vals[1]
    elif op == 'sub':
        x = vals[0] - vals[1]
    elif op == 'mul':
        x = vals[0] * vals[1]
    elif op == 'div':
        x = fdiv(*vals)
    elif op == 'rem':
        x = math.fmod(*vals) if vals[1] != 0 and not math.isinf(vals[0]) else math.nan
    elif op == 'neg':
        x = -vals[0]
    elif op == 'abs':
        x = abs(vals[0])
    elif op == 'sqrt':
        x = math.sqrt(vals[0]) if vals[0] >= 0 else (vals[0] if vals[0] == 0 else math.nan)
    elif op in ('min', 'max'):
        a, b = vals
        if a != a:
            x = b
        elif b != b:
            x = a
        elif a == b:   # signed zeros: minimumnum orders -0 < +0
            s = math.copysign(1, a) < 0
            x = (a if s else b) if op == 'min' else (b if s else a)
        else:
            x = min(a, b) if op == 'min' else max(a, b)
    elif op == 'copysign':
        x = math.copysign(*vals)
    elif op == 'fptrunc':
        x = r32(vals[0])
    elif op == 'fpext':
        x = vals[0]
    elif op == 'floor':
        x = vals[0] if math.isinf(vals[0]) or vals[0] != vals[0] else float(math.floor(vals[0]))
    elif op == 'ceil':
        x = vals[0] if math.isinf(vals[0]) or vals[0] != vals[0] else float(math.ceil(vals[0]))
    elif op == 'ftrunc':
        x = vals[0] if math.isinf(vals[0]) or vals[0] != vals[0] else float(math.trunc(vals[0]))
    elif op == 'fma':
        x = libm('fma', f32, *vals)
    else:
        x = libm(op, f32, *vals)
    return const(x, ty)


# fold transcendental functions only for concrete interpretation (set by the validator)
CONCRETE = [False]
TRANS = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'log', 'exp', 'pow', 'sinh', 'cosh', 'tanh', 'cbrt', 'hypot', 'exp2', 'log2', 'log10'}


def fop(op, ty, *a):
    if all(x.op == 'const' for x in a):
        if CONCRETE[0]:
            return fold(op, ty, [x.a[0] for x in a])
        if op in ('add', 'sub', 'mul', 'div', 'sqrt'):
            # fold only when exact, so that the ideal-real reading keeps the exact value
            from fractions import Fraction
            r = fold(op, ty, [x.a[0] for x in a])
            v = [x.a[0] for x in a]
            if r.a[0] != r.a[0] or any(math.isinf(y) or y != y for y in v) or math.isinf(r.a[0]):
                return r
            q = [Fraction(y) for y in v]
            R = Fraction(r.a[0])
            ok = (op == 'add' and q[0] + q[1] == R) or (op == 'sub' and q[0] - q[1] == R) or (op == 'mul' and q[0] * q[1] == R) \
                or (op == 'div' and q[1] != 0 and q[0] / q[1] == R) or (op == 'sqrt' and R * R == q[0])
            if ok:
                return r
        elif op not in TRANS and op != 'fma':
            return fold(op, ty, [x.a[0] for x in a])
    return mk(op, ty, *a)


def cmpv(pred, a, b):
    if a != a or b != b:
        return pred[0] == 'u' and pred != 'ueq' or pred == 'ueq' or pred == 'une' if pred[0] == 'u' else False
    p = pred[1:]
    if pred == 'ord':
        return True
    if pred == 'uno':
        return False
    return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p]


def fcmp(pred, a, b):
    if pred == 'true':
        return TRUE
    if pred == 'false':
        return FALSE
    if isc(a) and isc(b):
        x, y = a.a[0], b.a[0]
        if pred == 'uno':
            return TRUE if (x != x or y != y) else FALSE
        if pred == 'ord':
            return FALSE if (x != x or y != y) else TRUE
        if pred == 'sign':
            return TRUE if math.copysign(1.0, x) < 0 else FALSE
        return TRUE if cmpv(pred, x, y) else FALSE
    return mk('cmp', 'b', pred, a, b)


def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.a[0]
    return mk('not', 'b', a)


def band(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is b:
        return a
    return mk('and', 'b', a, b)


def bor(a, b):
    return bnot(band(bnot(a), bnot(b)))


def bxor(a, b):
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is TRUE:
        return bnot(b)
    if b is TRUE:
        return bnot(a)
    if a is b:
        return FALSE
    return bor(band(a, bnot(b)), band(bnot(a), b))


def bite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return bor(band(c, a), band(bnot(c), b))


def fite(c, ty, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return mk('ite', ty, c, a, b)
