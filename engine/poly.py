"""Sparse multivariate polynomials with exact rational coefficients, and rational functions over
a tower of square-root / trigonometric extensions (relations v^2 -> poly)."""
from fractions import Fraction
from math import gcd, isqrt

B = 10                    # bits per exponent
EM = (1 << B) - 1
CB = 20000                # fraction bits of the enclosures of constant square roots


def norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


class Poly:
    __slots__ = ('d', '_h', '_k')

    def __init__(self, d):
        self.d = d
        self._h = None
        self._k = None

    def key(self):
        if self._k is None:
            self._k = frozenset(self.d.items())
        return self._k

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and self.d == o.d)

    def iszero(self):
        return not self.d

    def isconst(self):
        return not self.d or (len(self.d) == 1 and 0 in self.d)

    def cval(self):
        return self.d.get(0, 0)

    def lm(self):
        return max(self.d)

    def __len__(self):
        return len(self.d)


ZERO = Poly({})
ONE = Poly({0: 1})


def pconst(c):
    c = norm(c)
    return Poly({0: c}) if c else ZERO


def pvar(i, e=1):
    return Poly({e << (B * i): 1})


def padd(a, b):
    if not a.d:
        return b
    if not b.d:
        return a
    if len(a.d) < len(b.d):
        a, b = b, a
    d = dict(a.d)
    for m, c in b.d.items():
        x = d.get(m)
        if x is None:
            d[m] = c
        else:
            x = x + c
            if x:
                d[m] = norm(x)
            else:
                del d[m]
    return Poly(d)


def pneg(a):
    return Poly({m: -c for m, c in a.d.items()})


def psub(a, b):
    if not b.d:
        return a
    d = dict(a.d)
    for m, c in b.d.items():
        x = d.get(m)
        if x is None:
            d[m] = -c
        else:
            x = x - c
            if x:
                d[m] = norm(x)
            else:
                del d[m]
    return Poly(d)


def pscale(a, k):
    if k == 1:
        return a
    if k == 0:
        return ZERO
    return Poly({m: norm(c * k) for m, c in a.d.items()})


class TooBig(Exception):
    pass


LIMIT = [4000000]


def pmul_raw(a, b):
    if not a.d or not b.d:
        return ZERO
    if len(a.d) > len(b.d):
        a, b = b, a
    if len(a.d) * len(b.d) > LIMIT[0]:
        raise TooBig('product of %d x %d terms' % (len(a.d), len(b.d)))
    d = {}
    bi = list(b.d.items())
    g = d.get
    for m1, c1 in a.d.items():
        if c1 == 1:
            for m2, c2 in bi:
                m = m1 + m2
                d[m] = g(m, 0) + c2
        else:
            for m2, c2 in bi:
                m = m1 + m2
                d[m] = g(m, 0) + c1 * c2
    return Poly({m: norm(c) for m, c in d.items() if c})


def mono_exp(m, i):
    return (m >> (B * i)) & EM


def mono_vars(m):
    out = []
    i = 0
    while m:
        e = m & EM
        if e:
            out.append((i, e))
        m >>= B
        i += 1
    return out


def pvars(p):
    acc = 0
    for m in p.d:
        acc |= m
    out = []
    i = 0
    while acc:
        if acc & EM:
            out.append(i)
        acc >>= B
        i += 1
    return out


def mono_divides(a, b):
    """a | b"""
    while a:
        if (a & EM) > (b & EM):
            return False
        a >>= B
        b >>= B
    return True


def pcontent(p):
    """-> (rational content with sign of the leading term, primitive integer poly)"""
    if not p.d:
        return 0, p
    num = 0
    den = 1
    for c in p.d.values():
        if type(c) is Fraction:
            num = gcd(num, c.numerator)
            den = den * c.denominator // gcd(den, c.denominator)
        else:
            num = gcd(num, c)
    k = Fraction(abs(num), den)
    if p.d[p.lm()] < 0:
        k = -k
    if k == 1:
        return 1, p
    return norm(k), Poly({m: norm(c / k) if type(c) is Fraction or den != 1 else c // k.numerator if k.denominator == 1 else norm(Fraction(c) / k)
                          for m, c in p.d.items()})


def pmonocontent(p):
    """gcd monomial -> (mono, cofactor poly)"""
    it = iter(p.d)
    g = next(it)
    for m in it:
        if not g:
            return 0, p
        r = 0
        sh = 0
        x, y = g, m
        while x:
            e = min(x & EM, y & EM)
            r |= e << sh
            sh += B
            x >>= B
            y >>= B
        g = r
    if not g:
        return 0, p
    return g, Poly({m - g: c for m, c in p.d.items()})


def pdiv_exact(a, b):
    """exact division in the polynomial ring; None when b does not divide a"""
    if not a.d:
        return ZERO
    if b.isconst():
        return pscale(a, Fraction(1) / b.cval())
    lb = b.lm()
    cb = b.d[lb]
    if not mono_divides(lb, a.lm()):
        return None
    # quick trailing check
    ta, tb = min(a.d), min(b.d)
    if not mono_divides(tb, ta):
        return None
    import heapq
    r = dict(a.d)
    heap = [-m for m in r]
    heapq.heapify(heap)
    q = {}
    bi = [(m, c) for m, c in b.d.items() if m != lb]
    n = 0
    while heap:
        m = -heapq.heappop(heap)
        c = r.pop(m, 0)
        if not c:
            continue
        if not mono_divides(lb, m):
            return None
        qm = m - lb
        qc = c if cb == 1 else (-c if cb == -1 else norm(Fraction(c) / cb))
        q[qm] = qc
        for m2, c2 in bi:
            mm = qm + m2
            x = r.get(mm)
            if x is None:
                r[mm] = -qc * c2
                heapq.heappush(heap, -mm)
            else:
                r[mm] = x - qc * c2
        n += len(bi)
        if n > 3000000:
            return None
    return Poly(q)


def rat_sqrt(c):
    """exact rational sqrt or None"""
    c = Fraction(c)
    if c < 0:
        return None
    a, b = isqrt(c.numerator), isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return norm(Fraction(a, b))
    return None


def psqrt_exact(p):
    """polynomial square root or None"""
    if not p.d:
        return ZERO
    lm = p.lm()
    for _, e in mono_vars(lm):
        if e % 2:
            return None
    tm = min(p.d)
    for _, e in mono_vars(tm):
        if e % 2:
            return None
    c = rat_sqrt(p.d[lm])
    if c is None:
        return None

    def half(m):
        r = 0
        sh = 0
        while m:
            r |= ((m & EM) // 2) << sh
            sh += B
            m >>= B
        return r
    l0 = half(lm)
    s = {l0: c}
    r = psub(p, Poly({lm: p.d[lm]}))
    n = 0
    while r.d:
        m = r.lm()
        if not mono_divides(l0, m):
            return None
        qm = m - l0
        if qm >= l0 or qm in s:
            return None
        qc = norm(Fraction(r.d[m]) / (2 * c))
        # (s+q)^2 = s^2 + 2 s q + q^2
        upd = {}
        for sm, sc in s.items():
            upd[sm + qm] = upd.get(sm + qm, 0) + 2 * sc * qc
        upd[2 * qm] = upd.get(2 * qm, 0) + qc * qc
        r = psub(r, Poly({k: norm(v) for k, v in upd.items() if v}))
        s[qm] = qc
        n += 1
        if n > 400:
            return None
    return Poly(s)


def peval(p, vals):
    """vals: list of numbers indexed by variable"""
    tot = 0
    for m, c in p.d.items():
        x = c
        for i, e in mono_vars(m):
            x = x * vals[i] ** e
        tot = tot + x
    return tot


def psubs(p, ring, sub):
    """substitute variables by Polys (dict var index -> Poly)"""
    out = ZERO
    for m, c in p.d.items():
        t = pconst(c)
        rest = 0
        for i, e in mono_vars(m):
            if i in sub:
                for _ in range(e):
                    t = ring.mul(t, sub[i])
            else:
                rest |= e << (B * i)
        if rest:
            t = pmul_raw(t, Poly({rest: 1}))
        out = padd(out, t)
    return out


def pstr(p, names):
    if not p.d:
        return '0'
    out = []
    for m in sorted(p.d, reverse=True):
        c = p.d[m]
        s = '*'.join(names[i] + ('^%d' % e if e > 1 else '') for i, e in mono_vars(m))
        out.append(('%s*%s' % (c, s)) if s and c != 1 else (s or str(c)))
    return ' + '.join(out)


class Ring:
    """variables and relations"""

    def __init__(self):
        self.names = []
        self.kind = []      # 'in','sqrt','sin','cos','ang','ln','exp','delta','square' ...
        self.rel = {}       # var -> Poly: v^2 = Poly
        self.relorder = []
        self.prods = []         # (u, v, Poly): u*v -> Poly   (definition of a composite symbol)
        self.defs = {}          # composite symbol -> defining Poly
        self.info = {}
        self.factors = []   # registered denominator factors
        self.fidx = {}
        self.mulcache = {}
        self.cv, self.cs, self.cvn, self.cva = {}, {}, -1, False

    def newvar(self, name, kind, rel=None):
        i = len(self.names)
        self.names.append(name)
        self.kind.append(kind)
        if rel is not None:
            self.setrel(i, rel)
        return i

    def civ(self, v):
        """enclosure (as integers times 2^-CB) of a symbol that is a square root of constants, else None"""
        if v not in self.cv:
            self.cv[v] = None
            if self.kind[v] == 'sqrt' and v in self.rel:
                r = self.piv(self.rel[v])
                if r is not None and r[0] >= 0:
                    self.cv[v] = (isqrt(r[0] << CB), isqrt(r[1] << CB) + 1)
        return self.cv[v]

    def piv(self, p):
        """enclosure of a polynomial in such symbols, else None"""
        lo = hi = 0
        for m, c in p.d.items():
            a, b = 1 << CB, 1 << CB
            for v, e in mono_vars(m):
                x = self.civ(v)
                if x is None:
                    return None
                for _ in range(e):
                    a, b = (a * x[0]) >> CB, -((-b * x[1]) >> CB)
            c = Fraction(c)
            n, d = c.numerator, c.denominator
            if n < 0:
                a, b = b, a
            lo += (n * a) // d
            hi += -((-n * b) // d)
        return lo, hi

    def parts(self, p):
        """p as {monomial in the other symbols: enclosure of its constant coefficient}"""
        g = {}
        for m, c in p.d.items():
            k = m
            for v, e in mono_vars(m):
                if self.civ(v) is not None:
                    k -= e << (B * v)
            g.setdefault(k, {})[m - k] = c
        return {k: self.piv(Poly(d)) for k, d in g.items()}

    def csign(self, p):
        """sign of a polynomial in constants (0 when it is none, or too close to call)"""
        if not self.cv_any():
            return 0
        if p not in self.cs:
            r = self.piv(p)
            self.cs[p] = 0 if r is None else (1 if r[0] > 0 else -1 if r[1] < 0 else 0)
        return self.cs[p]

    def cv_any(self):
        if len(self.rel) != self.cvn:
            self.cvn = len(self.rel)
            self.cva = any(self.civ(v) is not None for v in self.rel)
        return self.cva

    def mulmono(self, p, v):
        return self.mul(p, pvar(v))

    def setrel(self, i, rel):
        self.rel[i] = rel
        self.relorder.insert(0, i)

    def setprod(self, u, v, R):
        self.prods.append((u, v, R))

    def reduce(self, p):
        if not self.prods:
            return self.reduce_sq(p)
        for _ in range(6):
            q = self.reduce_prod(self.reduce_sq(p))
            if q is p or q == p:
                return q
            p = q
        return p

    def reduce_prod(self, p):
        for u, v, R in self.prods:
            su, sv = B * u, B * v
            hi = [m for m in p.d if (m >> su) & EM and (m >> sv) & EM]
            if not hi:
                continue
            groups = {}
            d = dict(p.d)
            for m in hi:
                e = min((m >> su) & EM, (m >> sv) & EM)
                groups.setdefault(e, {})[m - (e << su) - (e << sv)] = d.pop(m)
            acc = Poly(d)
            pw = ONE
            k = 0
            for e in sorted(groups):
                while k < e:
                    pw = pmul_raw(pw, R)
                    k += 1
                acc = padd(acc, pmul_raw(Poly(groups[e]), pw))
            p = acc
        return p

    def reduce_sq(self, p):
        for v in self.relorder:
            sh = B * v
            hi = [m for m in p.d if ((m >> sh) & EM) >= 2]
            if not hi:
                continue
            R = self.rel[v]
            groups = {}
            for m in hi:
                e = (m >> sh) & EM
                groups.setdefault(e // 2, {})[m - ((e - e % 2) << sh)] = p.d[m]
            d = {m: c for m, c in p.d.items() if ((m >> sh) & EM) < 2}
            acc = Poly(d)
            pw = ONE
            k = 0
            for e in sorted(groups):
                while k < e:
                    pw = self.mul(pw, R)
                    k += 1
                acc = padd(acc, pmul_raw(Poly(groups[e]), pw))
            p = acc
            # products with R can raise older relation vars; those come later in relorder
        return p

    def mul(self, a, b):
        if a.isconst():
            return pscale(b, a.cval())
        if b.isconst():
            return pscale(a, b.cval())
        return self.reduce(pmul_raw(a, b))

    def pow(self, a, e):
        r = ONE
        for _ in range(e):
            r = self.mul(r, a)
        return r

    def factor_id(self, p):
        """register primitive poly as factor"""
        i = self.fidx.get(p)
        if i is None:
            i = len(self.factors)
            self.factors.append(p)
            self.fidx[p] = i
        return i

    def factor_var(self, v):
        return self.factor_id(pvar(v))

    def split_known(self, p):
        """p (nonzero) -> (const, {factor id: exp}) with p = const * prod factors^exp, registering leftovers"""
        out = {}
        c, p = pcontent(p)
        m, p = pmonocontent(p)
        for i, e in mono_vars(m):
            f = self.factor_var(i)
            out[f] = out.get(f, 0) + e
        if p.isconst():
            return norm(c * p.cval()), out
        # radicands
        if len(p) > 1:
            for v in self.relorder:
                if self.kind[v] not in ('sqrt',):
                    continue
                R = self.rel[v]
                if len(R) < 2:
                    continue
                while True:
                    q = pdiv_exact(p, R)
                    if q is None:
                        break
                    f = self.factor_var(v)
                    out[f] = out.get(f, 0) + 2
                    p = q
            for i, f in enumerate(list(self.factors)):
                if p.isconst():
                    break
                if len(f) < 2:
                    continue
                while True:
                    q = pdiv_exact(p, f)
                    if q is None:
                        break
                    out[i] = out.get(i, 0) + 1
                    p = q
        if not p.isconst():
            c2, p = pcontent(p)
            c = c * c2
            f = self.factor_id(p)
            out[f] = out.get(f, 0) + 1
        else:
            c = c * p.cval()
        return norm(c), out


class Rat:
    """N / prod f^e ; e>0.  Interned through ring.rat()"""
    __slots__ = ('n', 'd', 'uid')


class RatField:
    def __init__(self, ring):
        self.ring = ring
        self.tab = {}
        self.cache = {}
        self.zero = self.make(ZERO, {})
        self.one = self.make(ONE, {})

    def make(self, n, d):
        if not n.d:
            d = {}
        dk = tuple(sorted((k, e) for k, e in d.items() if e))
        key = (n.key(), dk)
        r = self.tab.get(key)
        if r is None:
            r = Rat()
            r.n, r.d = n, dict(dk)
            r.uid = len(self.tab)
            self.tab[key] = r
        return r

    def const(self, c):
        return self.make(pconst(c), {})

    def var(self, i):
        return self.make(pvar(i), {})

    def poly(self, p):
        return self.make(p, {})

    def cancel(self, n, d):
        ring = self.ring
        if not n.d:
            return n, {}
        d = dict(d)
        for f in list(d):
            e = d[f]
            p = ring.factors[f]
            if len(p) == 1:
                # single variable
                m = p.lm()
                v = mono_vars(m)[0][0]
                sh = B * v
                k = min(((mm >> sh) & EM) for mm in n.d)
                k = min(k, e)
                if k:
                    n = Poly({mm - (k << sh): c for mm, c in n.d.items()})
                    e -= k
                if e and v in ring.rel and ring.kind[v] == 'sqrt':
                    R = ring.rel[v]
                    while e:
                        if len(R) > 1 or not R.isconst():
                            q = pdiv_exact(n, R) if len(n) >= len(R) or len(R) == 1 else None
                        else:
                            q = pscale(n, Fraction(1) / R.cval()) if e >= 2 else None
                        if q is None:
                            break
                        n = q
                        if e >= 2:
                            e -= 2
                        else:
                            n = ring.mul(n, pvar(v))
                            e -= 1
                d[f] = e
            else:
                while e:
                    q = pdiv_exact(n, p)
                    if q is None:
                        break
                    n = q
                    e -= 1
                d[f] = e
            if not d[f]:
                del d[f]
        return n, d

    def dpoly(self, d):
        r = ONE
        for f, e in d.items():
            for _ in range(e):
                r = self.ring.mul(r, self.ring.factors[f])
        return r

    def add(self, a, b, sub=False):
        if not b.n.d:
            return a
        if not a.n.d:
            return self.neg(b) if sub else b
        k = ('-' if sub else '+', a.uid, b.uid)
        r = self.cache.get(k)
        if r is not None:
            return r
        if a.d == b.d:
            n = psub(a.n, b.n) if sub else padd(a.n, b.n)
            L = a.d
        else:
            L = dict(a.d)
            for f, e in b.d.items():
                if L.get(f, 0) < e:
                    L[f] = e
            ca = self.dpoly({f: e - a.d.get(f, 0) for f, e in L.items()})
            cb = self.dpoly({f: e - b.d.get(f, 0) for f, e in L.items()})
            x, y = self.ring.mul(a.n, ca), self.ring.mul(b.n, cb)
            n = psub(x, y) if sub else padd(x, y)
        n = self.ring.reduce(n)
        if L:
            n, L = self.cancel(n, L)
        r = self.make(n, L)
        self.cache[k] = r
        return r

    def sub(self, a, b):
        return self.add(a, b, True)

    def neg(self, a):
        return self.make(pneg(a.n), a.d)

    def mul(self, a, b):
        if not a.n.d or not b.n.d:
            return self.zero
        k = ('*', a.uid, b.uid) if a.uid <= b.uid else ('*', b.uid, a.uid)
        r = self.cache.get(k)
        if r is not None:
            return r
        an, ad, bn, bd = a.n, a.d, b.n, b.d
        if bd:
            an, bd = self.cancel(an, bd)
        if ad:
            bn, ad = self.cancel(bn, ad)
        n = self.ring.mul(an, bn)
        d = dict(ad)
        for f, e in bd.items():
            d[f] = d.get(f, 0) + e
        if d:
            n, d = self.cancel(n, d)
        r = self.make(n, d)
        self.cache[k] = r
        return r

    def inv(self, a):
        """a assumed nonzero"""
        k = ('inv', a.uid)
        r = self.cache.get(k)
        if r is not None:
            return r
        c, fs = self.ring.split_known(a.n)
        n = pscale(self.dpoly(a.d), Fraction(1) / c)
        n, d = self.cancel(n, fs)
        r = self.make(n, d)
        self.cache[k] = r
        return r

    def div(self, a, b):
        return self.mul(a, self.inv(b))

    def isconst(self, a):
        return a.n.isconst() and not a.d

    def cval(self, a):
        return Fraction(a.n.cval())

    def vars(self, a):
        s = set(pvars(a.n))
        for f in a.d:
            s |= set(pvars(self.ring.factors[f]))
        return s
