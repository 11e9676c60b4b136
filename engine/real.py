"""Real-arithmetic symbolic domain: float terms become elements of a field of rational functions over a
tower of square-root / trigonometric / exponential symbols; branches fork and are pruned by SMT queries."""
import math
import struct, time, random
from fractions import Fraction
import mpmath
from . import poly as P
from .poly import Poly, Ring, RatField, pconst, pvar, psub, padd, pscale, pneg, pcontent, pmonocontent, mono_vars, psqrt_exact, rat_sqrt, TooBig
from .ll import Unsupported
from .term import TRUE, FALSE

mpmath.mp.dps = 50
NEG, ZER, POS = 1, 2, 4
ANY = 7
PI = Fraction(int(mpmath.floor(mpmath.pi * 10 ** 40)), 10 ** 40)


class Beyond(Exception):
    """the path is longer than the stated bound"""


class Infeasible(Exception):
    pass


class PathEnd(Exception):
    pass


class Budget(Exception):
    pass


class Special:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


NAN, PINF, NINF = Special('nan'), Special('+inf'), Special('-inf')


def flip(m):
    return (m & ZER) | (POS if m & NEG else 0) | (NEG if m & POS else 0)


def mmul(a, b):
    r = 0
    for x in (NEG, ZER, POS):
        if a & x:
            for y in (NEG, ZER, POS):
                if b & y:
                    r |= ZER if x == ZER or y == ZER else (POS if x == y else NEG)
    return r


MM = [[mmul(a, b) for b in range(8)] for a in range(8)]
REL = {'lt': NEG, 'le': NEG | ZER, 'gt': POS, 'ge': POS | ZER, 'eq': ZER, 'ne': NEG | POS}

# ---- formulas -----------------------------------------------------------------------------------


class F:
    """boolean formula: kind in true,false,atom,and,or,not; atom = (value, mask) : sign(value) in mask"""
    __slots__ = ('k', 'a')

    def __init__(self, k, a=None):
        self.k, self.a = k, a

    def __and__(self, o):
        if self.k == 'false' or o.k == 'true':
            return self
        if o.k == 'false' or self.k == 'true':
            return o
        return F('and', [self, o])

    def __or__(self, o):
        if self.k == 'true' or o.k == 'false':
            return self
        if o.k == 'true' or self.k == 'false':
            return o
        return F('or', [self, o])

    def __invert__(self):
        if self.k == 'true':
            return FF
        if self.k == 'false':
            return FT
        if self.k == 'atom':
            return F('atom', (self.a[0], ANY & ~self.a[1]) + self.a[2:])
        if self.k == 'and':
            return F('or', [~x for x in self.a])
        return F('and', [~x for x in self.a])

    def __bool__(self):
        raise TypeError('formula used as a python bool')


FT, FF = F('true'), F('false')


def fbool(b):
    return FT if b else FF


def implies(a, b):
    return ~a | b


def iff(a, b):
    return (a & b) | (~a & ~b)


def conj(*fs):
    r = FT
    for f in fs:
        r = r & f
    return r


def disj(*fs):
    r = FF
    for f in fs:
        r = r | f
    return r


# ---- shared algebra --------------------------------------------------------------------------------
class Space:
    """symbols shared by all paths of one exploration"""

    def __init__(self):
        self.ring = Ring()
        self.f = RatField(self.ring)
        self.sq = {}
        self.ang = {}
        self.unit = {}
        self.atoms = {}
        self.cutting = False    # narrowing casts are losses (double-precision scenarios)
        self.cuts = {}
        self.lns = {}
        self.lnarg = {}
        self.exps = {}
        self.expval = {}
        self.inputs = {}
        self.bounds = {}
        self.consts = {}
        self.aux = {}

    def input(self, name):
        if name not in self.inputs:
            self.inputs[name] = self.ring.newvar(name, 'in')
        return self.inputs[name]

    def sqrtvar(self, Q):
        v = self.sq.get(Q)
        if v is None:
            v = self.ring.newvar('sqrt%d' % len(self.sq), 'sqrt', Q)
            self.sq[Q] = v
        return v


class Path:
    maxdec = 10 ** 9

    REAL = True

    def __init__(self, sp, prefix, ask):
        self.sp, self.f, self.ring = sp, sp.f, sp.ring
        self.prefix = prefix
        self.log = []
        self.forks = []
        self.facts = {}
        self.atoms = []         # (poly, mask)
        self.forms = []         # general formulas assumed
        self.bind = {}
        self.vals = {}
        self.keep = []
        self.ask = ask
        self.fuzzy = False      # comparisons of values that are equal in exact arithmetic may go either way
        self.ndec = 0
        self.inexact = set()

    # -- sign knowledge ------------------------------------------------------
    def vmask(self, v):
        m = self.facts.get(pvar(v))
        k = self.ring.kind[v]
        base = POS if k == 'exp' else (POS | ZER) if k in ('sqrt',) else ANY
        if v in self.sp.bounds:
            lo, hi = self.sp.bounds[v]
            if lo is not None and lo > 0:
                base &= POS
            elif lo is not None and lo >= 0:
                base &= POS | ZER
            if hi is not None and hi < 0:
                base &= NEG
        return base if m is None else (m & base)

    def pmask(self, p):
        """possible signs of a polynomial"""
        if not p.d:
            return ZER
        if p.isconst():
            return POS if p.cval() > 0 else NEG
        c, p = pcontent(p)
        g, q = pmonocontent(p)
        m = POS if c > 0 else NEG
        for v, e in mono_vars(g):
            vm = self.vmask(v)
            if e % 2 == 0:
                vm = (POS if vm & (POS | NEG) else 0) | (vm & ZER)
            m = MM[m][vm]
        if q.isconst():
            return m if q.cval() > 0 else flip(m)
        c2, q = pcontent(q)
        if c2 < 0:
            m = flip(m)
        cs = self.ring.csign(q)
        if cs:
            return m if cs > 0 else flip(m)
        fm = self.facts.get(q, ANY)
        if fm == ANY or fm in (POS | ZER, NEG | ZER, POS | NEG):
            fm &= self.summask(q)
            if fm & ~(POS | ZER) or fm == (POS | ZER):
                # factor through known factors
                pass
        if p is not q and fm == ANY and g == 0:
            pass
        return MM[m][fm]

    def summask(self, q):
        r = None
        for mo, c in q.d.items():
            m = POS if c > 0 else NEG
            for v, e in mono_vars(mo):
                vm = self.vmask(v)
                if e % 2 == 0:
                    vm = (POS if vm & (POS | NEG) else 0) | (vm & ZER)
                m = MM[m][vm]
                if m == ANY:
                    return ANY
            if r is None:
                r = m
            else:
                # sum of two sign sets
                s = 0
                for x in (NEG, ZER, POS):
                    if r & x:
                        for y in (NEG, ZER, POS):
                            if m & y:
                                s |= ANY if x != y and ZER not in (x, y) else (x if y == ZER else y)
                r = s
            if r == ANY:
                return ANY
        return r

    def rmask(self, r):
        m = self.pmask(r.n)
        for fi, e in r.d.items():
            if e % 2:
                m = MM[m][self.pmask(self.ring.factors[fi]) & (POS | NEG)]
        return m

    def atom_poly(self, r, mask):
        """sign(r) in mask  ->  sign(p) in mask' for a primitive polynomial p"""
        n = r.n
        for fi, e in r.d.items():
            if e % 2:
                fm = self.pmask(self.ring.factors[fi]) & (POS | NEG)
                if fm == POS:
                    continue
                if fm == NEG:
                    mask = flip(mask)
                else:
                    n = self.ring.mul(n, self.ring.factors[fi])
        if not n.d:
            return n, mask
        c, p = pcontent(n)
        if c < 0:
            mask = flip(mask)
        # strip variables / factors of definite sign
        g, q = pmonocontent(p)
        if g:
            left = 0
            for v, e in mono_vars(g):
                vm = self.vmask(v)
                if vm == POS or (vm in (NEG | POS,) and e % 2 == 0):
                    continue
                if vm == NEG:
                    if e % 2:
                        mask = flip(mask)
                    continue
                left += (2 - e % 2 if e > 1 else 1) << (P.B * v)
            p = Poly({m + left: x for m, x in q.d.items()}) if left else q
            if p.isconst():
                return p, mask
        return p, mask

    def note(self, p, mask):
        """record sign(p) in mask as a known fact"""
        if p.isconst():
            s = POS if p.cval() > 0 else (ZER if p.cval() == 0 else NEG)
            if not s & mask:
                raise Infeasible()
            return
        self.atoms.append((p, mask))
        c, q = pcontent(p)
        if c < 0:
            mask = flip(mask)
        self.setfact(q, mask)
        g, r = pmonocontent(q)
        if g and not r.isconst():
            # monomial times cofactor
            if not mask & ZER:
                for v, e in mono_vars(g):
                    self.setfact(pvar(v), NEG | POS)
                c2, r = pcontent(r)
                self.setfact(r, NEG | POS)
        elif g:
            vs = mono_vars(g)
            if not mask & ZER:
                for v, e in vs:
                    self.setfact(pvar(v), NEG | POS)
            elif mask == ZER and len(vs) == 1:
                self.setfact(pvar(vs[0][0]), ZER)
        if not mask & ZER:
            # a nonzero polynomial has nonzero known factors
            for fi, fp in enumerate(self.ring.factors):
                if 1 < len(fp) < len(q) and self.facts.get(fp, ANY) & ZER:
                    qq = P.pdiv_exact(q, fp)
                    if qq is not None:
                        self.setfact(fp, NEG | POS)
        # a square root symbol is zero exactly when its radicand is
        for Q, v in self.sp.sq.items():
            if Q == q:
                if not mask & ZER:
                    self.setfact(pvar(v), POS)
                elif mask == ZER:
                    self.setfact(pvar(v), ZER)

    def setfact(self, q, mask):
        old = self.facts.get(q, ANY)
        new = old & mask
        if not new:
            raise Infeasible()
        self.facts[q] = new

    # -- decisions --------------------------------------------------------------
    def decide_mask(self, r, mask):
        """sign(r) in mask ?  (forks)"""
        m = self.rmask(r)
        if not m & ~mask:
            return True
        if not m & mask:
            return False
        p, mk = self.atom_poly(r, mask)
        if p.isconst():
            s = POS if p.cval() > 0 else (ZER if p.cval() == 0 else NEG)
            return bool(s & mk)
        m = self.pmask(p)
        if not m & ~mk:
            return True
        if not m & mk:
            return False
        mk &= m
        nk = m & ~mk
        i = len(self.log)
        if i >= self.maxdec:
            raise Beyond()
        if i < len(self.prefix):
            b = self.prefix[i]
        else:
            t, fe = self.ask(self, (p, mk), (p, nk))
            if not t and not fe:
                raise Infeasible()
            if t and fe:
                self.forks.append(list(self.log) + [False])
                b = True
            else:
                b = t
        self.log.append(b)
        self.ndec += 1
        self.note(p, mk if b else nk)
        return b

    def choose(self):
        """free boolean choice (fork)"""
        i = len(self.log)
        if i < len(self.prefix):
            b = self.prefix[i]
        else:
            self.forks.append(list(self.log) + [False])
            b = True
        self.log.append(b)
        return b

    def decide_rel(self, x, rel, y):
        """compare two values, both non-NaN"""
        if isinstance(x, Special) or isinstance(y, Special):
            s = self.cmpspecial(x, y)
            return bool(s & REL[rel])
        d = self.f.sub(x, y)
        if self.fuzzy and not d.n.d and not (self.simple(x) and self.simple(y)):
            return bool((POS if self.choose() else (ZER if self.choose() else NEG)) & REL[rel])
        return self.decide_mask(d, REL[rel])

    def simple(self, x):
        return self.f.isconst(x)

    def cmpspecial(self, x, y):
        if x is y:
            return ZER
        if x is PINF or y is NINF:
            return POS
        if x is NINF or y is PINF:
            return NEG
        raise Unsupported('cmpspecial')

    def decide(self, b):
        """boolean term from the executor"""
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        op = b.op
        if op == 'not':
            return not self.decide(b.a[0])
        if op == 'and':
            return self.decide(b.a[0]) and self.decide(b.a[1])
        if op == 'cmp':
            pred, x, y = b.a
            k = ('d', b.id)
            if k in self.vals:
                return self.vals[k]
            x, y = self.eval(x), self.eval(y)
            nan = x is NAN or y is NAN
            if pred == 'sign':      # the sign bit of a zero (or a NaN) may be either
                s = ZER if x is NAN else self.sgn(x)
                r = self.choose() if s == ZER else s == NEG
            elif pred == 'uno':
                r = nan
            elif pred == 'ord':
                r = not nan
            elif nan:
                r = pred[0] == 'u'
            else:
                r = self.decide_rel(x, pred[1:], y)
            self.vals[k] = r
            return r
        raise Unsupported('boolean ' + op)

    # -- evaluation ---------------------------------------------------------------
    def eval(self, t):
        v = self.vals.get(t.id)
        if v is None:
            # iterative to keep python's stack small
            stack = [t]
            while stack:
                u = stack[-1]
                if u.id in self.vals:
                    stack.pop()
                    continue
                if u.op == 'ite':
                    w = u.a[1] if self.decide(u.a[0]) else u.a[2]
                    if w.id in self.vals:
                        self.vals[u.id] = self.vals[w.id]
                        stack.pop()
                    else:
                        stack.append(w)
                    continue
                if u.op in ('const', 'var'):
                    self.vals[u.id] = self.leaf(u)
                    stack.pop()
                    continue
                todo = [a for a in u.a if a.id not in self.vals]
                if todo:
                    stack.extend(reversed(todo))
                    continue
                self.vals[u.id] = self.app(u.op, [self.vals[a.id] for a in u.a])
                stack.pop()
            v = self.vals[t.id]
        return v

    def leaf(self, t):
        if t.op == 'const':
            x = t.a[0]
            if x != x:
                return NAN
            if math.isinf(x):
                return PINF if x > 0 else NINF
            return self.f.const(Fraction(x))
        return self.bind[t.id]

    def app(self, op, a):
        f = getattr(self, 'f_' + op, None)
        if f is None:
            raise Unsupported('real op ' + op)
        if any(x is NAN for x in a) and op not in ('min', 'max'):
            return NAN
        return f(*a)

    # field operations with special values
    def sgn(self, x):
        """sign of a value as NEG/ZER/POS (forks)"""
        if x is PINF:
            return POS
        if x is NINF:
            return NEG
        if self.decide_mask(x, ZER):
            return ZER
        return POS if self.decide_mask(x, POS) else NEG

    def f_add(self, x, y):
        if isinstance(x, Special) or isinstance(y, Special):
            if isinstance(x, Special) and isinstance(y, Special):
                return x if x is y else NAN
            return x if isinstance(x, Special) else y
        return self.f.add(x, y)

    def f_neg(self, x):
        if x is PINF:
            return NINF
        if x is NINF:
            return PINF
        return self.f.neg(x)

    def f_sub(self, x, y):
        if isinstance(x, Special) or isinstance(y, Special):
            return self.f_add(x, self.f_neg(y))
        return self.f.sub(x, y)

    def inf(self, s):
        return PINF if s == POS else NINF

    def f_mul(self, x, y):
        if isinstance(x, Special) or isinstance(y, Special):
            s = MM[self.sgn(x)][self.sgn(y)]
            return NAN if s == ZER else self.inf(s)
        return self.f.mul(x, y)

    def nonzero(self, y):
        return not self.decide_mask(y, ZER)

    def f_div(self, x, y):
        if isinstance(y, Special):
            return NAN if isinstance(x, Special) else self.f.zero
        if isinstance(x, Special):
            s = self.sgn(y)
            if s == ZER:
                s = POS if self.choose() else NEG
            return self.inf(MM[self.sgn(x)][s])
        if not self.nonzero(y):
            if self.decide_mask(x, ZER):
                return NAN
            s = self.sgn(x)
            return self.inf(s if self.choose() else flip(s))
        r = self.f.div(x, y)
        # the factors of a nonzero denominator are nonzero
        for fi in r.d:
            q = self.ring.factors[fi]
            if self.pmask(q) & ZER:
                self.setfact(q, NEG | POS)
        return r

    def f_fma(self, x, y, z):
        return self.f_add(self.f_mul(x, y), z)

    def f_abs(self, x):
        if isinstance(x, Special):
            return PINF
        return x if self.decide_mask(x, POS | ZER) else self.f.neg(x)

    def f_copysign(self, x, y):
        ax = self.f_abs(x)
        s = self.sgn(y)
        if s == ZER:
            s = POS if self.choose() else NEG
        return ax if s == POS else self.f_neg(ax)

    def f_min(self, x, y):
        if x is NAN:
            return y
        if y is NAN:
            return x
        return x if self.decide_rel(x, 'le', y) else y

    def f_max(self, x, y):
        if x is NAN:
            return y
        if y is NAN:
            return x
        return x if self.decide_rel(x, 'ge', y) else y

    def f_fpext(self, x):
        return x

    def f_fptrunc(self, x):
        """narrowing to single precision: in a double-precision computation the loss is made explicit as a relative error, |d| <= 2^-24"""
        if not self.sp.cutting or isinstance(x, Special):
            return x
        if self.f.isconst(x):
            c = Fraction(self.f.cval(x))
            if abs(c) < 2 ** 127:
                return self.f.const(Fraction(struct.unpack('f', struct.pack('f', float(c)))[0]))
            return x
        v = self.sp.cuts.get(x.uid)
        if v is None:
            v = self.ring.newvar('cut%d' % len(self.sp.cuts), 'delta')
            self.sp.cuts[x.uid] = v
            self.sp.bounds[v] = (Fraction(-1, 1 << 24), Fraction(1, 1 << 24))
        return self.f.add(x, self.f.mul(x, self.f.var(v)))

    def f_floor(self, x):
        if not isinstance(x, Special) and self.f.isconst(x):
            return self.f.const(math.floor(self.f.cval(x)))
        raise Unsupported('floor of a symbolic value')

    def f_ftrunc(self, x):
        if not isinstance(x, Special) and self.f.isconst(x):
            return self.f.const(math.trunc(self.f.cval(x)))
        raise Unsupported('truncation of a symbolic value')

    def pabs(self, p):
        """|p| as a polynomial (forks on the sign)"""
        r = self.f.poly(p)
        return p if self.decide_mask(r, POS | ZER) else pneg(p)

    def sqconst(self, c):
        """sqrt of a positive rational"""
        s = rat_sqrt(c)
        if s is not None:
            return self.f.const(s)
        c = Fraction(c)
        n = c.numerator * c.denominator
        k = 1
        if n < 10 ** 12:
            i = 2
            while i * i <= n and i < 2000:
                while n % (i * i) == 0:
                    n //= i * i
                    k *= i
                i += 1
        v = self.sp.sqrtvar(pconst(n))
        self.setfact(pvar(v), POS)
        return self.f.mul(self.f.const(Fraction(k, c.denominator)), self.f.var(v))

    def f_sqrt(self, x):
        if x is PINF:
            return PINF
        if x is NINF:
            return NAN
        if self.decide_mask(x, NEG):
            return NAN
        if self.decide_mask(x, ZER):
            return self.f.zero
        if self.f.isconst(x):
            return self.sqconst(self.f.cval(x))
        f, ring = self.f, self.ring
        n = x.n
        den = []
        for fi, e in x.d.items():
            if e % 2:
                n = ring.mul(n, ring.factors[fi])
                e += 1
            den.append((fi, e // 2))
        c, p = pcontent(n)
        if c < 0:
            c, p = -c, pneg(p)
        out = f.one
        s = psqrt_exact(p) if len(p) > 1 else None
        if s is not None:
            out = f.poly(self.pabs(s))
        else:
            g, q = pmonocontent(p)
            left = 0
            for v, e in mono_vars(g):
                if e // 2:
                    a = f.poly(self.pabs(pvar(v)))
                    for _ in range(e // 2):
                        out = f.mul(out, a)
                left |= (e % 2) << (P.B * v)
            # square factors among known radicands and factors
            if len(q) > 1 and q not in self.sp.sq:
                for Q, v in list(self.sp.sq.items()):
                    if len(Q) < 2 or len(Q) > len(q) or self.pmask(Q) & NEG:
                        continue
                    while True:
                        r = P.pdiv_exact(q, Q)
                        if r is None:
                            break
                        q = r
                        out = f.mul(out, f.var(v))
                for fp in list(ring.factors):
                    if len(fp) < 2 or len(fp) * 2 > len(q) + 2:
                        continue
                    while True:
                        r = P.pdiv_exact(q, fp)
                        r2 = P.pdiv_exact(r, fp) if r is not None else None
                        if r2 is None:
                            break
                        q = r2
                        out = f.mul(out, f.poly(self.pabs(fp)))
            if len(q) > 1:
                s = psqrt_exact(q)
                if s is not None:
                    out = f.mul(out, f.poly(self.pabs(s)))
                    q = P.ONE
            if left:
                q = Poly({m + left: k for m, k in q.d.items()})
            if not q.isconst():
                c2, q = pcontent(q)
                if c2 < 0:
                    # keep the radicand's sign inside
                    q = pneg(q)
                    c2 = -c2
                c = c * c2
                v = self.sp.sqrtvar(q)
                self.setfact(pvar(v), POS)
                self.setfact(pcontent(q)[1], POS if pcontent(q)[0] > 0 else NEG)
                out = f.mul(out, f.var(v))
            else:
                c = c * q.cval()
        if c < 0:
            raise Infeasible()
        if c != 1:
            out = f.mul(out, self.sqconst(c))
        for fi, e in den:
            a = f.poly(self.pabs(ring.factors[fi]))
            for _ in range(e):
                out = f.div(out, a)
        return out

    # -- angles --------------------------------------------------------------------
    def f_acos(self, x):
        return self.arg(x, None, 'acos')

    def f_asin(self, x):
        return self.arg(None, x, 'asin')

    def f_atan(self, x):
        if x is PINF:
            return self.f.const(PI / 2)
        if x is NINF:
            return self.f.const(-PI / 2)
        h = self.f_sqrt(self.f.add(self.f.one, self.f.mul(x, x)))
        return self.arg(self.f.div(self.f.one, h), self.f.div(x, h), 'atan')

    def f_atan2(self, y, x):
        f = self.f
        h2 = f.add(f.mul(x, x), f.mul(y, y))
        if self.decide_mask(h2, ZER):
            return f.zero
        h = self.f_sqrt(h2)
        return self.arg(self.f_div(x, h), self.f_div(y, h), 'atan2')

    def arg(self, c, s, kind):
        """principal angle with the given cosine and sine"""
        f = self.f
        if c is None or s is None:
            x = s if c is None else c
            if isinstance(x, Special):
                return NAN
            if self.decide_mask(f.sub(x, f.one), POS) or self.decide_mask(f.add(x, f.one), NEG):
                return NAN
            o = f.sub(f.one, f.mul(x, x))
            p, mk = self.atom_poly(o, POS | ZER)
            if self.pmask(p) & ~mk:
                self.note(p, mk)
            o = self.f_sqrt(o)
            c, s = (x, o) if s is None else (o, x)
        if f.isconst(c) and f.isconst(s):
            k = (f.cval(c), f.cval(s))
            tab = {(1, 0): 0, (0, 1): PI / 2, (-1, 0): PI, (0, -1): -PI / 2}
            if k in tab:
                return f.const(tab[k])
        key = (c.uid, s.uid)
        v = self.sp.ang.get(key)
        if v is None:
            v = self.ring.newvar('ang%d' % len(self.sp.ang), 'ang')
            self.sp.ang[key] = v
            self.sp.aux[v] = (c, s)
            if kind == 'acos':
                self.sp.bounds[v] = (Fraction(0), Fraction(315, 100))
            elif kind == 'asin' or kind == 'atan':
                self.sp.bounds[v] = (Fraction(-158, 100), Fraction(158, 100))
            else:
                self.sp.bounds[v] = (Fraction(-315, 100), Fraction(315, 100))
        else:
            if kind == 'acos':
                self.sp.bounds[v] = (Fraction(0), Fraction(315, 100))
        m = self.rmask(s)
        if m == POS:
            self.setfact(pvar(v), POS)
        return f.var(v)

    def cis(self, x):
        """(cos, sin) of a value"""
        f = self.f
        if isinstance(x, Special):
            return NAN, NAN
        if not x.n.d:
            return f.one, f.zero
        re, im = f.one, f.zero
        D = tuple(sorted(x.d.items()))
        for m, c in x.n.d.items():
            c1, s1 = self.cis_atom(m, D, c)
            re, im = f.sub(f.mul(re, c1), f.mul(im, s1)), f.add(f.mul(re, s1), f.mul(im, c1))
        return re, im

    def cis_atom(self, m, D, c):
        f = self.f
        if m == 0 and not D:
            q = Fraction(c) / PI * 2
            k = round(q)
            if abs(q - k) < Fraction(1, 10 ** 6):
                return ((f.one, f.zero), (f.zero, f.one), (f.const(-1), f.zero), (f.zero, f.const(-1)))[k % 4]
            return self.constcis(Fraction(c))
        neg = c < 0
        c = abs(Fraction(c))
        base = None
        if not D:
            vs = mono_vars(m)
            if len(vs) == 1 and vs[0][1] == 1 and vs[0][0] in self.sp.aux:
                base = self.sp.aux[vs[0][0]]
        key = (m, D)
        at = self.sp.atoms.get(key)
        if at is None:
            if base is not None:
                at = [(Fraction(1), base[0], base[1])]
            else:
                at = []
            self.sp.atoms[key] = at
        for (u, cc, ss) in at:
            q = c / u
            k = round(q)
            if k >= 1 and k <= 12 and abs(q - k) < Fraction(3, 10 ** 7) * k:
                re, im = cc, ss
                for _ in range(k - 1):
                    re, im = f.sub(f.mul(re, cc), f.mul(im, ss)), f.add(f.mul(re, ss), f.mul(im, cc))
                return re, (f.neg(im) if neg else im)
        if base is not None and self.sp.bounds.get(mono_vars(m)[0][0], (None,))[0] == 0 and abs(c - Fraction(1, 2)) < Fraction(1, 10 ** 7):
            # half of an angle in [0, pi]
            h = f.const(Fraction(1, 2))
            cc = self.f_sqrt(f.mul(h, f.add(f.one, base[0])))
            ss = self.f_sqrt(f.mul(h, f.sub(f.one, base[0])))
            at.append((Fraction(1, 2), cc, ss))
            return cc, (f.neg(ss) if neg else ss)
        u = c
        hint = self.sp.unit.get(key)
        if hint is not None and not at:
            u = hint
        n = len(self.ring.names)
        cv = self.ring.newvar('cos%d' % n, 'cos')
        sv = self.ring.newvar('sin%d' % n, 'sin', psub(P.ONE, pvar(cv, 2)))
        self.sp.bounds[cv] = (Fraction(-1), Fraction(1))
        self.sp.bounds[sv] = (Fraction(-1), Fraction(1))
        at.append((u, f.var(cv), f.var(sv)))
        if u != c:
            return self.cis_atom(m, D, -c if neg else c)
        return f.var(cv), (f.neg(f.var(sv)) if neg else f.var(sv))

    def numconst(self, name, val):
        """symbol for an irrational constant with tight numeric bounds"""
        v = self.sp.consts.get(name)
        if v is None:
            v = self.ring.newvar(name, 'const')
            self.sp.consts[name] = v
            lo = Fraction(int(mpmath.floor(val * 10 ** 30)), 10 ** 30)
            self.sp.bounds[v] = (lo, lo + Fraction(1, 10 ** 30))
        return self.f.var(v)

    def constcis(self, c):
        x = mpmath.mpf(c.numerator) / c.denominator
        return self.numconst('cos(%s)' % c, mpmath.cos(x)), self.numconst('sin(%s)' % c, mpmath.sin(x))

    def f_sin(self, x):
        return self.cis(x)[1]

    def f_cos(self, x):
        return self.cis(x)[0]

    def f_tan(self, x):
        c, s = self.cis(x)
        return NAN if c is NAN else self.f_div(s, c)

    # -- logarithms and powers --------------------------------------------------------
    def f_log(self, x):
        f = self.f
        if x is PINF:
            return PINF
        if x is NINF:
            return NAN
        if self.decide_mask(x, NEG):
            return NAN
        if self.decide_mask(x, ZER):
            return NINF
        parts = []

        def factor(p, e):
            c, p = pcontent(p)
            g, q = pmonocontent(p)
            if c < 0 and q.isconst() is False:
                q = pneg(q)
                c = -c
            if c < 0:
                return False
            for v, k in mono_vars(g):
                if self.vmask(v) != POS:
                    return False
                parts.append(('v', v, k * e))
            if not q.isconst():
                c2, q2 = pcontent(q)
                if self.pmask(q) != POS:
                    return False
                if c2 < 0:
                    c2, q2 = 1, q
                c *= c2
                parts.append(('p', q2, e))
            else:
                c *= q.cval()
            if c != 1:
                parts.append(('c', Fraction(c), e))
            return True
        ok = factor(x.n, 1) and all(factor(self.ring.factors[fi], -e) for fi, e in x.d.items())
        if not ok:
            return self.lnvar(('r', x.uid), x)
        r = f.zero
        for k, a, e in parts:
            if k == 'c':
                t = self.numconst('ln(%s)' % a, mpmath.log(mpmath.mpf(a.numerator) / a.denominator))
            elif k == 'p':
                t = self.lnvar(('p', a), f.poly(a))
            else:
                kind = self.ring.kind[a]
                if kind == 'sqrt':
                    Q = self.ring.rel[a]
                    t = f.mul(f.const(Fraction(1, 2)), self.lnvar(('p', Q), f.poly(Q)))
                elif kind == 'exp':
                    t = self.sp.expval[a]
                else:
                    t = self.lnvar(('p', pvar(a)), f.var(a))
            r = f.add(r, f.mul(f.const(e), t))
        return r

    def lnvar(self, key, arg):
        v = self.sp.lns.get(key)
        if v is None:
            v = self.ring.newvar('ln%d' % len(self.sp.lns), 'ln')
            self.sp.lns[key] = v
            self.sp.lnarg[v] = arg
        return self.f.var(v)

    def f_exp(self, x):
        f = self.f
        if x is PINF:
            return PINF
        if x is NINF:
            return f.zero
        r = f.one
        D = tuple(sorted(x.d.items()))
        for m, c in x.n.d.items():
            c = Fraction(c)
            if not D:
                vs = mono_vars(m)
                if len(vs) == 1 and vs[0][1] == 1 and vs[0][0] in self.sp.lnarg and (2 * c).denominator == 1 and abs(c) <= 8:
                    a = self.sp.lnarg[vs[0][0]]
                    k = int(2 * c)
                    b = a if k % 2 == 0 else self.f_sqrt(a)
                    n = abs(k) // 2 if k % 2 == 0 else abs(k)
                    for _ in range(n):
                        r = f.mul(r, b) if k > 0 else self.f_div(r, b)
                    continue
            if m == 0 and not D:
                r = f.mul(r, self.numconst('exp(%s)' % c, mpmath.exp(mpmath.mpf(c.numerator) / c.denominator)))
                continue
            key = (m, D)
            at = self.sp.exps.setdefault(key, [])
            for u, v in at:
                q = c / u
                if q.denominator == 1 and abs(q) <= 12:
                    for _ in range(abs(int(q))):
                        r = f.mul(r, f.var(v)) if q > 0 else f.div(r, f.var(v))
                    break
            else:
                v = self.ring.newvar('exp%d' % len(self.sp.expval), 'exp')
                at.append((c, v))
                self.sp.expval[v] = f.make(Poly({m: P.norm(c)}), dict(D))
                r = f.mul(r, f.var(v))
        return r

    def f_pow(self, b, e):
        f = self.f
        if isinstance(b, Special) or isinstance(e, Special):
            raise Unsupported('pow of infinity')
        if f.isconst(e):
            k = f.cval(e)
            if k.denominator == 1 and abs(k) <= 8:
                r = f.one
                for _ in range(abs(int(k))):
                    r = f.mul(r, b)
                return r if k >= 0 else self.f_div(f.one, r)
            if k == Fraction(1, 2):
                return self.f_sqrt(b)
        if self.decide_mask(b, POS):
            return self.f_exp(f.mul(e, self.f_log(b)))
        if self.decide_mask(b, ZER):
            s = self.sgn(e)
            return f.zero if s == POS else (f.one if s == ZER else PINF)
        return NAN

    def f_hypot(self, x, y):
        return self.f_sqrt(self.f_add(self.f_mul(x, x), self.f_mul(y, y)))
