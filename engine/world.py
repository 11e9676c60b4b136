"""Scenarios run twice: symbolically (SymW, one path per run) and concretely against the native code (ConcW)."""
import math, random, time, struct
from fractions import Fraction
import mpmath
from mpmath import mpf
from . import term as t, native, smt
from .real import *
from .real import F as Form
from .ll import Unsupported
from .symex import run_entry, Panic, Hang
from .poly import pvar, TooBig


class V:
    """value of the ideal-real reading; same interface in both worlds"""
    __slots__ = ('w', 'x')

    def __init__(self, w, x):
        self.w, self.x = w, x

    def _o(self, o):
        return o.x if isinstance(o, V) else self.w.lit(o)

    def __add__(self, o):
        return V(self.w, self.w.op('add', self.x, self._o(o)))

    def __radd__(self, o):
        return V(self.w, self.w.op('add', self._o(o), self.x))

    def __sub__(self, o):
        return V(self.w, self.w.op('sub', self.x, self._o(o)))

    def __rsub__(self, o):
        return V(self.w, self.w.op('sub', self._o(o), self.x))

    def __mul__(self, o):
        return V(self.w, self.w.op('mul', self.x, self._o(o)))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return V(self.w, self.w.op('div', self.x, self._o(o)))

    def __rtruediv__(self, o):
        return V(self.w, self.w.op('div', self._o(o), self.x))

    def __neg__(self):
        return V(self.w, self.w.op('neg', self.x))

    def __pow__(self, k):
        r = V(self.w, self.w.lit(1))
        for _ in range(k):
            r = r * self
        return r

    def sqrt(self):
        return V(self.w, self.w.op('sqrt', self.x))

    def sin(self):
        return V(self.w, self.w.op('sin', self.x))

    def cos(self):
        return V(self.w, self.w.op('cos', self.x))

    def acos(self):
        return V(self.w, self.w.op('acos', self.x))

    def log(self):
        return V(self.w, self.w.op('log', self.x))

    def exp(self):
        return V(self.w, self.w.op('exp', self.x))

    def _c(self, rel, o):
        return self.w.cmp(rel, self.x, self._o(o))

    def __lt__(self, o):
        return self._c('lt', o)

    def __le__(self, o):
        return self._c('le', o)

    def __gt__(self, o):
        return self._c('gt', o)

    def __ge__(self, o):
        return self._c('ge', o)

    def eq(self, o):
        return self._c('eq', o)

    def ne(self, o):
        return ~self._c('eq', o)

    def isnan(self):
        return self.w.isnan(self.x)

    def nonzero(self):
        """not the constant zero"""
        return self.w.conc or bool(self.x.n.d)


def dot(a, b):
    r = a[0] * b[0]
    for x, y in zip(a[1:], b[1:]):
        r = r + x * y
    return r


def sub3(a, b):
    return [x - y for x, y in zip(a, b)]


def add3(a, b):
    return [x + y for x, y in zip(a, b)]


def mul3(s, a):
    return [s * x for x in a]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def absle(x, y):
    """|x| <= y"""
    return (x <= y) & (-x <= y)


def same(a, b):
    return conj(*[x.eq(y) for x, y in zip(a, b)])


def mean(xs):
    return sum(xs[1:], xs[0])


class Res:
    def __init__(self, w, status, outs):
        self.w, self.status, self.outs = w, status, outs

    def __len__(self):
        return len(self.outs)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return [self[j] for j in range(*i.indices(len(self.outs)))]
        x = self.w.out(self.outs[i])
        if i in self.off:
            x = x - self.off[i]
        return x if self.un == 1 else x * self.un

    un = 1
    off = {}

    def written(self, i):
        return self.outs[i] is not None

    def num(self, i):
        """an output that is a small integer, as a python int (forks symbolically)"""
        return self.w.num(self.outs[i])

    def flag(self, i):
        """python bool of an output that is 0 or 1 (forks symbolically)"""
        return self.w.flag(self.outs[i])


class Violated(Exception):
    pass


# where the positions are among the inputs of an entry (its outputs 2..4 being the location)
FAR = {'point_point': (0, 3), 'point_point_tol': (0, 3), 'sphere_sphere': (0, 4), 'sphere_point': (0, 4), 'ray_sphere': (0, 6), 'ray_point': (0, 6),
       'ray_ray': (0, 6), 'box_point': (0, 4), 'ray_plane': (0, 6), 'sphere_plane': (0, 4), 'plane_point': (0, 6), 'prism_point': (0, 3, 6, 10),
       'prism_line': (0, 3, 6, 10, 13), 'gjk': (0, 4)}


class World:
    conc = False
    far = None

    def vec(self, name, n, lo=-8, hi=8):
        return [self.var('%s%d' % (name, i), lo, hi) for i in range(n)]

    def c(self, x):
        return V(self, self.lit(x))

    def sqrt(self, x):
        return x.sqrt()

    def branch(self, f):
        raise NotImplementedError

    sc = Fraction(1)    # unit of length of the scenario: inputs of the code are multiplied by it, its outputs divided

    def call(self, entry, inputs, nout, k=0, ty=None, deg=1, plain=()):
        """deg: dimension of the numeric outputs; plain: inputs without a dimension"""
        if self.sc != 1:
            inputs = [x if i in plain else x * self.sc for i, x in enumerate(inputs)]
        if self.far:
            inputs = list(inputs)
            for i in FAR[entry]:
                for j in range(3):
                    inputs[i + j] = inputs[i + j] + self.far[j]
        r = self.run(entry, inputs, nout, k, ty)
        if self.far:
            r.off = {2 + j: self.far[j] for j in range(3)}
        if self.sc != 1 and deg:
            r.un = 1 / self.sc ** deg
        self.check('returns without a panic', fbool(r.status == 'ok'))
        if r.status != 'ok':
            raise PathEnd()
        return r


# ---- symbolic --------------------------------------------------------------------------------
class SymW(World):
    def __init__(self, ex, path):
        self.ex, self.p = ex, path
        self.ty = ex.ty
        self.tol = 0
        self.nrun = 0
        self.nchk = {}
        self.spec = []      # assumptions and case splits of the specification
        self.mu = ex.mu
        self.steps = 0

    def lit(self, x):
        if isinstance(x, float) and (x != x or math.isinf(x)):
            return NAN if x != x else (PINF if x > 0 else NINF)
        return self.p.f.const(Fraction(x))

    def op(self, o, *a):
        return self.p.app(o, list(a))

    def cmp(self, rel, x, y):
        if x is NAN or y is NAN:
            return FF
        if isinstance(x, Special) or isinstance(y, Special):
            return fbool(bool(self.p.cmpspecial(x, y) & REL[rel]))
        d = self.p.f.sub(x, y)
        m = self.p.rmask(d)
        if not m & ~REL[rel]:
            return FT
        if not m & REL[rel]:
            return FF
        return Form('atom', (d, REL[rel]))

    def isnan(self, x):
        return fbool(x is NAN)

    def var(self, name, lo=-8, hi=8):
        v = self.ex.space.input(name)
        self.ex.space.bounds[v] = (None if lo is None else Fraction(lo), None if hi is None else Fraction(hi))
        return V(self, self.p.f.var(v))

    def special(self, name, x):
        """a NaN or infinite input"""
        return V(self, self.lit(x))

    def unit(self, name, n=3):
        """unit vector: the last component's square is 1 - the others' squares"""
        sp = self.ex.space
        vs = []
        for i in range(n):
            nm = '%s%d' % (name, i)
            new = nm not in sp.inputs
            v = sp.input(nm)
            vs.append(v)
            sp.bounds[v] = (Fraction(-1), Fraction(1))
        if n and vs[-1] not in sp.ring.rel:
            q = P.ONE
            for v in vs[:-1]:
                q = P.psub(q, pvar(v, 2))
            sp.ring.kind[vs[-1]] = 'rel'
            sp.ring.setrel(vs[-1], q)
            sp.units = getattr(sp, 'units', []) + [(name, n)]
        return [V(self, self.p.f.var(v)) for v in vs]

    def define(self, name, expr, u, v, lo=None, hi=None):
        """composite symbol name = expr, rewritten into products through the monomial u*v of expr"""
        sp = self.ex.space
        ring = sp.ring
        e = expr.x
        sp.comp = getattr(sp, 'comp', {})
        if name not in sp.comp:
            assert not e.d
            a, b = u.x.n.lm(), v.x.n.lm()
            c = e.n.d[a + b]
            s = ring.newvar(name, 'def')
            sp.comp[name] = s
            if lo is not None or hi is not None:
                sp.bounds[s] = (None if lo is None else Fraction(lo), None if hi is None else Fraction(hi))
            ring.defs[s] = e.n
            # u*v = (name - rest)/c
            rest = P.psub(e.n, P.Poly({a + b: c}))
            R = P.pscale(P.psub(pvar(s), rest), Fraction(1) / Fraction(c))
            ia, ib = P.mono_vars(a)[0][0], P.mono_vars(b)[0][0]
            if ia == ib:
                ring.setrel(ia, R)
                ring.kind[ia] = 'rel'
            else:
                ring.setprod(ia, ib, R)
        return V(self, self.p.f.var(sp.comp[name]))

    def orth(self, u, n):
        """u.n = 0 for composites n (checked by expanding their definitions), used to rewrite u2*n2"""
        ring = self.ex.space.ring
        us, ns = [x.x.n for x in u], [x.x.n for x in n]
        ks = [i for i in (2, 1, 0) if us[i].d and len(us[i].d) == 1 and len(ns[i].d) == 1 and P.mono_vars(ns[i].lm())[0][0] in ring.defs]
        if not ks:
            return
        k = ks[0]
        iu, jn = P.mono_vars(us[k].lm())[0][0], P.mono_vars(ns[k].lm())[0][0]
        if ('orth', iu, jn) in self.ex.lemmas:
            return
        self.ex.lemmas['orth', iu, jn] = 1
        z, R = P.Poly({}), P.Poly({})
        for i in range(3):
            if not us[i].d or not ns[i].d:
                continue
            v = P.mono_vars(ns[i].lm())[0][0] if len(ns[i].d) == 1 and ns[i].lm() else None
            e = P.pscale(ring.defs[v], Fraction(ns[i].d[ns[i].lm()])) if v in ring.defs else ns[i]
            z = P.padd(z, P.pmul_raw(us[i], e))
            if i != k:
                R = P.padd(R, P.pmul_raw(us[i], ns[i]))
        assert not z.d, 'not orthogonal'
        ring.setprod(iu, jn, P.pscale(R, Fraction(-1) / (Fraction(us[k].d[us[k].lm()]) * Fraction(ns[k].d[ns[k].lm()]))))

    def lemma_sos(self, name, expr, parts):
        """expr is the sum of the squares of parts (obligation); the caller assumes expr >= 0 afterwards"""
        if not self.p.log and not self.ex.lemmas.get(name):
            self.ex.lemmas[name] = 1
            t = parts[0] * parts[0]
            for x in parts[1:]:
                t = t + x * x
            self.check('lemma ' + name, expr.eq(t))

    def lemma(self, name, f):
        self.check('lemma ' + name, f)
        self.implied(f)

    def implied(self, f):
        """a consequence of the assumptions"""
        n = len(self.spec)
        self.assume(f)
        del self.spec[n:]

    def need_exact(self):
        """natively, only runs whose branches are decided on exact values count (flag-only checks on thin sets)"""

    def angle_unit(self, x, frac):
        """the finest fraction of x whose sine and cosine are going to be used"""
        r = x.x
        m = next(iter(r.n.d))
        self.ex.space.unit.setdefault((m, tuple(sorted(r.d.items()))), Fraction(frac) * abs(Fraction(r.n.d[m])))

    def assume(self, f, top=True):
        if f.k == 'true':
            return
        if f.k == 'false':
            raise Infeasible()
        if top:
            self.spec.append(f)
        if f.k == 'and':
            for x in f.a:
                self.assume(x, False)
            return
        if f.k == 'atom':
            r, mask = f.a[0], f.a[1]
            p, mk = self.p.atom_poly(r, mask)
            mk &= self.p.pmask(p)
            if not mk:
                raise Infeasible()
            self.p.note(p, mk)
            return
        lf = smt.lower(self.p, f)
        if lf[0] == 'false':
            raise Infeasible()
        if lf[0] == 'atom':
            self.p.note(lf[1], lf[2])
        elif lf[0] != 'true':
            self.p.forms.append(lf)

    def branch(self, f):
        b = self.branch0(f)
        self.spec.append(f if b else ~f)
        return b

    def branch0(self, f):
        if f.k in ('true', 'false'):
            return f.k == 'true'
        if f.k == 'atom':
            return self.p.decide_mask(f.a[0], f.a[1])
        if f.k == 'and':
            return all(self.branch0(x) for x in f.a)
        return any(self.branch0(x) for x in f.a)

    def run(self, entry, inputs, nout, k=0, ty=None):
        ty = ty or self.ty
        ts = []
        for i, x in enumerate(inputs):
            r = x.x if isinstance(x, V) else self.lit(x)
            if r is NAN:
                ts.append(t.const(math.nan, ty))
                continue
            if isinstance(r, Special):
                ts.append(t.const(math.inf if r is PINF else -math.inf, ty))
                continue
            if self.p.f.isconst(r):
                cv = self.p.f.cval(r)
                c = t.const(float(cv), ty)
                if Fraction(c.a[0]) == cv:
                    ts.append(c)
                    continue
            # one term per distinct input value, so that equal inputs stay equal
            tv = t.var('r%d' % r.uid, ty)
            self.p.bind[tv.id] = r
            ts.append(tv)
        try:
            outs, ex = run_entry(self.ex.prog, self.p, entry + '_' + ty, ts, nout, k, ty)
        except Panic:
            return Res(self, 'panic', [None] * nout)
        except Hang:
            return Res(self, 'hang', [None] * nout)
        self.steps += ex.steps
        self.ex.funcs |= ex.funcs
        return Res(self, 'ok', outs)

    def out(self, x):
        if x is None:
            raise Unsupported('output not written')
        return V(self, self.p.eval(x))

    def flag(self, x):
        v = self.p.eval(x)
        if isinstance(v, Special) or not self.p.f.isconst(v):
            raise Unsupported('flag output is not constant')
        return self.p.f.cval(v) != 0

    def num(self, x):
        v = self.p.eval(x)
        if isinstance(v, Special) or not self.p.f.isconst(v):
            raise Unsupported('output is not constant')
        return int(self.p.f.cval(v))

    def check(self, name, f, mu=None, tol=None):
        n = self.nchk.get(name, 0)
        self.nchk[name] = n + 1
        self.ex.obligation(self, '%s#%d' % (name, n) if n else name, f, mu if mu is not None else self.mu)


# ---- concrete --------------------------------------------------------------------------------
class ConcW(World):
    conc = True

    def __init__(self, prog, lib, params, ty, tol, rep=None):
        self.prog, self.lib, self.params, self.ty = prog, lib, params, ty
        self.deftol = tol
        self.runs = []
        self.boundary = False
        self.reprinputs = True
        self.negzero = False
        self.failed = []
        self.log = []
        self._exact = None
        self._exactdec = None
        self.exactonly = False
        self.trace = []

    def lit(self, x):
        if isinstance(x, Fraction):
            return mpf(x.numerator) / x.denominator
        return mpf(x)

    def op(self, o, *a):
        with_nan = any(mpmath.isnan(x) for x in a)
        if with_nan:
            return mpf('nan')
        if o == 'add':
            return a[0] + a[1]
        if o == 'sub':
            return a[0] - a[1]
        if o == 'mul':
            return a[0] * a[1]
        if o == 'div':
            if a[1] == 0:
                return mpf('nan') if a[0] == 0 else mpf('inf') * mpmath.sign(a[0])
            return a[0] / a[1]
        if o == 'neg':
            return -a[0]
        if o == 'sqrt':
            x = a[0]
            if x < 0:
                return mpf(0) if x > mpf('-1e-30') else mpf('nan')
            return mpmath.sqrt(x)
        if o == 'acos':
            x = a[0]
            if abs(x) > 1:
                if abs(x) - 1 < mpf('1e-12'):
                    x = mpmath.sign(x)
                else:
                    return mpf('nan')
            return mpmath.acos(x)
        if o == 'log':
            return mpmath.log(a[0]) if a[0] > 0 else (mpf('-inf') if a[0] == 0 else mpf('nan'))
        return getattr(mpmath, o)(a[0])

    def cmp(self, rel, x, y):
        if mpmath.isnan(x) or mpmath.isnan(y):
            return FF
        if mpmath.isinf(x) or mpmath.isinf(y):
            s = ZER if x == y else (NEG if x < y else POS)
            return fbool(bool(s & REL[rel]))
        d = x - y
        return Form('atom', (d, REL[rel], max(mpf(1), abs(x), abs(y))))

    def isnan(self, x):
        return fbool(bool(mpmath.isnan(x)))

    def rnd(self, x):
        x = float(x)
        return t.r32(x) if self.ty == 'f32' else x

    def var(self, name, lo=-8, hi=8):
        v = self.rnd(self.params.get(name, 0))
        return V(self, mpf(v))

    def special(self, name, x):
        return V(self, mpf(x))

    def unit(self, name, n=3):
        xs = [mpf(Fraction(self.params.get('%s%d' % (name, i), 0)).numerator) / Fraction(self.params.get('%s%d' % (name, i), 0)).denominator for i in range(n)]
        m = mpmath.sqrt(sum(x * x for x in xs))
        if m == 0:
            xs[-1] = m = mpf(1)
        return [V(self, mpf(self.rnd(x / m))) for x in xs]

    def angle_unit(self, x, frac):
        pass

    def define(self, name, expr, u, v, lo=None, hi=None):
        return expr

    def lemma(self, name, f):
        pass

    def implied(self, f):
        pass

    def lemma_sos(self, name, expr, parts):
        pass

    def orth(self, u, n):
        pass

    def ev(self, f, tol):
        """truth of f when every atom is required to hold by the margin tol (tol<0: leniently)"""
        if f.k in ('true', 'false'):
            return f.k == 'true'
        if f.k == 'and':
            return all(self.ev(x, tol) for x in f.a)
        if f.k == 'or':
            return any(self.ev(x, tol) for x in f.a)
        d, mask, sc = f.a
        if tol == 0:
            e = mpf('1e-35') * sc
            s = ZER if abs(d) <= e else (POS if d > 0 else NEG)
            return bool(s & mask)
        e = tol * sc
        if mask in (POS, POS | ZER):
            return d > e
        if mask in (NEG, NEG | ZER):
            return d < -e
        if mask == NEG | POS:
            return abs(d) > e
        return mask == ANY      # an equality never holds by a margin

    def assume(self, f):
        if self.evassume(f, self.tolr()):
            return
        if not self.evassume(f, 0):
            raise Infeasible()
        self.boundary = True

    def tolr(self):
        return 2e-3 if self.ty == 'f32' and 0 < self.deftol < 2e-3 else max(self.deftol, 1e-4) if self.far else self.deftol

    def evassume(self, f, tol):
        """assumptions hold by a margin; equalities only up to the rounding of the inputs"""
        if f.k in ('true', 'false'):
            return f.k == 'true'
        if f.k == 'and':
            return all(self.evassume(x, tol) for x in f.a)
        if f.k == 'or':
            return any(self.evassume(x, tol) for x in f.a)
        d, mask, sc = f.a
        if mask == ZER:
            if abs(d) > mpf('1e-35') * sc:
                self.reprinputs = False
            return abs(d) <= (mpf('1e-12') if self.ty == 'f64' else mpf('1e-5')) * sc
        return self.ev(f, tol)

    def branch(self, f):
        if self.ev(f, self.tolr()):
            return True
        if self.ev(~f, self.tolr()):
            return False
        self.boundary = True
        return self.ev(f, 0)

    def run(self, entry, inputs, nout, k=0, ty=None):
        ty = ty or self.ty
        xs = []
        for x in inputs:
            v = x.x if isinstance(x, V) else self.lit(x)
            r = self.rnd(v) if not mpmath.isnan(v) else math.nan
            if r == 0 and self.negzero:
                r = -0.0
            if not mpmath.isnan(v) and not mpmath.isinf(v) and mpf(r) != v:
                self.reprinputs = False
            xs.append(r)
        st, outs = native.call(self.lib, entry + '_' + ty, xs, nout, k, ty)
        self.runs.append((entry + '_' + ty, xs, nout, k, ty))
        self.trace.append({'entry': entry + '_' + ty, 'k': k, 'inputs': [repr(x) for x in xs], 'status': st,
                           'outputs': None if outs is None else [None if x is None else repr(x) for x in outs]})
        self._exact = self._exactdec = None
        return Res(self, st, outs if outs is not None else [None] * nout)

    def exact(self):
        """did every float operation of the runs so far produce its exact real result?"""
        if not self.reprinputs:
            return False
        if self._exact is None:
            self._exact = True
            for entry, xs, nout, k, ty in self.runs:
                try:
                    outs, _ = run_entry(self.prog, Raising(), entry, [t.const(x, ty) for x in xs], nout, k, ty)
                except Inexact:
                    self._exact = False
                    break
                except (Panic, Hang, Unsupported):
                    self._exact = False
                    break
                if any(o is not None and o.op != 'const' for o in outs):
                    self._exact = False
        return self._exact

    def exactdec(self):
        """was every branch decided on exact values (flag outputs are then those of exact arithmetic)?"""
        if not self.reprinputs:
            return False
        if self._exactdec is None:
            self._exactdec = True
            for entry, xs, nout, k, ty in self.runs:
                try:
                    run_entry(self.prog, Raising(), entry, [t.const(x, ty) for x in xs], nout, k, ty)
                except (Inexact, Panic, Hang, Unsupported):
                    self._exactdec = False
                    break
        return self._exactdec

    def need_exact(self):
        self.exactonly = True

    def out(self, x):
        if x is None:
            raise PathEnd()
        return V(self, mpf(x))

    def flag(self, x):
        return x is not None and x != 0

    def num(self, x):
        if x is None or x != x or x != int(x):
            raise PathEnd()
        return int(x)

    def check(self, name, f, mu=None, tol=None):
        tol = self.deftol if tol is None else tol
        if self.far:
            tol = max(tol, 1e-4)
        if self.ty == 'f32' and tol < 2e-3 and tol > 0:
            tol = 2e-3
        nf = ~f
        if self.exactonly:
            if self.ev(nf, 0) and self.exactdec():
                self.failed.append(name)
        elif not self.boundary and self.ev(nf, tol):
            self.failed.append(name)
        elif self.ev(nf, 0) and self.exact():
            self.failed.append(name)


class Inexact(Exception):
    pass


class Raising:
    def decide(self, b):
        raise Inexact()
