"""SMT queries over polynomial constraints: linear abstraction, z3 (several tactics), cvc5."""
import time, os
from fractions import Fraction
import z3
from . import poly as P
from .poly import mono_vars, pvars, pcontent
from .real import NEG, ZER, POS, ANY, Infeasible, FF, FT, F

STAT = {'queries': 0, 'time': 0.0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'by': {}}


class Enc:
    """one exploration's polynomials as z3 terms"""

    def __init__(self, space):
        self.sp = space
        self.ring = space.ring
        self.v = {}
        self.pc = {}
        self.lin = {}
        self.monov = {}
        self.isint = False

    def var(self, i):
        x = self.v.get(i)
        if x is None:
            x = z3.Real('v%d_%s' % (i, self.ring.names[i]))
            self.v[i] = x
        return x

    def poly(self, p):
        k = p
        e = self.pc.get(k)
        if e is None:
            ts = []
            for m, c in p.d.items():
                fs = []
                if c != 1 or m == 0:
                    fs.append(z3.RealVal(str(Fraction(c))))
                for v, ex in mono_vars(m):
                    fs += [self.var(v)] * ex
                ts.append(fs[0] if len(fs) == 1 else z3.Product(fs))
            e = z3.RealVal(0) if not ts else (ts[0] if len(ts) == 1 else z3.Sum(ts))
            self.pc[k] = e
        return e

    def mono(self, m):
        x = self.monov.get(m)
        if x is None:
            vs = mono_vars(m)
            if len(vs) == 1 and vs[0][1] == 1:
                x = self.var(vs[0][0])
            else:
                x = z3.Real('m%d' % len(self.monov))
            self.monov[m] = x
        return x

    def linpoly(self, p):
        e = self.lin.get(p)
        if e is None:
            ts = [z3.RealVal(str(Fraction(c))) if m == 0 else (self.mono(m) if c == 1 else z3.RealVal(str(Fraction(c))) * self.mono(m)) for m, c in p.d.items()]
            e = z3.RealVal(0) if not ts else (ts[0] if len(ts) == 1 else z3.Sum(ts))
            self.lin[p] = e
        return e

    def closure(self, polys, comp=True):
        seen = set()
        todo = []
        for p in polys:
            todo += pvars(p)
        while todo:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            r = self.ring.rel.get(v)
            if r is not None:
                todo += pvars(r)
            if comp and v in self.ring.defs:
                todo += pvars(self.ring.defs[v])
        return sorted(seen)


def sgn(e, mask):
    if mask == NEG:
        return e < 0
    if mask == POS:
        return e > 0
    if mask == ZER:
        return e == 0
    if mask == NEG | ZER:
        return e <= 0
    if mask == POS | ZER:
        return e >= 0
    if mask == NEG | POS:
        return e != 0
    return z3.BoolVal(mask == ANY)


def form_polys(f, out):
    if f[0] == 'atom':
        out.append(f[1])
    elif f[0] in ('and', 'or'):
        for x in f[1]:
            form_polys(x, out)
    return out


def form_z3(f, tr):
    if f[0] == 'atom':
        return sgn(tr(f[1]), f[2])
    if f[0] == 'and':
        return z3.And([form_z3(x, tr) for x in f[1]])
    if f[0] == 'or':
        return z3.Or([form_z3(x, tr) for x in f[1]])
    return z3.BoolVal(f[0] == 'true')


def lower(path, f, mu=None):
    """F -> ('atom', poly, mask) / ('and', [...]) / ('or', [...]) / ('true',) / ('false',), simplified by sign knowledge"""
    if f.k in ('true', 'false'):
        return (f.k,)
    if f.k == 'atom':
        r, mask = f.a[0], f.a[1]
        if mu and mask != ZER:
            c = path.f.const(mu)
            if mask in (POS, POS | ZER):
                r = path.f.sub(r, c)
            elif mask in (NEG, NEG | ZER):
                r = path.f.add(r, c)
            elif mask == NEG | POS:
                a = lower(path, F('atom', (r, POS)), mu)
                b = lower(path, F('atom', (r, NEG)), mu)
                return ('or', [a, b])
        m = path.rmask(r)
        if not m & ~mask:
            return ('true',)
        if not m & mask:
            return ('false',)
        p, mk = path.atom_poly(r, mask)
        m = path.pmask(p)
        if not m & ~mk:
            return ('true',)
        if not m & mk:
            return ('false',)
        return ('atom', p, mk & m)
    xs = [lower(path, x, mu) for x in f.a]
    if f.k == 'and':
        if any(x[0] == 'false' for x in xs):
            return ('false',)
        xs = [x for x in xs if x[0] != 'true']
        return ('true',) if not xs else (xs[0] if len(xs) == 1 else ('and', xs))
    if any(x[0] == 'true' for x in xs):
        return ('true',)
    xs = [x for x in xs if x[0] != 'false']
    return ('false',) if not xs else (xs[0] if len(xs) == 1 else ('or', xs))


def thin(f):
    """does the formula contain an equality?"""
    if f.k == 'atom':
        return f.a[1] == ZER
    return f.k in ('and', 'or') and any(thin(x) for x in f.a)


def defs(enc, vs, tr, lin, comp):
    out = []
    for v in vs:
        x = enc.var(v)
        if comp and v in enc.ring.defs:
            out.append(x == tr(enc.ring.defs[v]))
        k = enc.ring.kind[v]
        r = enc.ring.rel.get(v)
        if r is not None:
            if k == 'sqrt':
                out.append(x >= 0)
            if lin:
                out.append(tr(r) >= 0)
            else:
                out.append(x * x == tr(r))
        if k == 'exp':
            out.append(x > 0)
        b = enc.sp.bounds.get(v)
        if b is not None:
            if b[0] is not None:
                out.append(x >= z3.RealVal(str(b[0])))
            if b[1] is not None:
                out.append(x <= z3.RealVal(str(b[1])))
    return out


def facts_of(path, vs):
    """sign facts on single variables that constraints alone may not show"""
    out = []
    for v in vs:
        m = path.facts.get(P.pvar(v))
        if m is not None and m != ANY:
            out.append((P.pvar(v), m))
    return out


def lift(enc, path, vs, atoms, forms):
    """products of the constraints with the positive square roots occurring elsewhere (they were divided out as positive factors)"""
    roots = [v for v in vs if enc.ring.kind[v] == 'sqrt' and path.vmask(v) == POS]
    out = []
    allf = [('atom', p, m) for p, m in atoms] + list(forms)

    def mul(f, v):
        if f[0] == 'atom':
            return ('atom', enc.ring.mulmono(f[1], v), f[2])
        if f[0] in ('and', 'or'):
            return (f[0], [mul(x, v) for x in f[1]])
        return f
    for v in roots[:3]:
        for f in allf:
            ps = form_polys(f, [])
            if all(v not in pvars(p) and len(p.d) <= 40 for p in ps) and ps:
                out.append(mul(f, v))
    return out


def build(enc, path, atoms, forms, lin, comp=True):
    """comp: include the definitions of composite symbols (leaving them out is sound for unsat answers)"""
    polys = [p for p, _ in atoms]
    for f in forms:
        form_polys(f, polys)
    vs = enc.closure(polys, comp)
    atoms = list(atoms) + facts_of(path, vs)
    tr = enc.linpoly if lin else enc.poly
    cs = [sgn(tr(p), m) for p, m in atoms]
    cs += [form_z3(f, tr) for f in forms]
    cs += defs(enc, vs, tr, lin, comp)
    if lin:
        allm = set()
        lifted = lift(enc, path, vs, atoms, forms)
        for g in lifted:
            form_polys(g, polys)
        cs += [form_z3(g, tr) for g in lifted]
        for p in polys + [enc.ring.rel[v] for v in vs if v in enc.ring.rel]:
            allm |= set(p.d)
        for m in allm:
            if m == 0:
                continue
            mv = mono_vars(m)
            if len(mv) == 1 and mv[0][1] == 1:
                continue
            s = POS
            from .real import MM
            for v, e in mv:
                vm = path.vmask(v)
                if e % 2 == 0:
                    vm = (POS if vm & (POS | NEG) else 0) | (vm & ZER)
                s = MM[s][vm]
            if s != ANY:
                cs.append(sgn(enc.mono(m), s))
    return cs, vs


def run(cs, how, ms):
    STAT['queries'] += 1
    t = time.time()
    if how == 'lin':
        s = z3.SolverFor('QF_LRA')
    elif how == 'smt':
        s = z3.SimpleSolver()
    elif how == 'nra':
        s = z3.SolverFor('QF_NRA')
    elif how == 'nlsat':
        s = z3.Then(z3.With('simplify', som=True), 'propagate-values', 'solve-eqs', 'qfnra-nlsat').solver()
    s.set('timeout', int(ms))
    s.add(cs)
    try:
        r = str(s.check())
    except z3.Z3Exception:
        r = 'unknown'
    STAT['time'] += time.time() - t
    m = None
    if r == 'sat':
        try:
            m = s.model()
        except z3.Z3Exception:
            r = 'unknown'
    b = STAT['by'].setdefault(how, [0, 0, 0, 0.0])
    b[('unsat', 'sat', 'unknown').index(r)] += 1
    b[3] += time.time() - t
    return r, m


def cvc5_run(cs, ms):
    """cvc5 on the same constraints through SMT-LIB text (unsat answers only)"""
    import subprocess, tempfile
    s = z3.Solver()
    s.add(cs)
    txt = '(set-logic QF_NRA)\n' + s.sexpr() + '\n(check-sat)\n'
    STAT['queries'] += 1
    t = time.time()
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % ms, '-q', '-'], input=txt, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=ms / 1000 + 5)
        r = p.stdout.strip().split('\n')[-1] if p.stdout.strip() else 'unknown'
    except (subprocess.TimeoutExpired, OSError):
        r = 'unknown'
    if r not in ('sat', 'unsat'):
        r = 'unknown'
    STAT['time'] += time.time() - t
    b = STAT['by'].setdefault('cvc5', [0, 0, 0, 0.0])
    b[('unsat', 'sat', 'unknown').index(r)] += 1
    b[3] += time.time() - t
    return r


def enclose(enc, path, atoms, forms):
    """the constraints with every square root of constants replaced by a rational enclosure of its coefficients: a relaxation, so an
    unsat answer carries over"""
    ring = enc.ring

    def tr(f):
        if f[0] == 'atom':
            ps = {k: v for k, v in ring.parts(f[1]).items() if v != (0, 0)}
            if not ps:
                return z3.BoolVal(bool(f[2] & ZER))
            big = max(max(abs(a), abs(b)) for a, b in ps.values())
            sh = max(big.bit_length() - 100, 0)
            up, dn = [], []
            for k, (a, b) in ps.items():
                a, b = a >> sh, -((-b) >> sh)
                if k == 0:
                    up.append(z3.RealVal(b)), dn.append(z3.RealVal(a))
                    continue
                fs = []
                s = POS
                from .real import MM
                for v, e in mono_vars(k):
                    fs += [enc.var(v)] * e
                    vm = path.vmask(v)
                    if e % 2 == 0:
                        vm = (POS if vm & (POS | NEG) else 0) | (vm & ZER)
                    s = MM[s][vm]
                e = fs[0] if len(fs) == 1 else z3.Product(fs)
                x, y = z3.RealVal(b) * e, z3.RealVal(a) * e
                if a == b or not s & NEG:
                    up.append(x), dn.append(y)
                elif not s & POS:
                    up.append(y), dn.append(x)
                else:
                    up.append(z3.If(e >= 0, x, y)), dn.append(z3.If(e >= 0, y, x))
            up, dn = z3.Sum(up), z3.Sum(dn)
            m = f[2]
            if m == ANY or m == (NEG | POS):
                return z3.BoolVal(True)
            out = []
            if not m & NEG:
                out.append(up >= 0 if m & ZER else up > 0)
            if not m & POS:
                out.append(dn <= 0 if m & ZER else dn < 0)
            return z3.And(out)
        if f[0] == 'and':
            return z3.And([tr(x) for x in f[1]])
        if f[0] == 'or':
            return z3.Or([tr(x) for x in f[1]])
        return z3.BoolVal(f[0] == 'true')
    polys = [p for p, _ in atoms]
    for f in forms:
        form_polys(f, polys)
    vs = enc.closure(polys, True)
    const = [v for v in vs if ring.civ(v) is not None]
    if not const:
        return None, vs
    rest = [v for v in vs if v not in const]
    cs = [tr(('atom', p, m)) for p, m in list(atoms) + facts_of(path, rest)] + [tr(f) for f in forms]
    for v in rest:
        x = enc.var(v)
        if v in ring.defs or v in ring.rel:
            r = P.psub(P.pvar(v), ring.defs[v]) if v in ring.defs else P.psub(P.pvar(v, 2), ring.rel[v])
            cs.append(tr(('atom', r, ZER)))
            if ring.kind[v] == 'sqrt':
                cs.append(x >= 0)
        if ring.kind[v] == 'exp':
            cs.append(x > 0)
        b = enc.sp.bounds.get(v)
        if b is not None:
            cs += ([x >= z3.RealVal(str(b[0]))] if b[0] is not None else []) + ([x <= z3.RealVal(str(b[1]))] if b[1] is not None else [])
    return cs, vs


def feasible(enc, path, atoms, forms, budget=(150, 300)):
    """unsat check used for pruning: True when not shown infeasible"""
    if enc.ring.cv_any():
        cs, _ = enclose(enc, path, atoms, forms)
        if cs is not None:
            for how, ms in zip(('smt', 'nlsat'), budget):
                r, _ = run(cs, how, ms)
                if r != 'unknown':
                    return r == 'sat'
    cs, _ = build(enc, path, atoms, forms, True)
    r, _ = run(cs, 'lin', 500)
    if r == 'unsat':
        return False
    for comp in (False, True) if enc.ring.defs else (True,):
        cs, _ = build(enc, path, atoms, forms, False, comp)
        for how, ms in zip(('smt', 'nlsat'), budget):
            if comp and enc.ring.defs and how == 'smt':
                continue
            r, _ = run(cs, how, ms)
            if r == 'unsat':
                return False
            if r == 'sat':
                if comp:
                    return True
                break
    return True


def subset(enc, atoms, forms, goal):
    """the constraints whose variables all occur in the goal (with their definitions)"""
    gp = []
    for f in goal:
        form_polys(f, gp)
    vs = set(enc.closure(gp, False))
    keep = [(p, m) for p, m in atoms if set(pvars(p)) <= vs]
    kf = []
    for f in forms:
        ps = form_polys(f, [])
        if all(set(pvars(p)) <= vs for p in ps):
            kf.append(f)
    return keep, kf


def solve(enc, path, atoms, forms, budget=(500, 3000, 3000), goal=(), cvc=0):
    """-> ('unsat'|'sat'|'unknown', {var: Fraction})"""
    goal = list(goal)
    allf = list(forms) + goal
    if enc.ring.cv_any():
        cs, vs = enclose(enc, path, atoms, allf)
        if cs is not None:
            for how, ms in zip(('smt', 'nlsat'), budget):
                r, m = run(cs, how, ms)
                if r == 'unsat':
                    return r, None
                if r == 'sat' and sum(enc.ring.civ(v) is not None for v in vs) > 2:
                    return r, model(enc, m, vs)
    cs, vs = build(enc, path, atoms, allf, True)
    r, _ = run(cs, 'lin', 1000)
    if r == 'unsat':
        return r, None
    if goal:
        ka, kf = subset(enc, atoms, forms, goal)
        if len(ka) + len(kf) < len(atoms) + len(forms):
            cs, vs = build(enc, path, ka, kf + goal, False, False)
            for how, ms in (('smt', 200), ('nlsat', 300)):
                r, m = run(cs, how, ms)
                if r == 'unsat':
                    return r, None
                if r == 'sat':
                    break
    if enc.ring.defs:
        cs, vs = build(enc, path, atoms, allf, False, False)
        for how, ms in zip(('smt', 'nlsat'), budget):
            r, m = run(cs, how, min(ms, 1000))
            if r == 'unsat':
                return r, None
            if r == 'sat':
                break
    cs, vs = build(enc, path, atoms, allf, False)
    for how, ms in zip(('smt', 'nlsat', 'nra'), budget):
        r, m = run(cs, how, ms)
        if r == 'unsat':
            return r, None
        if r == 'sat':
            return r, model(enc, m, vs)
    if cvc:
        r = cvc5_run(cs, cvc)
        if r == 'unsat':
            return r, None
    return 'unknown', None


def numval(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(25)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    return Fraction(0)


def model(enc, m, vs):
    out = {}
    for v in vs:
        iv = enc.ring.civ(v)
        if iv is not None:
            out[v] = Fraction(iv[0] + iv[1], 2 << P.CB)
            continue
        x = m.eval(enc.var(v), model_completion=True)
        out[v] = numval(x)
    return out
