"""Bit-precise scenarios: inputs are IEEE floats (NaN, infinities, subnormals included), z3's floating-point theory decides.

Used for properties whose code only compares, subtracts and selects, so that the whole input space is covered without
any rounding margin."""
import time, math, struct
import z3
from . import term as t, native
from .symex import run_entry, Panic, Hang
from .ll import Unsupported
from .real import Infeasible, PathEnd, Budget

RNE = z3.RNE()
SORT = {'f64': z3.Float64(), 'f32': z3.Float32()}


class FB:
    def __init__(self, x):
        self.x = x

    def __and__(self, o):
        return FB(z3.And(self.x, o.x) if not isinstance(self.x, bool) or not isinstance(o.x, bool) else self.x and o.x)

    def __or__(self, o):
        return FB(z3.Or(self.x, o.x) if not isinstance(self.x, bool) or not isinstance(o.x, bool) else self.x or o.x)

    def __invert__(self):
        return FB(not self.x if isinstance(self.x, bool) else z3.Not(self.x))

    def iff(self, o):
        if isinstance(self.x, bool) and isinstance(o.x, bool):
            return FB(self.x == o.x)
        return FB((z3.BoolVal(self.x) if isinstance(self.x, bool) else self.x) == (z3.BoolVal(o.x) if isinstance(o.x, bool) else o.x))

    def __bool__(self):
        raise TypeError('truth of a symbolic condition')


def conj(xs):
    r = FB(True)
    for x in xs:
        r = r & x
    return r


def disj(xs):
    r = FB(False)
    for x in xs:
        r = r | x
    return r


class FV:
    def __init__(self, w, x):
        self.w, self.x = w, x

    def _b(self, o, f, g):
        y = o.x if isinstance(o, FV) else self.w.lit(o)
        if isinstance(self.x, float):
            return FB(g(self.x, y))
        return FB(f(self.x, y))

    def __lt__(self, o):
        return self._b(o, z3.fpLT, lambda a, b: a < b)

    def __le__(self, o):
        return self._b(o, z3.fpLEQ, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._b(o, z3.fpGT, lambda a, b: a > b)

    def __ge__(self, o):
        return self._b(o, z3.fpGEQ, lambda a, b: a >= b)

    def eq(self, o):
        return self._b(o, z3.fpEQ, lambda a, b: a == b)

    def same(self, o):
        """numerically equal or both NaN"""
        return self.eq(o) | (self.isnan() & o.isnan())

    def isnan(self):
        return FB(self.x != self.x) if isinstance(self.x, float) else FB(z3.fpIsNaN(self.x))

    def isinf(self):
        return FB(math.isinf(self.x)) if isinstance(self.x, float) else FB(z3.fpIsInf(self.x))

    def finite(self):
        return ~self.isnan() & ~self.isinf()


class Sym:
    conc = False

    def __init__(self, ex, prefix):
        self.ex, self.ty, self.prefix = ex, ex.ty, prefix
        self.log, self.forks = [], []
        self.cons = []
        self.cache = {}
        self.vars = ex.vars
        self.steps = 0
        self.nchk = {}

    # domain
    def decide(self, b):
        f = self.z(b)
        i = len(self.log)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            a = self.ex.sat(self.cons, f) != 'unsat'
            c = self.ex.sat(self.cons, z3.Not(f)) != 'unsat'
            if not a and not c:
                raise Infeasible()
            d = a
            if a and c:
                self.forks.append(self.log + [False])
        self.log.append(d)
        self.cons.append(f if d else z3.Not(f))
        return d

    def lit(self, x):
        return z3.FPVal(x, SORT[self.ty])

    def z(self, x):
        c = self.cache.get(x.id)
        if c is None:
            c = self.cache[x.id] = self.z0(x)
        return c

    def z0(self, x):
        o = x.op
        if o == 'const':
            return z3.FPVal(x.a[0], SORT[x.ty])
        if o == 'var':
            return self.ex.zv[x.a[0]]
        if o == 'true':
            return z3.BoolVal(True)
        if o == 'false':
            return z3.BoolVal(False)
        if o == 'cmp':
            p, a, b = x.a[0], self.z(x.a[1]), self.z(x.a[2])
            if p == 'sign':
                w = SORT[x.a[1].ty].ebits() + SORT[x.a[1].ty].sbits() - 1
                return z3.Extract(w, w, z3.fpToIEEEBV(a)) == 1
            nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
            if p == 'uno':
                return nan
            if p == 'ord':
                return z3.Not(nan)
            r = {'eq': z3.fpEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}.get(p[1:])
            if r is None:   # ne
                f = z3.Not(z3.fpEQ(a, b))
                return z3.And(f, z3.Not(nan)) if p[0] == 'o' else f
            f = r(a, b)
            return z3.Or(nan, f) if p[0] == 'u' else f
        a = [self.z(y) for y in x.a]
        if o == 'not':
            return z3.Not(a[0])
        if o == 'and':
            return z3.And(*a)
        if o == 'ite':
            return z3.If(*a)
        if o in ('add', 'sub', 'mul', 'div'):
            return {'add': z3.fpAdd, 'sub': z3.fpSub, 'mul': z3.fpMul, 'div': z3.fpDiv}[o](RNE, *a)
        if o == 'neg':
            return z3.fpNeg(a[0])
        if o == 'abs':
            return z3.fpAbs(a[0])
        if o == 'sqrt':
            return z3.fpSqrt(RNE, a[0])
        if o in ('min', 'max'):
            # IEEE minimumNumber / maximumNumber (the sign of a zero result is not observed by any check)
            le = z3.fpLEQ(a[0], a[1]) if o == 'min' else z3.fpGEQ(a[0], a[1])
            return z3.If(z3.fpIsNaN(a[0]), a[1], z3.If(z3.fpIsNaN(a[1]), a[0], z3.If(le, a[0], a[1])))
        if o == 'fma':
            return z3.fpFMA(RNE, *a)
        if o in ('fpext', 'fptrunc'):
            return z3.fpFPToFP(RNE, a[0], SORT[x.ty])
        if o in ('floor', 'ceil', 'ftrunc'):
            return z3.fpRoundToIntegral({'floor': z3.RTN(), 'ceil': z3.RTP(), 'ftrunc': z3.RTZ()}[o], a[0])
        if o == 'copysign':
            neg = z3.Extract(SORT[x.ty].ebits() + SORT[x.ty].sbits() - 1, SORT[x.ty].ebits() + SORT[x.ty].sbits() - 1, z3.fpToIEEEBV(a[1])) == 1
            return z3.If(neg, z3.fpNeg(z3.fpAbs(a[0])), z3.fpAbs(a[0]))
        raise Unsupported('bit-precise ' + o)

    # world
    def c(self, x):
        v = FV(self, self.lit(x))
        v.t = t.const(float(x), self.ty)
        return v

    def any(self, name):
        if name not in self.ex.zv:
            self.ex.zv[name] = z3.FP(name, SORT[self.ty])
        v = FV(self, self.ex.zv[name])
        v.t = t.var(name, self.ty)
        return v

    def vec(self, name, n):
        return [self.any('%s%d' % (name, i)) for i in range(n)]

    def assume(self, f):
        if f.x is True:
            return
        if f.x is False or self.ex.sat(self.cons, f.x) == 'unsat':
            raise Infeasible()
        self.cons.append(f.x)

    def run(self, entry, inputs, nout, k=0):
        ts = []
        for x in inputs:
            if isinstance(x, FV):
                ts.append(x.t)
            else:
                ts.append(t.const(x, self.ty))
        try:
            outs, ex = run_entry(self.ex.prog, self, entry + '_' + self.ty, ts, nout, k, self.ty)
        except (Panic, Hang) as e:
            return Res(self, 'panic', None)
        self.steps += ex.steps
        self.ex.funcs |= ex.funcs
        return Res(self, 'ok', outs)

    def call(self, entry, inputs, nout, k=0):
        r = self.run(entry, inputs, nout, k)
        self.check('no panic', FB(r.st == 'ok'))
        if r.st != 'ok':
            raise PathEnd()
        return r

    def out(self, x):
        if x is None:
            raise Unsupported('output not written')
        v = FV(self, self.z(x))
        v.t = x
        return v

    def check(self, name, f):
        n = self.nchk.get(name, 0)
        self.nchk[name] = n + 1
        self.ex.obligation(self, '%s#%d' % (name, n) if n else name, f)


class Res:
    def __init__(self, w, st, outs):
        self.w, self.st, self.outs = w, st, outs

    def __getitem__(self, i):
        if isinstance(i, slice):
            return [self.w.out(x) for x in self.outs[i]]
        return self.w.out(self.outs[i])

    def flag(self, i):
        x = self.outs[i]
        if self.w.conc:
            return ~self[i].eq(0.0)
        if x is None:
            raise Unsupported('output not written')
        return FB(self.nz(x))

    def nz(self, x):
        if x.op == 'const':
            return z3.BoolVal(x.a[0] != 0)
        if x.op == 'ite':
            c, a, b = self.w.z(x.a[0]), self.nz(x.a[1]), self.nz(x.a[2])
            if z3.is_true(a) and z3.is_false(b):
                return c
            if z3.is_false(a) and z3.is_true(b):
                return z3.Not(c)
            return z3.If(c, a, b)
        z = self.w.z(x)
        return z3.Not(z3.fpEQ(z, z3.FPVal(0.0, z.sort())))

    def written(self, i):
        return self.outs[i] is not None


class Conc(Sym):
    conc = True

    def __init__(self, prog, lib, params, ty):
        self.prog, self.lib, self.params, self.ty = prog, lib, params, ty
        self.failed, self.trace = [], []

    def lit(self, x):
        x = float(x)
        return t.r32(x) if self.ty == 'f32' else x

    def any(self, name):
        return FV(self, self.lit(self.params.get(name, 0.0)))

    def assume(self, f):
        if not f.x:
            raise Infeasible()

    def run(self, entry, inputs, nout, k=0):
        xs = [x.x if isinstance(x, FV) else self.lit(x) for x in inputs]
        st, outs = native.call(self.lib, entry + '_' + self.ty, xs, nout, k, self.ty)
        self.trace.append({'entry': entry + '_' + self.ty, 'k': k, 'inputs': [repr(x) for x in xs], 'status': st,
                           'outputs': None if outs is None else [None if x is None else repr(x) for x in outs]})
        return Res(self, st, outs if outs is not None else [None] * nout)

    def out(self, x):
        if x is None:
            raise PathEnd()
        return FV(self, float(x))

    def check(self, name, f):
        if not f.x:
            self.failed.append(name)


class FpExplorer:
    def __init__(self, prog, libs, scenario, name, ty='f64', seed=1, deadline=None, maxpaths=4000, timeout=8000, **_):
        self.prog, self.libs, self.scenario, self.name, self.ty = prog, libs, scenario, name, ty
        self.deadline = deadline or time.time() + 300
        self.maxpaths, self.timeout = maxpaths, timeout
        self.zv, self.vars, self.funcs, self.done = {}, {}, set(), set()
        self.stat = {'queries': 0, 'time': 0.0, 'by': {}}
        self.r = {'name': name, 'ty': ty, 'paths': 0, 'pruned': 0, 'decisions': 0, 'obligations': 0, 'discharged_nf': 0, 'discharged_smt': 0,
                  'discharged_margin': 0, 'undecided': [], 'violations': [], 'validated': 0, 'mismatch': 0, 'witness': 0, 'forks': 0, 'samples': [],
                  'steps': 0, 'checks': {}}
        self.stop = False
        self.fvs, self.keep, self.pieces, self.model, self.cflat = {}, [], {}, None, {}

    def solve(self, cons, ms):
        s = z3.SolverFor('QF_FP')
        s.set('timeout', int(ms))
        s.add(*cons)
        t0 = time.time()
        r = str(s.check())
        dt = time.time() - t0
        self.stat['queries'] += 1
        self.stat['time'] += dt
        b = self.stat['by'].setdefault('z3 fp', [0, 0, 0, 0.0])
        b[('unsat', 'sat', 'unknown').index(r)] += 1
        b[3] += dt
        return r, s.model() if r == 'sat' else None

    # -- queries are cut into independent pieces and looked up modulo renaming of the inputs
    def fv(self, f):
        r = self.fvs.get(f.get_id())
        if r is None:
            out, seen, todo = [], set(), [f]
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.append(x)
                todo += reversed(x.children())
            self.keep.append(f)
            r = self.fvs[f.get_id()] = out
        return r

    def piece(self, cons, f, ms):
        """f with the constraints over its own variables only"""
        vs = self.fv(f)
        names = {v.decl().name() for v in vs}
        sub = [c for c in cons if c is not f and {v.decl().name() for v in self.fv(c)} <= names]
        ren = [(v, z3.FP('_%d' % i, v.sort())) for i, v in enumerate(vs)]
        q = [z3.substitute(c, ren) for c in [f] + sub]
        key = '&'.join([q[0].sexpr()] + sorted(set(c.sexpr() for c in q[1:])))
        if key not in self.pieces or self.pieces[key] == 'unknown':
            self.pieces[key] = self.solve(q, ms)[0]
        return self.pieces[key]

    def flat(self, cons):
        """constraints as conjuncts"""
        out = []
        for c in cons:
            k = self.cflat.get(c.get_id())
            if k is None:
                cs = self.cases(c)
                k = [c] if len(cs) != 1 else (list(cs[0].children()) if z3.is_and(cs[0]) else [cs[0]])
                self.keep += [c] + k
                self.cflat[c.get_id()] = k
            out += k
        return out

    def sat(self, cons, f):
        if time.time() > self.deadline:
            raise Budget('time limit')
        live = False
        base = self.flat(cons)
        for d in self.cases(f):
            parts = list(d.children()) if z3.is_and(d) else [d]
            if not any(self.piece(base + parts, x, 3000) == 'unsat' for x in parts):
                live = True
                break
        if not live:
            return 'unsat'
        if self.model is not None:
            if all(z3.is_true(self.model.eval(c, model_completion=True)) for c in cons + [f]):
                return 'sat'
        st, m = self.solve(cons + [f], 400)
        if m is not None:
            self.model = m
        return st

    def cases(self, f, neg=False, lim=64):
        """f (or its negation) as a list of disjuncts"""
        if z3.is_not(f):
            return self.cases(f.arg(0), not neg, lim)
        if (z3.is_or(f) and not neg) or (z3.is_and(f) and neg):
            return [x for c in f.children() for x in self.cases(c, neg, lim)]
        if (z3.is_and(f) and not neg) or (z3.is_or(f) and neg):
            r = [[]]
            for c in f.children():
                cs = self.cases(c, neg, lim)
                if len(r) * len(cs) > lim:
                    r = [x + [z3.Or(*cs)] for x in r]
                else:
                    r = [x + [y] for x in r for y in cs]
            return [z3.And(*[z for y in x for z in (y.children() if z3.is_and(y) else [y])]) if len(x) > 1 else x[0] for x in r]
        if z3.is_app_of(f, z3.Z3_OP_ITE):
            c, a, b = f.children()
            return self.cases(z3.Or(z3.And(c, a), z3.And(z3.Not(c), b)), False, lim) if not neg else self.cases(z3.Or(z3.And(c, z3.Not(a)), z3.And(z3.Not(c), z3.Not(b))), False, lim)
        return [z3.Not(f) if neg else f]

    def refute(self, cons, neg):
        """unsat / sat / unknown for cons and neg, split into disjuncts and pieces"""
        unk = False
        for d in self.cases(neg):
            parts = list(d.children()) if z3.is_and(d) else [d]
            all_ = self.flat(cons) + parts
            if any(self.piece(all_, x, 4000) == 'unsat' for x in all_):
                continue
            st, m = self.solve(all_, min(self.timeout, max(100, 1000 * (self.deadline - time.time()))))
            if st == 'sat':
                return st, m
            unk |= st == 'unknown'
        return ('unknown' if unk else 'unsat'), None

    def params(self, m):
        out = {}
        for n, v in self.zv.items():
            x = m.eval(v, model_completion=True)
            if z3.is_true(z3.simplify(z3.fpIsNaN(x))):
                out[n] = math.nan
            else:
                b = z3.simplify(z3.fpToIEEEBV(x)).as_long()
                out[n] = struct.unpack('<d', b.to_bytes(8, 'little'))[0] if self.ty == 'f64' else struct.unpack('<f', b.to_bytes(4, 'little'))[0]
        return out

    def run(self):
        t0 = time.time()
        work = [[]]
        r = self.r
        while work and not self.stop:
            if r['paths'] >= self.maxpaths or time.time() > self.deadline:
                r['undecided'].append({'check': '*', 'why': 'path/time budget: %d prefixes left unexplored' % len(work)})
                break
            w = Sym(self, work.pop())
            end = 'done'
            try:
                self.scenario(w)
            except Infeasible:
                end = 'infeasible'
            except PathEnd:
                pass
            except (Unsupported, Budget, RecursionError, MemoryError) as e:
                end = 'error'
                r['undecided'].append({'check': '*', 'why': '%s: %s' % (type(e).__name__, str(e)[:200])})
            work += w.forks
            r['forks'] += len(w.forks)
            r['decisions'] += len(w.log)
            r['steps'] += w.steps
            if end == 'infeasible':
                r['pruned'] += 1
            elif end == 'done':
                r['paths'] += 1
                if not self.stop:
                    self.validate(w)
        r['wall'] = round(time.time() - t0, 2)
        r['funcs'] = sorted(self.funcs)
        from . import smt
        smt.STAT.clear()
        smt.STAT.update(self.stat)
        return r

    def obligation(self, w, name, f):
        key = (tuple(w.log), name)
        if key in self.done or self.stop:
            return
        self.done.add(key)
        self.r['obligations'] += 1
        self.r['checks'][name] = self.r['checks'].get(name, 0) + 1
        if isinstance(f.x, bool):
            if f.x:
                self.r['discharged_nf'] += 1
                return
            neg = z3.BoolVal(True)
        else:
            neg = z3.simplify(z3.Not(f.x))
            if z3.is_false(neg):
                self.r['discharged_nf'] += 1
                return
        st, m = self.refute(w.cons, neg)
        if st == 'unsat':
            self.r['discharged_smt'] += 1
        elif st == 'sat':
            if not self.replay(self.params(m)):
                self.r['undecided'].append({'check': name, 'why': 'counterexample not confirmed natively'})
        else:
            self.r['undecided'].append({'check': name, 'why': 'solver timeout'})

    def replay(self, ps):
        for which, lib in (('opt', self.libs[0]), ('debug', self.libs[1])):
            c = Conc(self.prog, lib, ps, self.ty)
            try:
                self.scenario(c)
            except (Infeasible, PathEnd):
                pass
            if c.failed:
                self.r['violations'].append({'scenario': self.name, 'ty': self.ty, 'build': which, 'failed': sorted(set(c.failed)),
                                             'params': {k: repr(v) for k, v in ps.items()}, 'trace': c.trace, 'kind': 'fp'})
                self.stop = True
                return True
        return False

    def validate(self, w):
        if self.r['witness'] >= 40 or time.time() > self.deadline:
            return
        st, m = self.solve(w.cons, 2000)
        if st != 'sat':
            return
        self.r['witness'] += 1
        ps = self.params(m)
        if self.replay(ps):
            return
        self.r['validated'] += 1
        if len(self.r['samples']) < 3:
            self.r['samples'].append({'scenario': self.name, 'ty': self.ty, 'path': ''.join('FT'[b] for b in w.log), 'inputs': {k: repr(v) for k, v in ps.items()}})
