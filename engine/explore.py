"""Path exploration of one scenario and the decision of its obligations."""
import time, random, json, traceback, signal
from fractions import Fraction
from . import smt
from .real import *
from .world import SymW, ConcW, V
from .ll import Unsupported
from .poly import TooBig, pvar


class Explorer:
    def __init__(self, prog, libs, scenario, name, ty='f64', mu=None, tol=None, seed=1, deadline=None, maxpaths=4000, budget=(400, 2500, 2500), cvc=0,
                 fuzzy=False, feas=(150, 300), quick=True, models=8, maxdec=10 ** 9):
        self.prog, self.libs, self.scenario, self.name, self.ty = prog, libs, scenario, name, ty
        self.space = Space()
        self.enc = smt.Enc(self.space)
        self.mu = mu if mu is not None else (Fraction(1, 10 ** 6) if ty == 'f64' else Fraction(1, 100))
        self.tol = tol if tol is not None else (1e-9 if ty == 'f64' else 2e-3)
        self.rng = random.Random(seed)
        self.deadline = deadline or time.time() + 600
        self.maxpaths, self.budget, self.cvc, self.fuzzy, self.feas = maxpaths, budget, cvc, fuzzy, feas
        self.models, self.maxdec = models, maxdec
        self.funcs = set()
        self.done = set()
        self.lemmas = {}
        self.r = {'name': name, 'ty': ty, 'paths': 0, 'pruned': 0, 'beyond': 0, 'decisions': 0, 'obligations': 0, 'discharged_nf': 0, 'discharged_smt': 0,
                  'discharged_margin': 0, 'undecided': [], 'violations': [], 'validated': 0, 'mismatch': 0, 'witness': 0, 'forks': 0, 'samples': [],
                  'steps': 0, 'checks': {}, 'cut': 0}
        self.wit = {}
        self.stop = False

    def ask(self, path, a, b):
        if time.time() > self.deadline:
            raise Budget('time limit')
        f = smt.feasible(self.enc, path, path.atoms + [a], path.forms, self.feas)
        if not f:
            return False, True
        g = smt.feasible(self.enc, path, path.atoms + [b], path.forms, self.feas)
        return True, g

    def run(self):
        t0 = time.time()
        work = [[]]
        r = self.r
        while work and not self.stop:
            if r['paths'] >= self.maxpaths or time.time() > self.deadline:
                r['undecided'].append({'check': '*', 'why': 'path/time budget: %d prefixes left unexplored' % len(work)})
                break
            prefix = work.pop()
            path = Path(self.space, prefix, self.ask)
            path.fuzzy = self.fuzzy
            self.space.cutting = self.ty == 'f64'
            path.maxdec = self.maxdec
            w = SymW(self, path)
            end = 'done'
            try:
                with Alarm(max(10.0, min(self.deadline - time.time(), 0.3 * (self.deadline - t0)))):
                    self.scenario(w)
            except Infeasible:
                end = 'infeasible'
            except PathEnd:
                pass
            except Beyond:
                end = 'beyond'
                r['beyond'] += 1
            except (Unsupported, TooBig, Budget, RecursionError, MemoryError) as e:
                end = 'error'
                r['undecided'].append({'check': '*', 'why': '%s: %s' % (type(e).__name__, str(e)[:200])})
            work += path.forks
            r['forks'] += len(path.forks)
            r['decisions'] += len(path.log)
            r['steps'] += w.steps
            if end == 'infeasible':
                r['pruned'] += 1
            elif end == 'done':
                r['paths'] += 1
                if not self.stop:
                    self.validate(path, w)
            elif end == 'beyond' and not self.stop:
                self.validate(path, w)
            elif end == 'error' and not self.stop and r['cut'] < 8:
                # the rest of the path is not encoded; a model of what is may still refute the property natively
                r['cut'] += 1
                path.maxdec = 0
                self.validate(path, w)
        r['wall'] = round(time.time() - t0, 2)
        r['funcs'] = sorted(self.funcs)
        r['smt'] = smt.STAT
        return r

    # -- obligations --------------------------------------------------------------
    def obligation(self, w, name, f, mu):
        p = w.p
        key = (tuple(p.log), name)
        if key in self.done or self.stop:
            return
        self.done.add(key)
        if f.k == 'and':
            parts = f.a
            todo = list(parts)
            parts = []
            while todo:
                x = todo.pop(0)
                if x.k == 'and':
                    todo = x.a + todo
                else:
                    parts.append(x)
        else:
            parts = [f]
        for x in parts:
            if self.stop:
                return
            self.r['obligations'] += 1
            self.r['checks'][name] = self.r['checks'].get(name, 0) + 1
            how = self.decide(w, name, x, mu)
            if how in ('nf', 'smt', 'margin'):
                self.r['discharged_' + how] += 1

    def decide(self, w, name, f, mu):
        p = w.p
        neg = smt.lower(p, ~f)
        if neg[0] == 'false':
            return 'nf'
        if time.time() > self.deadline:
            self.r['undecided'].append({'check': name, 'why': 'time limit'})
            return None
        atoms, forms = list(p.atoms), list(p.forms)
        extra = [] if neg[0] == 'true' else [neg]
        st, m = smt.solve(self.enc, p, atoms, forms, self.budget, extra, self.cvc)
        if st == 'unsat':
            return 'smt'
        if st == 'sat' and self.confirm(name, m):
            return 'violation'
        # exact counterexamples may vanish in rounding: ask for a clear one
        neg2 = smt.lower(p, ~f, mu)
        if neg2[0] == 'false':
            return 'margin'
        extra2 = [] if neg2[0] == 'true' else [neg2]
        for g in w.spec:
            lg = smt.lower(p, g, mu)
            if lg[0] == 'false' and not smt.thin(g):
                return 'margin'
            if lg[0] not in ('true', 'false'):
                extra2.append(lg)
        st2, m2 = smt.solve(self.enc, p, atoms, forms, self.budget, extra2, self.cvc)
        if st2 == 'unsat':
            if st == 'sat':
                # the difference is on a thin set: look for small exact inputs on it
                m3 = self.nice(p, atoms, forms + extra)
                if m3 and self.confirm(name, m3):
                    return 'violation'
            return 'margin'
        if st2 == 'sat' and self.confirm(name, m2):
            return 'violation'
        if st == 'sat' or st2 == 'sat':
            m3 = self.nice(p, atoms, forms + extra)
            if m3 and self.confirm(name, m3):
                return 'violation'
        if self.hunt(name, p, atoms, forms + (extra2 if st2 != 'unknown' else extra)):
            return 'violation'
        self.r['undecided'].append({'check': name, 'why': 'exact query %s, margin query %s, not confirmed natively' % (st, st2), 'path': ''.join('TF'[not b] for b in p.log)})
        return None

    def nice(self, p, atoms, forms):
        """a model whose inputs are small integers (exact in floating point)"""
        import z3
        cs, vs = smt.build(self.enc, p, atoms, forms, False)
        if len(vs) > 24:
            return None
        for den in (1, 2):
            ex = []
            for v in vs:
                if self.space.ring.kind[v] in ('in', 'rel', 'sqrt'):
                    k = z3.Int('k%d' % v)
                    ex.append(self.enc.var(v) * den == z3.ToReal(k))
                    if self.space.ring.kind[v] != 'sqrt':
                        ex += [k >= -6 * den, k <= 6 * den]
            r, m = smt.run(cs + ex, 'smt', 1500)
            if r == 'sat':
                return smt.model(self.enc, m, vs)
        return None

    def hunt(self, name, p, atoms, forms):
        """more models of a satisfiable query, spread over the input space by random half-spaces / fixed inputs"""
        import z3
        ins = [v for n, v in self.space.inputs.items()]
        cs, vs = smt.build(self.enc, p, atoms, forms, False)
        ins = [v for v in ins if v in vs and self.space.ring.kind[v] != 'rel']
        for k in range(self.models):
            if time.time() > self.deadline:
                return False
            ex = []
            for v in ins:
                lo, hi = self.space.bounds.get(v, (-4, 4))
                lo = max(lo if lo is not None else -4, -4)
                hi = min(hi if hi is not None else 4, 4)
                c = lo + (hi - lo) * (Fraction(self.rng.randrange(1, 331), 331) if self.space.cuts else Fraction(self.rng.randrange(1, 16), 16))
                u = self.rng.random()
                if k % 2 == 0:
                    if u < 0.5:
                        ex.append(self.enc.var(v) == z3.RealVal(str(c)))
                    elif u < 0.8:
                        ex.append(self.enc.var(v) >= z3.RealVal(str(c)) if self.rng.random() < 0.5 else self.enc.var(v) <= z3.RealVal(str(c)))
                else:
                    d = (hi - lo) / 4
                    ex.append(self.enc.var(v) >= z3.RealVal(str(c - d)))
                    ex.append(self.enc.var(v) <= z3.RealVal(str(c + d)))
            r, m = smt.run(cs + ex, 'smt' if k % 4 < 2 else 'nlsat', 700)
            if r == 'sat' and self.confirm(name, smt.model(self.enc, m, vs)):
                return True
        return False

    # -- concrete side ---------------------------------------------------------------
    def params(self, m):
        out = {}
        for n, v in self.space.inputs.items():
            x = m.get(v)
            if x is None:
                lo, hi = self.space.bounds.get(v, (None, None))
                lo = Fraction(-2) if lo is None else lo
                hi = Fraction(2) if hi is None else hi
                lo, hi = max(lo, min(Fraction(-3), hi)), min(hi, max(Fraction(3), lo))
                x = lo + (hi - lo) * (Fraction(self.rng.randrange(1, 331), 331) if self.space.cuts else Fraction(self.rng.randrange(1, 64), 64))
            out[n] = x
        return out

    def confirm(self, name, m):
        ps = self.params(m)
        if self.replay(ps):
            return True
        # values next to the model that single precision cannot hold
        for k in range(3 if self.space.cuts else 0):
            if self.replay({n: Fraction(x) * Fraction(990 + self.rng.randrange(20), 1009) for n, x in ps.items()}):
                return True
        return False

    def replay(self, ps):
        return self.replay1(ps, False) or any(x == 0 for x in ps.values()) and self.replay1(ps, True)

    def replay1(self, ps, negzero):
        for which, lib in (('opt', self.libs[0]), ('debug', self.libs[1])):
            w = ConcW(self.prog, lib, ps, self.ty, self.tol)
            w.negzero = negzero
            try:
                self.scenario(w)
            except Infeasible:
                if not w.failed:
                    return False
            except PathEnd:
                pass
            if w.failed:
                self.r['violations'].append({'scenario': self.name, 'ty': self.ty, 'build': which, 'failed': sorted(set(w.failed)), 'params': {k: str(v) for k, v in ps.items()}, 'negzero': negzero, 'trace': w.trace})
                self.stop = True
                return True
        return False

    def validate(self, path, w):
        """reachability witness: a model of the whole path, run natively"""
        if self.r['witness'] >= 40 or time.time() > self.deadline + (10 if self.r['cut'] else 0):
            return
        try:
            with Alarm(20):
                self.validate1(path)
                if w.far and not self.stop:
                    self.spread(path)
        except Budget:
            pass

    def spread(self, path):
        """far from the coordinate origin the rounding of the code itself is what can go wrong: more models of the path, run natively"""
        old, self.models = self.models, 8
        try:
            self.hunt('', path, path.atoms, path.forms)
        finally:
            self.models = old

    def validate1(self, path):
        st, m = smt.solve(self.enc, path, path.atoms, path.forms, (200, 400))
        if st != 'sat':
            return
        self.r['witness'] += 1
        ps = self.params(m)
        c = ConcW(self.prog, self.libs[0], ps, self.ty, self.tol)
        try:
            self.scenario(c)
        except Infeasible:
            return
        except PathEnd:
            pass
        if c.failed:
            self.r['violations'].append({'scenario': self.name, 'ty': self.ty, 'build': 'opt', 'failed': sorted(set(c.failed)), 'params': {k: str(v) for k, v in ps.items()}, 'trace': c.trace})
            self.stop = True
            return
        if any(x == 0 for x in ps.values()) and self.replay1(ps, True):
            return
        if path.maxdec <= len(path.log):
            return
        self.r['validated'] += 1
        if len(self.r['samples']) < 3:
            self.r['samples'].append({'scenario': self.name, 'ty': self.ty, 'path': ''.join('FT'[b] for b in path.log), 'native': c.trace[:2]})


class Alarm:
    """raises Budget in the main thread when the time is up"""
    def __init__(self, sec):
        self.sec = sec

    def __enter__(self):
        def ring(sig, frame):
            raise Budget('time limit of a path')
        self.old = signal.signal(signal.SIGALRM, ring)
        signal.setitimer(signal.ITIMER_REAL, self.sec)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


def fuzzy_ok():
    return True
