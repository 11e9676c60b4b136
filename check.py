#!/usr/bin/env python3-vt
"""check.py C02 [--tier quick|thorough] [--only substring] | check.py --replay FILE"""
import sys, os, time, json, argparse, multiprocessing as mp, traceback, resource, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from engine import build, registry, smt
from engine.explore import Explorer
from engine.world import ConcW
from engine.real import Infeasible, PathEnd

NPROC = 8


def load():
    from props import matrix, quat, bounds, shapes, intersect  # noqa


def run_task(task, prog, libs, seed, deadline, conn, quick):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        sys.setrecursionlimit(20000)
        sys.set_int_max_str_digits(0)
        opts = dict(task.opts)
        if task.kind == 'fp':
            from engine.fp import FpExplorer
            e = FpExplorer(prog, libs, task.fn, task.name, ty=task.ty, seed=seed, deadline=deadline, **opts)
        else:
            e = Explorer(prog, libs, task.fn, task.name, ty=task.ty, seed=seed, deadline=deadline, **opts)
        r = e.run()
        r['smt'] = dict(smt.STAT)
    except BaseException as ex:
        r = {'name': task.name, 'crash': '%s: %s' % (type(ex).__name__, str(ex)[:500]), 'tb': traceback.format_exc()[-2500:]}
    try:
        conn.send(r)
        conn.close()
    finally:
        os._exit(0)


def run_all(tasks, prog, libs, seed, limit, total, quick):
    ctx = mp.get_context('fork')
    results = {}
    pend = list(enumerate(tasks))
    live = {}
    t_end = time.time() + total
    stop = False
    while pend or live:
        while pend and len(live) < NPROC and not stop:
            i, t = pend.pop(0)
            a, b = ctx.Pipe(False)
            lim = t.opts.pop('limit', None) if 'limit' in t.opts else None
            dl = min(time.time() + (lim or limit), t_end)
            p = ctx.Process(target=run_task, args=(t, prog, libs, seed, dl, b, quick))
            p.start()
            b.close()
            live[i] = (p, a, dl, t)
        if stop:
            pend = []
        from multiprocessing.connection import wait
        ready = wait([x[1] for x in live.values()], timeout=1.0)
        now = time.time()
        for i in list(live):
            p, a, dl, t = live[i]
            if a in ready:
                try:
                    r = a.recv()
                except EOFError:
                    r = {'name': t.name, 'crash': 'worker died'}
                p.join(5)
                results[i] = r
                del live[i]
                if r.get('violations'):
                    stop = True
            elif now > dl + 25:
                p.kill()
                p.join()
                results[i] = {'name': t.name, 'undecided': [{'check': '*', 'why': 'task killed at its time limit'}], 'killed': True}
                del live[i]
        if stop:
            for i in list(live):
                live[i][0].kill()
                live[i][0].join()
                del live[i]
    return [results[i] for i in sorted(results)]


def replay(path):
    load()
    d = json.load(open(path))
    prog, opt, dbg = build.build()
    for t in registry.TASKS[d['property']]:
        if t.name == d['scenario'] and t.ty == d['ty']:
            from fractions import Fraction
            ps = {k: Fraction(v) if v not in ('nan', 'inf', '-inf') else float(v) for k, v in d['params'].items()} if t.kind != 'fp' else None
            for which, lib in (('opt', opt), ('debug', dbg)):
                if t.kind == 'fp':
                    from engine.fp import Conc
                    w = Conc(prog, lib, {k: float(v) for k, v in d['params'].items()}, t.ty)
                else:
                    w = ConcW(prog, lib, ps, t.ty, d['tol'])
                    w.negzero = d.get('negzero', False)
                try:
                    t.fn(w)
                except (Infeasible, PathEnd):
                    pass
                print(which, 'failed:', w.failed)
                for x in w.trace:
                    print('  ', json.dumps(x))
            return
    print('scenario not found')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    if a.setup:
        load()
        prog, opt, dbg = build.build()
        print('setup ok: %d scenarios over %d properties' % (sum(map(len, registry.TASKS.values())), len(registry.TASKS)))
        return 0
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    load()
    quick = a.tier != 'thorough'
    tasks = [t for t in registry.TASKS.get(a.prop, []) if (t.tier == 'quick' or not quick) and (not a.only or a.only in t.name)]
    if not tasks:
        print('no tasks for', a.prop)
        return 2
    tasks.sort(key=lambda t: -t.opts.get('limit', 0))
    prog, opt, dbg = build.build()
    for t in tasks:
        if not quick:
            b = t.opts.get('budget', (400, 2500, 2500))
            t.opts['budget'] = tuple(6 * x for x in b)
            t.opts.setdefault('cvc', 15000)
            t.opts.setdefault('maxpaths', 40000)
            t.opts['feas'] = tuple(3 * x for x in t.opts.get('feas', (150, 300)))
    limit, total = (120, 420) if quick else (2400, 3 * 3600)
    res = run_all(tasks, prog, (opt, dbg), seed, limit, total, quick)
    return report(a, seed, tasks, res, t0, quick)


def report(a, seed, tasks, res, t0, quick):
    S = lambda k: sum(r.get(k, 0) for r in res)
    und, vio, crash = [], [], []
    funcs = set()
    queries = 0
    stime = 0.0
    by = {}
    samples = []
    for r in res:
        for u in r.get('undecided', []):
            und.append(dict(u, scenario=r['name']))
        vio += r.get('violations', [])
        if 'crash' in r:
            crash.append(r)
        funcs |= set(r.get('funcs', []))
        s = r.get('smt') or {}
        queries += s.get('queries', 0)
        stime += s.get('time', 0)
        for k, v in s.get('by', {}).items():
            b = by.setdefault(k, [0, 0, 0, 0.0])
            for j in range(4):
                b[j] += v[j]
        samples += r.get('samples', [])[:1]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    cov = {
        'states': S('paths') + S('pruned') + S('forks'),
        'transitions': S('decisions'),
        'traces_validated_against_impl': S('validated'),
        'samples': samples[:6],
        'explanation': 'states = leaves plus fork nodes of the symbolic execution trees; transitions = symbolic branch decisions; validated = path witnesses (solver models of complete paths) run natively with every assertion evaluated',
        'scenarios': len(res), 'paths': S('paths'), 'paths_cut_at_the_decision_bound': S('beyond'), 'obligations': S('obligations'),
        'discharged': {'normal form / sign reasoning': S('discharged_nf'), 'smt exact': S('discharged_smt'), 'smt with rounding margin': S('discharged_margin')},
        'undecided': len(und), 'undecided_list': und[:40],
        'smt_queries': queries, 'smt_time_s': round(stime, 2),
        'smt_by_tactic': {k: {'unsat': v[0], 'sat': v[1], 'unknown': v[2], 'time_s': round(v[3], 2)} for k, v in by.items()},
        'ir_instructions_executed': S('steps'),
        'functions_encoded': sorted(funcs)[:200],
        'bounds': BOUNDS,
        'per_scenario': [{k: r.get(k) for k in ('name', 'ty', 'paths', 'obligations', 'validated', 'wall')} for r in res],
    }
    ev = {'property': a.prop, 'tier': 'quick' if quick else 'thorough', 'seed': seed, 'level': 'model_checking', 'coverage': cov, 'wall_s': round(time.time() - t0, 2)}
    with open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d scenarios, %d paths, %d obligations (%d by normal form, %d smt, %d with margin), %d undecided, %d witnesses validated, %d queries, %.1fs solver, %.1fs wall'
          % (a.prop, len(res), S('paths'), S('obligations'), S('discharged_nf'), S('discharged_smt'), S('discharged_margin'), len(und), S('validated'), queries, stime, time.time() - t0))
    if a.v:
        for r in res:
            print('  ', {k: r.get(k) for k in ('name', 'ty', 'paths', 'pruned', 'obligations', 'discharged_nf', 'discharged_smt', 'discharged_margin', 'validated', 'witness', 'wall', 'crash')})
    seen = {}
    for u in und:
        k = (u['scenario'], u['check'], u['why'][:60])
        seen[k] = seen.get(k, 0) + 1
    for (sc, ck, why), n in list(seen.items())[:30]:
        print('UNDECIDED property=%s scenario=%s check=%s x%d: %s' % (a.prop, sc, ck, n, why))
    for c in crash:
        print('INTERNAL property=%s scenario=%s: %s' % (a.prop, c['name'], c['crash']))
        if a.v:
            print(c.get('tb', ''))
    if vio:
        os.makedirs(os.path.join(HERE, 'evidence', 'replays'), exist_ok=True)
        known = known_findings(a.prop)
        fresh = None
        for v in vio:
            k = '%s/%s' % (v['scenario'], ','.join(v['failed']))
            if k in known:
                print('KNOWN-FINDING: property=%s %s' % (a.prop, known[k]))
            elif fresh is None:
                fresh = v
        if fresh is not None:
            v = fresh
            p = os.path.join(HERE, 'evidence', 'replays', '%s-%s.json' % (a.prop, hashlib.sha1(json.dumps(v, sort_keys=True, default=str).encode()).hexdigest()[:10]))
            v['property'] = a.prop
            v['tol'] = v.get('tol', 1e-9)
            with open(p, 'w') as f:
                json.dump(v, f, indent=1, default=str)
            print('counterexample in %s (%s, %s build), failed: %s' % (v['scenario'], v['ty'], v['build'], ', '.join(v['failed'])))
            for tr in v['trace'][:4]:
                print('  ', json.dumps(tr, default=str))
            print('VIOLATION property=%s replay=%s' % (a.prop, p))
            return 1
    if crash and len(crash) == len(res):
        return 2
    return 0


BOUNDS = ('inputs are real numbers in the box each scenario states (usually [-8,8] per coordinate); element operations are read as real arithmetic and a '
          'difference only counts when it exceeds a rounding margin, except on runs whose float operations are all exact; loops are executed as compiled '
          '(step limit 400000 instructions); NaN/overflow/denormal behaviour is outside except in the bit-precise (fp) scenarios')


def known_findings(prop):
    out = {}
    try:
        for l in open(os.path.join(HERE, 'known_findings.txt')):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop):
                k, what = l.split(' ', 2)[2].split(' :: ', 1)
                out[k] = what
    except OSError:
        pass
    return out


if __name__ == '__main__':
    sys.exit(main())
