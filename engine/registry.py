"""Tasks: one scenario explored with one configuration, for one property."""

from fractions import Fraction

TASKS = {}      # property id -> [task]


class Task:
    def __init__(self, prop, name, fn, ty, opts, tier, kind):
        self.prop, self.name, self.fn, self.ty, self.opts, self.tier, self.kind = prop, name, fn, ty, opts, tier, kind


def task(prop, name=None, ty=('f64',), tier='quick', kind='real', cfgs=None, sc=(), far=(), **opts):
    """register a scenario; cfgs: list of (label, kwargs) giving one task each; sc: exponents k of further copies run in units of 2^k;
    far: exponents k of further copies with every position moved about 2^k away from the coordinate origin"""
    if isinstance(ty, str):
        ty = (ty,)

    def deco(fn):
        for t in ty:
            for lab, kw, e, g in [(l, kw, e, g) for l, kw in (cfgs or [('', {})]) for e, g in [(0, 0)] + [(e, 0) for e in sc] + [(0, g) for g in far]]:
                n = (name or fn.__name__) + (':' + lab if lab else '') + ('' if t == 'f64' else ':' + t) + ('@2^%d' % e if e else '') + ('+2^%d' % g if g else '')

                def run(w, kw=kw, e=e, g=g):
                    w.far = [x * Fraction(2) ** g for x in (1, Fraction(-3, 4), Fraction(5, 8))] if g else None
                    if e:
                        w.sc = Fraction(2) ** e
                    return fn(w, **kw)
                TASKS.setdefault(prop, []).append(Task(prop, n, run, t, dict(opts), tier, kind))
        return fn
    return deco
