"""C18-C21: bounding boxes."""
import math
from engine.registry import task
from engine.world import *
from engine.fp import conj as conj_fp, disj as disj_fp

INF = math.inf


def is_min(w, name, x, xs):
    w.check(name, conj(*[x <= y for y in xs]) & disj(*[x.eq(y) for y in xs]))


def is_max(w, name, x, xs):
    w.check(name, conj(*[x >= y for y in xs]) & disj(*[x.eq(y) for y in xs]))


# ---- C18 ----
@task('C18', sc=(20, -10, 40, -30))
def bound_point(w):
    p = w.vec('p', 3)
    r = w.call('shape_bound', p, 7, 0)
    w.check('axis aligned', fbool(r.flag(0)))
    w.check('point', same(r[1:4], p) & same(r[4:7], p))


@task('C18', sc=(20, -10, 40, -30))
def bound_ray(w):
    o, d = w.vec('o', 3), w.vec('d', 3)
    w.assume(dot(d, d) >= Fraction(1, 100))
    r = w.call('shape_bound', o + d, 7, 1)
    w.check('axis aligned', fbool(r.flag(0)))
    for i in range(3):
        lo, hi = r[1 + i], r[4 + i]
        if w.branch(d[i] > 0):
            w.check('positive direction', lo.eq(o[i]) & hi.eq(INF))
        elif w.branch(d[i] < 0):
            w.check('negative direction', lo.eq(-INF) & hi.eq(o[i]))
        else:
            w.check('degenerate axis', lo.eq(o[i]) & hi.eq(o[i]))


@task('C18', sc=(20, -10, 40, -30), cfgs=[('%d%d%d' % (a + 1, b + 1, c + 1), {'s': (a, b, c)}) for a in (-1, 0, 1) for b in (-1, 0, 1) for c in (-1, 0, 1) if a or b or c])
def bound_ray_signs(w, s):
    """each sign pattern on its own, with the zero components exactly zero"""
    o = w.vec('o', 3)
    d = [w.var('d%d' % i, Fraction(1, 2), 8) * s[i] if s[i] else w.c(0) for i in range(3)]
    r = w.call('shape_bound', o + d, 7, 1)
    for i in range(3):
        w.check('lower', r[1 + i].eq(-INF if s[i] < 0 else o[i]))
        w.check('upper', r[4 + i].eq(INF if s[i] > 0 else o[i]))


@task('C18', sc=(20, -10, 40, -30))
def bound_sphere(w):
    o, r_ = w.vec('o', 3), w.var('r', 0, 8)
    r = w.call('shape_bound', o + [r_], 7, 2)
    w.check('axis aligned', fbool(r.flag(0)))
    w.check('sphere', same(r[1:4], [x - r_ for x in o]) & same(r[4:7], [x + r_ for x in o]))


@task('C18', sc=(20, -10, 40, -30))
def bound_plane(w):
    o, n = w.vec('o', 3), w.vec('n', 3)
    w.assume(dot(n, n) >= Fraction(1, 100))
    r = w.call('shape_bound', o + n, 7, 3)
    w.check('axis aligned', fbool(r.flag(0)))
    w.check('all of space', conj(*[x.eq(-INF) for x in r[1:4]]) & conj(*[x.eq(INF) for x in r[4:7]]))


@task('C18')
def bound_default(w):
    r = w.call('default_bound', [], 6, 0)
    w.check('all of space', conj(*[x.eq(-INF) for x in r[0:3]]) & conj(*[x.eq(INF) for x in r[3:6]]))


@task('C18', sc=(20, -10, 40, -30))
def bound_box(w):
    o, h = w.vec('o', 3), w.var('h', 0, 8)
    r = w.call('shape_bound', o + [h], 7, 4)
    w.check('axis aligned', fbool(r.flag(0)))
    w.check('box', same(r[1:4], [x - h for x in o]) & same(r[4:7], [x + h for x in o]))


@task('C18', sc=(20, -10, 40, -30))
def bound_line(w):
    a, b = w.vec('a', 3), w.vec('b', 3)
    r = w.call('shape_bound', a + b, 7, 5)
    w.check('axis aligned', fbool(r.flag(0)))
    for i in range(3):
        is_min(w, 'line lower', r[1 + i], [a[i], b[i]])
        is_max(w, 'line upper', r[4 + i], [a[i], b[i]])


def prism_base(w, lo=-8, hi=8):
    """a triangle a, a+e, a+f with its (not normalised) normal as composite symbols"""
    a, e, f = w.vec('a', 3, lo, hi), w.vec('e', 3, lo, hi), w.vec('f', 3, lo, hi)
    n = [w.define('n%d' % i, x, e[(i + 1) % 3], f[(i + 2) % 3]) for i, x in enumerate(cross(e, f))]
    return a, e, f, n


@task('C18', sc=(20, -10, 40, -30), cfgs=[('%s%s' % ('xyz'[i], '-+'[s]), {'i': i, 's': s}) for i in range(3) for s in (0, 1)])
def bound_prism(w, i, s):
    a, e, f, n = prism_base(w)
    h = w.var('h', Fraction(1, 4), 8)
    w.assume(dot(n, n) >= Fraction(1, 4))
    r = w.call('shape_bound', a + add3(a, e) + add3(a, f) + [h], 7, 6)
    w.check('axis aligned', fbool(r.flag(0)))
    m = dot(n, n).sqrt()
    base = [a[i], a[i] + e[i], a[i] + f[i]]
    pts = base + [x + h * n[i] / m for x in base]
    if s:
        is_max(w, 'prism upper', r[4 + i], pts)
    else:
        is_min(w, 'prism lower', r[1 + i], pts)


# ---- C19 ----
@task('C19', kind='fp')
def aabb_intersect(w):
    A, B = w.vec('a', 6), w.vec('b', 6)
    for x in A + B:
        w.assume(~x.isnan())
    r = w.call('aabb_intersect', A + B, 1, 0)
    s = w.call('aabb_intersect', A + B, 1, 1)
    ok = conj_fp([(A[i] <= B[3 + i]) & (B[i] <= A[3 + i]) for i in range(3)])
    w.check('overlap on every axis', r.flag(0).iff(ok))
    w.check('symmetric', s.flag(0).iff(ok))


@task('C19', kind='fp')
def aabb_touch(w):
    """boxes sharing one boundary coordinate on an axis (every axis and side)"""
    for i in range(3):
        A, B = w.vec('a%d_' % i, 6), w.vec('b%d_' % i, 6)
        for j in range(3):
            w.assume((A[j] <= A[3 + j]) & (B[j] <= B[3 + j]))
            if j != i:
                w.assume((A[j] <= B[3 + j]) & (B[j] <= A[3 + j]))
        w.assume(A[3 + i].eq(B[i]))
        r = w.call('aabb_intersect', A + B, 1, 0)
        w.check('touching intersects', r.flag(0))


@task('C19', kind='fp')
def bound_data(w):
    A = w.vec('a', 6)
    r = w.call('aabb_data', A, 32, 0)
    w.check('lower then upper', conj_fp([x.same(y) for x, y in zip(r[0:6], A)]))
    w.check('zeros after', conj_fp([x.eq(0.0) for x in r[6:32]]))


# ---- C20 ----
def union_task(k, idx):
    def f(w):
        R = w.vec('r', 6)
        Bs = [w.vec('b%d_' % j, 6) for j in range(4)]
        for x in R + [y for b in Bs for y in b]:
            w.assume(~x.isnan())
        r = w.call('aabb_union', R + [y for b in Bs for y in b], 6, k)
        for i in range(3):
            if not idx:
                w.check('empty union', r[i].eq(INF) & r[3 + i].eq(-INF))
                continue
            lo, hi = [Bs[j][i] for j in idx], [Bs[j][3 + i] for j in idx]
            w.check('smallest lower', conj_fp([r[i] <= x for x in lo]) & disj_fp([r[i].eq(x) for x in lo]))
            w.check('largest upper', conj_fp([r[3 + i] >= x for x in hi]) & disj_fp([r[3 + i].eq(x) for x in hi]))
    return f


for k_, idx_ in ((0, []), (1, [0]), (2, [0, 1]), (3, [0, 1, 2]), (10, [0, 1]), (11, [0, 1, 2]), (4, [0, 1, 2, 3])):
    task('C20', 'union_%d%s' % (len(idx_), 'rev' if k_ > 8 else ''), kind='fp', tier='quick')(union_task(k_, idx_))


def union_axis(w, k, idx, i):
    """one axis symbolic, the others at fixed values"""
    R = [w.c(float(j)) for j in range(6)]
    Bs = [[w.c(float((7 * a + 3 * b) % 11)) for b in range(6)] for a in range(4)]
    for j, b in enumerate(Bs):
        for x in (i, i + 3):
            b[x] = w.any('b%d_%d' % (j, x))
            w.assume(~b[x].isnan())
    r = w.call('aabb_union', R + [y for b in Bs for y in b], 6, k)
    for a in range(3):
        lo, hi = [Bs[j][a] for j in idx], [Bs[j][3 + a] for j in idx]
        w.check('smallest lower', conj_fp([r[a] <= x for x in lo]) & disj_fp([r[a].eq(x) for x in lo]))
        w.check('largest upper', conj_fp([r[3 + a] >= x for x in hi]) & disj_fp([r[3 + a].eq(x) for x in hi]))


task('C20', 'union_axis', kind='fp', cfgs=[('%d%s%s' % (len(ix), 'rev' if kk > 8 else '', 'xyz'[i]), {'k': kk, 'idx': ix, 'i': i})
                                          for kk, ix in ((1, [0]), (2, [0, 1]), (3, [0, 1, 2]), (10, [0, 1]), (11, [0, 1, 2]), (4, [0, 1, 2, 3])) for i in range(3)])(union_axis)


def union_many(w, n, pos, i):
    """longer lists: two of the boxes are symbolic on one axis"""
    R = [w.c(float(j)) for j in range(6)]
    Bs = [[w.c(float((7 * a + 3 * b) % 11 - 5)) for b in range(6)] for a in range(n)]
    for j in pos:
        for x in (i, i + 3):
            Bs[j][x] = w.any('b%d_%d' % (j, x))
            w.assume(~Bs[j][x].isnan())
    r = w.call('aabb_union_many', R + [y for b in Bs for y in b], 6, n)
    for a in range(3):
        lo, hi = [b[a] for b in Bs], [b[3 + a] for b in Bs]
        w.check('smallest lower', conj_fp([r[a] <= x for x in lo]) & disj_fp([r[a].eq(x) for x in lo]))
        w.check('largest upper', conj_fp([r[3 + a] >= x for x in hi]) & disj_fp([r[3 + a].eq(x) for x in hi]))


task('C20', 'union_many', kind='fp', cfgs=[('%d_%d_%d%s' % (n, p[0], p[1], 'xyz'[i]), {'n': n, 'pos': p, 'i': i})
                                          for n, p in ((5, (0, 4)), (8, (3, 7)), (9, (0, 8)), (16, (7, 15)), (17, (15, 16)), (33, (31, 32))) for i in range(3)])(union_many)


# ---- C21 ----
@task('C21', sc=(20, -10, 40, -30))
def centroid(w):
    A = w.vec('a', 6)
    r = w.call('aabb_centroid', A, 3, 0)
    w.check('midpoint', same(r[0:3], [(A[i] + A[3 + i]) * Fraction(1, 2) for i in range(3)]))


@task('C21', sc=(20, -10, 40, -30))
def longest_axis(w):
    A = w.vec('a', 3)
    A = A + [x + w.var('e%d' % i, 0, 16) for i, x in enumerate(A)]
    r = w.call('aabb_longest', A, 2, 0)
    e = [A[3 + i] - A[i] for i in range(3)]
    k = r.num(0)
    w.check('an axis', fbool(k in (0, 1, 2)))
    if k not in (0, 1, 2):
        return
    w.check('is the largest', conj(*[e[k] >= x for x in e]))
    w.check('reports its extent', r[1].eq(e[k]))
