"""C22, C36, C38: vicinity, support points, shape data."""
from engine.registry import task
from engine.world import *
from engine.fp import conj as conj_fp, disj as disj_fp

SHAPES = ['point', 'ray', 'sphere', 'plane', 'box', 'line', 'prism']
SH = [(s, {'k': i}) for i, s in enumerate(SHAPES)]
EPS = Fraction(1e-6)     # the double nearest to 1e-6


# ---- C22 ----
@task('C22', sc=(20,), cfgs=SH)
def vicinity(w, k):
    a, b, e = w.var('a'), w.var('b'), w.var('e')
    r = w.call('vicinity', [a, b, e], 2, k)
    ok = absle(a - b, w.c(EPS / w.sc))
    w.check('default tolerance 1e-6', ok if r.flag(0) else ~ok)
    ok = ((e >= 0) & absle(a - b, e)) | ((e < 0) & absle(a - b, -e))
    w.check('set_vicinity stores the absolute value', ok if r.flag(1) else ~ok)


@task('C22', sc=(20, -30), cfgs=SH)
def vicinity_twice(w, k):
    """the tolerance in force is the one set last, whatever was set before"""
    a, b, d, e = w.var('a'), w.var('b'), w.var('d'), w.var('e')
    r = w.call('vicinity_twice', [a, b, d, e], 1, k)
    ok = ((e >= 0) & absle(a - b, e)) | ((e < 0) & absle(a - b, -e))
    w.check('the last tolerance set is the one in force', ok if r.flag(0) else ~ok)


@task('C22', cfgs=SH)
def vicinity_small(w, k):
    """differences of the order of the default tolerance (b = 0, so that the difference is exact)"""
    a, e = w.var('a', Fraction(-1, 10 ** 5), Fraction(1, 10 ** 5)), w.var('e', Fraction(-1, 10 ** 5), Fraction(1, 10 ** 5))
    z = w.c(0)
    for x, y in ((a, z), (z, a)):
        r = w.call('vicinity', [x, y, e], 2, k)
        ok = absle(a, w.c(EPS))
        w.check('default tolerance 1e-6', ok if r.flag(0) else ~ok, mu=Fraction(1, 10 ** 12), tol=1e-13)
        ok = ((e >= 0) & absle(a, e)) | ((e < 0) & absle(a, -e))
        w.check('set tolerance', ok if r.flag(1) else ~ok, mu=Fraction(1, 10 ** 12), tol=1e-13)


@task('C22', kind='fp', cfgs=SH)
def vicinity_nan(w, k):
    a, b, e = w.any('a'), w.any('b'), w.any('e')
    w.assume(~e.isnan())
    r = w.call('vicinity', [a, b, e], 2, k)
    nan = a.isnan() | b.isnan()
    w.check('NaN is never within the default tolerance', ~(nan & r.flag(0)))
    w.check('NaN is never within a set tolerance', ~(nan & r.flag(1)))


@task('C22', kind='fp', cfgs=SH)
def vicinity_self(w, k):
    a, e = w.any('a'), w.any('e')
    w.assume(~e.isnan() & a.finite())
    r = w.call('vicinity', [a, a, e], 2, k)
    w.check('within the default tolerance of itself', r.flag(0))
    w.check('within any set tolerance of itself', r.flag(1))


# ---- shapes from their numbers -------------------------------------------------------------------
def vmax(w, name, s, v, pts):
    w.check(name, conj(*[dot(s, v) >= dot(p, v) for p in pts]))


def direction(w, lo=-8, hi=8):
    v = w.vec('v', 3, lo, hi)
    w.assume(dot(v, v) >= Fraction(1, 10 ** 6))
    return v


# ---- C36 ----
@task('C36', sc=(20, -10, 40, -30))
def support_sphere(w):
    v, c, rad = direction(w), w.vec('c', 3), w.var('r', 0, 8)
    r = w.call('support', v + c + [rad], 4, 2)
    w.check('some', fbool(r.flag(0)))
    if not r.flag(0):
        return
    s = sub3(r[1:4], c)
    w.check('member of the sphere', dot(s, s) <= rad * rad)
    w.check('maximal', (dot(s, v) * dot(s, v)).eq(rad * rad * dot(v, v)) & (dot(s, v) >= 0))


@task('C36', sc=(20, -10, 40, -30), cfgs=[('%d' % i, {'sg': (1 - 2 * (i & 1), 1 - (i & 2), 1 - (i & 4) // 2)}) for i in range(8)])
def support_box(w, sg):
    """one octant of directions each, its faces included"""
    v, c, h = [w.var('v%d' % i, 0, 8) * sg[i] for i in range(3)], w.vec('c', 3), w.var('h', Fraction(1, 16), 8)
    w.assume(dot(v, v) >= Fraction(1, 10 ** 6))
    r = w.call('support', v + c + [h], 4, 4)
    w.check('some', fbool(r.flag(0)))
    if not r.flag(0):
        return
    s = sub3(r[1:4], c)
    w.check('member of the box', conj(*[absle(x, h) for x in s]))
    w.check('maximal', dot(s, v).eq(h * (v[0] * sg[0] + v[1] * sg[1] + v[2] * sg[2])))


def prism_in(w, lo=-8, hi=8, hlo=Fraction(1, 4), hhi=8):
    from props.bounds import prism_base
    a, e, f, n = prism_base(w, lo, hi)
    h = w.var('h', hlo, hhi)
    w.assume(dot(n, n) >= Fraction(1, 4))
    m = dot(n, n).sqrt()
    hv = [h * x / m for x in n]
    base = [a, add3(a, e), add3(a, f)]
    return base, hv, base[0] + base[1] + base[2] + [h], n, m


@task('C36', sc=(20, -10, 40, -30), limit=200)
def support_prism(w):
    """general base triangle; the direction is split into its dot products with the edges and the normal by the solver"""
    v = direction(w)
    base, hv, inp, n, m = prism_in(w)
    r = w.call('support', v + inp, 4, 6)
    w.check('some', fbool(r.flag(0)))
    if not r.flag(0):
        return
    s = r[1:4]
    pts = base + [add3(p, hv) for p in base]
    w.check('member of the prism', disj(*[same(s, p) for p in pts]))
    vmax(w, 'maximal', s, v, pts)


@task('C36', sc=(20, -10, 40, -30), cfgs=SH[2:5:2] + SH[6:7])
def support_zero(w, k):
    z = [w.c(0)] * 3
    if k == 6:
        inp = prism_in(w)[2]
    else:
        inp = w.vec('c', 3) + [w.var('r', Fraction(1, 16), 8)]
    r = w.call('support', z + inp, 4, k)
    w.check('none for the zero vector', fbool(not r.flag(0)))


@task('C36', sc=(20, -10, 40, -30), cfgs=[(l + '+-'[s < 0], dict(a, s=s)) for l, a in SH[2:5:2] + SH[6:7] for s in (1, -1)])
def support_axis(w, k, s):
    """directions along one axis only, of either sign"""
    x = w.var('x', Fraction(1, 1000), 8) * s
    c, q = w.vec('c', 3), w.var('r', Fraction(1, 16), 8)
    for i in range(3):
        v = [x if j == i else w.c(0) for j in range(3)]
        if k == 6:
            base = [[c[0], c[1], c[2]], [c[0] + 1, c[1], c[2]], [c[0], c[1] + 2, c[2]]]
            pts = base + [add3(p, [w.c(0), w.c(0), q]) for p in base]
            inp = base[0] + base[1] + base[2] + [q]
        else:
            inp = c + [q]
            pts = [[c[j] + (s * q if i == j else w.c(0)) for j in range(3)] for s in (1, -1)]
        r = w.call('support', v + inp, 4, k)
        w.check('some', fbool(r.flag(0)))
        if r.flag(0):
            vmax(w, 'maximal', r[1:4], v, pts)
            if k != 6:
                w.check('on the face', conj(*[absle(x - y, q) for x, y in zip(r[1:4], c)]))
            else:
                w.check('a vertex', disj(*[same(r[1:4], p) for p in pts]))


@task('C36', sc=(20, -10, 40, -30))
def support_others(w):
    p, v = w.vec('p', 3), w.vec('v', 3)
    r = w.call('support', v + p, 4, 0)
    w.check("a point's support is itself", fbool(r.flag(0)) & same(r[1:4], p))
    d = w.vec('d', 3)
    w.assume(dot(d, d) >= Fraction(1, 100))
    w.check('a ray has none', fbool(not w.call('support', v + p + d, 4, 1).flag(0)))
    w.check('a plane has none', fbool(not w.call('support', v + p + d, 4, 3).flag(0)))


# ---- C38 ----
def shape_inputs(w, k):
    """(constructor numbers, expected shape data)"""
    p = w.vec('p', 3)
    if k == 0:
        return p, p
    if k in (1, 3):
        d = w.vec('d', 3)
        w.assume(dot(d, d) >= Fraction(1, 100))
        m = dot(d, d).sqrt()
        return p + d, p + [x / m / w.sc for x in d]
    if k in (2, 4):
        q = w.var('q', Fraction(1, 16), 8)
        return p + [q], p + [q]
    if k == 5:
        b = w.vec('b', 3)
        return p + b, p + b
    base, hv, inp, n, m = prism_in(w)
    return inp, inp[0:9] + hv


@task('C38', sc=(20, -10, 40, -30), cfgs=SH)
def shape_data(w, k):
    inp, exp = shape_inputs(w, k)
    r = w.call('shape_data', inp, 2 + len(exp), k)
    w.check('type', fbool(r.num(0) == k))
    w.check('number of entries', fbool(r.num(1) == len(exp)))
    w.check('data in order', same(r[2:2 + len(exp)], exp))


@task('C38', sc=(20, -10, 40, -30), cfgs=[SH[1], SH[3]])
def unit_direction(w, k):
    inp, exp = shape_inputs(w, k)
    r = w.call('shape_data', inp, 8, k, deg=0)
    d = r[5:8]
    w.check('unit', dot(d, d).eq(w.c(1)))
    w.check('same direction', same(cross(d, inp[3:6]), [w.c(0)] * 3) & (dot(d, inp[3:6]) > 0))


@task('C38', sc=(20, -10, 40, -30))
def prism_second_base(w):
    base, hv, inp, n, m = prism_in(w)
    r = w.call('prism_fields', inp, 21, 0)
    w.check('base', same(r[0:9], inp[0:9]))
    w.check('second base', same(r[9:18], [x for p in base for x in add3(p, hv)]))
    w.check('height vector', same(r[18:21], hv))
    h = r[18:21]
    w.check('orthogonal to the base', dot(h, sub3(base[1], base[0])).eq(w.c(0)) & dot(h, sub3(base[2], base[0])).eq(w.c(0)))
    w.check('length is the height', dot(h, h).eq(inp[9] * inp[9]))
    w.check('right-handed', dot(h, n) >= 0)


@task('C38', cfgs=SH)
def own_bound(w, k):
    inp = [[1, 2, 3], [1, 2, 3, 0, 0, 1], [1, 2, 3, 4], [1, 2, 3, 0, 0, 1], [1, 2, 3, 4], [1, 2, 3, 4, 5, 6], [0, 0, 0, 1, 0, 0, 0, 1, 0, 2]][k]
    r = w.call('shape_own_bound', [w.c(x) for x in inp], 1, k)
    w.check('get_bound is the own bound', fbool(r.flag(0)))
