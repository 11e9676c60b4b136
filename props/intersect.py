"""C23-C35, C37: intersection queries."""
from engine.registry import task
from engine.world import *
from engine.fp import conj as conj_fp, disj as disj_fp

EPS = Fraction(1e-6)
ORD = [('ab', {'k': 0}), ('ba', {'k': 1})]


def answer(w, r, hit, at=None):
    """hit flag, location present exactly on a hit"""
    f = r.flag(0)
    w.check('hit or miss', hit if f else ~hit)
    g = r.flag(1)
    w.check('location exactly on a hit', fbool(f == g))
    if f and g and at is not None:
        w.check('location', same(r[2:5], at))
    return f and g


# ---- C23 ----
@task('C23', far=(30,), sc=(20,), cfgs=ORD)
def point_point(w, k):
    a, b = w.vec('a', 3), w.vec('b', 3)
    r = w.call('point_point', a + b, 5, k)
    answer(w, r, conj(*[absle(x - y, w.c(EPS / w.sc)) for x, y in zip(a, b)]), b if k else a)


@task('C23', far=(30,), sc=(20,))
def point_point_tol(w):
    a, b, e = w.vec('a', 3), w.vec('b', 3), w.var('e')
    r = w.call('point_point_tol', a + b + [e], 5, 0)
    ab = w.c(0) - e
    hit = disj((e >= 0) & conj(*[absle(x - y, e) for x, y in zip(a, b)]), (e <= 0) & conj(*[absle(x - y, ab) for x, y in zip(a, b)]))
    answer(w, r, hit, a)


@task('C23', cfgs=[('xyz'[i], {'i': i}) for i in range(3)])
def point_point_near(w, i):
    """offsets of the order of the default tolerance on one axis"""
    d, c = w.var('d', Fraction(-1, 10 ** 5), Fraction(1, 10 ** 5)), w.vec('c', 3)
    z = w.c(0)
    for x, y in ((d, z), (z, d)):
        a, b = list(c), list(c)
        a[i], b[i] = x, y
        r = w.call('point_point', a + b, 5, 0)
        w.check('default tolerance', absle(d, w.c(EPS / w.sc)) if r.flag(0) else ~absle(d, w.c(EPS / w.sc)), mu=Fraction(1, 10 ** 12), tol=1e-13)


# ---- C28 ----
@task('C28', far=(30,), sc=(20, -10, 40, -30))
def sphere_sphere(w):
    a, b = w.vec('a', 3), w.vec('b', 3)
    p, q = w.var('p', 0, 8), w.var('q', 0, 8)
    w.assume(p + q >= Fraction(1, 100))
    r = w.call('sphere_sphere', a + [p] + b + [q], 5, 0)
    d = sub3(b, a)
    if answer(w, r, dot(d, d) <= (p + q) * (p + q)):
        s = sub3(r[2:5], a)
        w.check('fraction r1/(r1+r2) between the centres', same(mul3(p + q, s), mul3(p, d)))


@task('C28', far=(30,), sc=(20, -10, 40, -30))
def sphere_sphere_inside(w):
    """the reported point is a point of both spheres (offset b = a + g e, so that the quotient disappears)"""
    a, e = w.vec('a', 3), w.vec('e', 3, -2, 2)
    p, q = w.var('p', Fraction(1, 16), 4), w.var('q', Fraction(1, 16), 4)
    b = add3(a, mul3(p + q, e))
    r = w.call('sphere_sphere', a + [p] + b + [q], 5, 0)
    if r.flag(0) and r.flag(1):
        x, y = sub3(r[2:5], a), sub3(r[2:5], b)
        w.check('location', same(x, mul3(p, e)))
        w.assume(dot(e, e) <= 1)
        w.check('in the first', dot(x, x) <= p * p)
        w.check('in the second', dot(y, y) <= q * q)
    elif not r.flag(0):
        w.check('miss', dot(e, e) > 1)


@task('C28', sc=(20, -10, 40, -30), cfgs=[('%s%s' % ('xyz'[i], '+-'[s < 0]), {'i': i, 's': s}) for i in range(3) for s in (1, -1)])
def sphere_touch(w, i, s):
    """centres exactly the sum of the radii apart, along one axis"""
    w.need_exact()
    a = w.vec('a', 3)
    p, q = w.var('p', 0, 8), w.var('q', 0, 8)
    w.assume(p + q >= 1)
    b = list(a)
    b[i] = a[i] + s * (p + q)
    r = w.call('sphere_sphere', a + [p] + b + [q], 5, 0)
    w.check('touching intersects', fbool(r.flag(0)))


# ---- C29 ----
@task('C29', far=(30,), sc=(20, -10, 40, -30), cfgs=ORD)
def sphere_point(w, k):
    a, b = w.vec('a', 3), w.vec('b', 3)
    p = w.var('p', 0, 8)
    r = w.call('sphere_point', a + [p] + b, 5, k)
    d = sub3(b, a)
    answer(w, r, dot(d, d) <= p * p, b)


@task('C29', sc=(20, -10, 40, -30), cfgs=[('%s%s%s' % ('xyz'[i], '+-'[s < 0], l), {'i': i, 's': s, 'k': k['k']}) for i in range(3) for s in (1, -1) for l, k in ORD])
def sphere_point_touch(w, i, s, k):
    w.need_exact()
    a = w.vec('a', 3)
    p = w.var('p', 0, 8)
    b = list(a)
    b[i] = a[i] + s * p
    r = w.call('sphere_point', a + [p] + b, 5, k)
    w.check('a point on the surface intersects', fbool(r.flag(0)))


# ---- C30 ----
@task('C30', sc=(20, -10, 40, -30), cfgs=ORD)
def sphere_plane(w, k):
    c, p, n = w.vec('c', 3), w.vec('p', 3), w.unit('n')
    rad = w.var('r', 0, 8)
    r = w.call('sphere_plane', c + [rad] + p + n, 5, k)
    t = dot(n, sub3(c, p))
    if answer(w, r, absle(t, rad)):
        w.check('projection of the centre', same(r[2:5], sub3(c, mul3(t, n))))
        w.check('on the plane', dot(n, sub3(r[2:5], p)).eq(w.c(0)))


@task('C30', sc=(20, -10, 40, -30), cfgs=ORD)
def sphere_plane_general(w, k):
    """normals of any length"""
    c, p, n = w.vec('c', 3), w.vec('p', 3), w.vec('n', 3)
    rad = w.var('r', 0, 8)
    nn = dot(n, n)
    w.assume(nn >= Fraction(1, 100))
    r = w.call('sphere_plane', c + [rad] + p + n, 5, k)
    t = dot(n, sub3(c, p))
    if answer(w, r, absle(t, rad * nn.sqrt())):
        w.check('projection of the centre', same(mul3(nn, sub3(c, r[2:5])), mul3(t, n)))


@task('C30', sc=(20, -10, 40, -30), cfgs=[('%s%s' % ('xyz'[i], '+-'[s < 0]), {'i': i, 's': s}) for i in range(3) for s in (1, -1)])
def sphere_plane_touch(w, i, s):
    """plane normal to an axis at exactly the radius"""
    w.need_exact()
    c, p, rad = w.vec('c', 3), w.vec('p', 3), w.var('r', 0, 8)
    for g in (1, -1):
        n = [w.c(s if j == i else 0) for j in range(3)]
        q = list(p)
        q[i] = c[i] + g * rad
        r = w.call('sphere_plane', c + [rad] + q + n, 5, 0)
        w.check('touching intersects', fbool(r.flag(0)))


# ---- C31 ----
@task('C31', sc=(20,), cfgs=ORD)
def plane_point(w, k):
    p, n, x = w.vec('p', 3), w.vec('n', 3), w.vec('x', 3)
    nn = dot(n, n)
    w.assume(nn >= Fraction(1, 100))
    r = w.call('plane_point', p + n + x, 5, k)
    answer(w, r, absle(dot(n, sub3(x, p)), EPS / w.sc * nn.sqrt()), x)


@task('C31', sc=(20,), cfgs=ORD)
def plane_point_tol(w, k):
    p, n, x, e = w.vec('p', 3), w.unit('n'), w.vec('x', 3), w.var('e')
    r = w.call('plane_point_tol', p + n + x + [e], 5, k)
    t = dot(n, sub3(x, p))
    answer(w, r, ((e >= 0) & absle(t, e)) | ((e <= 0) & absle(t, -e)), x)


@task('C31', cfgs=[('%s%s%s' % ('xyz'[i], '+-'[s < 0], l), {'i': i, 's': s, 'k': k['k']}) for i in range(3) for s in (1, -1) for l, k in ORD])
def plane_point_near(w, i, s, k):
    """distances of the order of the default tolerance"""
    d, p, x = w.var('d', Fraction(-1, 10 ** 5), Fraction(1, 10 ** 5)), w.vec('p', 3), w.vec('x', 3)
    n = [w.c(s if j == i else 0) for j in range(3)]
    p[i], x[i] = w.c(0), d
    r = w.call('plane_point', p + n + x, 5, k)
    w.check('default tolerance', absle(d, w.c(EPS / w.sc)) if r.flag(0) else ~absle(d, w.c(EPS / w.sc)), mu=Fraction(1, 10 ** 12), tol=1e-13)


# ---- C32 ----
@task('C32', far=(30,), sc=(20, -10, 40, -30), cfgs=ORD)
def box_point(w, k):
    c, h, p = w.vec('c', 3), w.var('h', 0, 8), w.vec('p', 3)
    r = w.call('box_point', c + [h] + p, 5, k)
    answer(w, r, conj(*[absle(x - y, h) for x, y in zip(p, c)]), p)


@task('C32', kind='fp', cfgs=ORD)
def box_point_exact(w, k):
    """bit-exact: containment in the rounded faces c-h, c+h"""
    c, p, h = w.vec('c', 3), w.vec('p', 3), w.any('h')
    for x in c + p + [h]:
        w.assume(~x.isnan())
    w.assume(h.finite() & (h >= 0.0))
    for x in c:
        w.assume(x.finite())
    r = w.call('box_point', c + [h] + p, 5, k)
    w.check('location exactly on a hit', r.flag(0).iff(r.flag(1)))


@task('C32', sc=(20, -10, 40, -30), cfgs=[('%s%s%s' % ('xyz'[i], '+-'[s < 0], l), {'i': i, 's': s, 'k': k['k']}) for i in range(3) for s in (1, -1) for l, k in ORD])
def box_point_face(w, i, s, k):
    w.need_exact()
    c, h, p = w.vec('c', 3), w.var('h', 0, 8), w.vec('p', 3)
    p[i] = c[i] + s * h
    for j in range(3):
        if j != i:
            w.assume(absle(p[j] - c[j], h))
    r = w.call('box_point', c + [h] + p, 5, k)
    w.check('a point on a face intersects', fbool(r.flag(0)))


# ---- C24 ----
def patt(all_=True):
    return [(''.join('-0+'[x + 1] for x in (a, b, c)), {'sg': (a, b, c)}) for a in (-1, 0, 1) for b in (-1, 0, 1) for c in (-1, 0, 1) if a or b or c]


def signed(w, name, sg, lo=Fraction(1, 2), hi=8):
    return [w.var('%s%d' % (name, i), lo, hi) * sg[i] if sg[i] else w.c(0) for i in range(3)]


@task('C24', far=(20,), sc=(20,), cfgs=[(l + m, dict(a, k=b['k'])) for l, a in patt() for m, b in ORD])
def ray_point_on(w, sg, k):
    """a point of the half-line, for each sign pattern of the direction"""
    o, d, t = w.vec('o', 3), signed(w, 'd', sg), w.var('t', 0, 8)
    p = add3(o, mul3(t, d))
    r = w.call('ray_point', o + d + p, 5, k)
    answer(w, r, fbool(True), p)


def thin_patt():
    """one component of the direction between 10^-6 and 10^-2, at least one of the order of 1"""
    out = []
    for i in range(3):
        for s in (1, -1):
            for o in ((0, 1), (-1, 0), (1, -1)):
                sg = list(o)
                sg.insert(i, s)
                out.append((''.join('-0+'[x + 1] for x in sg) + '_' + 'xyz'[i], {'sg': tuple(sg), 'i': i}))
    return out


THIN = thin_patt()


def thin(w, name, sg, i):
    d = signed(w, name, sg)
    d[i] = w.var(name + 't', Fraction(1, 10 ** 6), Fraction(1, 100)) * sg[i]
    return d


@task('C24', sc=(20,), cfgs=THIN)
def ray_point_thin(w, sg, i):
    """directions almost, but not quite, perpendicular to an axis"""
    o, d, t = w.vec('o', 3), thin(w, 'd', sg, i), w.var('t', 0, 8)
    p = add3(o, mul3(t, d))
    r = w.call('ray_point', o + d + p, 5, 0)
    answer(w, r, fbool(True), p)


@task('C24', sc=(20,), cfgs=ORD)
def ray_point_origin(w, k):
    o, d = w.vec('o', 3), w.vec('d', 3)
    w.assume(dot(d, d) >= Fraction(1, 100))
    r = w.call('ray_point', o + d + o, 5, k)
    answer(w, r, fbool(True), o)


@task('C24', far=(20,), sc=(20,), cfgs=ORD)
def ray_point_sound(w, k):
    """a hit is close to the line and not behind the origin; the location is close to the point"""
    o, d, p = w.vec('o', 3), w.unit('d'), w.vec('p', 3)
    q = w.vec('q', 3)
    t = w.define('t', dot(d, q), d[2], q[2])
    p = add3(o, q)
    r = w.call('ray_point', o + d + p, 5, k)
    if r.flag(0):
        w.check('close to the line', dot(q, q) - t * t <= Fraction(1, 10 ** 6))
        w.check('not behind', t >= 0)
        if r.flag(1):
            e = sub3(r[2:5], p)
            w.check('location close to the point', dot(e, e) <= Fraction(1, 10 ** 6))
            w.check('location on the ray', same(sub3(r[2:5], o), mul3(t, d)))
    w.check('location exactly on a hit', fbool(r.flag(0) == r.flag(1)))


@task('C24', far=(20,), sc=(20,), cfgs=[(l, a) for l, a in patt() if 0 in a['sg']])
def ray_point_off_axis(w, sg):
    """directions with zero components: points off the line along a zero axis, and points behind"""
    o, d, t, g = w.vec('o', 3), signed(w, 'd', sg), w.var('t', 0, 8), w.var('g', Fraction(1, 100), 8)
    for i in range(3):
        if sg[i] == 0:
            for s in (1, -1):
                p = add3(o, mul3(t, d))
                p[i] = p[i] + s * g
                r = w.call('ray_point', o + d + p, 5, 0)
                w.check('off the line', fbool(not r.flag(0) and not r.flag(1)))
    r = w.call('ray_point', o + d + sub3(o, mul3(g, d)), 5, 0)
    w.check('behind', fbool(not r.flag(0) and not r.flag(1)))


# ---- C26 ----
@task('C26', far=(30,), sc=(20,), cfgs=ORD)
def ray_sphere_sound(w, k):
    """a hit's location is on the ray, on the surface, and the first such point"""
    o, d, c, rad = w.vec('o', 3), w.unit('d'), w.vec('c', 3), w.var('r', 0, 8)
    q = w.vec('q', 3)
    c = add3(o, q)
    b = w.define('b', dot(d, q), d[2], q[2])
    r = w.call('ray_sphere', o + d + c + [rad], 5, k)
    f, g = r.flag(0), r.flag(1)
    w.check('location exactly on a hit', fbool(f == g))
    if f and g:
        P = sub3(r[2:5], o)
        s = dot(P, d)
        w.check('not behind the origin', s >= 0)
        w.check('on the line', same(P, mul3(s, d)))
        e = sub3(P, q)
        w.check('on the surface', dot(e, e).eq(rad * rad))
        cc = dot(q, q) - rad * rad
        w.check('first surface point', ((cc < 0) & (s >= b)) | ((cc > 0) & (s <= b)) | (cc.eq(0) & s.eq(0)))


@task('C26', far=(30,), sc=(20,), cfgs=ORD)
def ray_sphere_complete(w, k):
    """centre = point of the ray + offset no longer than the radius: must hit"""
    o, d, e, s, rad = w.vec('o', 3), w.unit('d'), w.vec('e', 3), w.var('s', 0, 8), w.var('r', 0, 8)
    ee = w.define('ee', dot(e, e), e[2], e[2], 0, None)
    de = w.define('de', dot(d, e), d[2], e[2])
    w.assume(ee <= rad * rad)
    for i in range(3):
        w.implied(absle(e[i], rad))
    w.lemma_sos('Cauchy-Schwarz', ee - de * de, cross(d, e))
    w.implied(ee - de * de >= 0)
    w.implied(absle(de, rad))
    c = [o[i] + s * d[i] + e[i] for i in range(3)]
    r = w.call('ray_sphere', o + d + c + [rad], 5, k)
    w.check('hit', fbool(r.flag(0)))


@task('C26', far=(30,), sc=(20,), cfgs=[(l, a) for l, a in patt()])
def ray_sphere_sign(w, sg):
    """unnormalised directions of each sign pattern, straight through the centre"""
    o, d, s, rad = w.vec('o', 3), signed(w, 'd', sg), w.var('s', 0, 8), w.var('r', Fraction(1, 4), 8)
    c = [o[i] + s * d[i] for i in range(3)]
    r = w.call('ray_sphere', o + d + c + [rad], 5, 0)
    if answer(w, r, fbool(True)):
        m = dot(d, d).sqrt()
        if w.branch(s * m < rad):
            t = s + rad / m
        else:
            t = s - rad / m
        w.check('first point', same(sub3(r[2:5], o), mul3(t, d)))


@task('C26', sc=(20,), cfgs=THIN)
def ray_sphere_thin(w, sg, i):
    """directions almost perpendicular to an axis, through the centre, starting outside"""
    o, d, s, rad = w.vec('o', 3), thin(w, 'd', sg, i), w.var('s', 2, 8), w.var('r', Fraction(1, 1000), Fraction(1, 2))
    r = w.call('ray_sphere', o + d + [o[j] + s * d[j] for j in range(3)] + [rad], 5, 0)
    if answer(w, r, fbool(True)):
        w.check('first point', same(sub3(r[2:5], o), mul3(s - rad / dot(d, d).sqrt(), d)))


@task('C26', sc=(20,), cfgs=[('%s%s' % ('xyz'[i], '+-'[s < 0]), {'i': i, 's': s}) for i in range(3) for s in (1, -1)])
def ray_sphere_tangent(w, i, s):
    """axis-parallel rays touching the sphere at exactly the radius, and starting on it"""
    w.need_exact()
    c, rad, t = w.vec('c', 3), w.var('r', 0, 8), w.var('t', 0, 8)
    d = [w.c(s if j == i else 0) for j in range(3)]
    for j in range(3):
        if j != i:
            for g in (1, -1):
                o = list(c)
                o[j] = o[j] + g * rad
                o[i] = o[i] - s * t
                r = w.call('ray_sphere', o + d + c + [rad], 5, 0)
                w.check('tangent ray hits', fbool(r.flag(0)))
    o = list(c)
    o[i] = o[i] - s * rad
    r = w.call('ray_sphere', o + d + c + [rad], 5, 0)
    w.check('ray starting on the surface and entering hits', fbool(r.flag(0)))


# ---- C27 ----
@task('C27', sc=(20, -10, 40, -30), cfgs=ORD)
def ray_plane(w, k):
    o, d, n, q = w.vec('o', 3), w.unit('d'), w.unit('n'), w.vec('q', 3)
    D = w.define('D', dot(d, n), d[2], n[2], -1, 1)
    N = w.define('N', dot(q, n), q[2], n[2])
    p = add3(o, q)
    r = w.call('ray_plane', o + d + p + n, 5, k)
    if w.branch(D < 0):
        hit = N <= 0
    elif w.branch(D > 0):
        hit = fbool(False)
    else:
        hit = N.eq(0)
    if answer(w, r, hit):
        if w.branch(D < 0):
            x = sub3(r[2:5], o)
            w.check('point of the ray on the plane', same(mul3(D, x), mul3(N, d)))
        else:
            w.check('origin', same(r[2:5], o))


@task('C27', sc=(20, -10, 40, -30), cfgs=ORD)
def ray_plane_general(w, k):
    """directions and normals of any length"""
    o, d, n, q = w.vec('o', 3), w.vec('d', 3), w.vec('n', 3), w.vec('q', 3)
    w.assume((dot(d, d) >= Fraction(1, 100)) & (dot(n, n) >= Fraction(1, 100)))
    D, N = dot(d, n), dot(q, n)
    r = w.call('ray_plane', o + d + add3(o, q) + n, 5, k)
    if answer(w, r, ((D < 0) & (N <= 0)) | (D.eq(0) & N.eq(0))):
        if w.branch(D < 0):
            w.check('point of the ray on the plane', same(mul3(D, sub3(r[2:5], o)), mul3(N, d)))
        else:
            w.check('origin', same(r[2:5], o))


@task('C27', sc=(20, -10, 40, -30), cfgs=THIN)
def ray_plane_thin(w, sg, i):
    """directions almost in the plane, towards it or away from it; axis-parallel normals"""
    o, d, p, t = w.vec('o', 3), thin(w, 'd', sg, i), w.vec('p', 3), w.var('t', Fraction(1, 8), 8)
    for u in (1, -1):
        for g in (1, -1):
            n = [w.c(u if j == i else 0) for j in range(3)]
            q = list(p)
            q[i] = o[i] + g * t * d[i]
            r = w.call('ray_plane', o + d + q + n, 5, 0)
            hit = sg[i] * u < 0 and g > 0
            answer(w, r, fbool(hit))
            if r.flag(0) and r.flag(1):
                w.check('on the ray', same(sub3(r[2:5], o), mul3(t, d)))


@task('C27', sc=(20, -10, 40, -30), cfgs=[('%s%s%s' % ('xyz'[i], 'xyz'[j], l), {'i': i, 'j': j, 'k': k['k']}) for i in range(3) for j in range(3) for l, k in ORD])
def ray_plane_axis(w, i, j, k):
    """axis-parallel direction and normal, either sign; parallel rays included"""
    w.need_exact()
    o, p = w.vec('o', 3), w.vec('p', 3)
    for s in (1, -1):
        for u in (1, -1):
            d, n = [w.c(s if x == i else 0) for x in range(3)], [w.c(u if x == j else 0) for x in range(3)]
            r = w.call('ray_plane', o + d + p + n, 5, k)
            g = (p[j] - o[j]) * u
            if i != j:
                at = o
                hit = g.eq(0)
            else:
                at = list(o)
                at[i] = p[i]
                hit = (g <= 0) & fbool(s * u < 0)
            answer(w, r, hit, at)


# ---- C25 ----
OCT = [(l, a) for l, a in patt() if 0 not in a['sg']]


def two_dirs(w, sg, sh):
    """two directions of any length with the given sign patterns, clearly not parallel, and their cross product"""
    a, b = signed(w, 'a', sg, Fraction(1, 8)), signed(w, 'b', sh, Fraction(1, 8))
    n = [w.define('n%d' % i, x, a[(i + 1) % 3], b[(i + 2) % 3]) if a[(i + 1) % 3].nonzero() and b[(i + 2) % 3].nonzero() else x for i, x in enumerate(cross(a, b))]
    w.orth(a, n)
    w.orth(b, n)
    w.assume(dot(n, n) >= Fraction(1, 4))
    return a, b, n


CROSS = [(m + l, dict(sg=a['sg'], sh=b['sg'])) for l, a in patt() for m, b in OCT] + [(m + l, dict(sg=b['sg'], sh=a['sg'])) for l, a in patt() if 0 in a['sg'] for m, b in OCT]


MEET = [(m + l, dict(a, sa=sa, sb=sb)) for l, a in CROSS for m, sa, sb in (('front', 1, 1), ('behind1', -1, 1), ('behind2', 1, -1))]
QMEET = [x for x in MEET if x[0].startswith('front')][::2] + [x for x in MEET if x[0].startswith('behind')][1::7]


@task('C25', tier='thorough', cfgs=[x for x in MEET if x not in QMEET])
@task('C25', cfgs=QMEET)
def ray_ray_meet(w, sg, sh, sa, sb):
    """lines crossing at x, in front of (or behind) each origin"""
    a, b, n = two_dirs(w, sg, sh)
    x = w.vec('x', 3)
    lo = Fraction(1, 100)
    t, s = w.var('t', lo, 8), w.var('s', lo, 8)
    o1, o2 = sub3(x, mul3(sa * t, a)), sub3(x, mul3(sb * s, b))
    r = w.call('ray_ray', o1 + a + o2 + b, 5, 0)
    answer(w, r, fbool(sa > 0 and sb > 0), x)


@task('C25', sc=(20,), cfgs=[('%s%s%s%s%d' % ('xyz'[i], '+-'[g < 0], 'xyz'[j], '+-'[h < 0], z), {'i': i, 'g': g, 'j': j, 'h': h, 'z': z})
                  for i in range(3) for j in range(3) for g in (1, -1) for h in (1, -1) for z in (0, 1) if i != j])
def ray_ray_origin(w, i, g, j, h, z):
    """axis-parallel rays meeting at the origin of one of them"""
    w.need_exact()
    x, t = w.vec('x', 3), w.var('t', 0, 8)
    a, b = [w.c(g if k == i else 0) for k in range(3)], [w.c(h if k == j else 0) for k in range(3)]
    o1, o2 = (sub3(x, mul3(t, a)), x) if z else (x, sub3(x, mul3(t, b)))
    r = w.call('ray_ray', o1 + a + o2 + b, 5, 0)
    answer(w, r, fbool(True), x)


REP = {0: {3: (1, 2, 2), 2: (3, 4), 1: (1,)}, 1: {3: (2, 2, 1), 2: (12, 5), 1: (1,)}}


def rep(sg, k):
    """a direction of integer length with the given signs"""
    v = iter(REP[k][3 - sg.count(0)])
    return [s * next(v) if s else 0 for s in sg]


FIXED = [(l + m, dict(a=rep(x['sg'], 0), b=rep(y['sg'], 1))) for l, x in patt() for m, y in patt()]
FIXED = [(l, x) for l, x in FIXED if any(cross(x['a'], x['b']))]


@task('C25', cfgs=[(l + m, dict(x, sa=sa, sb=sb)) for l, x in FIXED for m, sa, sb in (('front', 1, 1), ('behind1', -1, 1), ('behind2', 1, -1))])
def ray_ray_fixed(w, a, b, sa, sb):
    """fixed directions (every pair of sign patterns), lines crossing anywhere in front of (or behind) each origin"""
    x, t, s = w.vec('x', 3), w.var('t', Fraction(1, 100), 8), w.var('s', Fraction(1, 100), 8)
    a, b = [w.c(y) for y in a], [w.c(y) for y in b]
    r = w.call('ray_ray', sub3(x, mul3(sa * t, a)) + a + sub3(x, mul3(sb * s, b)) + b, 5, 0)
    answer(w, r, fbool(sa > 0 and sb > 0), x)


@task('C25', cfgs=[(l + m, dict(x, side=y)) for i, (l, x) in enumerate(FIXED) for m, y in [(('u', 1), ('d', -1))[i * 7 // 5 % 2]]])
def ray_ray_fixed_skew(w, a, b, side):
    """fixed directions, lines at a distance"""
    x, t, s, g = w.vec('x', 3), w.var('t', -8, 8), w.var('s', -8, 8), w.var('g', Fraction(1, 100), 8)
    n = [w.c(side * y) for y in cross(a, b)]
    a, b = [w.c(y) for y in a], [w.c(y) for y in b]
    r = w.call('ray_ray', sub3(x, mul3(t, a)) + a + add3(sub3(x, mul3(s, b)), mul3(g, n)) + b, 5, 0)
    w.check('no intersection', fbool(not r.flag(0) and not r.flag(1)))


SKEW = [(l + m, dict(a, side=x)) for l, a in CROSS for m, x in (('u', 1), ('d', -1))]


@task('C25', tier='thorough', cfgs=[x for i, x in enumerate(SKEW) if i % 7 != 3])
@task('C25', cfgs=SKEW[3::7])
def ray_ray_skew(w, sg, sh, side):
    """lines at a distance: the second origin is moved along the common normal, to either side"""
    a, b, n = two_dirs(w, sg, sh)
    x, t, s, g = w.vec('x', 3), w.var('t', -8, 8), w.var('s', -8, 8), w.var('g', Fraction(1, 100), 8)
    la, lb, nn = dot(a, a).sqrt(), dot(b, b).sqrt(), dot(n, n)
    w.implied((la <= 14) & (lb <= 14))
    w.implied((la * lb <= 196) & (g * nn >= Fraction(1, 400)))
    r = w.call('ray_ray', sub3(x, mul3(t, a)) + a + add3(sub3(x, mul3(s, b)), mul3(side * g, n)) + b, 5, 0)
    w.check('no intersection', fbool(not r.flag(0) and not r.flag(1)))


@task('C25', sc=(20,), cfgs=[(l + m, dict(a, sb=b)) for l, a in patt() for m, b in (('+', 1), ('-', -1))])
def ray_ray_collinear(w, sg, sb):
    """same line, same (+) or opposite (-) direction; each sign pattern of the direction"""
    o, d, u, q = w.vec('o', 3), signed(w, 'd', sg), w.var('u', -8, 8), w.var('q', Fraction(1, 4), 4)
    r = w.call('ray_ray', o + d + add3(o, mul3(u, d)) + mul3(sb * q, d), 5, 0)
    hit = fbool(True) if sb > 0 else (u >= 0)
    if answer(w, r, hit):
        i = [j for j in range(3) if sg[j]][0]
        v = (r[2 + i] - o[i]) / d[i]
        w.check('on the line', same(sub3(r[2:5], o), mul3(v, d)))
        w.check('on both rays', (v >= 0) & ((v - u) * sb >= 0))


@task('C25', sc=(20,), cfgs=[(l + m, dict(a, j=j, g=g)) for l, a in THIN for m, j, g in (('x', 0, 1), ('y', 1, -1), ('z', 2, 1)) if j != a['i']])
def ray_ray_thin(w, sg, i, j, g):
    """a ray almost perpendicular to an axis and a ray along another axis, meeting"""
    a, b = thin(w, 'a', sg, i), [w.c(g if k == j else 0) for k in range(3)]
    k = 3 - i - j
    if not sg[k]:
        # the angle between the two would be small: beyond the tolerance of the parallel test only from 10^-3 on
        w.assume(a[i] * sg[i] >= Fraction(1, 500))
        w.assume(a[j] * sg[j] <= 2)
    x, t, s = w.vec('x', 3), w.var('t', Fraction(1, 100), 8), w.var('s', Fraction(1, 100), 8)
    r = w.call('ray_ray', sub3(x, mul3(t, a)) + a + sub3(x, mul3(s, b)) + b, 5, 0)
    answer(w, r, fbool(True), x)


@task('C25', sc=(20,), cfgs=[('+', {'sb': 1}), ('-', {'sb': -1})])
def ray_ray_parallel(w, sb):
    """parallel rays on distinct lines"""
    a, q = w.unit('a'), w.vec('q', 3)
    o = w.vec('o', 3)
    w.define('aq', dot(a, q), a[2], q[2])
    n = cross(a, q)
    w.assume(dot(n, n) >= Fraction(1, 10 ** 4))
    r = w.call('ray_ray', o + a + add3(o, q) + mul3(sb, a), 5, 0)
    w.check('no intersection', fbool(not r.flag(0) and not r.flag(1)))


# ---- C33 ----
def gprism(w, sg, sh, sn=None, lo=-8, hi=8):
    """a prism whose base edges e, f lie in given closed octants: base a, a+e, a+f, height h along n/|n|; n composite with e.n = f.n = 0"""
    a, e, f = w.vec('a', 3, lo, hi), [w.var('e%d' % i, 0, hi) * sg[i] for i in range(3)], [w.var('f%d' % i, 0, hi) * sh[i] for i in range(3)]
    n = [w.define('n%d' % i, x, e[(i + 1) % 3], f[(i + 2) % 3]) for i, x in enumerate(cross(e, f))]
    w.orth(e, n)
    w.orth(f, n)
    h = w.var('h', Fraction(1, 4), 8)
    w.assume(dot(n, n) >= Fraction(1, 4))
    for x, s in zip(n, sn or ()):
        w.assume(s * x >= 0)
    return a, e, f, n, h, a + add3(a, e) + add3(a, f) + [h]


def at_prism(w, a, e, f, n):
    u, v, g = w.var('u', -2, 3), w.var('v', -2, 3), w.var('g', -8, 8)
    return u, v, g, [a[i] + u * e[i] + v * f[i] + g * n[i] for i in range(3)]


PRI = [(l + m + o, dict(sg=a['sg'], sh=b['sg'], k=k['k'])) for l, a in OCT for m, b in OCT for o, k in ORD]


def nsign(x, mag):
    """sign pattern of the normal for a representative of the octant pair"""
    n = cross([s * m for s, m in zip(x['sg'], mag[0])], [s * m for s, m in zip(x['sh'], mag[1])])
    return tuple(1 if y > 0 else -1 for y in n)


def some_signs(cfgs, step, at):
    """a selection of octant pairs, each with one octant of normals"""
    mags = [((1, 2, 4), (3, 1, 2)), ((3, 1, 2), (1, 3, 7)), ((1, 1, 3), (2, 5, 1))]
    return [(l + '_' + str(j % 3), dict(x, sn=nsign(x, mags[j % 3]))) for j, (l, x) in enumerate(cfgs) if j % step == at]


@task('C33', limit=900, tier='thorough', cfgs=PRI)
@task('C33', limit=200, cfgs=some_signs(PRI, 17, 5))
def prism_point(w, sg, sh, k, sn=None):
    """a point at base coordinates u, v and height g|n|"""
    a, e, f, n, h, inp = gprism(w, sg, sh, sn)
    u, v, g, p = at_prism(w, a, e, f, n)
    r = w.call('prism_point', inp + p, 5, k)
    answer(w, r, (u >= 0) & (v >= 0) & (u + v <= 1) & (g >= 0) & (g * dot(n, n).sqrt() <= h), p)


# prisms with fixed base edges of which |e x f| is an integer, so that everything is linear in the point
BASES = [((1, 0, 0), (0, 1, 0), 1), ((0, 0, 2), (3, 0, 0), 6), ((0, 2, 1), (0, -1, 3), 7), ((2, 1, 0), (-1, 3, 0), 7), ((2, -1, 2), (2, 2, -1), 9), ((-1, 2, 2), (2, -1, 2), 9),
         ((0, 1, 0), (1, 0, 0), 1), ((1, 0, 0), (0, 0, 1), 1), ((4, 1, 0), (1, 1, 0), 3), ((1, 2, 2), (2, 1, -2), 9)]


def fixed_prism(w, e, f, m, hv=None):
    a = w.vec('a', 3)
    e, f = [w.c(x) for x in e], [w.c(x) for x in f]
    n = cross(e, f)
    h = w.var('h', Fraction(1, 4), 8) if hv is None else w.c(hv)
    return a, e, f, n, h, a + add3(a, e) + add3(a, f) + [h]


FIX = [('%d' % i, {'b': b}) for i, b in enumerate(BASES)]

# one base for each sign pattern of the normal, no side facet parallel to a face of the bounding box
NORMALS = [((-2, 0, 1), (0, 1, -1), 3), ((-4, 3, 1), (0, 0, -1), 5), ((-2, 0, -1), (0, -1, -1), 3), ((-4, -1, 3), (0, 1, 0), 5), ((0, -2, -1), (0, -1,
           1), 3), ((-4, 1, -3), (0, -1, 0), 5), ((-2, -1, 0), (0, 1, 1), 3), ((-4, -3, -1), (0, 0, 1), 5), ((-2, -1, 0), (0, -1, 1), 3), ((-1, 0, 0), (1, 3,
           -4), 5), ((-2, 0, 1), (-1, 0, -1), 3), ((-1, -4, -3), (1, 0, 0), 5), ((-2, -1, 0), (-1, 1, 0), 3), ((-2, 1, 0), (-1, -1, 0), 3), ((-1, 0, 0), (1, 3,
           4), 5), ((-2, 0, -1), (-1, 0, 1), 3), ((-1, -4, 3), (1, 0, 0), 5), ((-2, -1, 0), (0, 1, -1), 3), ((-4, -3, 1), (0, 0, -1), 5), ((-2, -1, 0), (0, -1,
           -1), 3), ((-4, -1, -3), (0, 1, 0), 5), ((0, -2, 1), (0, -1, -1), 3), ((-4, 1, 3), (0, -1, 0), 5), ((-2, 0, -1), (0, 1, 1), 3), ((-4, 3, -1), (0, 0,
           1), 5), ((-2, 0, 1), (0, -1, 1), 3)]
FIX26 = [('n%d' % i, {'b': b}) for i, b in enumerate(NORMALS)]


@task('C33', cfgs=[(l, dict(x, k=0)) for l, x in FIX26])
@task('C33', far=(24,), sc=(20, -10), cfgs=[(l + m, dict(x, k=k['k'])) for l, x in FIX for m, k in ORD])
def prism_point_fixed(w, b, k):
    """fixed base edges, any place, height and point"""
    a, e, f, n, h, inp = fixed_prism(w, *b)
    u, v, g, p = at_prism(w, a, e, f, n)
    r = w.call('prism_point', inp + p, 5, k)
    answer(w, r, (u >= 0) & (v >= 0) & (u + v <= 1) & (g >= 0) & (g * b[2] <= h), p)


@task('C33', sc=(20, -10), cfgs=[(l + '_' + c, dict(x, c=c)) for l, x in FIX if x['b'][2] == 1 or x['b'][2] == 6 for c in ('u0', 'v0', 'uv', 'bot', 'top')])
def prism_point_facet(w, b, c):
    """points exactly on a facet"""
    w.need_exact()
    a, e, f, n, h, inp = fixed_prism(w, *b)
    u, v, g = w.var('u', 0, 1), w.var('v', 0, 1), w.var('g', 0, 8)
    w.assume((u + v <= 1) & (g <= h))
    if c == 'u0':
        u = w.c(0)
    elif c == 'v0':
        v = w.c(0)
    elif c == 'uv':
        v = 1 - u
    else:
        g = w.c(0) if c == 'bot' else h
    p = [a[i] + u * e[i] + v * f[i] + g * n[i] / b[2] for i in range(3)]
    r = w.call('prism_point', inp + p, 5, 0)
    answer(w, r, fbool(True), p)


# ---- C34 ----
class Frame:
    """fixed base edges; coordinates (u, v, g) along e, f and the unit normal"""
    def __init__(self, w, b, hv=None, at=None):
        e, f, self.m = b
        self.a = w.vec('a', 3, -4, 4) if at is None else [w.c(x) for x in at]
        self.e, self.f = [w.c(x) for x in e], [w.c(x) for x in f]
        self.n = [x * Fraction(1, self.m) for x in cross(self.e, self.f)]
        self.h = w.var('h', Fraction(1, 2), 8) if hv is None else w.c(hv)
        self.inp = self.a + add3(self.a, self.e) + add3(self.a, self.f) + [self.h]
        nn = cross([Fraction(x) for x in e], [Fraction(x) for x in f])
        self.nn = [x / self.m for x in nn]
        d = Fraction(self.m) ** 2
        fe, fn = [Fraction(x) for x in e], [Fraction(x) for x in f]
        # dual basis: u = U.(x-a), v = V.(x-a), g = n.(x-a)
        self.U = [x / d for x in cross(fn, nn)]
        self.V = [x / d for x in cross(nn, fe)]

    def pt(self, c):
        u, v, g = c
        return [self.a[i] + u * self.e[i] + v * self.f[i] + g * self.n[i] for i in range(3)]

    def co(self, x):
        d = sub3(x, self.a)
        lin = lambda k: d[0] * k[0] + d[1] * k[1] + d[2] * k[2]
        return lin(self.U), lin(self.V), lin(self.nn)

    def inside(self, c, s=0):
        u, v, g = c
        return (u >= -s) & (v >= -s) & (u + v <= 1 + s) & (g >= -s) & (g <= self.h + s)

    def facet(self, c):
        u, v, g = c
        return u.eq(0) | v.eq(0) | (u + v).eq(1) | g.eq(0) | g.eq(self.h)


def coords(w, name, lo=-3, hi=4):
    return [w.var(name + 'u', lo, hi), w.var(name + 'v', lo, hi), w.var(name + 'g', -8, 12)]


@task('C34', sc=(20,), cfgs=[(l + m, dict(x, k=k['k'])) for l, x in FIX for m, k in ORD])
def segment_end_inside(w, b, k):
    """one end point (at least) inside the prism"""
    F = Frame(w, b)
    p, q = coords(w, 'p'), coords(w, 'q')
    w.assume(F.inside(p) | F.inside(q))
    P, Q = F.pt(p), F.pt(q)
    r = w.call('prism_line', F.inp + P + Q, 5, k)
    if answer(w, r, fbool(True)):
        w.check('location is an end point inside', (F.inside(p) & same(r[2:5], P)) | (F.inside(q) & same(r[2:5], Q)))


@task('C34', sc=(20,), cfgs=FIX)
def segment_point(w, b):
    """zero-length segments"""
    F = Frame(w, b)
    p = coords(w, 'p')
    P = F.pt(p)
    r = w.call('prism_line', F.inp + P + P, 5, 0)
    answer(w, r, F.inside(p), P)


SEG = [(l + '_' + m, dict(x, sg=y['sg'])) for l, x in FIX for m, y in patt()]
QSEG = [x for i, x in enumerate(SEG) if i < 52 and i % 3 < 2 or 156 <= i < 208 and i % 4 == 0 or 52 <= i < 78 and i % 6 == 1 or
        i >= 52 and x[1]['sg'].count(0) == 2 and i % 4 < 2]
# segments in general direction cost ~2 min each
QSND = [x for i, x in enumerate(QSEG) if 0 in x[1]['sg'] or x[0] in ('0_+-+', '1_--+', '6_-++', '7_---')]
TSEG = [x for x in SEG if x not in QSEG]


@task('C34', tier='thorough', limit=900, cfgs=[x for x in SEG if x not in QSND])
@task('C34', limit=250, cfgs=QSND)
def segment_sound(w, b, sg):
    """both end points outside: a reported point is on the segment and on the boundary of the prism"""
    F = Frame(w, b)
    P, D = F.pt(coords(w, 'p')), signed(w, 'd', sg, Fraction(1, 4), 12)
    Q = add3(P, D)
    w.assume(~F.inside(F.co(P)) & ~F.inside(F.co(Q)))
    r = w.call('prism_line', F.inp + P + Q, 5, 0)
    w.check('location exactly on a hit', fbool(r.flag(0) == r.flag(1)))
    if r.flag(0) and r.flag(1):
        x = r[2:5]
        c = F.co(x)
        # a collision point may overstep a neighbouring facet (at an edge) by the vicinity tolerance
        w.check('in the prism', F.inside(c, Fraction(1, 10 ** 5)), tol=1e-5)
        w.check('on a facet', F.facet(c))
        y = sub3(x, P)
        w.check('on the line', same(cross(y, D), [w.c(0)] * 3))
        w.check('between the end points', (dot(y, D) >= 0) & (dot(y, D) <= dot(D, D)))


FACETS = ['bottom', 'top', 'v0', 'uv', 'u0']


def enter(cfgs):
    """each facet with each direction pattern that can enter through it (d = (1, 2, 4)-like representatives decide)"""
    out = []
    for l, x in cfgs:
        e, f, m = x['b']
        n = cross(e, f)
        nf = [[-y for y in n], n, cross(e, n), cross(sub3(f, e), n), cross([-y for y in f], n)]
        for k, y in enumerate(nf):
            if any(s * z < 0 for s, z in zip(x['sg'], y)):
                out.append(('%s_%s' % (l, FACETS[k]), dict(x, k=k)))
    return out


def axial(cfgs):
    """each facet of each base, entered along the axis that meets it most squarely"""
    out = []
    for l, x in cfgs:
        e, f, m = x['b']
        n = cross(e, f)
        for k, y in enumerate([[-y for y in n], n, cross(e, n), cross(sub3(f, e), n), cross([-y for y in f], n)]):
            j = max(range(3), key=lambda i: abs(y[i]))
            out.append(('%s_%s' % (l, FACETS[k]), dict(x, sg=tuple((-1 if y[j] > 0 else 1) if i == j else 0 for i in range(3)), k=k)))
    return out


@task('C34', limit=60, cfgs=axial(FIX26))
@task('C34', tier='thorough', limit=600, cfgs=enter(TSEG))
@task('C34', limit=200, cfgs=[x for x in enter(QSEG) if x[1]['sg'].count(0) < 2])
@task('C34', limit=200, sc=(10,), cfgs=[x for x in enter(QSEG) if x[1]['sg'].count(0) == 2])
def segment_through(w, b, sg, k):
    """both end points outside, entering the prism through a point of facet k"""
    F = Frame(w, b)
    u, v, g = w.var('xu', 0, 1), w.var('xv', 0, 1), w.var('xg', 0, 8)
    x = [(u, v, w.c(0)), (u, v, F.h), (u, w.c(0), g), (u, 1 - u, g), (w.c(0), v, g)][k]
    # inside the facet (on its border, where the segment may only graze the prism, rounding decides)
    w.assume(([(u >= 0) & (v >= 0) & (u + v <= 1)] * 2 + [(u >= 0) & (u <= 1) & (g >= 0) & (g <= F.h)] * 2 + [(v >= 0) & (v <= 1) & (g >= 0) & (g <= F.h)])[k])
    X, D = F.pt(x), signed(w, 'd', sg, Fraction(1, 4), 12)
    n = [[-y for y in F.n], F.n, cross(F.e, F.n), cross(sub3(F.f, F.e), F.n), cross([-y for y in F.f], F.n)][k]
    w.assume(dot(n, D) <= -Fraction(1, 16))
    al, be = w.var('al', Fraction(1, 16), 4), w.var('be', Fraction(1, 16), 4)
    P, Q = sub3(X, mul3(al, D)), add3(X, mul3(be, D))
    w.assume(~F.inside(F.co(P)) & ~F.inside(F.co(Q)))
    r = w.call('prism_line', F.inp + P + Q, 5, 0)
    answer(w, r, fbool(True))


def diagonal(cfgs, step=1):
    """each facet of each base with every direction (one representative for each sign pattern) that clearly enters through it"""
    out = []
    for l, x in cfgs:
        e, f, m = x['b']
        n = cross(e, f)
        for k, y in enumerate([[-y for y in n], n, cross(e, n), cross(sub3(f, e), n), cross([-y for y in f], n)]):
            for lab, d in patt():
                v = rep(d['sg'], 0)
                if dot(v, y) < 0 and 16 * dot(v, y) ** 2 >= dot(v, v) * dot(y, y):
                    out.append(('%s_%s_%s' % (l, lab, FACETS[k]), dict(x, d=v, k=k)))
    return out[::step]


@task('C34', limit=60, cfgs=diagonal(FIX26, 8))
def segment_fixed(w, b, d, k):
    """fixed base edges and direction, entering the prism through any point of facet k"""
    F = Frame(w, b, 2, (1, -2, 3))
    u, v, g = w.var('xu', 0, 1), w.var('xv', 0, 1), w.var('xg', 0, 8)
    x = [(u, v, w.c(0)), (u, v, F.h), (u, w.c(0), g), (u, 1 - u, g), (w.c(0), v, g)][k]
    w.assume(([(u >= 0) & (v >= 0) & (u + v <= 1)] * 2 + [(u >= 0) & (u <= 1) & (g >= 0) & (g <= F.h)] * 2 + [(v >= 0) & (v <= 1) & (g >= 0) & (g <= F.h)])[k])
    X, D = F.pt(x), [w.c(y) for y in d]
    al, be = w.var('al', Fraction(1, 16), 64), w.var('be', Fraction(1, 16), 64)
    P, Q = sub3(X, mul3(al, D)), add3(X, mul3(be, D))
    w.assume(~F.inside(F.co(P)) & ~F.inside(F.co(Q)))
    r = w.call('prism_line', F.inp + P + Q, 5, 0)
    answer(w, r, fbool(True))


# ---- C35 ----
def both(w, entry, inp, loc=True):
    r, s = w.call(entry, inp, 5, 0), w.call(entry, inp, 5, 1)
    a, b = [r.flag(0), r.flag(1)], [s.flag(0), s.flag(1)]
    w.check('a hit has a location, a miss has none', fbool(a[0] == a[1] and b[0] == b[1]))
    w.check('same hit flag', fbool(a[0] == b[0]))
    if loc and a == b == [True, True]:
        w.check('same location', same(r[2:5], s[2:5]))


def nonzero(w, *vs):
    for v in vs:
        w.assume(dot(v, v) >= Fraction(1, 100))


@task('C35', sc=(20,), cfgs=[(x, {'x': x}) for x in ('ray_point', 'ray_sphere', 'ray_plane', 'sphere_point', 'sphere_plane', 'plane_point', 'box_point', 'sphere_sphere', 'point_point')])
def order(w, x):
    inp = []
    for s, nm in zip(x.split('_'), 'ab'):
        if s in ('point',):
            inp += w.vec(nm + 'p', 3)
        elif s in ('ray', 'plane'):
            d = w.unit(nm + 'd')
            inp += w.vec(nm + 'o', 3) + d
        elif s in ('sphere', 'box'):
            inp += w.vec(nm + 'c', 3) + [w.var(nm + 'r', Fraction(1, 16), 8)]
    both(w, x, inp, x not in ('sphere_sphere', 'point_point'))


@task('C35', cfgs=[(x + l, dict(a, x=x)) for x in ('ray_point', 'ray_sphere', 'ray_plane') for l, a in patt() if 0 in a['sg']])
def order_axis(w, x, sg):
    """directions with zero components"""
    o, d, c = w.vec('o', 3), signed(w, 'd', sg), w.vec('c', 3)
    both(w, x, o + d + c + {'ray_point': [], 'ray_sphere': [w.var('r', 0, 8)], 'ray_plane': w.unit('n')}[x])


@task('C35', sc=(20,), cfgs=FIX)
def order_prism_point(w, b):
    F = Frame(w, b)
    both(w, 'prism_point', F.inp + F.pt(coords(w, 'p')))


@task('C35', tier='thorough', limit=600, cfgs=TSEG)
@task('C35', cfgs=[x for x in QSND if x[1]['sg'].count(0)][::4])
def order_prism_line(w, b, sg):
    F = Frame(w, b)
    P = F.pt(coords(w, 'p'))
    both(w, 'prism_line', F.inp + P + add3(P, signed(w, 'd', sg, Fraction(1, 4), 12)))


# ---- C37 ----
def gjk_answer(w, inp, k, x, y, mg=10000):
    """the spheres overlap exactly when x < y; a relative margin of 1/mg between x and y keeps clear of touching"""
    w.assume((x <= y * Fraction(mg - 1, mg)) | (x >= y * Fraction(mg + 1, mg)))
    r = w.call('gjk', inp, 2, k)
    w.check('an answer', fbool(r.flag(0)))
    w.check('overlap', x < y if r.flag(1) else x > y)


def two_spheres(w, C):
    """spheres with centre difference C (first minus second) and R the sum of the radii"""
    R, q = w.var('R', Fraction(1, 2), 8), w.var('q', Fraction(1, 8), 8)
    w.assume(q <= R - Fraction(1, 8))
    c2 = w.vec('c', 3, -4, 4)
    C = C(R)
    return add3(c2, C) + [q] + c2 + [R - q], C, R


@task('C37', sc=(-12,), cfgs=[(l, {'k': i}) for i, l in enumerate(('ab', 'ba'))], maxdec=5)
def gjk_general(w, k):
    """any two spheres, up to the first support points"""
    p = w.vec('p', 3)
    inp, C, R = two_spheres(w, lambda R: p)
    gjk_answer(w, inp, k, dot(C, C), R * R)


@task('C37', sc=(10, -12), cfgs=[(l, {'k': i}) for i, l in enumerate(('ab', 'ba'))])
def gjk_collinear(w, k):
    """centres differing along the first search direction only"""
    x = w.var('x', -16, 16)
    inp, C, R = two_spheres(w, lambda R: [x, w.c(0), w.c(0)])
    gjk_answer(w, inp, k, x * x, R * R)


def gjk_dir(w, m, c, s, u, k, mg):
    """second support point of the difference in direction (c, s u) at distance m; first search direction (1, 0, 0)"""
    inp, C, R = two_spheres(w, lambda R: [m * c - R] + [m * s * x for x in u])
    if k:
        inp = inp[4:] + inp[:4]
    # |C|^2 - R^2 = m (m - 2 R c)
    gjk_answer(w, inp, k, m, 2 * R * c, mg)


@task('C37', sc=(10, -12), cfgs=[(l, {'k': i}) for i, l in enumerate(('ab', 'ba'))], maxdec=14)
def gjk_wide(w, k):
    """any direction within asin(1/3) of the first search direction"""
    c, s = w.unit('d', 2)
    w.assume(c > 0)
    w.assume((s >= 0) & (s <= Fraction(1, 3)))
    gjk_dir(w, w.var('m', Fraction(1, 100), 16), c, s, [w.c(1), w.c(0)], k, 4)


# the direction is (1 - t^2, 2 t u) / (1 + t^2) for a fixed t
TS = ['1/60', '1/20', '1/8', '1/5', '2/7', '2/5', '1/2', '3/5', '5/7', '4/5', '9/10', '4/3']
TS2 = ['%d/37' % i for i in range(1, 37)] + ['1/1000', '3/2', '5']


def gjk_cfgs(ts):
    return [('%s_%s' % (t, 'ab'[k]), dict(t=Fraction(t), k=k)) for t in ts for k in (0, 1)]


@task('C37', cfgs=[(l, dict(a, mg=1000)) for l, a in gjk_cfgs(TS + TS2)], tier='thorough', maxdec=20)
@task('C37', sc=(-12,), cfgs=[(l, dict(a, mg=200)) for l, a in gjk_cfgs(TS[:4])], maxdec=16)
@task('C37', cfgs=[(l, dict(a, mg=200)) for l, a in gjk_cfgs(TS[4:])], maxdec=16)
def gjk_line(w, t, k, mg):
    """the centre difference moves along a line in a fixed direction against the first search direction: any distance, radii, places
    and any turn about that direction"""
    D = 1 + t * t
    gjk_dir(w, w.var('m', Fraction(1, 100), 16), (1 - t * t) / D, 2 * t / D, w.unit('u', 2), k, mg)
