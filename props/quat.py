"""C09-C17: quaternions (component order x, y, z, w)."""
import math, struct
from engine.registry import task
from engine.world import *

BOTH = ('f32', 'f64')


def r32(x):
    return struct.unpack('f', struct.pack('f', x))[0]


def ham(p, q):
    a, b = p, q
    return [a[3] * b[0] + a[0] * b[3] + a[1] * b[2] - a[2] * b[1],
            a[3] * b[1] - a[0] * b[2] + a[1] * b[3] + a[2] * b[0],
            a[3] * b[2] + a[0] * b[1] - a[1] * b[0] + a[2] * b[3],
            a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2]]


def conj_(q):
    return [-q[0], -q[1], -q[2], q[3]]


def lin(w, k, a, b):
    return w.call('quat_lin', a + b, 4, k, deg=[1, 1, 2, 1, 1, 0, 0][k])[0:4]


def mul(w, a, b):
    return w.call('quat_mul', a + b, 4, 0, deg=2)[0:4]


def one(w):
    return [w.c(0), w.c(0), w.c(0), w.c(1)]


# ---- C09 ----
@task('C09', sc=(20, -10, 40, -30), ty=BOTH)
def hamilton(w):
    p, q = w.vec('p', 4), w.vec('q', 4)
    w.check('Hamilton product', same(mul(w, p, q), ham(p, q)))


@task('C09', ty=BOTH)
def units(w):
    z = w.c(0)
    I = {c: [w.c(1) if c == d else z for d in 'ijk'] + [z] for c in 'ijk'}
    for a, b, c in ('ijk', 'jki', 'kij'):
        w.check('%s*%s=%s' % (a, b, c), same(mul(w, I[a], I[b]), I[c]))
        w.check('%s*%s=-%s' % (b, a, c), same(mul(w, I[b], I[a]), [-x for x in I[c]]))
        w.check('%s^2=-1' % a, same(mul(w, I[a], I[a]), [-x for x in one(w)]))


@task('C09', sc=(20, -10, 40, -30), ty=BOTH)
def associative(w):
    p, q, s = w.vec('p', 4, -4, 4), w.vec('q', 4, -4, 4), w.vec('s', 4, -4, 4)
    w.check('associative', same(mul(w, mul(w, p, q), s), mul(w, p, mul(w, q, s))))


@task('C09', sc=(20, -10, 40, -30), ty=BOTH)
def norm_mult(w):
    p, q = w.vec('p', 4, -4, 4), w.vec('q', 4, -4, 4)
    r = mul(w, p, q)
    n = [w.call('quat_norm', x, 4, 0, deg=2)[0] for x in (p, q, r)]
    w.check('|p*q|^2=|p|^2|q|^2', n[2].eq(n[0] * n[1]))


@task('C09', ty=BOTH)
def identity(w):
    q = w.vec('q', 4)
    for k in (5, 6):
        e = lin(w, k, q, q)
        w.check('identity value', same(e, one(w)))
        w.check('right identity', same(mul(w, q, e), q))
        w.check('left identity', same(mul(w, e, q), q))


@task('C09', sc=(20, -10, 40, -30), ty=BOTH)
def linear_ops(w):
    p, q = w.vec('p', 4), w.vec('q', 4)
    w.check('add', same(lin(w, 0, p, q), add3(p, q)))
    w.check('minus', same(lin(w, 1, p, q), sub3(p, q)))
    w.check('scale', same(lin(w, 2, p, q), [x * q[0] for x in p]))
    w.check('negate', same(lin(w, 3, p, q), [-x for x in p]))
    w.check('conjugate', same(lin(w, 4, p, q), conj_(p)))


@task('C09', sc=(20, -10, 40, -30), ty=BOTH)
def conj_reverses(w):
    p, q = w.vec('p', 4, -4, 4), w.vec('q', 4, -4, 4)
    w.check('conj(p*q)=conj(q)*conj(p)', same(lin(w, 4, mul(w, p, q), q), mul(w, lin(w, 4, q, q), lin(w, 4, p, p))))


# ---- C10 ----
@task('C10', sc=(20, -10, 40, -30), ty=BOTH)
def lengths(w):
    q = w.vec('q', 4)
    n2 = w.call('quat_norm', q, 4, 0, deg=2)[0]
    n = w.call('quat_norm', q, 4, 1)[0]
    w.check('length_squared', n2.eq(dot(q, q)))
    w.check('length', (n * n).eq(dot(q, q)) & (n >= 0))


def nonzero(w, q, big):
    """lengths from about 1e-3 (f32: 1e-2) up, or shorter than that"""
    return dot(q, q)


SCALES = [('unit', 1), ('tiny', Fraction(1, 1 << 20)), ('huge', 1 << 20)]


@task('C10', ty=BOTH, cfgs=[('%s%d' % (n, k), {'s': s, 'k': k}) for n, s in SCALES for k in (2, 3)])
def normalize(w, s, k):
    v = w.vec('q', 4)
    w.assume(dot(v, v) >= Fraction(1, 4))
    q = [x * s for x in v]
    r = w.call('quat_norm', q, 4, k)[0:4]
    w.check('length 1', dot(r, r).eq(w.c(1)))
    m = dot(v, v).sqrt()
    w.check('parallel', same([m * x for x in r], v))


@task('C10', ty=BOTH, cfgs=[(n, {'s': s}) for n, s in SCALES])
def inverse(w, s):
    v = w.vec('q', 4)
    w.assume(dot(v, v) >= Fraction(1, 4))
    q = [x * s for x in v]
    r = w.call('quat_norm', q, 4, 4)[0:4]
    rs = [x * s for x in r]          # inverse of v
    w.check('q*inverse(q)=1', same(ham(v, rs), one(w)))
    w.check('inverse(q)*q=1', same(ham(rs, v), one(w)))
    w.check('by its own product', same(mul(w, q, r), one(w)) & same(mul(w, r, q), one(w)))


# ---- C11 ----
def rot(w, q, p):
    return w.call('quat_rotate', q + p, 3, 0, plain=range(4))[0:3]


@task('C11', sc=(20, -10, 40, -30), ty=BOTH)
def rotate(w):
    q, p = w.unit('q', 4), w.vec('p', 3)
    e = ham(ham(q, p + [w.c(0)]), conj_(q))
    r = rot(w, q, p)
    w.check('vector part of q*p*conj(q)', same(r, e[0:3]))
    w.check('length kept', dot(r, r).eq(dot(p, p)))
    p2 = w.vec('s', 3)
    w.check('dot kept', dot(r, rot(w, q, p2)).eq(dot(p, p2)))


@task('C11', ty=BOTH, cfgs=[('row', {'rm': 1}), ('col', {'rm': 0})])
def rotation_matrix(w, rm):
    q, p = w.unit('q', 4), w.vec('p', 3)
    m = w.call('quat_rotmat', q, 17, rm)
    M = [m[4 * i:4 * i + 4] for i in range(4)]
    r = rot(w, q, p)
    w.check('layout', fbool(m.flag(16) == bool(rm)))
    w.check('same rotation', same([dot(M[i][0:3], p) + M[i][3] for i in range(3)], r))
    z, o = w.c(0), w.c(1)
    w.check('homogeneous', same(M[3], [z, z, z, o]) & same([M[0][3], M[1][3], M[2][3]], [z, z, z]))
    R = [M[i][0:3] for i in range(3)]
    for i in range(3):
        for j in range(3):
            w.check('orthonormal', dot(R[i], R[j]).eq(w.c(1 if i == j else 0)))
    w.check('determinant 1', dot(R[0], cross(R[1], R[2])).eq(o))


@task('C11', sc=(20, -10, 40, -30), ty=BOTH)
def composition(w):
    p, q, v = w.unit('p', 4), w.unit('q', 4), w.vec('v', 3)
    w.check('rotating by p then q is rotating by q*p', same(rot(w, q, rot(w, p, v)), rot(w, mul(w, q, p), v)))


# ---- C12 ----
def PI(w):
    return w.c(Fraction(r32(math.pi) if w.ty == 'f32' else math.pi))


@task('C12', ty=BOTH, cfgs=[(n + k, {'s': s, 'k': 'rd'.index(k)}) for n, s in SCALES[:2] for k in 'rd'])
def from_axis(w, s, k):
    v, th = w.vec('v', 3), w.var('t', *((-64, 64) if k == 0 else (-4000, 4000)))
    w.assume(dot(v, v) >= Fraction(1, 4))
    q = w.call('quat_from_axis', [x * s for x in v] + [th], 4, k)[0:4]
    ang = th / 2 if k == 0 else th / 180 * PI(w) / 2
    m = dot(v, v).sqrt()
    tol = None if k == 0 or w.ty == 'f64' else 0.01
    w.check('vector part', same([x * m for x in q[0:3]], [ang.sin() * x for x in v]), tol=tol)
    w.check('scalar part', q[3].eq(ang.cos()), tol=tol)
    w.check('unit', dot(q, q).eq(w.c(1)))


@task('C12', ty=BOTH)
def axis_turns(w):
    k, th, p = w.unit('k', 3), w.var('t', -64, 64), w.vec('p', 3)
    w.angle_unit(th, Fraction(1, 2))
    r = w.call('quat_axis_rotate', k + [th] + p, 6, 0)
    w.check('axis fixed', same(r[0:3], k))
    c, s = th.cos(), th.sin()
    kp = dot(k, p)
    e = add3(add3(mul3(c, p), mul3(s, cross(k, p))), mul3((w.c(1) - c) * kp, k))
    w.check('turns by theta about the axis (right hand)', same(r[3:6], e))


@task('C12', ty=BOTH)
def axis_roundtrip(w):
    q = w.unit('q', 4)
    v = q[0:3]
    w.assume(dot(v, v) >= Fraction(1, 100))
    r = w.call('quat_to_axis', q, 4, 0)
    ax, an = r[0:3], r[3]
    w.check('unit axis', dot(ax, ax).eq(w.c(1)))
    w.check('rebuilds', same(w.call('quat_axis_round', q, 4, 0)[0:4], q))
    h = an / 2
    w.check('axis and angle describe q', h.cos().eq(q[3]) & same([h.sin() * x for x in ax], v))


PM = [('+', {'g': 1}), ('-', {'g': -1})]


@task('C12', ty=BOTH, cfgs=PM)
def axis_sensitive(w, g):
    """quaternions near, but clearly away from, the identity or its negative"""
    s = w.var('s', Fraction(1, 100), Fraction(1, 10))
    u = w.unit('u', 3)
    c = (w.c(1) - s * s).sqrt()
    q = mul3(s, u) + [g * c]
    r = w.call('quat_to_axis', q, 4, 0)
    w.check('axis', same([s * x for x in r[0:3]], q[0:3]))


@task('C12', cfgs=PM)
def axis_small(w, g):
    """small angles, and angles just below a full turn (f64; the rounding of 1 - w*w leaves few digits below that)"""
    s = w.var('s', Fraction(1, 10 ** 5), Fraction(1, 100))
    u = w.unit('u', 3)
    q = mul3(s, u) + [g * (w.c(1) - s * s).sqrt()]
    r = w.call('quat_to_axis', q, 4, 0)
    w.check('axis', same([s * x for x in r[0:3]], q[0:3]), tol=1e-7)
    h = r[3] / 2
    w.check('angle', h.cos().eq(q[3]) & h.sin().eq(s), tol=1e-7)


# ---- C13 ----
@task('C13', sc=(20, -10, 40, -30), ty=BOTH)
def plane(w):
    n, p = w.unit('n', 3), w.vec('p', 3)
    nq = n + [w.c(0)]
    r = w.call('quat_plane', nq + p, 9, 0, plain=range(4))
    a, b, c = r[0:3], r[3:6], r[6:9]
    d = dot(n, p)
    w.check('reflection', same(a, sub3(p, mul3(d * 2, n))))
    w.check('parallel component', same(b, sub3(p, mul3(d, n))))
    w.check('orthogonal component', same(c, mul3(d, n)))
    w.check('components add up', same(add3(b, c), p))
    w.check('components orthogonal', dot(b, c).eq(w.c(0)))
    w.check('reflection is an involution', same(w.call('quat_plane', nq + a, 9, 0, plain=range(4))[0:3], p))


# ---- C14 ----
@task('C14', sc=(20, -10, 40, -30), ty=BOTH)
def lerp(w):
    a, b, t_ = w.vec('a', 4), w.vec('b', 4), w.var('t', -64, 64)
    r = w.call('quat_lerp', a + b + [t_], 4, 0, plain=(8,))[0:4]
    if w.branch(t_ <= 0):
        w.check('clamped to the start', same(r, a))
    elif w.branch(t_ >= 1):
        w.check('clamped to the end', same(r, b))
    else:
        w.check('affine', same(r, [(w.c(1) - t_) * x + t_ * y for x, y in zip(a, b)]))


# ---- C15 ----
def unit_pair(w, lo, hi):
    a, b = w.unit('a', 4), w.unit('b', 4)
    d = w.define('c', dot(a, b), a[3], b[3], -1, 1)
    if lo > -1:
        w.assume(d >= lo)
    if hi < 1:
        w.assume(d <= hi)
    return a, b, d


@task('C15', ty=BOTH, cfgs=[('acute', {'lo': Fraction(1, 100), 'hi': Fraction(99, 100)}), ('obtuse', {'lo': Fraction(-99, 100), 'hi': Fraction(-1, 100)})], limit=240)
def slerp_arc(w, lo, hi):
    a, b, d = unit_pair(w, lo, hi)
    t_ = w.var('t', 0, 1)
    r = w.call('quat_slerp', a + b + [t_], 4, 0)[0:4]
    pos = lo > 0
    om = (d if pos else -d).acos()
    e = b if pos else [-x for x in b]
    w.check('unit quaternion', dot(r, r).eq(w.c(1)))
    w.check('angle t*omega with the start', dot(r, a).eq((t_ * om).cos()))
    so = om.sin()
    w.check('on the great arc', same([so * x for x in r], [((w.c(1) - t_) * om).sin() * x + (t_ * om).sin() * y for x, y in zip(a, e)]))


@task('C15', ty=BOTH, cfgs=[('acute', {'lo': Fraction(1, 100), 'hi': Fraction(99, 100)}), ('obtuse', {'lo': Fraction(-99, 100), 'hi': Fraction(-1, 100)})])
def slerp_ends(w, lo, hi):
    a, b, d = unit_pair(w, lo, hi)
    e = b if lo > 0 else [-x for x in b]
    x = w.var('x', Fraction(1, 16), 4)     # t = 0 and t = 1 themselves are separate calls
    w.check('t=0 gives the start', same(w.call('quat_slerp', a + b + [w.c(0)], 4, 0)[0:4], a))
    w.check('t<=0 gives the start', same(w.call('quat_slerp', a + b + [-x], 4, 0)[0:4], a))
    w.check('t=1 gives the end', same(w.call('quat_slerp', a + b + [w.c(1)], 4, 0)[0:4], e))
    w.check('t>=1 gives the end', same(w.call('quat_slerp', a + b + [x + 1], 4, 0)[0:4], e))


@task('C15', ty=('f64',), cfgs=[('acute', {'s': 1}), ('obtuse', {'s': -1})])
def slerp_near(w, s):
    """nearly equal or opposite ends: the linear interpolation"""
    k = Fraction(99995, 100000)
    a, b, d = unit_pair(w, *((k, 1) if s > 0 else (-1, -k)))
    t_ = w.var('t', -1, 2)
    r = w.call('quat_slerp', a + b + [t_], 4, 0)[0:4]
    e = b if s > 0 else [-x for x in b]
    if w.branch(t_ <= 0):
        w.check('clamped to the start', same(r, a))
    elif w.branch(t_ >= 1):
        w.check('clamped to the end', same(r, e))
    else:
        w.check('linear', same(r, [(w.c(1) - t_) * x + t_ * y for x, y in zip(a, e)]))


@task('C15', ty=('f64',), cfgs=[('acute', {'s': 1}), ('obtuse', {'s': -1})])
def slerp_threshold(w, s):
    """just outside the linear range the constant-speed arc is still followed"""
    lo, hi = Fraction(9, 10), Fraction(99985, 100000)
    a, b, d = unit_pair(w, *((lo, hi) if s > 0 else (-hi, -lo)))
    t_ = w.var('t', 0, 1)
    r = w.call('quat_slerp', a + b + [t_], 4, 0)[0:4]
    om = (d * s).acos()
    w.check('unit quaternion', dot(r, r).eq(w.c(1)))
    w.check('angle t*omega with the start', dot(r, a).eq((t_ * om).cos()))


@task('C15', ty=BOTH, cfgs=[('%d%d%d%d' % p, {'p': p}) for p in ((0, 1, 2, 3), (3, 0, 1, 2), (2, 1, 0, 3), (1, 3, 0, 2))])
def slerp_right(w, p):
    """ends exactly at right angles"""
    u, v, t_ = w.unit('u', 2), w.unit('v', 2), w.var('t', 0, 1)
    z = w.c(0)
    for a, b in ((u + [z, z], [z, z] + v), (u + [z, z], [-u[1], u[0], z, z])):
        a, b = [a[i] for i in p], [b[i] for i in p]
        r = w.call('quat_slerp', a + b + [t_], 4, 0)[0:4]
        h = z.acos()
        w.check('unit quaternion', dot(r, r).eq(w.c(1)))
        w.check('great arc', same(r, [((w.c(1) - t_) * h).sin() * x + (t_ * h).sin() * y for x, y in zip(a, b)]))


# ---- C16 ----
def lnq(w, q):
    v = q[0:3]
    m, l = dot(v, v).sqrt(), dot(q, q).sqrt()
    return v, m, l, (q[3] / l).acos()


def quat_nz(w, name='q'):
    q = w.vec(name, 4, -4, 4)
    w.assume(dot(q[0:3], q[0:3]) >= Fraction(1, 16))
    return q


@task('C16', ty=BOTH)
def ln(w):
    q = quat_nz(w)
    v, m, l, al = lnq(w, q)
    r = w.call('quat_ln', q, 4, 0)[0:4]
    w.check('vector part v/|v|*acos(w/l)', same([m * x for x in r[0:3]], [al * x for x in v]))
    w.check('scalar part ln l', r[3].eq(l.log()))


@task('C16', ty=BOTH)
def pow_formula(w):
    q, t_ = quat_nz(w), w.var('t', -8, 8)
    v, m, l, al = lnq(w, q)
    r = w.call('quat_pow', q + [t_], 4, 0)[0:4]
    c = (t_ * l.log()).exp()
    b = t_ * al
    w.check('vector part', same([m * x for x in r[0:3]], [c * b.sin() * x for x in v]))
    w.check('scalar part', r[3].eq(c * b.cos()))


@task('C16', ty=BOTH)
def pow_small(w):
    q = quat_nz(w)
    w.check('pow(q,0)=1', same(w.call('quat_pow', q + [w.c(0)], 4, 0)[0:4], one(w)))
    w.check('pow(q,1)=q', same(w.call('quat_pow', q + [w.c(1)], 4, 0)[0:4], q))
    w.check('pow(q,2)=q*q', same(w.call('quat_pow', q + [w.c(2)], 4, 0)[0:4], ham(q, q)))


@task('C16', cfgs=[('+', {'s': 1}), ('-', {'s': -1})])
def thin(w, s):
    """a small vector part: angles close to 0 and to pi"""
    q, t_ = w.vec('v', 3, -1, 1) + [w.var('w', 1, 4) * s], w.var('t', -2, 2)
    w.assume((dot(q[0:3], q[0:3]) >= Fraction(1, 10 ** 6)) & (dot(q[0:3], q[0:3]) <= Fraction(1, 256)))
    v, m, l, al = lnq(w, q)
    r = w.call('quat_ln', q, 4, 0)[0:4]
    w.check('ln, vector part', same([m * x for x in r[0:3]], [al * x for x in v]))
    w.check('ln, scalar part', r[3].eq(l.log()))
    r = w.call('quat_pow', q + [t_], 4, 0)[0:4]
    c = (t_ * l.log()).exp()
    b = t_ * al
    w.check('pow, vector part', same([m * x for x in r[0:3]], [c * b.sin() * x for x in v]))
    w.check('pow, scalar part', r[3].eq(c * b.cos()))


@task('C16', ty=BOTH)
def pow_unit(w):
    q, t_ = w.unit('q', 4), w.var('t', -8, 8)
    w.assume(dot(q[0:3], q[0:3]) >= Fraction(1, 16))
    r = w.call('quat_pow', q + [t_], 4, 0)[0:4]
    w.check('unit quaternion', dot(r, r).eq(w.c(1)))


@task('C16', ty=BOTH)
def pow_sum(w):
    q, s, t_ = quat_nz(w), w.var('s', -4, 4), w.var('t', -4, 4)
    r = w.call('quat_powpow', q + [s, t_], 8, 0)
    w.check('pow(q,s)*pow(q,t)=pow(q,s+t)', same(r[0:4], r[4:8]))


# ---- C17 ----
@task('C17', sc=(20, -10, 40, -30), ty=BOTH)
def ctor(w):
    q, p = w.vec('q', 4), w.vec('p', 4)
    w.check('init_from_vals_raw', same(w.call('quat_ctor', q + p, 4, 0)[0:4], q))
    r = w.call('quat_ctor', q + p, 8, 3)
    w.check('DualQuat::init', same(r[0:8], q + p))
    r = w.call('quat_ctor', q + p, 4, 2)
    w.check('init_from_translation', same(r[0:4], [x / 2 for x in q[0:3]] + [w.c(0)]))


@task('C17', ty=BOTH)
def auto_w(w):
    v = w.vec('v', 3, -1, 1)
    w.assume(dot(v, v) <= 1)
    r = w.call('quat_ctor', v + [w.c(0)], 4, 1)[0:4]
    w.check('keeps x,y,z', same(r[0:3], v))
    w.check('w <= 0', r[3] <= 0)
    w.check('unit', dot(r, r).eq(w.c(1)))


@task('C17', sc=(20, -10, 40, -30), ty=BOTH, cfgs=[('row', {'k': 4, 'rm': 1}), ('col', {'k': 5, 'rm': 0})])
def translation(w, k, rm):
    q, p = w.vec('q', 4), w.vec('p', 3)
    m = w.call('quat_ctor', q + p + [w.c(0)], 17, k, deg=0)
    q = [x * w.sc for x in q]
    w.check('layout', fbool(m.flag(16) == bool(rm)))
    z, o = w.c(0), w.c(1)
    w.check('matrix', same(m[0:16], [o, z, z, q[0], z, o, z, q[1], z, z, o, q[2], z, z, z, o]))
    w.check('maps (p,1) to (p+(x,y,z),1)', same([dot(m[4 * i:4 * i + 4], p + [o]) for i in range(4)], add3(p, q[0:3]) + [o]))
