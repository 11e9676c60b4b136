"""C01-C08: matrices and vectors."""
from engine.registry import task
from engine.world import *
from engine.fp import conj as conj_fp

BOTH = ('f32', 'f64')
LAY = [('row', {'rm': 1}), ('col', {'rm': 0})]
SZ = [('%d%s' % (n, l), {'n': n, 'rm': rm}) for n in (3, 4) for l, rm in (('row', 1), ('col', 0))]
VECS = [('2x1', 2), ('1x2', 2), ('3x1', 3), ('1x3', 3), ('4x1', 4), ('1x4', 4)]


def at(M, n, i, j):
    return M[n * i + j]


def row(M, n, i):
    return M[n * i:n * i + n]


def col(M, n, j):
    return [M[n * i + j] for i in range(n)]


def iden(w, n):
    return [w.c(1 if i == j else 0) for i in range(n) for j in range(n)]


# ---- C01 ----
@task('C01', sc=(40,), ty=BOTH, cfgs=SZ)
def access(w, n, rm):
    A = w.vec('a', n * n)
    r = w.call('mat%d_access' % n, A, 2 * n * n + 3, rm)
    N = n * n
    w.check('index(m,n) is the listed entry', same(r[0:N], A))
    w.check('stored entries match the layout', same(r[N:2 * N], A))
    w.check('layout recorded', fbool(r.flag(2 * N) == bool(rm)))
    w.check('trace', r[2 * N + 1].eq(mean([at(A, n, i, i) for i in range(n)])))
    w.check('size', fbool(r.flag(2 * N + 2)))


@task('C01', sc=(40,), ty=BOTH, cfgs=SZ)
def index_mut(w, n, rm):
    A = w.vec('a', n * n)
    x = w.var('x')
    for i in range(n):
        for j in range(n):
            r = w.call('mat%d_index_mut' % n, A + [x], n * n + 1, rm | i << 1 | j << 3)
            E = list(A)
            E[n * i + j] = x
            w.check('writes exactly entry (m,n)', same(r[0:n * n], E))
            w.check('layout kept', fbool(r.flag(n * n) == bool(rm)))


@task('C01', ty=BOTH, cfgs=[('3', {'n': 3}), ('4', {'n': 4})])
def consts(w, n):
    r = w.call('mat%d_consts' % n, [], 2 * n * n + 2)
    N = n * n
    w.check('iden', same(r[0:N], iden(w, n)))
    w.check('default is zero', same(r[N + 1:2 * N + 1], [w.c(0)] * N))


# ---- C02 ----
@task('C02', sc=(20, 40, -30), ty=BOTH, cfgs=SZ)
def mul(w, n, rm):
    N = n * n
    A, B = w.vec('a', N), w.vec('b', N)
    r = w.call('mat%d_mul' % n, A + B, N + 2, rm, deg=2)
    w.check('is some', fbool(r.flag(0)))
    for i in range(n):
        for j in range(n):
            w.check('entry', r[1 + n * i + j].eq(dot(row(A, n, i), col(B, n, j))))
    w.check('layout', fbool(r.flag(N + 1) == bool(rm)))


@task('C02', sc=(20, 40, -30), ty=BOTH, cfgs=SZ)
def mat_vec(w, n, rm):
    N = n * n
    A, v = w.vec('a', N), w.vec('v', n)
    r = w.call('mat%d_vec' % n, A + v, n + 1, rm, deg=2)
    w.check('is some', fbool(r.flag(0)))
    w.check('matrix * column', same(r[1:n + 1], [dot(row(A, n, i), v) for i in range(n)]))


@task('C02', sc=(20, 40, -30), ty=BOTH, cfgs=SZ)
def vec_mat(w, n, rm):
    N = n * n
    A, v = w.vec('a', N), w.vec('v', n)
    r = w.call('vec_mat%d' % n, A + v, n + 1, rm, deg=2)
    w.check('is some', fbool(r.flag(0)))
    w.check('row * matrix', same(r[1:n + 1], [dot(v, col(A, n, j)) for j in range(n)]))


# ---- C03 ----
EDEG = [1, 1, 2, 0, 2]     # dimension of the result when the elements have dimension 1


def elemspec(w, k, a, b, s):
    return [a + b, a - b, a * b, a / b if k == 3 else None, a * s if k == 4 else None][k]


@task('C03', sc=(20, -10, 40, -30), ty=BOTH, cfgs=SZ)
def mat_elem(w, n, rm):
    N = n * n
    A, B = w.vec('a', N), w.vec('b', N, 1, 8)
    for k, name in enumerate(('plus', 'minus', 'mul_elem', 'div', 'scale')):
        ins = A + (B if k < 4 else [B[0]] + B[1:])
        r = w.call('mat%d_elem' % n, ins, N + 2, k | (8 if rm else 0), deg=EDEG[k])
        w.check(name + ' is some', fbool(r.flag(0)))
        w.check(name, same(r[1:N + 1], [elemspec(w, k, A[i], B[i], B[0]) for i in range(N)]))
        w.check(name + ' layout', fbool(r.flag(N + 1) == bool(rm)))


@task('C03', sc=(20, -10, 40, -30), ty=BOTH, cfgs=SZ)
def mat_div_sign(w, n, rm):
    # negative divisors
    N = n * n
    A, B = w.vec('a', N), w.vec('b', N, -8, -1)
    r = w.call('mat%d_elem' % n, A + B, N + 2, 3 | (8 if rm else 0), deg=0)
    w.check('div', same(r[1:N + 1], [A[i] / B[i] for i in range(N)]))
    r = w.call('mat%d_elem' % n, A + B, N + 2, 4 | (8 if rm else 0), deg=2)
    w.check('scale', same(r[1:N + 1], [A[i] * B[0] for i in range(N)]))


@task('C03', sc=(20, -10, 40, -30), ty=BOTH, cfgs=SZ)
def mat_normalize(w, n, rm):
    N = n * n
    A = w.vec('a', N - 1)
    for lo, hi, nm in ((1, 8, 'p'), (-8, -1, 'n')):
        l = w.var('l' + nm, lo, hi)
        M = A + [l]
        r = w.call('mat%d_elem' % n, M + M, N + 2, 5 | (8 if rm else 0), deg=0)
        w.check('normalize is some', fbool(r.flag(0)))
        w.check('normalize', same(r[1:N + 1], [x / l for x in M]))
        w.check('last is 1', r[N].eq(w.c(1)))
        w.check('layout', fbool(r.flag(N + 1) == bool(rm)))


@task('C03', sc=(20, -10, 40, -30), ty=BOTH, cfgs=[(v, {'v': v, 'n': n, 's': s}) for v, n in VECS for s in (1,)])
def vec_elem(w, v, n, s):
    A, B = w.vec('a', n), w.vec('b', n, 1, 8)
    for k, name in enumerate(('plus', 'minus', 'mul_elem', 'div', 'scale')):
        r = w.call('v%s_elem' % v, A + B, n + 1, k, deg=EDEG[k])
        w.check(name + ' is some', fbool(r.flag(0)))
        w.check(name, same(r[1:n + 1], [elemspec(w, k, A[i], B[i], B[0]) for i in range(n)]))
    C = w.vec('c', n, -8, -1)
    r = w.call('v%s_elem' % v, A + C, n + 1, 3, deg=0)
    w.check('div', same(r[1:n + 1], [A[i] / C[i] for i in range(n)]))
    r = w.call('v%s_elem' % v, A + C, n + 1, 4, deg=2)
    w.check('scale', same(r[1:n + 1], [A[i] * C[0] for i in range(n)]))
    r = w.call('v%s_elem' % v, A + C, n + 1, 2, deg=2)
    w.check('mul_elem', same(r[1:n + 1], [A[i] * C[i] for i in range(n)]))


# ---- C04 ----
@task('C04', sc=(20, -10, 40, -30), ty=BOTH, cfgs=[(v, {'v': v, 'n': n}) for v, n in VECS])
def vec_metric(w, v, n):
    A, B = w.vec('a', n), w.vec('b', n)
    e = 'v%s_metric' % v
    r = w.call(e, A + B, 2, 0, deg=2)
    w.check('dot is some', fbool(r.flag(0)))
    w.check('dot', r[1].eq(dot(A, B)))
    r = w.call(e, A + B, 2, 1)
    w.check('magnitude is some', fbool(r.flag(0)))
    m = r[1]
    w.check('magnitude', (m * m).eq(dot(A, A)) & (m >= 0))


@task('C04', sc=(20, -10, 40, -30), ty=BOTH, cfgs=[(v, {'v': v, 'n': n}) for v, n in VECS])
def vec_normalize(w, v, n):
    A = w.vec('a', n)
    B = [w.c(0)] * n
    w.assume(dot(A, A) >= Fraction(1, 100))
    r = w.call('v%s_metric' % v, A + B, n + 1, 2, deg=0)
    w.check('normalize is some', fbool(r.flag(0)))
    u = r[1:n + 1]
    w.check('unit length', dot(u, u).eq(w.c(1)))
    m = dot(A, A).sqrt()
    w.check('parallel', same([m * x for x in u], A))


@task('C04', sc=(20, -10, 40, -30), ty=BOTH, cfgs=[(v, {'v': v, 'n': n}) for v, n in VECS])
def vec_cross(w, v, n):
    A, B = w.vec('a', n), w.vec('b', n)
    e = 'v%s_metric' % v
    r = w.call(e, A + B, 4, 3, deg=2)
    if n != 3:
        w.check('cross is none', fbool(not r.flag(0)))
        return
    w.check('cross is some', fbool(r.flag(0)))
    c = r[1:4]
    w.check('right-handed cross product', same(c, cross(A, B)))
    w.check('orthogonal', dot(c, A).eq(w.c(0)) & dot(c, B).eq(w.c(0)))
    w.check('length', dot(c, c).eq(dot(A, A) * dot(B, B) - dot(A, B) * dot(A, B)))
    r2 = w.call(e, B + A, 4, 3, deg=2)
    w.check('anti-symmetric', same(r2[1:4], [-x for x in c]))


# ---- C05 ----
@task('C05', sc=(40,), ty=BOTH, cfgs=SZ)
def transpose(w, n, rm):
    N = n * n
    A = w.vec('a', N)
    r = w.call('mat%d_transpose' % n, A, 3 * (N + 1) + (10 if n == 4 else 0), rm)
    At = [at(A, n, j, i) for i in range(n) for j in range(n)]
    w.check('transpose', same(r[0:N], At))
    w.check('transpose layout', fbool(r.flag(N) == bool(rm)))
    w.check('transpose twice', same(r[N + 1:2 * N + 1], A))
    w.check('transpose twice layout', fbool(r.flag(2 * N + 1) == bool(rm)))
    w.check('transpose_self', same(r[2 * N + 2:3 * N + 2], At))
    w.check('transpose_self layout', fbool(r.flag(3 * N + 2) == bool(rm)))
    if n == 4:
        o = 3 * (N + 1)
        w.check('submat_mat3', same(r[o:o + 9], [at(A, 4, i, j) for i in range(3) for j in range(3)]))
        w.check('submat_mat3 layout', fbool(r.flag(o + 9) == bool(rm)))


@task('C05', sc=(40,), ty=BOTH, cfgs=[(v, {'v': v, 'n': n}) for v, n in VECS])
def vec_misc(w, v, n):
    A, B = w.vec('a', n), w.vec('b', n)
    r = w.call('v%s_misc' % v, A + B, 5 * n + 1)
    w.check('transpose keeps the elements', same(r[0:n], A))
    w.check('transpose twice', same(r[n:2 * n], A))
    w.check('index', same(r[2 * n:3 * n], A))
    w.check('index_mut', same(r[3 * n:4 * n], B))


@task('C01', sc=(40,), ty=BOTH, cfgs=[(v, {'v': v, 'n': n}) for v, n in VECS])
def vec_access(w, v, n):
    A, B = w.vec('a', n), w.vec('b', n)
    r = w.call('v%s_misc' % v, A + B, 5 * n + 1)
    w.check('index', same(r[2 * n:3 * n], A))
    w.check('index_mut', same(r[3 * n:4 * n], B))
    w.check('default is zero', same(r[4 * n:5 * n], [w.c(0)] * n))
    w.check('size', fbool(r.flag(5 * n)))


# ---- C06 / C07 ----
def det3(A):
    return A[0] * (A[4] * A[8] - A[5] * A[7]) - A[1] * (A[3] * A[8] - A[5] * A[6]) + A[2] * (A[3] * A[7] - A[4] * A[6])


def minor(A, n, i, j):
    return [A[n * r + c] for r in range(n) if r != i for c in range(n) if c != j]


def det4(A):
    d = None
    for j in range(4):
        t = A[j] * det3(minor(A, 4, 0, j))
        d = t if d is None else (d + t if j % 2 == 0 else d - t)
    return d


def inv_check(w, n, A, r):
    N = n * n
    M = r[1:N + 1]
    for i in range(n):
        for j in range(n):
            one = w.c(1 if i == j else 0)
            w.check('A*inverse(A) = I', dot(row(A, n, i), col(M, n, j)).eq(one))
            w.check('inverse(A)*A = I', dot(row(M, n, i), col(A, n, j)).eq(one))


def inverse(w, n, rm, prop_thr):
    """well conditioned: the value; everywhere: None exactly for (near) singular"""
    N = n * n
    A = w.vec('a', N, -4, 4)
    d = (det3 if n == 3 else det4)(A)
    w.assume((d >= Fraction(1, 4)) | (d <= Fraction(-1, 4)))
    r = w.call('mat%d_inverse' % n, A, N + 2, rm)
    w.check('non-singular: some', fbool(r.flag(0)))
    if not r.flag(0):
        return
    w.check('layout', fbool(r.flag(N + 1) == bool(rm)))
    inv_check(w, n, A, r)


def small_det(w, n, rm, lo, side):
    """|det| just above the threshold still gives an inverse, on both sides; diagonal scaling family"""
    N = n * n
    A = w.vec('a', N, -4, 4)
    d = (det3 if n == 3 else det4)(A)
    if side > 0:
        w.assume(d >= lo)
    else:
        w.assume(d <= -lo)
    r = w.call('mat%d_inverse' % n, A, N + 2, rm)
    w.check('|det| above the threshold: some', fbool(r.flag(0)))


def diag_small(w, n, rm, lo, side):
    """diagonal matrices (exact determinant) with a small determinant"""
    N = n * n
    d0 = w.var('d', lo, 1)
    A = [w.c(0)] * N
    for i in range(n):
        A[n * i + i] = w.c(1)
    A[0] = d0 if side > 0 else -d0
    r = w.call('mat%d_inverse' % n, A, N + 2, rm)
    w.check('small determinant: some', fbool(r.flag(0)))
    if r.flag(0):
        E = list(A)
        E[0] = w.c(1) / A[0]
        w.check('value', same([x * d0 for x in r[1:N + 1]], [x * d0 for x in E]))


def singular(w, n, rm):
    """two proportional rows: determinant 0"""
    w.need_exact()
    N = n * n
    A = w.vec('a', N - n, -4, 4)
    c = [w.var('c%d' % i, -2, 2) for i in range(n - 1)]
    last = [dot(c, [A[n * i + j] for i in range(n - 1)]) for j in range(n)]
    r = w.call('mat%d_inverse' % n, A + last, N + 2, rm)
    w.check('singular: none', fbool(not r.flag(0)))


def sym_threshold(w, n, rm):
    """swapping two rows flips the determinant's sign: same answer"""
    w.need_exact()
    N = n * n
    A = w.vec('a', N, -4, 4)
    B = A[n:2 * n] + A[0:n] + A[2 * n:]
    r = w.call('mat%d_inverse' % n, A, N + 2, rm)
    s = w.call('mat%d_inverse' % n, B, N + 2, rm)
    w.check('the answer depends on |det| only', fbool(r.flag(0) == s.flag(0)))


for nn, P_, thr in ((3, 'C06', {'f32': Fraction(1, 10 ** 9), 'f64': Fraction(1, 10 ** 9)}), (4, 'C07', {'f32': Fraction(13, 10 ** 8), 'f64': Fraction(1, 10 ** 15)})):
    for ty in BOTH:
        LL = [(l, {'n': nn, 'rm': k['rm']}) for l, k in LAY]
        task(P_, 'inverse', ty=ty, cfgs=[(l, dict(k, prop_thr=thr[ty])) for l, k in LL], mu=Fraction(1, 1000) if ty == 'f64' else Fraction(1, 20),
             tol=1e-7 if ty == 'f64' else 0.02)(inverse)
        task(P_, 'diag_small', ty=ty, cfgs=[('%s%s' % (l, '+' if s > 0 else '-'), dict(k, lo=thr[ty] * 2, side=s)) for l, k in LL for s in (1, -1)],
             tol=1e-9 if ty == 'f64' else 1e-3, mu=Fraction(1, 10 ** 6))(diag_small)
        task(P_, 'singular', ty=ty, cfgs=LL, tol=0)(singular)
    task(P_, 'sym_threshold', ty=('f64',), cfgs=[(l, {'n': nn, 'rm': k['rm']}) for l, k in LAY], tol=0)(sym_threshold)


# ---- C08 ----
EQ = [('%d%s' % (n, a + b), {'e': 'mat%d_equal' % n, 'n': n * n, 'k': ka | kb << 1}) for n in (3, 4) for a, ka in (('r', 1), ('c', 0)) for b, kb in (('r', 1), ('c', 0))] \
    + [(v, {'e': 'v%s_equal' % v, 'n': n, 'k': 0}) for v, n in VECS]


def layouts_agree(e, k):
    return e[0] == 'v' or k in (0, 3)


@task('C08', sc=(20,), ty=BOTH, cfgs=EQ)
def is_equal(w, e, n, k):
    A, B = w.vec('a', n), w.vec('b', n)
    eps = w.var('e', 0, 8)
    r = w.call(e, A + B + [eps], 2, k)
    w.check('is some', fbool(r.flag(0)))
    ok = conj(*[absle(x - y, eps) for x, y in zip(A, B)]) & fbool(layouts_agree(e, k))
    w.check('true only within tolerance' if r.flag(1) else 'false only outside tolerance', ok if r.flag(1) else ~ok)


@task('C08', ty=BOTH, cfgs=[x for x in EQ if layouts_agree(x[1]['e'], x[1]['k'])])
def is_equal_slack(w, e, n, k):
    """one element decides: the others agree (covers every position on its own, both signs of the difference)"""
    A = w.vec('a', n)
    d = w.var('d')
    eps = w.var('e', 0, 8)
    for j in range(n):
        B = list(A)
        B[j] = A[j] + d
        r = w.call(e, A + B + [eps], 2, k)
        ok = absle(d, eps)
        w.check('element decides', ok if r.flag(1) else ~ok)


@task('C08', ty=BOTH, kind='fp', cfgs=EQ)
def is_equal_nan(w, e, n, k):
    A, B = w.vec('a', n), w.vec('b', n)
    eps = w.any('e')
    w.assume(eps >= 0.0)
    r = w.call(e, A + B + [eps], 2, k)
    w.check('is some', r.flag(0))
    w.check('NaN elements compare unequal', ~r.flag(1) | conj_fp([~x.isnan() for x in A + B]))


@task('C08', ty=BOTH, kind='fp', cfgs=[x for x in EQ if layouts_agree(x[1]['e'], x[1]['k'])])
def is_equal_self(w, e, n, k):
    A = w.vec('a', n)
    eps = w.any('e')
    w.assume(eps >= 0.0)
    for x in A:
        w.assume(x.finite())
    r = w.call(e, A + A + [eps], 2, k)
    w.check('equal to itself', r.flag(1))


@task('C08', ty=BOTH, kind='fp', cfgs=[x for x in EQ if layouts_agree(x[1]['e'], x[1]['k'])])
def is_equal_inf(w, e, n, k):
    """a finite and an infinite element are never within a finite tolerance"""
    A, B = w.vec('a', n), w.vec('b', n)
    eps = w.any('e')
    w.assume((eps <= 1e30) & (eps >= 0.0))
    for x in A + B:
        # no overflow in the comparison itself
        w.assume(x.isinf() | ((x <= 1e30) & (x >= -1e30)))
    r = w.call(e, A + B + [eps], 2, k)
    w.check('finite and infinite differ', ~r.flag(1) | conj_fp([x.isinf().iff(y.isinf()) for x, y in zip(A, B)]))
