"""C08 point-set alignment."""
from .lib import *
SRC = ['src/math/arun.cpp', 'src/point_cloud/methods.cpp', 'src/relative_pose/methods.cpp']
PC = 'opengv::point_cloud::'; RP = 'opengv::relative_pose::'; MA = 'opengv::math::'

def orth(name, sign, ru):
    """every orthogonal matrix is +-Q(q), |q|=1"""
    m = rot(name, ru)
    return m if sign > 0 else mat_map(neg, m)

def kabsch(ck):
    """arun(H): with H = U S V^T the result is V diag(1,1,det(V U^T)) U^T, a proper rotation"""
    ck.assume.append('JacobiSVD returns orthogonal U, V and sorted non-negative singular values with H = U S V^T; every orthogonal 3x3 matrix is +-Q(q) for a unit quaternion q')
    for su in (1, -1):
        for sv_ in (1, -1):
            ru = Rules()
            U = orth('u', su, ru); V_ = orth('v', sv_, ru)
            h = pick_decomp(ck, 'Eigen::JacobiSVD', lambda it, A, k: {'U': U, 'V': V_, 'S': symvec(3, 's')})
            it = ck.interp(decomp=h, simp=lambda c: ck.pr.simp_cond(c, ru))
            H = symmat(3, 3, 'H')
            outs = call(it, MA + 'arun', H)
            ck.cover(outs)
            for st, Rm in outs:
                ck.require_mat('the decomposed matrix is the argument', h.seen[0], H, st.pc)
                D = mm(tr(V_), Rm, U)
                ck.require_mat('V^T R U = diag(1,1,det) (signs %+d%+d)' % (su, sv_), D, diag(R(1), R(1), R(su * sv_)), st.pc, ru)
                ck.require('determinant of the result is +1 (signs %+d%+d)' % (su, sv_), eq(mat_det(Rm), R(1)), st.pc, ru)
                ck.require_mat('R R^T = I (signs %+d%+d)' % (su, sv_), mm(Rm, tr(Rm)), ident(3), st.pc, ru)
            ck.obligations(it, ru)

def optimal(ck):
    """lemma: diag(1,1,d) maximises tr(N S) over orthogonal N of determinant d; S sorted"""
    s3, u, w = [mul(var(x), var(x)) for x in 'xyz']
    s2 = add(s3, u); s1 = add(s2, w)
    S = diag(s1, s2, s3)
    for d in (1, -1):
        ru = Rules(); N = orth('n', d, ru)
        gap = sub(trace(mm(diag(R(1), R(1), R(d)), S)), trace(mm(N, S)))
        # eliminate the constant via |n|=1: 1 = a^2+b^2+c^2+d^2
        a = symvec(4, 'n')
        one = mat_dot(a, a)
        e = trace(mm(madd(mscale(one, diag(R(1), R(1), R(d))), mscale(R(-1), homog(N, a, d))), S))
        ck.require('the gap is its homogeneous form (det %+d)' % d, eq(gap, e), (), ru)
        from dv.prove import nonneg
        p = poly(e)
        ck.record('optimal rotation: tr(D S) - tr(N S) is a sum of squares (det %+d)' % d, 'proved' if nonneg(p) else 'unknown', 'sum of squares', 0)
    A, B, C_, D_ = [symmat(3, 3, x) for x in 'ABCD']
    ck.require('tr(Q U S V^T) = tr(V^T Q U S)', eq(trace(mm(A, B, diag(*symvec(3, 's').d), tr(D_))), trace(mm(tr(D_), A, B, diag(*symvec(3, 's').d)))))
    ru = Rules(); M = rot('m', ru); f = symvec(3, 'f'); df = msub(f, mm(M, f))
    ck.require('exact data: f.f - f.(M f) = |f - M f|^2 / 2, so the optimum is attained only where M f = f', eq(mul(R(2), sub(mat_dot(f, f), mat_dot(f, mm(M, f)))), mat_dot(df, df)), (), ru)
def homog(N, a, d):
    """homogeneous form of Q(a) (entries quadratic), times d"""
    q = a.d; n = mat_dot(a, a)
    H = Q(a)
    H = mat_fn(3, 3, lambda i, j: sub(H[i, j], R(1)) if i == j else H[i, j])
    H = madd(H, mscale(n, ident(3)))
    return H if d > 0 else mat_map(neg, H)

def aligned(ck, q, args, n, g1, g2, ret, contain=(), pc=(), trans=True):
    """the SVD sees sum (g2_i - c2)(g1_i - c1)^T and the translation maps centroid 2 to centroid 1"""
    nr = toreal(n)
    c1 = mat_map(lambda x: div(x, nr), sumvec(g1, n)); c2 = mat_map(lambda x: div(x, nr), sumvec(g2, n))
    H = sumvec(lambda k: outer(msub(g2(k), c2), msub(g1(k), c1)), n)
    ru = Rules()
    U = rot('u', ru); V_ = rot('v', ru)
    h = pick_decomp(ck, 'Eigen::JacobiSVD', lambda it, A, k: {'U': U, 'V': V_, 'S': symvec(3, 's')})
    it = ck.interp(decomp=h, simp=lambda c: ck.pr.simp_cond(c, ru) if c.args and c.args[0].__class__ is T and c.args[0].sort == 'R' else c)
    outs = call(it, q, *args(it), pc=list(pc), contain=contain)
    ck.cover(outs)
    for st, v in outs:
        A = h.seen[0]
        ck.require_mat('cross-covariance of the centred sets', A, H, st.pc)
        Rm = mat_fn(3, 3, lambda i, j: v[i, j])
        ck.require_mat('rotation = V U^T of that matrix', Rm, mm(V_, tr(U)), st.pc, ru)
        if trans: ck.require_mat('translation maps centroid to centroid', mat_fn(3, 1, lambda i, j: v[i, 3]), msub(c1, mm(Rm, c2)), st.pc, ru)
    ck.obligations(it, ru)

def pcs(n, extra=()): return [le(I(3), n)] + list(extra)
def inb(n, f):
    j = fresh('j', 'I')
    return f

def arun_complete(ck):
    n = var('n', 'I')
    g = lambda nm: (lambda k: absvec(nm, k))
    vec = lambda nm: Vec('Eigen::Matrix<double, 3, 1, 0, 3, 1>', ('fn', n, lambda i: absvec(nm, i)))
    aligned(ck, MA + 'arun_complete', lambda it: [vec('p1'), vec('p2')], n, g('p1'), g('p2'), 1, pc=pcs(n))
def withidx(ck, q, cls, m1, m2, trans, contain=()):
    n = var('idx.len', 'I')
    ii = lambda k: app('idx[]', (k,), 'I')
    iv = Vec('int', ('fn', n, lambda i: ii(i)))
    aligned(ck, q, lambda it: [obj(it, cls, 'adapter'), iv], n, lambda k: absvec('adapter.' + m1, ii(k)), lambda k: absvec('adapter.' + m2, ii(k)), 1, contain=('std::vector<int',), pc=pcs(n), trans=trans)
def allidx(ck, q, cls, m1, m2, trans):
    n = var('adapter.getNumberCorrespondences', 'I')
    f = [x for x in ck.prog.by_q[q] if len(x['params']) == 1][0]
    aligned(ck, f, lambda it: [obj(it, cls, 'adapter')], n, lambda k: absvec('adapter.' + m1, k), lambda k: absvec('adapter.' + m2, k), 1, pc=pcs(n), trans=trans)
def two(ck):
    """two bearing vectors: every exact non-collinear pair is aligned by the true rotation only"""
    ru = Rules(); R0 = rot('r', ru)
    f = [symvec(3, 'a'), symvec(3, 'b')]
    g = [mm(tr(R0), x) for x in f]
    U = rot('u', ru); V_ = rot('v', ru)
    h = pick_decomp(ck, 'Eigen::JacobiSVD', lambda it, A, k: {'U': U, 'V': V_, 'S': symvec(3, 's')})
    tab = {'getBearingVector1': lambda i: f[nv(i)], 'getBearingVector2': lambda i: g[nv(i)]}
    it = ck.interp(decomp=h, simp=lambda c: ck.pr.simp_cond(c, ru), abstract=getters(tab))
    fn = [x for x in ck.prog.by_q[RP + 'twopt_rotationOnly'] if len(x['params']) == 3][0]
    outs = call(it, fn, obj(it, RP + 'RelativeAdapterBase', 'adapter'), I(0), I(1))
    ck.cover(outs)
    for st, v in outs:
        C = mm(R0, h.seen[0])     # = sum of outer products when the data are exact
        ck.require_mat('R0 H is symmetric', C, tr(C), st.pc, ru)
        ck.require_mat('rotation = V U^T of that matrix', v, mm(V_, tr(U)), st.pc, ru)
        # positive semidefinite of rank two: C = w1 w1^T + w2 w2^T with w1, w2 independent combinations of the data
        n = Mat(3, 1, mat_cross(f[0], f[1]).d)
        ck.require_mat('null space is the common normal', mm(C, n), zeros(3, 1), st.pc, ru)
        x = symvec(2, 'x'); dual = madd(mscale(x.d[0], mat_cross(f[1], n)), mscale(x.d[1], mat_cross(n, f[0])))
        qf = mat_dot(dual, mm(C, dual)); nn = mat_dot(n, n)
        a, b = x.d
        # dual pairing: f0.dual = a nn, f1.dual = b nn; the form must be positive definite in (a,b)
        e = from_poly(ru.reduce(poly(qf)), 'R')
        s2 = mul(nn, nn)
        # recover the coefficients of the binary form and require positive definiteness
        caa = coef(e, a, b, s2, 2, 0); cab = coef(e, a, b, s2, 1, 1); cbb = coef(e, a, b, s2, 0, 2)
        ck.require('binary form of H on the data plane', eq(e, mul(s2, add(mul(caa, mul(a, a)), mul(cab, mul(a, b)), mul(cbb, mul(b, b))))), st.pc, ru)
        ck.require('positive definite on the data plane', and_(lt(R(0), caa), lt(mul(cab, cab), mul(R(4), caa, cbb))), st.pc, ru)
    ck.obligations(it, ru)
def coef(e, a, b, s2, i, j):
    """constant c with e = s2 * c a^i b^j + ... (data independent); read off numerically and then proved"""
    from fractions import Fraction
    import random
    from dv import terms as tm
    rng = random.Random(7)
    env0 = {}
    def uf(x, args):
        if x not in env0: env0[x] = Fraction(rng.randint(-5, 5))
        return env0[x]
    def at(av, bv):
        return tm.evaluate(e, {a: Fraction(av), b: Fraction(bv)}, uf) / tm.evaluate(s2, {}, uf)
    f10, f01, f11 = at(1, 0), at(0, 1), at(1, 1)
    return R({(2, 0): f10, (0, 2): f01, (1, 1): f11 - f10 - f01}[(i, j)])

def run(ck):
    ck.load(*SRC)
    ck.contract('arun', kabsch)
    ck.contract('optimal rotation', optimal)
    ck.contract('arun_complete', arun_complete)
    ck.contract('threept_arun(adapter, indices)', withidx, PC + 'threept_arun', PC + 'PointCloudAdapterBase', 'getPoint1', 'getPoint2', True)
    ck.contract('threept_arun(adapter)', allidx, PC + 'threept_arun', PC + 'PointCloudAdapterBase', 'getPoint1', 'getPoint2', True)
    ck.contract('rotationOnly(adapter, indices)', withidx, RP + 'rotationOnly', RP + 'RelativeAdapterBase', 'getBearingVector1', 'getBearingVector2', False)
    ck.contract('rotationOnly(adapter)', allidx, RP + 'rotationOnly', RP + 'RelativeAdapterBase', 'getBearingVector1', 'getBearingVector2', False)
    ck.contract('twopt_rotationOnly', two)
    ck.native('c08.cpp')
