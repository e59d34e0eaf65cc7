"""C09 triangulation."""
from .lib import *
SRC = ['src/triangulation/methods.cpp']
T_ = 'opengv::triangulation::'; RA = 'opengv::relative_pose::RelativeAdapterBase'

def setpose(it, lv, Rm, t):
    """give the adapter a pose through its public setters"""
    for q, v in (('setR12', Rm), ('sett12', t)):
        f = it.prog.find(RA + '::' + q)
        it.call(f, lv, [('lv', it.alloc(copyv(v)))])
def tri(ck, fn, f1, f2, Rm, t, pc=(), rules=None, decomp=None, nodef=False):
    i = var('index', 'I')
    tab = {'getBearingVector1': lambda k: copyv(f1) if k is i else None, 'getBearingVector2': lambda k: copyv(f2) if k is i else None}
    it = ck.interp(abstract=getters(tab), decomp=decomp, nodef=nodef)
    f = ck.prog.find(T_ + fn)
    def th():
        for c in pc: it.assume(c)
        ad = it.alloc(obj(it, RA, 'adapter'))
        setpose(it, ad, Rm, t)
        return it.rv(it.call(f, None, [('lv', ad), ('v', i)]))
    return it, [(st, v) for st, k, v in it.explore(th)]

def midpoint(ck):
    f1 = symvec(3, 'f1'); f2 = symvec(3, 'f2'); t = symvec(3, 't'); Rm = symmat(3, 3, 'R')
    g = symvec(3, 'g')          # g = R f2, by definition of the matrix product
    gg = mm(Rm, f2)
    a, b, c, d, e = mat_dot(f1, f1), mat_dot(f1, gg), mat_dot(gg, gg), mat_dot(t, f1), mat_dot(t, gg)
    D = sub(mul(a, c), mul(b, b))
    nonpar = not_(eq(D, R(0)))
    it, outs = tri(ck, 'triangulate2', f1, f2, Rm, t, pc=[nonpar])
    ck.cover(outs)
    l1 = div(sub(mul(c, d), mul(b, e)), D); l2 = div(sub(mul(b, d), mul(a, e)), D)
    P = mscale(l1, f1); Q_ = madd(t, mscale(l2, gg))
    for st, v in outs:
        ck.require('closest points: the connecting segment is perpendicular to ray 1', eq(mat_dot(msub(P, Q_), f1), R(0)), st.pc)
        ck.require('closest points: the connecting segment is perpendicular to ray 2', eq(mat_dot(msub(P, Q_), gg), R(0)), st.pc)
        ck.require_mat('triangulate2 = midpoint of the closest points', v, mscale(div(R(1), R(2)), madd(P, Q_)), st.pc)
    ck.obligations(it)
def midpoint_exact(ck):
    ru = Rules(); Rm = rot('r', ru); X = symvec(3, 'X'); t = symvec(3, 't'); a, b = var('a'), var('b')
    f1 = mscale(a, X); f2 = mscale(b, mm(tr(Rm), msub(X, t)))
    it, outs = tri(ck, 'triangulate2', f1, f2, Rm, t, nodef=True)
    ck.cover(outs)
    for st, v in outs: ck.require_mat('triangulate2 returns the exact point', v, X, st.pc, ru)
    ck.used(it)

def linear(ck):
    """the decomposed system is the stack of cross-product constraints; its solution is de-homogenised"""
    f1 = symvec(3, 'f1'); f2 = symvec(3, 'f2'); t = symvec(3, 't'); Rm = symmat(3, 3, 'R')
    V_ = symmat(4, 4, 'V')
    h = pick_decomp(ck, 'Eigen::JacobiSVD', lambda it, A, k: {'V': V_, 'S': symvec(4, 's')})
    ck.assume.append('the last column of JacobiSVD::matrixV minimises |A v| over unit v')
    it, outs = tri(ck, 'triangulate', f1, f2, Rm, t, pc=[not_(eq(V_[3, 3], R(0)))], decomp=h)
    ck.cover(outs)
    x = symvec(4, 'x')
    X3 = Mat(3, 1, x.d[:3]); w = x.d[3]
    p1 = X3; p2 = mm(tr(Rm), msub(X3, mscale(w, t)))
    def rows(f, p): return [sub(mul(f.d[0], p.d[2]), mul(f.d[2], p.d[0])), sub(mul(f.d[1], p.d[2]), mul(f.d[2], p.d[1]))]
    cost = add(*[mul(r, r) for r in rows(f1, p1) + rows(f2, p2)])
    for st, v in outs:
        A = h.seen[0]
        Ax = mm(A, x) if isinstance(A, Mat) else None
        if Ax is None: raise Unsupported('system of symbolic size')
        ck.require('|A x|^2 is the sum of the squared cross-product constraints of both views', eq(mat_dot(Ax, Ax), cost), st.pc)
        for i in range(3): ck.require('result[%d] is the de-homogenised minimiser' % i, eq(mul(v.d[i], V_[3, 3]), V_[i, 3]), st.pc)
    ck.obligations(it)
def linear_exact(ck):
    ru = Rules(); Rm = rot('r', ru); X = symvec(3, 'X'); t = symvec(3, 't'); a, b = var('a'), var('b'); sc = var('s')
    f1 = mscale(a, X); f2 = mscale(b, mm(tr(Rm), msub(X, t)))
    Xh = Mat(4, 1, X.d + [R(1)])
    h = pick_decomp(ck, 'Eigen::JacobiSVD', lambda it, A, k: {'V': mat_fn(4, 4, lambda i, j: mul(sc, Xh.d[i]) if j == 3 else var('V%d%d' % (i, j))), 'S': symvec(4, 'sv')})
    it, outs = tri(ck, 'triangulate', f1, f2, Rm, t, pc=[not_(eq(sc, R(0)))], decomp=h, nodef=True)
    ck.cover(outs)
    for st, v in outs:
        A = h.seen[0]
        ck.require_mat('the homogeneous point lies in the null space of the system', mm(A, Xh), zeros(A.r, 1), st.pc, ru)
        ck.require_mat('triangulate returns the exact point', v, X, st.pc, ru)
        # rank three in general position: a non-zero 3x3 minor at a concrete configuration excludes a degenerate construction
        from dv import terms as tm
        env = {'X.0': 1, 'X.1': 2, 'X.2': 3, 't.0': 1, 't.1': -1, 't.2': 2, 'a': 1, 'b': 1, 'r.0': 1, 'r.1': 0, 'r.2': 0, 'r.3': 0}
        An = [[tm.evaluate(A[i, j], {var(k): x for k, x in env.items()}, lambda x, y: 0) for j in range(4)] for i in range(A.r)]
        import sympy
        ck.record('triangulate: the system has rank three at a generic configuration', 'proved' if sympy.Matrix(An).rank() == 3 else 'refuted', 'exact rank', 0)
    ck.used(it)

def run(ck):
    ck.load(*SRC)
    ck.contract('triangulate2', midpoint)
    ck.contract('triangulate2, exact rays', midpoint_exact)
    ck.contract('triangulate', linear)
    ck.contract('triangulate, exact rays', linear_exact)
    ck.native('c09.cpp')
