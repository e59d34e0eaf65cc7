"""C12 two-point translation solvers."""
from .lib import *
from .c09 import setpose
SRC = ['src/absolute_pose/methods.cpp', 'src/relative_pose/methods.cpp']
RP = 'opengv::relative_pose::'; AP = 'opengv::absolute_pose::'

def unit2(name, ru):
    c, s = var('c' + name), var('s' + name)
    ru.add(c, 2, sub(R(1), mul(s, s)))
    return c, s

def two(ck, n): return [x for x in ck.prog.by_q[n]]

def relative(ck, unrotate, byvec):
    """what the code computes for any four bearing vectors: a unit vector along v = (f1 x g1) x (f2 x g2), (f1 - g1).t >= 0"""
    f = [symvec(3, 'f0'), symvec(3, 'f1')]; h = [symvec(3, 'h0'), symvec(3, 'h1')]; Rm = symmat(3, 3, 'R')
    g = [mm(Rm, x) for x in h] if unrotate else h
    i0, i1 = var('index0', 'I'), var('index1', 'I')
    pick = lambda ab: (lambda k: {i0: ab[0], i1: ab[1]}.get(k))
    it = ck.interp(abstract=getters({'getBearingVector1': pick(f), 'getBearingVector2': pick(h)}), nodef=True)
    fn = [x for x in ck.prog.by_q[RP + 'twopt'] if len(x['params']) == (3 if byvec else 4)][0]
    v = mat_cross(mat_cross(f[0], g[0]), mat_cross(f[1], g[1]))
    N = norm(v)
    pc = [lt(R(0), mat_dot(v, v))]
    def th():
        for c in pc: it.assume(c)
        ad = it.alloc(obj(it, RP + 'RelativeAdapterBase', 'adapter'))
        setpose(it, ad, Rm, symvec(3, 'oldt'))
        ix = [('lv', it.alloc(Vec('int', ('c', [i0, i1]))))] if byvec else [('v', i0), ('v', i1)]
        return it.rv(it.call(fn, None, [('lv', ad), ('v', B(unrotate))] + ix))
    outs = [(st, x) for st, k, x in it.explore(th)]
    ck.cover(outs, 2)
    w = msub(f[0], g[0])
    for n, (st, r) in enumerate(outs):
        s = mat_dot(w, v)
        # each path fixes the sign of w.v/N; its return value must be the matching multiple of v/N
        plus = ck.pr.prove(eq(mat_dot(r, Mat(3, 1, [var('a'), var('b'), var('c')])), div(mat_dot(v, Mat(3, 1, [var('a'), var('b'), var('c')])), N)), st.pc)[0] == 'proved'
        sg = 1 if plus else -1
        ck.require_mat('path %d: translation = %sv/|v|' % (n, '' if plus else '-'), r, mscale(div(R(sg), N), v), st.pc)
        sv = var('sgn'); N_ = var('N')
        ck.require('path %d: (f1 - g1) . translation is not negative' % n, le(R(0), mat_dot(w, r)), st.pc)
    ck.obligations(it)

def relative_lemmas(ck):
    """for exact data: v = k t with k != 0 in general position, (f1 - g1).t > 0, hence translation = t/|t|"""
    X = [symvec(3, 'X0'), symvec(3, 'X1')]; t = symvec(3, 't'); l = [var('l0'), var('l1')]; m = [var('m0'), var('m1')]
    f = [mscale(l[i], X[i]) for i in (0, 1)]; g = [mscale(m[i], msub(X[i], t)) for i in (0, 1)]
    v = mat_cross(mat_cross(f[0], g[0]), mat_cross(f[1], g[1]))
    k = mul(l[0], m[0], l[1], m[1], mat_dot(t, mat_cross(X[0], X[1])))
    ck.require_mat('lemma: v is a multiple of t', v, mscale(k, t))
    a, b, p, T = var('a'), var('b'), var('p'), var('T')     # |X|, |X-t|, X.t, t.t
    ck.require('lemma: X/|X| - (X-t)/|X-t| has a positive component along t', lt(mul(sub(p, T), a), mul(p, b)),
        [lt(R(0), a), lt(R(0), b), lt(R(0), T), eq(mul(b, b), add(mul(a, a), mul(R(-2), p), T)), lt(mul(p, p), mul(a, a, T))])
    s, q = var('s'), var('q')
    ck.require('lemma: among the two unit multiples of t the sign test picks t', eq(s, R(1)), [eq(mul(s, s), R(1)), lt(R(0), q), le(R(0), mul(s, q))])

def absolute(ck, byvec):
    """rays span the plane of the first two columns of A (camera frame) and of W = R A (world frame)"""
    ru = Rules(); W = rot('w', ru); A = rot('a', ru)
    c, s = unit2('b', ru)
    x, y, z = var('x'), var('y'), var('z')
    ru.add(z, 2, sub(R(1), add(mul(x, x), mul(y, y))))     # direction between the points, in the world frame
    d12 = var('d12'); P0 = symvec(3, 'P')
    for u in (s, d12): ru.pos.add(u)
    Rm = mm(W, tr(A))
    red = ck.pr.reducer(ru)
    Rm = mat_map(red, Rm)
    colm = lambda M, j: mat_fn(3, 1, lambda i, k: M[i, j])
    f0 = colm(A, 0); f1 = madd(mscale(c, colm(A, 0)), mscale(s, colm(A, 1)))
    n = col(x, y, z)
    P1 = madd(P0, mscale(d12, n))
    i0, i1 = var('index0', 'I'), var('index1', 'I')
    tab = {'getBearingVector': lambda k: {i0: f0, i1: f1}.get(k), 'getPoint': lambda k: {i0: P0, i1: P1}.get(k)}
    it = ck.interp(abstract=getters(tab), nodef=False, simp=lambda q: ck.pr.simp_cond(q, ru), red=red)
    f = [q for q in ck.prog.by_q[AP + 'p2p'] if len(q['params']) == (2 if byvec else 3)][0]
    def th():
        for q in (s, d12): it.assume(lt(R(0), q))
        it.assume(eq(add(mul(x, x), mul(y, y), mul(z, z)), R(1)))
        ad = it.alloc(obj(it, AP + 'AbsoluteAdapterBase', 'adapter'))
        it.call(it.prog.find(AP + 'AbsoluteAdapterBase::setR'), ad, [('lv', it.alloc(Rm))])
        ix = [('lv', it.alloc(Vec('int', ('c', [i0, i1]))))] if byvec else [('v', i0), ('v', i1)]
        return it.rv(it.call(f, None, [('lv', ad)] + ix))
    outs = [(st, v) for st, k, v in it.explore(th)]
    ck.cover(outs)
    u = mat_dot(colm(W, 0), n); w = mat_dot(colm(W, 1), n)
    # d0 + d12 u = d1 c, d12 w = d1 s   =>   d0 = d12 (w c / s - u)
    C = msub(P0, mscale(mul(d12, sub(div(mul(w, c), s), u)), colm(W, 0)))
    for i, (st, v) in enumerate(outs):
        ck.require_mat('camera position (path %d)' % i, v, C, st.pc, ru)
    ck.obligations(it, ru)
def absolute_lemma(ck):
    """C as used above is the camera centre whenever the data are exact: P1 - C is along the second ray"""
    ru = Rules(); W = rot('w', ru); c, s = unit2('b', ru); ru.pos.add(s)
    d0, d1 = var('d0'), var('d1'); C = symvec(3, 'C')
    colm = lambda M, j: mat_fn(3, 1, lambda i, k: M[i, j])
    P0 = madd(C, mscale(d0, colm(W, 0))); P1 = madd(C, mscale(d1, madd(mscale(c, colm(W, 0)), mscale(s, colm(W, 1)))))
    D = msub(P1, P0)                                        # = d12 n
    u = mat_dot(colm(W, 0), D); w = mat_dot(colm(W, 1), D)
    ck.require_mat('lemma: the formula gives the exact camera centre', msub(P0, mscale(sub(div(mul(w, c), s), u), colm(W, 0))), C, (), ru)

def run(ck):
    ck.load(*SRC)
    for un in (True, False):
        ck.contract('twopt, unrotate=%s' % un, relative, un, False)
    ck.contract('twopt(indices)', relative, False, True)
    ck.contract('twopt, exact data', relative_lemmas)
    ck.contract('p2p', absolute, False)
    ck.contract('p2p(indices)', absolute, True)
    ck.contract('p2p, exact data', absolute_lemma)
    ck.native('c12.cpp')
