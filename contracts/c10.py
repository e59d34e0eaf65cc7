"""C10 absolute-pose and point-cloud distances."""
from .lib import *
SRC = ['src/sac_problems/absolute_pose/AbsolutePoseSacProblem.cpp', 'src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp',
       'src/sac_problems/point_cloud/PointCloudSacProblem.cpp']
SA = 'opengv::sac_problems::absolute_pose::'; SP = 'opengv::sac_problems::point_cloud::'

def table(prefix='adapter'):
    g = lambda n, r=3, c=1: (lambda *k: absvec('%s.%s' % (prefix, n), *k) if c == 1 else absmat('%s.%s' % (prefix, n), *k))
    return {'getPoint': g('point'), 'getPoint1': g('point1'), 'getPoint2': g('point2'), 'getBearingVector': g('bearing'), 'getCamOffset': g('offset'), 'getCamRotation': g('camrot', 3, 3),
            'getMultiCamOffset': g('moffset'), 'getMultiCamRotation': g('mcamrot', 3, 3)}
def expected(M, p, o, Rc, f):
    """1 - cos(angle between f and the direction of p in the camera (o,Rc) of a body with pose M)"""
    Rm = mat_fn(3, 3, lambda i, j: M[i, j]); t = mat_fn(3, 1, lambda i, j: M[i, 3])
    d = mm(tr(Rc), msub(mm(tr(Rm), msub(p, t)), o))
    n = norm(d)
    return sub(R(1), div(mat_dot(f, d), n))

def scores(ck, it, cls, args_of, scores0):
    f = ck.prog.find(cls + '::getSelectedDistancesToModel')
    M = symmat(3, 4, 'model')
    def th():
        this = it.alloc(obj(it, cls, 'problem'))
        sc = it.alloc(scores0(it))
        it.call(f, this, [('lv', it.alloc(copyv(M)))] + args_of(it) + [('lv', sc)])
        return it.read(sc)
    outs = [(st, v) for st, k, v in it.explore(th)]
    return M, outs

def single(ck, cls, want):
    it = ck.interp(abstract=getters(table()), nodef=True)
    n = var('n', 'I'); ix = lambda k: app('indices', (k,), 'I')
    def args(it):
        it.assume(le(I(0), n))
        return [('lv', it.alloc(Vec('int', ('fn', n, ix))))]
    M, outs = scores(ck, it, cls, args, lambda it: Vec('double', ('c', [])))
    ck.cover(outs)
    i = var('i', 'I')
    for st, v in outs:
        ck.require('one distance per index', eq(v.len, n), st.pc)
        pc = st.pc + [le(I(0), i), lt(i, n)]
        ck.require('distance of the i-th index', eq(v.get(i), want(M, ix(i))), pc)
    ck.obligations(it)

def multi(ck):
    cls = SA + 'MultiNoncentralAbsolutePoseSacProblem'
    it = ck.interp(abstract=getters(table()), nodef=True)
    F = var('indices.len', 'I'); nf = lambda f: app('indices[].len', (f,), 'I'); ix = lambda f, k: app('indices', (f, k), 'I')
    def args(it):
        it.assume(le(I(0), F))
        return [('lv', it.alloc(Vec('std::vector<int>', ('fn', F, lambda f: Vec('int', ('fn', nf(f), lambda k: ix(f, k)))))))]
    M, outs = scores(ck, it, cls, args, lambda it: Vec('std::vector<double>', ('fn', F, lambda f: Vec('double', ('c', [])))))
    ck.cover(outs)
    f = var('f', 'I'); i = var('i', 'I'); t = table()
    for st, v in outs:
        pc = st.pc + [le(I(0), f), lt(f, F), le(I(0), i), lt(i, nf(f))]
        ck.require('one list per camera', eq(v.len, F), st.pc)
        ck.require('one distance per index of the camera', eq(v.get(f).len, nf(f)), pc)
        k = ix(f, i)
        ck.require('distance of the i-th index of camera f', eq(v.get(f).get(i), expected(M, t['getPoint'](f, k), t['getMultiCamOffset'](f), t['getMultiCamRotation'](f), t['getBearingVector'](f, k))), pc)
    ck.obligations(it)

def lemmas(ck):
    f = symvec(3, 'f'); u = symvec(3, 'u')
    un = [eq(mat_dot(f, f), R(1)), eq(mat_dot(u, u), R(1))]
    s = sub(R(1), mat_dot(f, u)); D = msub(f, u); S = madd(f, u)
    ru = Rules(); ru.unit(f.d); ru.unit(u.d)
    ck.require('lemma: 1 - cos = |f - u|^2 / 2', eq(s, mul(div(R(1), R(2)), mat_dot(D, D))), (), ru)
    ck.require('lemma: 1 - cos = 2 - |f + u|^2 / 2', eq(s, sub(R(2), mul(div(R(1), R(2)), mat_dot(S, S)))), (), ru)

def run(ck, native=True):
    ck.load(*SRC)
    t = table()
    ck.contract('AbsolutePoseSacProblem distances', single, SA + 'AbsolutePoseSacProblem',
        lambda M, k: expected(M, t['getPoint'](k), t['getCamOffset'](k), t['getCamRotation'](k), t['getBearingVector'](k)))
    def cloud(M, k):
        Rm = mat_fn(3, 3, lambda i, j: M[i, j]); tt = mat_fn(3, 1, lambda i, j: M[i, 3])
        return norm(msub(t['getPoint1'](k), madd(mm(Rm, t['getPoint2'](k)), tt)))
    ck.contract('PointCloudSacProblem distances', single, SP + 'PointCloudSacProblem', cloud)
    ck.contract('MultiNoncentralAbsolutePoseSacProblem distances', multi)
    ck.contract('range of the distance', lemmas)
    if native: ck.native('c10.cpp', srcs=SRC + ['src/absolute_pose/CentralAbsoluteAdapter.cpp', 'src/absolute_pose/NoncentralAbsoluteAdapter.cpp', 'src/absolute_pose/NoncentralAbsoluteMultiAdapter.cpp', 'src/point_cloud/PointCloudAdapter.cpp'], lazy=True)
