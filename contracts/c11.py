"""C11 relative-pose distances."""
from .lib import *
from . import c09
SR = 'opengv::sac_problems::relative_pose::'
SRC = ['src/sac_problems/relative_pose/%s.cpp' % n for n in ('CentralRelativePoseSacProblem', 'TranslationOnlySacProblem', 'NoncentralRelativePoseSacProblem', 'EigensolverSacProblem',
       'RotationOnlySacProblem', 'MultiNoncentralRelativePoseSacProblem', 'MultiCentralRelativePoseSacProblem')] + ['src/triangulation/methods.cpp']
RA = c09.RA
CANON = [False]       # arguments in polynomial normal form (C16)
def tri_spec(f1, f2, R_, t):
    k = tuple((from_poly(poly(x), 'R') if CANON[0] else x) for x in f1.d + f2.d + R_.d + t.d)
    return Mat(3, 1, [app('triangulated.%d' % j, k, 'R') for j in range(3)])
def table():
    def two(n):
        def g(*k):
            if len(k) == 1 and k[0].op == 'app' and k[0].args[0] == 'serial': k = k[0].args[1:]
            return absvec('adapter.' + n, *k)
        return g
    g = lambda n, r=3, c=1: (lambda *k: absvec('adapter.' + n, *k) if c == 1 else absmat('adapter.' + n, *k))
    return {'getBearingVector1': two('f1'), 'getBearingVector2': two('f2'), 'getCamOffset1': g('off1'), 'getCamOffset2': g('off2'), 'getCamRotation1': g('rot1', 3, 3), 'getCamRotation2': g('rot2', 3, 3),
            'getCamOffset': g('off'), 'getCamRotation': g('rot', 3, 3), 'convertMultiIndex': lambda c, k: app('serial', (c, k), 'I')}
def tri_contract(tab, seal=None):
    def c(it, f, this, args):
        ad, i = args[0][1], it.rv(args[1])
        R_ = it.rv(it.call(it.prog.find(RA + '::getR12'), ad, [])); t = it.rv(it.call(it.prog.find(RA + '::gett12'), ad, []))
        if seal: seal(R_, t)
        return ('v', tri_spec(tab['getBearingVector1'](i), tab['getBearingVector2'](i), R_, t))
    return c
def score(f1, f2, R_, t):
    """1-cos to the reprojection of the triangulated point in both views of the relative pose (R_,t)"""
    X = tri_spec(f1, f2, R_, t); Y = mm(tr(R_), msub(X, t))
    return add(sub(R(1), div(mat_dot(f1, X), norm(X))), sub(R(1), div(mat_dot(f2, Y), norm(Y))))
def direct(Rm, t, o1, C1, o2, C2):
    """relative pose of the two cameras (o,C) on bodies related by (Rm,t)"""
    return mm(tr(C1), Rm, C2), mm(tr(C1), madd(msub(t, o1), mm(Rm, o2)))
def pose(M): return mat_fn(3, 3, lambda i, j: M[i, j]), mat_fn(3, 1, lambda i, j: M[i, 3])

def runscores(ck, cls, mk, args, scores0, post=None):
    tab = table()
    it = ck.interp(contracts={c09.T_ + 'triangulate2': tri_contract(tab)}, abstract=getters(tab), nodef=True)
    f = ck.prog.find(cls + '::getSelectedDistancesToModel')
    def th():
        this = it.alloc(obj(it, cls, 'problem'))
        pre = post[0](it, this) if post else None
        sc = it.alloc(scores0(it))
        it.call(f, this, [('lv', it.alloc(mk(it)))] + args(it) + [('lv', sc)])
        if post: post[1](it, this, pre)
        return it.read(sc)
    outs = [(st, v) for st, k, v in it.explore(th)]
    ck.cover(outs)
    return it, tab, outs
def single(ck, cls, mk, want, post=None):
    n = var('n', 'I'); ix = lambda k: app('indices', (k,), 'I'); i = var('i', 'I')
    def args(it):
        it.assume(le(I(0), n)); return [('lv', it.alloc(Vec('int', ('fn', n, ix))))]
    it, tab, outs = runscores(ck, cls, mk, args, lambda it: Vec('double', ('c', [])), post)
    for st, v in outs:
        ck.require('one distance per index', eq(v.len, n), st.pc)
        ck.require('distance of the i-th index', eq(v.get(i), want(tab, ix(i))), st.pc + [le(I(0), i), lt(i, n)])
    ck.obligations(it)
def multi(ck, cls, mk, want):
    F = var('indices.len', 'I'); nf = lambda f: app('indices[].len', (f,), 'I'); ix = lambda f, k: app('indices', (f, k), 'I')
    def args(it):
        it.assume(le(I(0), F))
        return [('lv', it.alloc(Vec('std::vector<int>', ('fn', F, lambda f: Vec('int', ('fn', nf(f), lambda k: ix(f, k)))))))]
    it, tab, outs = runscores(ck, cls, mk, args, lambda it: Vec('std::vector<double>', ('fn', F, lambda f: Vec('double', ('c', [])))))
    f = var('f', 'I'); i = var('i', 'I')
    for st, v in outs:
        pc = st.pc + [le(I(0), f), lt(f, F), le(I(0), i), lt(i, nf(f))]
        ck.require('one list per camera', eq(v.len, F), st.pc)
        ck.require('one distance per index of the camera', eq(v.get(f).len, nf(f)), pc)
        ck.require('distance of the i-th index of camera f', eq(v.get(f).get(i), want(tab, f, ix(f, i))), pc)
    ck.obligations(it)

def run(ck, native=True):
    ck.load(*SRC)
    M = symmat(3, 4, 'model'); Rm, t = pose(M)
    model = lambda it: copyv(M)
    for cls in ('CentralRelativePoseSacProblem', 'TranslationOnlySacProblem'):
        ck.contract(cls + ' distances', single, SR + cls, model, lambda tab, k: score(tab['getBearingVector1'](k), tab['getBearingVector2'](k), Rm, t))
    def noncentral(tab, k):
        D, d = direct(Rm, t, tab['getCamOffset1'](k), tab['getCamRotation1'](k), tab['getCamOffset2'](k), tab['getCamRotation2'](k))
        return score(tab['getBearingVector1'](k), tab['getBearingVector2'](k), D, d)
    ck.contract('NoncentralRelativePoseSacProblem distances', single, SR + 'NoncentralRelativePoseSacProblem', model, noncentral)
    def eig(it):
        o = it.symval('opengv::EigensolverOutput', 'model')
        o.f['rotation'] = copyv(Rm); o.f['translation'] = copyv(t); return o
    def pre(it, this):
        ad = it.read_struct(this).f['_adapter'].lv
        return ad, [copyv(it.rv(it.call(it.prog.find(RA + '::' + g), ad, []))) for g in ('gett12', 'getR12')]
    def post(it, this, p):
        for g, b in zip(('gett12', 'getR12'), p[1]):
            ck.require_mat('the prior pose is the one before scoring (%s)' % g, it.rv(it.call(it.prog.find(RA + '::' + g), p[0], [])), b, it.st.pc)
    ck.contract('EigensolverSacProblem distances', single, SR + 'EigensolverSacProblem', eig, lambda tab, k: score(tab['getBearingVector1'](k), tab['getBearingVector2'](k), Rm, t), (pre, post))
    ck.contract('RotationOnlySacProblem distances', single, SR + 'RotationOnlySacProblem', lambda it: copyv(Rm), lambda tab, k: sub(R(1), mat_dot(tab['getBearingVector1'](k), mm(Rm, tab['getBearingVector2'](k)))))
    def mnon(tab, c, k):
        o, C = tab['getCamOffset'](c), tab['getCamRotation'](c)
        D, d = direct(Rm, t, o, C, o, C)
        return score(tab['getBearingVector1'](c, k), tab['getBearingVector2'](c, k), D, d)
    ck.contract('MultiNoncentralRelativePoseSacProblem distances', multi, SR + 'MultiNoncentralRelativePoseSacProblem', model, mnon)
    Mp = lambda p: absmat('model', p, r=3, c=4)
    def mcen(tab, p, k): return score(tab['getBearingVector1'](p, k), tab['getBearingVector2'](p, k), *pose(Mp(p)))
    ck.contract('MultiCentralRelativePoseSacProblem distances', multi, SR + 'MultiCentralRelativePoseSacProblem', lambda it: Vec('opengv::transformation_t', ('fn', var('indices.len', 'I'), Mp)), mcen)
    if native: ck.native('c11.cpp', srcs=SRC + ['src/relative_pose/%s.cpp' % n for n in ('CentralRelativeAdapter', 'NoncentralRelativeAdapter', 'NoncentralRelativeMultiAdapter', 'CentralRelativeMultiAdapter')], lazy=True)
