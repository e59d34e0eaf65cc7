"""C20 nonlinear refinement.

The residual function handed to Levenberg-Marquardt is executed for arbitrary parameters and compared, entry by entry,
with the scoring distances of C10/C11; the pose is rebuilt from the parameters with the proven Cayley conversion (C07)."""
from .lib import *
from . import c09, c10, c11, c07
AP = 'opengv::absolute_pose::'; RP = 'opengv::relative_pose::'; PC = 'opengv::point_cloud::'
SA = 'opengv::sac_problems::absolute_pose::'; SR = 'opengv::sac_problems::relative_pose::'
SRC = ['src/absolute_pose/methods.cpp', 'src/relative_pose/methods.cpp', 'src/point_cloud/methods.cpp', 'src/triangulation/methods.cpp', 'src/math/cayley.cpp']
SAC = ['src/sac_problems/absolute_pose/%s.cpp' % n for n in ('AbsolutePoseSacProblem', 'MultiNoncentralAbsolutePoseSacProblem')] + \
      ['src/sac_problems/relative_pose/%s.cpp' % n for n in ('CentralRelativePoseSacProblem', 'TranslationOnlySacProblem', 'NoncentralRelativePoseSacProblem', 'MultiNoncentralRelativePoseSacProblem')]
def rotof(c): return mat_fn(3, 3, lambda i, j: app('cayley2rot.%d_%d' % (i, j), tuple(c.d), 'R'))
def cayof(M): return Mat(3, 1, [app('rot2cayley.%d' % i, tuple(M.d), 'R') for i in range(3)])
CAY = {'opengv::math::cayley2rot': lambda it, f, this, a: ('v', rotof(it.to_mat(it.rv(a[0])))), 'opengv::math::rot2cayley': lambda it, f, this, a: ('v', cayof(it.to_mat(it.rv(a[0]))))}
XS = symvec(6, 'lm.x')
def functor(it, st):
    fun = st.f['fun'].lv
    while True:
        o = it.read_struct(fun)
        if o.cls.startswith('#Eigen'): fun = o.f['fun'].lv
        else: return fun, o
def refine(ck, q, cls, tab, want, listed, names):
    """names: setters and getters of the prior"""
    n = var('n', 'I'); ix = (lambda k: app('indices', (k,), 'I')) if listed else (lambda k: k)
    i = var('i', 'I'); x = symvec(6, 'x'); Rp = symmat(3, 3, 'priorR'); tp = symvec(3, 'priort')
    con = dict(CAY)
    con[c09.T_ + 'triangulate2'] = c11.tri_contract(dict(c11.table(), **tab))
    got = []
    tb = dict(tab); tb['getNumberCorrespondences'] = lambda: n
    def lm(it, st, xlv):
        fun, o = functor(it, st)
        fs = ck.prog.by_q.get(o.cls + '::operator()', [])
        if not fs: raise Unsupported('residual functor')
        start = copyv(it.to_mat(it.read(xlv)))
        N = o.f.get('m_values')
        rl = it.alloc(SMat(N, I(1), ('fn', lambda a, b: app('res0', (a, b), 'R'))))
        it.call(fs[0], fun, [('lv', it.alloc(copyv(x))), ('lv', rl)])
        got.append((list(it.st.pc), start, N, it.read(rl), o.f.get('m_inputs')))
        ad = it.st.ghost['adapter']
        for s_, r, c in ((names[0], 3, 3), (names[1], 3, 1)):    # the last evaluation may have left anything in the adapter
            it.call(it.prog.find(cls + '::' + s_), ad, [('lv', it.alloc(symmat(r, c, 'left.' + s_)))])
        it.trusted.add('Eigen::LevenbergMarquardt evaluates the residual function and leaves an arbitrary parameter vector')
        it.write(xlv, copyv(XS))
    it = ck.interp(contracts=con, abstract=getters(tb), lm=lm, nodef=True)
    f = [g for g in ck.prog.by_q.get(q, []) if not any('Indices' in p['t'] for p in g['params']) and any('vector<int' in p['t'] for p in g['params']) == listed]
    if not f: raise Unsupported('no overload of ' + q)
    def th():
        it.assume(le(I(0), n))
        ad = it.alloc(obj(it, cls, 'adapter')); it.st.ghost['adapter'] = ad
        for s_, v in ((names[0], Rp), (names[1], tp)): it.call(it.prog.find(cls + '::' + s_), ad, [('lv', it.alloc(copyv(v)))])
        return it.rv(it.call(f[0], None, [('lv', ad)] + ([('lv', it.alloc(Vec('int', ('fn', n, ix))))] if listed else [])))
    outs = [(st, v) for st, k, v in it.explore(th)]
    ck.cover(outs)
    if not got: ck.record('%s: the refinement minimises a residual function' % ck.cur, 'refuted', 'symbolic execution', 0)
    M = Mat(3, 4, [y for r in range(3) for y in (rotof(Mat(3, 1, x.d[3:])).d[3 * r:3 * r + 3] + [x.d[r]])])
    for pc, start, N, res, mi in got:
        ck.require('six parameters', eq(mi, I(6)), pc)
        ck.require('one residual per listed correspondence', and_(eq(N, n), eq(res.r, n)), pc)
        ck.require('the residual of the i-th listed correspondence is its scoring distance', eq(res.get(i, I(0)), want(M, ix(i))), pc + [le(I(0), i), lt(i, n)])
        ck.require_mat('the refinement starts at the prior pose', start, Mat(6, 1, tp.d + cayof(Rp).d), pc)
    for st, v in outs:
        ck.require_mat('the refined pose is the one of the final parameters', v, Mat(3, 4, [y for r in range(3) for y in (rotof(Mat(3, 1, XS.d[3:])).d[3 * r:3 * r + 3] + [XS.d[r]])]), st.pc)
    ck.obligations(it)
def restart(ck):
    """the Cayley vector of the prior rotation gives back the prior rotation (all rotations but half turns)"""
    ru = Rules(); q, _ = unitq('q', ru); Rm = Q(q)
    it = ck.interp(nodef=True)
    pc = [not_(eq(q.d[0], R(0)))]
    for st, c in call(it, 'opengv::math::rot2cayley', Rm, pc=pc):
        for st2, w in call(it, 'opengv::math::cayley2rot', c, pc=pc): ck.require_mat('cayley2rot(rot2cayley(R)) = R', w, Rm, pc + st.pc + st2.pc, ru)
    ck.used(it)
def exact(ck):
    """the scoring distances of exact data vanish at the true pose"""
    ru = Rules(); Rm = rot('r', ru); C = rot('c', ru); t = symvec(3, 't'); o = symvec(3, 'o'); p = symvec(3, 'p')
    d = mm(tr(C), msub(mm(tr(Rm), msub(p, t)), o)); n = norm(d)
    M = Mat(3, 4, [y for r in range(3) for y in Rm.d[3 * r:3 * r + 3] + [t.d[r]]])
    ck.require('absolute pose: the residual of an exact correspondence is zero', eq(c10.expected(M, p, o, C, mscale(div(R(1), n), d)), R(0)), [lt(R(0), mat_dot(d, d)), lt(R(0), n)], ru)
    X = symvec(3, 'X'); Y = mm(tr(Rm), msub(X, t)); nx, ny = norm(X), norm(Y)
    e = add(sub(R(1), div(mat_dot(mscale(div(R(1), nx), X), X), nx)), sub(R(1), div(mat_dot(mscale(div(R(1), ny), Y), Y), ny)))
    ck.require('relative pose: the residual at the triangulated true point is zero', eq(e, R(0)), [lt(R(0), nx), lt(R(0), ny), lt(R(0), mat_dot(X, X)), lt(R(0), mat_dot(Y, Y))], ru)
    ck.require('point cloud: the residual of an exact correspondence is zero', eq(norm(msub(p, madd(mm(Rm, mm(tr(Rm), msub(p, t))), t))), R(0)), (), ru)
def problem(ck, cls, base, names, opt, multi):
    """refinement of a model found by sample consensus starts from that model and uses its inliers"""
    calls = []
    Rs, ts = names
    def optc(it, f, this, args):
        ad = args[0][1]
        calls.append((list(it.st.pc), copyv(it.rv(it.call(it.prog.find(base + '::get' + Rs[3:]), ad, []))), copyv(it.rv(it.call(it.prog.find(base + '::get' + ts[3:]), ad, []))), copyv(it.rv(args[1]))))
        return ('v', symmat(3, 4, 'refined'))
    serial = lambda it, f, this, args: ('v', Vec('int', ('fn', var('serial.len', 'I'), lambda k: app('serial[]', (k,), 'I'))))
    con = {g['fid']: optc for g in ck.prog.by_q.get(opt, []) if any('vector<int' in p['t'] for p in g['params'])}
    seen = []
    def conv(it, base_, st, e, f):
        if e['name'] != 'convertMultiIndices': return NotImplemented
        seen.append(copyv(it.rv(it.arg_ref(e['args'][0])))); return serial(it, f, None, None)
    it = ck.interp(contracts=con, virtual_hook=conv, nodef=True)
    f = ck.prog.find(cls + '::optimizeModelCoefficients')
    n = var('n', 'I'); ix = lambda k: app('inliers', (k,), 'I'); M = symmat(3, 4, 'model')
    F = var('cameras', 'I'); nf = lambda g: app('inliers[].len', (g,), 'I'); ix2 = lambda g, k: app('inliers[]', (g, k), 'I')
    def th():
        it.assume(le(I(0), n))
        v = Vec('std::vector<int>', ('fn', F, lambda g: Vec('int', ('fn', nf(g), lambda k: ix2(g, k))))) if multi else Vec('int', ('fn', n, ix))
        out = it.alloc(symmat(3, 4, 'before'))
        it.call(f, it.alloc(obj(it, cls, 'problem')), [('lv', it.alloc(v)), ('lv', it.alloc(copyv(M))), ('lv', out)])
        return it.read(out)
    outs = [(st, v) for st, k, v in it.explore(th)]
    ck.cover(outs)
    i = var('i', 'I')
    for pc, R_, t_, l in calls:
        ck.require_mat('refinement starts at the rotation of the model', R_, mat_fn(3, 3, lambda a, b: M[a, b]), pc)
        ck.require_mat('refinement starts at the translation of the model', t_, mat_fn(3, 1, lambda a, b: M[a, 3]), pc)
        if not multi: ck.require('refinement uses the given inliers', and_(eq(l.len, n), eq(l.get(i), ix(i))), pc + [le(I(0), i), lt(i, n)])
        else: ck.require('refinement uses the given inliers', and_(eq(l.len, var('serial.len', 'I')), eq(l.get(i), app('serial[]', (i,), 'I'))), pc + [le(I(0), i), lt(i, l.len)])
    for s in seen:
        g = var('g', 'I')
        ck.require('the inliers of every camera are serialized', and_(eq(s.len, F), eq(s.get(g).len, nf(g)), eq(s.get(g).get(i), ix2(g, i))), [le(I(0), g), lt(g, F), le(I(0), i), lt(i, nf(g))])
    ck.record('%s: one refinement' % ck.cur, 'proved' if len(calls) == len(outs) else 'refuted', 'symbolic execution', 0)
    for st, v in outs: ck.require_mat('the result is the refined pose', v, symmat(3, 4, 'refined'), st.pc)
    ck.obligations(it)
def run(ck):
    ck.load(*(SRC + SAC))
    ta = c10.table(); tr_ = c11.table()
    A = AP + 'AbsoluteAdapterBase'; RB = RP + 'RelativeAdapterBase'; P = PC + 'PointCloudAdapterBase'
    tab_a = {k: ta[k] for k in ('getPoint', 'getBearingVector', 'getCamOffset', 'getCamRotation')}
    tab_r = {k: tr_[k] for k in ('getBearingVector1', 'getBearingVector2', 'getCamOffset1', 'getCamOffset2', 'getCamRotation1', 'getCamRotation2')}
    tab_p = {k: ta[k] for k in ('getPoint1', 'getPoint2')}
    wa = lambda M, k: c10.expected(M, ta['getPoint'](k), ta['getCamOffset'](k), ta['getCamRotation'](k), ta['getBearingVector'](k))
    def wr(M, k):
        Rm, t = c11.pose(M)
        D, d = c11.direct(Rm, t, tr_['getCamOffset1'](k), tr_['getCamRotation1'](k), tr_['getCamOffset2'](k), tr_['getCamRotation2'](k))
        return c11.score(tr_['getBearingVector1'](k), tr_['getBearingVector2'](k), D, d)
    def wp(M, k):
        Rm, t = c11.pose(M); return norm(msub(ta['getPoint1'](k), madd(mm(Rm, ta['getPoint2'](k)), t)))
    for l in (True, False):
        s = ' (index list)' if l else ''
        ck.contract('absolute_pose::optimize_nonlinear' + s, refine, AP + 'optimize_nonlinear', A, tab_a, wa, l, ('setR', 'sett'))
        ck.contract('relative_pose::optimize_nonlinear' + s, refine, RP + 'optimize_nonlinear', RB, tab_r, wr, l, ('setR12', 'sett12'))
        ck.contract('point_cloud::optimize_nonlinear' + s, refine, PC + 'optimize_nonlinear', P, tab_p, wp, l, ('setR12', 'sett12'))
    ck.contract('cayley2rot', c07.cayley2rot)
    ck.contract('starting value', restart)
    ck.contract('exact data', exact)
    for c, m in (('AbsolutePoseSacProblem', False), ('MultiNoncentralAbsolutePoseSacProblem', True)):
        ck.contract(c + ' refinement', problem, SA + c, A, ('setR', 'sett'), AP + 'optimize_nonlinear', m)
    for c, m in (('CentralRelativePoseSacProblem', False), ('TranslationOnlySacProblem', False), ('NoncentralRelativePoseSacProblem', False), ('MultiNoncentralRelativePoseSacProblem', True)):
        ck.contract(c + ' refinement', problem, SR + c, RB, ('setR12', 'sett12'), RP + 'optimize_nonlinear', m)
    ck.assume += ['Levenberg-Marquardt returns its starting value when every residual is zero there; that it reduces the residuals otherwise is not claimed',
                  'triangulate2 is used by its contract (C09)']
    ck.native('c20.cpp')
