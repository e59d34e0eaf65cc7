"""C22 The robust problems: the model computed from a sample is the selected solver's pose for that sample, in the frame of the scoring.

The pose solvers are arbitrary functions of the list they are given (any number of arbitrary candidates); triangulation is
used by its contract (C09), the scoring distances are those of C10/C11."""
from .lib import *
from fractions import Fraction
from . import c06, c09, c10, c11
AP = 'opengv::absolute_pose::'; RP = 'opengv::relative_pose::'
SA = 'opengv::sac_problems::absolute_pose::'; SR = 'opengv::sac_problems::relative_pose::'; SP = 'opengv::sac_problems::point_cloud::'
SRC = ['src/sac_problems/absolute_pose/%s.cpp' % n for n in ('AbsolutePoseSacProblem', 'MultiNoncentralAbsolutePoseSacProblem')] + \
      ['src/sac_problems/relative_pose/%s.cpp' % n for n in ('TranslationOnlySacProblem', 'RotationOnlySacProblem', 'NoncentralRelativePoseSacProblem', 'MultiNoncentralRelativePoseSacProblem', 'MultiCentralRelativePoseSacProblem', 'EigensolverSacProblem')] + \
      ['src/sac_problems/point_cloud/PointCloudSacProblem.cpp']
L = var('solutions.len', 'I')
SOL = lambda k: absmat('solution', k, r=3, c=4)
def split(M): return mat_fn(3, 3, lambda i, j: M[i, j]), mat_fn(3, 1, lambda i, j: M[i, 3])
def join(Rm, t): return Mat(3, 4, [y for r in range(3) for y in Rm.d[3 * r:3 * r + 3] + [t.d[r]]])
def body(M, o, C):
    """camera pose M of the camera (o,C) of a body -> pose of the body"""
    Rm, t = split(M); B = mm(Rm, tr(C))
    return join(B, msub(t, mm(B, o)))
def ask(qs, calls, result):
    """contracts of solvers: record the list, return arbitrary candidates"""
    def c(it, f, this, args):
        pts, ret, const, q = c06.signature(it, f, it.callexpr)
        lst = [it.rv(a) for a, p in zip(args, pts) if 'vector<int' in p]
        calls.append((list(it.st.pc), q.split('::')[-1], copyv(lst[0]) if lst else None, [it.rv(a) for a, p in zip(args, pts) if noref(p) in ('bool', '_Bool')]))
        it.trusted.add('sub-solver as an arbitrary function of its sample: ' + q)
        return result(it, q.split('::')[-1], args)
    return {q: c for q in qs}
n_ = var('n', 'I'); ix = lambda k: app('sample', (k,), 'I')
def listed(ck, calls, name, size, at=ix, pc=()):
    """the solver was called once, with the first `size` sampled correspondences (None: the whole sample)"""
    k = var('k', 'I')
    for cpc, nm, l, _ in calls:
        ck.require('the selected solver is called', TRUE if nm == name else FALSE, cpc)
        N = I(size) if size is not None else n_
        ck.require('the solver gets the sample: size', eq(l.len, N), cpc)
        ck.require('the solver gets the sample: entries', eq(l.get(k), at(k)), cpc + [le(I(0), k), lt(k, N)])
def chosen(ck, it, nm, st, ret, out, cand, count, score):
    """success iff there is a candidate; the result is a candidate of smallest score"""
    if ret is not TRUE and ret is not FALSE: raise Unsupported('result of computeModelCoefficients')
    j = fresh('j', 'I'); rng = [le(I(0), j), lt(j, count)]
    fs = list(it.folds.values())
    val = None
    if score is not None and fs:
        val = lambda k: subst(fs[-1]['val'], {fs[-1]['k']: k})
        require_named(ck, nm, 'the candidates are compared by the scoring distance', val(j), score(j), rng)
        # distances of unit bearing vectors are at most two per view (C10: range of the distance); 10^6 stands for 'no candidate yet'
        bound = forall(j, implies(and_(*rng), lt(val(j), R(1000000))))
    if ret is FALSE:
        ck.require('failure is only reported without a candidate', eq(count, I(0)), st.pc + ([bound] if val else []))
        return
    ck.require('success needs a candidate', le(I(1), count), st.pc)
    out = mat_map(nm.expand, out)
    ms = sorted({x for e in out.d for x in atoms_of(e) if x.op == 'app' and x.args[0].startswith('arg!')}, key=lambda x: -x.id)
    m = ms[0] if ms else I(0)
    ck.require_mat('the model is the pose of a candidate in the scoring frame', out, cand(m), st.pc)
    ck.require('the candidate exists', and_(le(I(0), m), lt(m, count)), st.pc)
    if score is not None:
        if val is None or not ms: ck.require('the only candidate is taken without comparison', eq(count, I(1)), st.pc)
        else: ck.require('the candidate of smallest distance is chosen', le(val(m), val(j)), st.pc + rng)
def absolute(ck, alg, solver, conv, multi=False):
    cls = SA + ('MultiNoncentralAbsolutePoseSacProblem' if multi else 'AbsolutePoseSacProblem')
    t = c10.table(); calls = []
    one = solver in ('epnp', 'p2p')
    def result(it, f, args):
        if solver == 'p2p': return ('v', symvec(3, 'position'))
        if one: return ('v', SOL(I(0)))
        it.assume(le(I(0), L))
        return ('v', Vec('opengv::transformation_t', ('fn', L, SOL)))
    con = ask([AP + s for s in ('p2p', 'p3p_kneip', 'p3p_gao', 'gp3p', 'epnp', 'gpnp', 'upnp')], calls, result)
    def conv_(it, base, st, e, f):
        if e['name'] != 'convertMultiIndices': return NotImplemented
        a = it.rv(it.arg_ref(e['args'][0]))
        if not (a.kind[0] == 'fn' and a.len is var('cameras', 'I')): raise Unsupported('convertMultiIndices of something else than the sample')
        it.trusted.add('contract of convertMultiIndices: the serialized sample (C05)')
        return ('v', Vec('int', ('fn', n_, ix)))
    prior = symmat(3, 3, 'priorR')
    nm = Namer()
    tab = {k: t[k] for k in ('getPoint', 'getBearingVector', 'getCamOffset', 'getCamRotation')}
    if conv:      # a central solver is for one camera, anywhere on the body
        for k in ('getCamOffset', 'getCamRotation'): tab[k] = lambda i, v=t[k](): copyv(v)
    if multi:
        for k in tab: con[AP + 'AbsoluteMultiAdapterBase::' + k] = lambda it, f, this, a, g=tab[k]: ('v', g(it.rv(a[0])))
    it = ck.interp(contracts=con, abstract=getters(tab), virtual_hook=conv_, nodef=True, red=nm)
    f = ck.prog.find(cls + '::computeModelCoefficients')
    def th():
        it.assume(le(I(4), n_))
        p = it.symval(cls, 'problem')
        if multi: p.f['_asCentral'] = TRUE if alg else FALSE
        else: p.f['_algorithm'] = I(ck.prog.enum_value(alg)) if isinstance(alg, str) else alg
        this = it.alloc(p)
        ad = it.read_struct(this).f['_adapter'].lv
        it.call(it.prog.find(AP + 'AbsoluteAdapterBase::setR'), ad, [('lv', it.alloc(copyv(prior)))])
        v = Vec('std::vector<int>', ('fn', var('cameras', 'I'), lambda c: Vec('int', ('fn', app('sample[].len', (c,), 'I'), lambda k: app('sample[]', (c, k), 'I'))))) if multi else Vec('int', ('fn', n_, ix))
        out = it.alloc(symmat(3, 4, 'before'))
        r = it.rv(it.call(f, this, [('lv', it.alloc(v)), ('lv', out)]))
        return r, it.read(out)
    outs = [(st, v) for st, k, v in it.explore(th)]
    ck.cover(outs)
    listed(ck, calls, solver, None)
    ck.record('%s: one solver call' % ck.cur, 'proved' if len(calls) >= 1 else 'refuted', 'symbolic execution', 0)
    o, C = tab['getCamOffset'](I(0)), tab['getCamRotation'](I(0))
    base = (lambda k: join(prior, symvec(3, 'position'))) if solver == 'p2p' else SOL
    cand = (lambda k: body(base(k), o, C)) if conv else base
    i3 = ix(I(3))
    score = None if one else lambda k: c10.expected(cand(k), tab['getPoint'](i3), tab['getCamOffset'](i3), tab['getCamRotation'](i3), tab['getBearingVector'](i3))
    for st, (r, out) in outs: chosen(ck, it, nm, st, r, out, cand, I(1) if one else L, score)
    ck.obligations(it)

# ------------------------------------------------------------------ relative pose
RB = RP + 'RelativeAdapterBase'
CENTRAL = SR + 'CentralRelativePoseSacProblem'
def reltab(one):
    t = c11.table()
    tab = {k: t[k] for k in ('getBearingVector1', 'getBearingVector2', 'getCamOffset1', 'getCamOffset2', 'getCamRotation1', 'getCamRotation2')}
    if one:
        for k in ('getCamOffset1', 'getCamOffset2', 'getCamRotation1', 'getCamRotation2'): tab[k] = lambda i, v=t[k](): copyv(v)
    return tab
def multi_sample(): return Vec('std::vector<int>', ('fn', var('cameras', 'I'), lambda c: Vec('int', ('fn', app('sample[].len', (c,), 'I'), lambda k: app('sample[]', (c, k), 'I')))))
def relative(ck, cls, con, tab, prep, check, model, least, multi=False, red=None, decomp=None, sample=None, hook=None, pairs=None, **cfg):
    """run computeModelCoefficients on an arbitrary sample; check(st, returned, model, priors)"""
    def conv_(it, base, st, e, f):
        if hook:
            r = hook(it, base, st, e, f)
            if r is not NotImplemented: return r
        if e['name'] != 'convertMultiIndices': return NotImplemented
        a = it.rv(it.arg_ref(e['args'][0]))
        if not (a.kind[0] == 'fn' and a.len is var('cameras', 'I')): raise Unsupported('convertMultiIndices of something else than the sample')
        it.trusted.add('contract of convertMultiIndices: the serialized sample (C05)')
        return ('v', Vec('int', ('fn', n_, ix)))
    def abstract(it, st, name, e, args, ts):
        if name == 'convertMultiIndex': return ('v', app('serial', ts, 'I'))
        if name == 'getNumberPairs' and pairs: return ('v', I(pairs))
        if name in ('getNumberCorrespondences', 'getNumberPairs'):
            r = app('adapter.' + name, ts, 'I') if ts else var('adapter.' + name, 'I'); it.assume(le(I(0), r)); return ('v', r)
        return getters(tab)(it, st, name, e, args, ts)
    con = dict(con); con[c09.T_ + 'triangulate2'] = c11.tri_contract(tab, red.seal if red else None)
    from .c20 import CAY
    con.update(CAY)
    if pairs: con['rand'] = lambda it, f, this, a: ('v', I(2147483647))
    if multi:
        for k in tab: con[RP + 'RelativeMultiAdapterBase::' + k] = lambda it, f, this, a, g=tab[k]: ('v', g(it.rv(a[0])))
    it = ck.interp(contracts=con, abstract=abstract, virtual_hook=conv_, nodef=True, red=red, decomp=decomp, **cfg)
    f = ck.prog.find(cls + '::computeModelCoefficients')
    R0 = symmat(3, 3, 'priorR'); t0 = symvec(3, 'priort')
    def th():
        it.assume(le(I(least), n_))
        kk = var('pair', 'I'); it.assume(le(I(0), mksum(kk, app('adapter.getNumberCorrespondences', (kk,), 'I'), I(pairs) if pairs else var('adapter.getNumberPairs', 'I'))))
        p = it.symval(cls, 'problem'); prep(it, p)
        this = it.alloc(p)
        if '_adapter' in p.f:
            ad = it.read_struct(this).f['_adapter'].lv
            if not cls.endswith('PointCloudSacProblem'):
                for s_, v in (('setR12', R0), ('sett12', t0)): it.call(it.prog.find(RB + '::' + s_), ad, [('lv', it.alloc(copyv(v)))])
        v = sample(it) if sample else multi_sample() if multi else Vec('int', ('fn', n_, ix))
        out = it.alloc(model(it))
        r = it.rv(it.call(f, this, [('lv', it.alloc(v)), ('lv', out)]))
        return r, it.read(out)
    outs = [(st, v) for st, k, v in it.explore(th)]
    ck.cover(outs)
    for st, (r, out) in outs: check(it, st, r, out, R0, t0)
    ck.obligations(it)
POSE = lambda it: symmat(3, 4, 'before')
def simple(ck, cls, solver, result, want, model=POSE, prep=lambda it, p: None, multi=False):
    calls = []
    con = ask(solver, calls, lambda it, nm, args: result(it, nm, args))
    def check(it, st, r, out, R0, t0):
        ck.require('success is reported', TRUE if r is TRUE else FALSE, st.pc)
        want(ck, st, out, R0, t0)
    relative(ck, cls, con, reltab(False), prep, check, model, 2, multi)
    listed(ck, calls, solver[0].split('::')[-1], None)
    for pc, nm, l, bs in calls:
        if nm == 'twopt': ck.require('the solver is told to apply the known rotation', TRUE if bs == [TRUE] else FALSE, pc)
    ck.record('%s: one solver call' % ck.cur, 'proved' if len(calls) == 1 else 'refuted', 'symbolic execution', 0)
def noncentral(ck, cls, alg, multi):
    S34 = symmat(3, 4, 'solver.pose'); S41 = symvec(4, 'solver.t'); S33 = symmat(3, 3, 'solver.R')
    prep = lambda it, p: p.f.update({'_asCentral': FALSE, '_algorithm': I(ck.prog.enum_value(cls + '::' + alg))})
    if alg == 'SEVENTEENPT':
        return simple(ck, cls, [RP + 'seventeenpt'], lambda it, nm, a: ('v', copyv(S34)), lambda ck, st, out, R0, t0: ck.require_mat('the model is the pose of the solver', out, S34, st.pc), prep=prep, multi=multi)
    if alg == 'GE':
        def ge(it, nm, a):
            o = it.read_struct(a[2][1]) if a[2][0] == 'lv' else None
            if o is None: raise Unsupported('output of ge')
            o = copyv(o); o.f['rotation'] = copyv(S33); o.f['translation'] = copyv(S41)
            it.write(a[2][1], o); return None
        want = lambda ck, st, out, R0, t0: ck.require_mat('the model is the pose of the solver', out, join(S33, Mat(3, 1, S41.d[:3])), st.pc)
        return simple(ck, cls, [RP + 'ge'], ge, want, prep=prep, multi=multi)
def as_central(ck, cls, multi):
    """a central solver for the one camera of the body"""
    calls = []; tab = reltab(True); Mc = symmat(3, 4, 'central'); ok = var('central.ok', 'B')
    t = c11.table()
    if multi:     # both views are seen by the same camera
        for k in ('getCamOffset', 'getCamRotation'): 
            for v in '12': tab[k + v] = lambda i, k=k: copyv(t[k + '1']())
            tab[k] = tab[k + '1']
    def central(it, f, this, args):
        p = it.read_struct(this)
        alg = p.f.get('_algorithm')
        calls.append((list(it.st.pc), copyv(it.rv(args[0])), alg))
        it.trusted.add('contract of CentralRelativePoseSacProblem::computeModelCoefficients: success with an arbitrary relative pose of the cameras, or failure')
        if not it.decide(ok): return ('v', FALSE)
        it.write(args[1][1], copyv(Mc)); return ('v', TRUE)
    def check(it, st, r, out, R0, t0):
        if r is FALSE: ck.require('failure of the central problem is passed on', not_(ok), st.pc); return
        ck.require('success of the central problem is passed on', and_(TRUE if r is TRUE else r, ok), st.pc)
        Rc, tc = split(Mc); i = I(0)
        o1, C1, o2, C2 = tab['getCamOffset1'](i), tab['getCamRotation1'](i), tab['getCamOffset2'](i), tab['getCamRotation2'](i)
        B = mm(C1, Rc, tr(C2))
        ck.require_mat('the model is the relative pose of the body', out, join(B, msub(madd(o1, mm(C1, tc)), mm(B, o2))), st.pc)
    relative(ck, cls, {CENTRAL + '::computeModelCoefficients': central}, tab, lambda it, p: p.f.update({'_asCentral': TRUE}), check, POSE, 8, multi)
    k = var('k', 'I')
    for pc, l, alg in calls:
        ck.require('the central problem gets the sample', and_(eq(l.len, n_), eq(l.get(k), ix(k))), pc + [le(I(0), k), lt(k, n_)])
def normal(tab, k, Rm):
    """generalised epipolar normal of a correspondence: rows of the system in the translation (t, 1)"""
    f1 = mm(tab['getCamRotation1'](k), tab['getBearingVector1'](k)); f2 = mm(tab['getCamRotation2'](k), tab['getBearingVector2'](k))
    v1, v2 = tab['getCamOffset1'](k), tab['getCamOffset2'](k)
    n3 = mat_cross(f1, mm(Rm, f2))
    g4 = mat_dot(f1, mm(msub(mm(skew(v1), Rm), mm(Rm, skew(v2))), f2))
    return Mat(4, 1, n3.d + [g4])
def sixpt(ck, cls, multi, sizes=None):
    nm = Namer(20, True); tab = reltab(False); calls = []; dec = []
    ROT = lambda k: absmat('rotation', k, r=3, c=3)
    def result(it, q, args):
        it.assume(le(I(0), L)); return ('v', Vec('opengv::rotation_t', ('fn', L, ROT)))
    def decomp(it, base, A, args):
        # the eigenvectors depend on the matrix; named after the candidate rotation they belong to
        ks = sorted({a[0] for e in A.d for a in nm.uses(e, 'rotation.')}, key=lambda x: x.id)
        if len(ks) != 1: raise Unsupported('the decomposed matrix does not belong to one rotation')
        dec.append((list(it.st.pc), A, ks[0]))
        e = lambda n, i, j=0: app('eig.%s.%d_%d' % (n, i, j), (ks[0],), 'R')
        # where the decomposition puts the eigenvector of the smallest eigenvalue (nowhere in particular for EigenSolver)
        if base == 'Eigen::SelfAdjointEigenSolver': return Struct('#' + base, {'A': A, 'V': mat_fn(4, 4, lambda i, j: e('least', i) if j == 0 else e('V', i, j)), 'D': mat_fn(4, 1, lambda i, j: e('D', i))}, {'name': base})
        if base == 'Eigen::JacobiSVD': return Struct('#' + base, {'A': A, 'V': mat_fn(4, 4, lambda i, j: e('least', i) if j == 3 else e('V', i, j)), 'U': mat_fn(4, 4, lambda i, j: e('U', i, j)), 'S': mat_fn(4, 1, lambda i, j: e('S', i))}, {'name': base})
        if base == 'Eigen::EigenSolver': return Struct('#' + base, {'A': A, 'V': mat_fn(4, 4, lambda i, j: Cx(e('V', i, j), e('Vi', i, j))), 'D': Mat(4, 1, [Cx(e('D', i), e('Di', i)) for i in range(4)])}, {'name': base})
        raise Unsupported('a %s where the contract expects an eigenvalue decomposition' % base)
    perm = lambda q: ix(I(q))
    sample = None
    if sizes:      # bounded: a concrete number of cameras and of sampled correspondences per camera; the starting camera is the last one
        allix = [app('serial', (I(c), app('sample[]', (I(c), I(k)), 'I')), 'I') for c, m in enumerate(sizes) for k in range(m)]
        sample = lambda it: Vec('std::vector<int>', ('c', [Vec('int', ('c', [app('sample[]', (I(c), I(k)), 'I') for k in range(m)])) for c, m in enumerate(sizes)]))
        def order():
            six = [calls[-1][2].get(I(q)) for q in range(6)]
            return six + [x for x in allix if x not in six]
        perm = lambda q: order()[q]
    V = lambda i, k: app('eig.least.%d_0' % i, (k,), 'R')
    cand = lambda k: join(ROT(k), Mat(3, 1, [div(V(i, k), V(3, k)) for i in range(3)]))
    extra = 9
    def score(k):
        Rm, t = split(mat_map(nm, cand(k))); r = R(0)
        for q in range(6, extra):
            i = perm(q); D, d = c11.direct(Rm, t, tab['getCamOffset1'](i), tab['getCamRotation1'](i), tab['getCamOffset2'](i), tab['getCamRotation2'](i))
            D, d = mat_map(nm, D), mat_map(nm, d)
            r = add(r, c11.score(tab['getBearingVector1'](i), tab['getBearingVector2'](i), D, d))
        return r
    def check(it, st, r, out, R0, t0): chosen(ck, it, nm, st, r, out, cand, L, score)
    prep = lambda it, p: p.f.update({'_asCentral': FALSE, '_algorithm': I(ck.prog.enum_value(cls + '::SIXPT'))})
    relative(ck, cls, ask([RP + 'sixpt'], calls, result), tab, prep, check, POSE, 9, multi, red=nm, decomp=decomp, sample=sample, pairs=len(sizes) if sizes else None)
    if sizes:
        for pc, name, l, _ in calls:
            got = [l.get(I(q)) for q in range(6)]
            ck.record('%s: the solver gets six different sampled correspondences' % ck.cur, 'proved' if l.len is I(6) and len(set(got)) == 6 and set(got) <= set(allix) else 'refuted', 'symbolic execution', 0, {'list': [str(x) for x in got]})
    else: listed(ck, calls, 'sixpt', 6)
    for pc, A, k in dec:
        G = None
        for i in range(6):
            g = mat_map(nm, normal(tab, perm(i), ROT(k))); o = outer(g, g); G = o if G is None else madd(G, o)
        for i in range(4):
            for j in range(4): require_named(ck, nm, 'the translation is computed from the generalised epipolar normals of the sample [%d,%d]' % (i, j), A[i, j], G[i, j], pc)
def eigensolver(ck):
    """the eigensolver is started within 0.1 of the prior rotation (in Cayley parameters) on the whole sample"""
    from .c20 import cayof
    cls = SR + 'EigensolverSacProblem'; O = 'opengv::EigensolverOutput'; calls = []
    after = {'translation': symvec(3, 'solver.t'), 'rotation': symmat(3, 3, 'solver.R'), 'eigenvalues': symvec(3, 'solver.D'), 'eigenvectors': symmat(3, 3, 'solver.V')}
    nr = [0]
    def rand(it, f, this, a):
        n, ks = it.newname('rand'); r = app(n, ks, 'I') if ks else var(n, 'I'); it.assume(le(I(0), r)); it.assume(le(r, I(2147483647))); return ('v', r)
    def solver(it, f, this, args):
        calls.append((list(it.st.pc), copyv(it.rv(args[1])), copyv(it.read_struct(args[2][1]).f['rotation'])))
        o = copyv(it.read_struct(args[2][1])); o.f.update({k: copyv(v) for k, v in after.items()}); it.write(args[2][1], o)
    def check(it, st, r, out, R0, t0):
        ck.require('success is reported', TRUE if r is TRUE else FALSE, st.pc)
        for k, v in after.items(): ck.require_mat('the model is the output of the solver: ' + k, out.f[k], v, st.pc)
        for pc, l, Rs in calls:
            e = Rs[0, 0]
            ok = e.op == 'app' and e.args[0] == 'cayley2rot.0_0'
            if not ok: raise Unsupported('start rotation')
            ck.require_mat('the start is a rotation made from Cayley parameters', Rs, mat_fn(3, 3, lambda i, j: app('cayley2rot.%d_%d' % (i, j), e.args[1:], 'R')), pc)
            for i in range(3):
                d = sub(e.args[1 + i], cayof(R0)[i, 0])
                ck.require('the start differs from the prior by at most 0.1 in Cayley parameter %d' % i, and_(le(R(Fraction(-10001, 100000)), d), le(d, R(Fraction(10001, 100000)))), pc)
    relative(ck, cls, {RP + 'eigensolver': solver, 'rand': rand}, reltab(False), lambda it, p: None, check, lambda it: it.symval(ck_model(ck, cls), 'before'), 1)
    k = var('k', 'I')
    for pc, l, Rs in calls: ck.require('the solver gets the sample', and_(eq(l.len, n_), eq(l.get(k), ix(k))), pc + [le(I(0), k), lt(k, n_)])
    ck.record('%s: one solver call' % ck.cur, 'proved' if len(calls) == 1 else 'refuted', 'symbolic execution', 0)
def ck_model(ck, cls):
    f = ck.prog.find(cls + '::computeModelCoefficients')
    return noref(f['params'][1]['t'])
import os
def run(ck):
    only = os.environ.get('DV_ONLY', ''); contract = ck.contract
    ck.contract = lambda n, *a: contract(n, *a) if only in n else None
    ck.load(*SRC)
    E = SA + 'AbsolutePoseSacProblem::'
    for alg, s, conv in (('TWOPT', 'p2p', True), ('KNEIP', 'p3p_kneip', True), ('GAO', 'p3p_gao', True), ('EPNP', 'epnp', True), ('GP3P', 'gp3p', False)):
        ck.contract('AbsolutePoseSacProblem ' + alg, absolute, E + alg, s, conv)
    for c in (False, True): ck.contract('MultiNoncentralAbsolutePoseSacProblem' + (' as central' if c else ''), absolute, c, 'p3p_kneip' if c else 'gp3p', c, True)
    TP = symvec(3, 'solver.t'); R3 = symmat(3, 3, 'solver.R'); M4 = symmat(3, 4, 'solver.pose')
    ck.contract('TranslationOnlySacProblem', simple, SR + 'TranslationOnlySacProblem', [RP + 'twopt'], lambda it, nm, a: ('v', copyv(TP)), lambda ck, st, out, R0, t0: ck.require_mat('the model is the known rotation with the translation of the solver', out, join(R0, TP), st.pc))
    ck.contract('RotationOnlySacProblem', simple, SR + 'RotationOnlySacProblem', [RP + 'twopt_rotationOnly'], lambda it, nm, a: ('v', copyv(R3)), lambda ck, st, out, R0, t0: ck.require_mat('the model is the rotation of the solver', out, R3, st.pc), lambda it: symmat(3, 3, 'before'))
    ck.contract('PointCloudSacProblem', simple, SP + 'PointCloudSacProblem', ['opengv::point_cloud::threept_arun'], lambda it, nm, a: ('v', copyv(M4)), lambda ck, st, out, R0, t0: ck.require_mat('the model is the transformation of the solver', out, M4, st.pc))
    for c, m in (('NoncentralRelativePoseSacProblem', False), ('MultiNoncentralRelativePoseSacProblem', True)):
        for alg in ('SEVENTEENPT', 'GE'): ck.contract('%s %s' % (c, alg), noncentral, SR + c, alg, m)
        ck.contract(c + ' as central', as_central, SR + c, m)
    ck.contract('NoncentralRelativePoseSacProblem SIXPT', sixpt, SR + 'NoncentralRelativePoseSacProblem', False)
    ck.contract('MultiNoncentralRelativePoseSacProblem SIXPT (bounded: two cameras with 4 and 5 sampled correspondences)', sixpt, SR + 'MultiNoncentralRelativePoseSacProblem', True, (4, 5))
    ck.contract('EigensolverSacProblem', eigensolver)
    ck.assume += ['the solvers are used by arbitrary contracts here (what they return is C06, C08, C12–C16, C19–C21)',
                  'the first eigenvector of a SelfAdjointEigenSolver (the last right singular vector) belongs to the smallest eigenvalue', 'rand() returns 0..RAND_MAX; the six-point problem of the multi-camera class is proved for two cameras with four and five sampled correspondences only (bounded)']
    ck.native('c22.cpp')
