"""C05 adapters: every getter returns the supplied data of the addressed correspondence.

Each adapter is constructed from arbitrary data by each of its constructors and every getter is evaluated at an
arbitrary valid index; the specification is the data itself."""
from .lib import *
from dv import loops as lp
ABS = ['CentralAbsoluteAdapter', 'NoncentralAbsoluteAdapter', 'NoncentralAbsoluteMultiAdapter', 'MACentralAbsolute', 'MANoncentralAbsolute']
REL = ['CentralRelativeAdapter', 'CentralRelativeWeightingAdapter', 'CentralRelativeMultiAdapter', 'NoncentralRelativeAdapter', 'NoncentralRelativeMultiAdapter',
       'MACentralRelative', 'MANoncentralRelative', 'MANoncentralRelativeMulti']
PC = ['PointCloudAdapter', 'MAPointCloud']
SRC = ['src/absolute_pose/%s.cpp' % x for x in ABS] + ['src/relative_pose/%s.cpp' % x for x in REL] + ['src/point_cloud/%s.cpp' % x for x in PC]
V3 = 'Eigen::Matrix<double, 3, 1, 0, 3, 1>'; M3 = 'Eigen::Matrix<double, 3, 3, 0, 3, 3>'
A_, R_, P_ = 'opengv::absolute_pose::', 'opengv::relative_pose::', 'opengv::point_cloud::'
i = var('i', 'I'); F = var('F', 'I'); K = var('K', 'I')
ln = lambda n: var(n + '.len', 'I')
# data containers by role: kind, element
vecs = lambda n, k=None: absvec(n, k)
def vec3s(n): return lambda it: Vec(V3, ('fn', ln(n), lambda k: absvec(n, k)))
def mat3s(n): return lambda it: Vec(M3, ('fn', ln(n), lambda k: absmat(n, k)))
def scal(n): return lambda it: Vec('double', ('fn', ln(n), lambda k: app(n, (k,), 'R')))
def ints(n): return lambda it: Vec('int', ('fn', ln(n), lambda k: app(n, (k,), 'I')))
def raw(n): return lambda it: Ptr(it.alloc(Vec('double', ('fn', ln(n), lambda k: app(n, (k,), 'R')))))
def cnt(n): return lambda it: var(n, 'I')
def per(n):     # one list of vectors per camera
    return lambda it: Vec('std::shared_ptr<std::vector<%s>>' % V3, ('fn', ln(n), lambda f: Struct('#box', {'v': Vec(V3, ('fn', plen(n, f), lambda k: absvec(n, f, k)))})))
def plen(n, f): return app(n + '[].len', (f,), 'I')
def perraw(n): return lambda it: Vec('double *', ('fn', ln(n), lambda f: Vec('double', ('fn', plen(n, f), lambda k: app(n, (f, k), 'R')))))
def counts(n): return lambda it: Vec('int', ('fn', ln(n), lambda f: plen(n, f)))     # numbers of correspondences: not negative
t0, R0 = symvec(3, 'prior.t'), symmat(3, 3, 'prior.R')
prt = lambda it: copyv(t0); prR = lambda it: copyv(R0)
one = lambda *k: R(1)
zero = lambda *k: zeros(3, 1)
idm = lambda *k: ident(3)
at = lambda n: (lambda k: absvec(n, k))
mt = lambda n: (lambda k: absmat(n, k))
w3 = lambda n, o=0, s=3: (lambda k: Mat(3, 1, [app(n, (add(mul(I(s), k), I(o + j)),), 'R') for j in range(3)]))
cam = lambda n: (lambda k: app(n, (k,), 'I'))
def has(n): return [(lambda k, n=n: and_(le(I(0), k), lt(k, ln(n))))]
SPECS = {}
def spec(cls, roles, number, getters, need=(), priors=True, absolute=None):
    SPECS[cls] = dict(roles=roles, number=number, getters=getters, need=need, priors=priors, absolute=absolute)
spec(A_ + 'CentralAbsoluteAdapter', [vec3s('b'), vec3s('p')], ln('b'),
     {'getBearingVector': at('b'), 'getPoint': at('p'), 'getWeight': one, 'getCamOffset': zero, 'getCamRotation': idm}, ['b', 'p'])
spec(A_ + 'NoncentralAbsoluteAdapter', [vec3s('b'), ints('cc'), vec3s('p'), vec3s('o'), mat3s('r')], ln('b'),
     {'getBearingVector': at('b'), 'getPoint': at('p'), 'getWeight': one, 'getCamOffset': lambda k: absvec('o', cam('cc')(k)), 'getCamRotation': lambda k: absmat('r', cam('cc')(k))},
     ['b', 'cc', 'p', ('cc', 'o'), ('cc', 'r')])
spec(A_ + 'MACentralAbsolute', [raw('p'), raw('b'), cnt('np'), cnt('nb')], var('nb', 'I'),
     {'getBearingVector': w3('b'), 'getPoint': w3('p'), 'getWeight': one, 'getCamOffset': zero, 'getCamRotation': idm}, [('#', 'nb', 'b', 3), ('#', 'np', 'p', 3)], False)
spec(A_ + 'MANoncentralAbsolute', [raw('p'), raw('b'), cnt('np'), cnt('nb')], var('nb', 'I'),
     {'getBearingVector': w3('b', 0, 6), 'getPoint': w3('p'), 'getWeight': one, 'getCamOffset': w3('b', 3, 6), 'getCamRotation': idm}, [('#', 'nb', 'b', 6), ('#', 'np', 'p', 3)], False)
rel = lambda b1, b2, w, o1, r1, o2, r2: {'getBearingVector1': b1, 'getBearingVector2': b2, 'getWeight': w, 'getCamOffset1': o1, 'getCamRotation1': r1, 'getCamOffset2': o2, 'getCamRotation2': r2}
spec(R_ + 'CentralRelativeAdapter', [vec3s('b1'), vec3s('b2')], ln('b2'), rel(at('b1'), at('b2'), one, zero, idm, zero, idm), ['b1', 'b2'])
spec(R_ + 'CentralRelativeWeightingAdapter', [vec3s('b1'), vec3s('b2'), scal('w')], ln('b2'), rel(at('b1'), at('b2'), lambda k: app('w', (k,), 'R'), zero, idm, zero, idm), ['b1', 'b2', 'w'])
spec(R_ + 'NoncentralRelativeAdapter', [vec3s('b1'), vec3s('b2'), ints('c1'), ints('c2'), vec3s('o'), mat3s('r')], ln('b2'),
     rel(at('b1'), at('b2'), one, lambda k: absvec('o', cam('c1')(k)), lambda k: absmat('r', cam('c1')(k)), lambda k: absvec('o', cam('c2')(k)), lambda k: absmat('r', cam('c2')(k))),
     ['b1', 'b2', 'c1', 'c2', ('c1', 'o'), ('c2', 'o'), ('c1', 'r'), ('c2', 'r')])
spec(R_ + 'MACentralRelative', [raw('b1'), raw('b2'), cnt('n1'), cnt('n2')], var('n2', 'I'), rel(w3('b1'), w3('b2'), one, zero, idm, zero, idm), [('#', 'n1', 'b1', 3), ('#', 'n2', 'b2', 3)], False)
spec(R_ + 'MANoncentralRelative', [raw('b1'), raw('b2'), cnt('n1'), cnt('n2')], var('n2', 'I'),
     rel(w3('b1', 0, 6), w3('b2', 0, 6), one, w3('b1', 3, 6), idm, w3('b2', 3, 6), idm), [('#', 'n1', 'b1', 6), ('#', 'n2', 'b2', 6)], False)
spec(P_ + 'PointCloudAdapter', [vec3s('p1'), vec3s('p2')], ln('p2'), {'getPoint1': at('p1'), 'getPoint2': at('p2'), 'getWeight': one}, ['p1', 'p2'])
spec(P_ + 'MAPointCloud', [raw('p1'), raw('p2'), cnt('n1'), cnt('n2')], var('n2', 'I'), {'getPoint1': w3('p1'), 'getPoint2': w3('p2'), 'getWeight': one}, [('#', 'n1', 'p1', 3), ('#', 'n2', 'p2', 3)], False)
def need(sp, k):
    """the index is valid in every list, camera indices name existing cameras, arrays have the announced size"""
    out = [le(I(0), k)]
    for x in sp['need']:
        if isinstance(x, str): out.append(lt(k, ln(x)))
        elif x[0] == '#': out += [lt(k, var(x[1], 'I')), eq(ln(x[2]), mul(I(x[3]), var(x[1], 'I')))]
        else: c = cam(x[0])(k); out += [le(I(0), c), lt(c, ln(x[1]))]
    return out
def ctors(ck, cls):
    r = [f for f in ck.prog.fn.values() if f.get('ctor') and f.get('cls') == cls and f['params'] and not (len(f['params']) == 1 and cls.split('::')[-1] in f['params'][0]['t'])]
    return sorted(r, key=lambda f: len(f['params']))
def build_(it, cls, f, roles):
    av = []
    if len(f['params']) != len(roles): raise Unsupported('constructor of %s with %d parameters' % (cls, len(f['params'])))
    for p, r in zip(f['params'], roles):
        v = r(it); av.append(('lv', it.alloc(v)) if ip.is_ref(p['t']) else ('v', v))
    lv = it.alloc(it.blank(cls)); it.call(f, lv, av)
    return lv
def method(it, cls, name, nargs, ptypes=None):
    """the most derived definition of a method"""
    for b in it.prog.bases(cls):
        c = [f for f in it.prog.fn.values() if f.get('cls') == b and f['q'].split('::')[-1] == name and len(f['params']) == nargs]
        if ptypes: c = [f for f in c if ptypes in f['params'][0]['t']]
        if c: return c[0]
    raise Unsupported('%s has no %s' % (cls, name))
def ask(it, cls, this, name, *args):
    f = method(it, cls, name, len(args))
    r = it.call(f, this, [('lv', it.alloc(copyv(a))) if ip.is_ref(p['t']) else ('v', copyv(a)) for p, a in zip(f['params'], args)])
    return it.rv(r) if r is not None else None
def same_(ck, what, a, b, pc):
    if isinstance(b, Mat): ck.require_mat(what, a, b, pc)
    else: ck.require(what, eq(toreal(a) if b.sort == 'R' else a, b), pc)
def priors(ck, it, cls, mk, t, Rm, pc):
    """the prior pose is kept and replaced only by its setter"""
    sfx = '' if cls.startswith(A_) else '12'
    t2, R2 = symvec(3, 'new.t'), symmat(3, 3, 'new.R')
    def th():
        this = mk(it); g = lambda n: ask(it, cls, this, n + sfx)
        a = [g('gett'), g('getR')]; ask(it, cls, this, 'sett' + sfx, t2); a += [g('gett'), g('getR')]; ask(it, cls, this, 'setR' + sfx, R2); a += [g('gett'), g('getR')]
        return Struct('#r', {str(j): x for j, x in enumerate(a)})
    outs = [(st, v) for st, k, v in it.explore(th)]
    ck.cover(outs)
    for st, v in outs:
        for j, (w, x) in enumerate((('prior translation', t), ('prior rotation', Rm), ('translation after its setter', t2), ('rotation after the translation setter', Rm), ('translation after the rotation setter', t2), ('rotation after its setter', R2))):
            ck.require_mat(w, v.f[str(j)], x, st.pc)
def adapter(ck, cls):
    sp = SPECS[cls]; cs = ctors(ck, cls)
    variants = {len(sp['roles']): ([], zeros(3, 1), ident(3))}
    if sp['priors']:
        variants[len(sp['roles']) + 1] = ([prR], zeros(3, 1), R0)
        variants[len(sp['roles']) + 2] = ([prt, prR], t0, R0)
    found = set()
    for f in cs:
        if len(f['params']) not in variants: raise Unsupported('unexpected constructor of %s' % cls)
        found.add(len(f['params']))
        extra, t, Rm = variants[len(f['params'])]
        mk = lambda it: build_(it, cls, f, sp['roles'] + extra)
        it = ck.interp()
        priors(ck, it, cls, mk, t, Rm, [])
        for name, want in sp['getters'].items():
            def th():
                for c in need(sp, i): it.assume(c)
                return ask(it, cls, mk(it), name, i)
            outs = [(st, v) for st, k, v in it.explore(th)]
            ck.cover(outs)
            for st, v in outs: same_(ck, '%s(i) is the supplied value (constructor with %d arguments)' % (name, len(f['params'])), v, want(i), st.pc)
        def th():
            for c in need(sp, I(0)): it.assume(c)
            return ask(it, cls, mk(it), 'getNumberCorrespondences')
        for st, k, v in it.explore(th): ck.require('number of correspondences', eq(v, sp['number']), st.pc)
        ck.obligations(it)
    ck.record('%s: all constructors present' % cls, 'proved' if found == set(variants) else 'refuted', 'enumeration of constructors', 0)
# ---------------------------------------------------------------- cameras
MULTI = {}
def mspec(cls, roles, n, cams, pair, single, need, absolute):
    """n(f): correspondences of camera f; pair: per-camera getters; single: name of the flat getter -> (pair getter, arguments)"""
    MULTI[cls] = dict(roles=roles, n=n, cams=cams, pair=pair, need=need, absolute=absolute)
p2 = lambda n: (lambda f, k: absvec(n, f, k))
pr = lambda n: (lambda f, k: Mat(3, 1, [app(n, (f, add(mul(I(3), k), I(j))), 'R') for j in range(3)]))
mspec(A_ + 'NoncentralAbsoluteMultiAdapter', [per('b'), per('p'), vec3s('o'), mat3s('r')], lambda f: plen('b', f), ln('o'),
      {'getBearingVector': p2('b'), 'getPoint': p2('p'), 'getWeight': one, 'getMultiCamOffset': at('o'), 'getMultiCamRotation': mt('r')}, None,
      lambda f, k: [eq(ln('b'), ln('o')), eq(ln('p'), ln('o')), eq(ln('r'), ln('o')), le(I(0), f), lt(f, ln('o')), le(I(0), k), lt(k, plen('b', f)), lt(k, plen('p', f))], True)
mspec(R_ + 'CentralRelativeMultiAdapter', [per('b1'), per('b2')], lambda f: plen('b2', f), ln('b2'),
      {'getBearingVector1': p2('b1'), 'getBearingVector2': p2('b2'), 'getWeight': one, 'getCamOffset': zero, 'getCamRotation': idm}, None,
      lambda f, k: [eq(ln('b1'), ln('b2')), le(I(0), f), lt(f, ln('b2')), le(I(0), k), lt(k, plen('b2', f)), lt(k, plen('b1', f))], False)
mspec(R_ + 'NoncentralRelativeMultiAdapter', [per('b1'), per('b2'), vec3s('o'), mat3s('r')], lambda f: plen('b2', f), ln('o'),
      {'getBearingVector1': p2('b1'), 'getBearingVector2': p2('b2'), 'getWeight': one, 'getCamOffset': at('o'), 'getCamRotation': mt('r')}, None,
      lambda f, k: [eq(ln('b1'), ln('b2')), eq(ln('o'), ln('b2')), eq(ln('r'), ln('b2')), le(I(0), f), lt(f, ln('b2')), le(I(0), k), lt(k, plen('b2', f)), lt(k, plen('b1', f))], False)
mspec(R_ + 'MANoncentralRelativeMulti', [perraw('b1'), perraw('b2'), raw('o'), counts('n')], lambda f: plen('n', f), ln('n'),
      {'getBearingVector1': pr('b1'), 'getBearingVector2': pr('b2'), 'getWeight': one, 'getCamOffset': w3('o'), 'getCamRotation': idm}, None,
      lambda f, k: [eq(ln('b1'), ln('n')), eq(ln('b2'), ln('n')), eq(ln('o'), mul(I(3), ln('n'))), le(I(0), f), lt(f, ln('n')), le(I(0), k), lt(k, plen('n', f)),
                    eq(plen('b1', f), mul(I(3), plen('n', f))), eq(plen('b2', f), mul(I(3), plen('n', f)))], False)
FLAT = {True: {'getBearingVector': 'getBearingVector', 'getPoint': 'getPoint', 'getWeight': 'getWeight', 'getCamOffset': 'getMultiCamOffset', 'getCamRotation': 'getMultiCamRotation'},
        False: {'getBearingVector1': 'getBearingVector1', 'getBearingVector2': 'getBearingVector2', 'getWeight': 'getWeight', 'getCamOffset1': 'getCamOffset', 'getCamRotation1': 'getCamRotation', 'getCamOffset2': 'getCamOffset', 'getCamRotation2': 'getCamRotation'}}
def arity(g): return 1 if 'Cam' in g else 2
def rs(it, v, pc): return lp.resolve_v(it, v, pc)
def cams(ck, cls):
    sp = MULTI[cls]; n = sp['n']; j = fresh('j', 'I')
    f = [x for x in ctors(ck, cls) if len(x['params']) == len(sp['roles'])]
    if len(f) != 1: raise Unsupported('constructor of %s' % cls)
    mk = lambda it: build_(it, cls, f[0], sp['roles'])
    off = mksum(j, n(j), F)
    frame = 'multiFrameIndex' if sp['absolute'] else 'multiPairIndex'
    it = ck.interp()
    priors(ck, it, cls, mk, zeros(3, 1), ident(3), [])
    # prefix sums of the (non-negative) numbers of correspondences; by induction, base and step are discharged here
    N = var('N', 'I'); S = lambda m_: mksum(j, n(j), m_); un = lambda t: lp.unroll_sums(t, lambda m_: True)
    ck.require('lemma, base: 0 <= offset', le(I(0), S(I(0))), [])
    ck.require('lemma, step: 0 <= offset', le(I(0), un(S(add(N, I(1))))), [le(I(0), N), le(I(0), S(N)), le(I(0), n(N))])
    ck.require('lemma, base: offset + index < offset of the next camera', lt(add(off, K), un(S(add(F, I(1))))), [le(I(0), F), le(I(0), K), lt(K, n(F))])
    ck.require('lemma, step: offset + index < offset of every later camera', lt(add(off, K), un(S(add(N, I(1))))), [lt(F, N), lt(add(off, K), S(N)), le(I(0), n(N))])
    def lemma(it):
        out = [le(I(0), off)] + [lt(add(off, K), S(c)) for c in (sp['cams'], ln('b'), ln('b1'), ln('b2'), ln('n'))]
        for idn, (k_, n_) in it.concats.items():     # the place offset + K lies in block F by the lemma
            if un(sub(mksum(k_, n_, F), off)) is I(0): out += [eq(app('block#' + idn, (add(off, K),), 'I'), F), eq(app('within#' + idn, (add(off, K),), 'I'), K)]
        return out
    def go(th2, label):
        def th():
            for c in sp['need'](F, K): it.assume(c)
            this = mk(it)
            for c in lemma(it): it.assume(c)
            return th2(this)
        outs = [(st, v) for st, k, v in it.explore(th)]
        ck.cover(outs)
        return outs
    for name, want in sp['pair'].items():
        a = (F, K)[:arity(name)]
        for st, v in go(lambda this: ask(it, cls, this, name, *a), name): same_(ck, '%s(camera, index) is the supplied value' % name, rs(it, v, st.pc), want(*a), st.pc)
    for st, v in go(lambda this: ask(it, cls, this, 'getNumberCorrespondences', F), ''): ck.require('number of correspondences of a camera', eq(v, n(F)), st.pc)
    for st, v in go(lambda this: ask(it, cls, this, 'getNumberCorrespondences'), ''): ck.require('total number of correspondences', eq(v, mksum(j, n(j), sp['cams'])), st.pc)
    for st, v in go(lambda this: ask(it, cls, this, 'getNumberFrames' if sp['absolute'] else 'getNumberPairs'), ''): ck.require('number of cameras', eq(v, sp['cams']), st.pc)
    # serialized indices: camera after camera without gaps, so the conversion is a bijection onto 0..total-1
    for st, v in go(lambda this: ask(it, cls, this, 'convertMultiIndex', F, K), ''): ck.require('serialized index = correspondences of the earlier cameras + index', eq(v, add(off, K)), st.pc)
    for g, w in ((frame, F), ('multiCorrespondenceIndex', K)):
        for st, v in go(lambda this: ask(it, cls, this, g, add(off, K)), ''): ck.require('%s inverts the serialization' % g, eq(rs(it, v, st.pc), w), st.pc)
    for g, p in FLAT[sp['absolute']].items():
        a = (F, K)[:arity(p)]
        for st, v in go(lambda this: ask(it, cls, this, g, add(off, K)), ''): same_(ck, '%s(serialized index) is the value supplied for camera and index' % g, rs(it, v, st.pc), sp['pair'][p](*a), st.pc)
    # lists of indices
    m = lambda f_: app('list[].len', (f_,), 'I'); e = lambda f_, k_: app('list', (f_, k_), 'I')
    lst = Vec('std::vector<int>', ('fn', sp['cams'], lambda f_: Vec('int', ('fn', m(f_), lambda k_: e(f_, k_)))))
    mo = mksum(j, m(j), F)
    for st, v in go(lambda this: (it.assume(lt(K, m(F))), ask(it, cls, this, 'convertMultiIndices', lst))[1], ''):
        ck.require('one serialized index per listed pair', eq(v.len, mksum(j, m(j), sp['cams'])), st.pc)
        ck.require('the K-th entry of camera F is serialized in place', eq(rs(it, v.get(add(mo, K)), st.pc), add(off, e(F, K))), st.pc)
    ck.obligations(it)
def run(ck):
    ck.load(*SRC)
    for c in SPECS: ck.contract(c, adapter, c)
    for c in MULTI: ck.contract(c, cams, c)
    ck.native('c05.cpp', srcs=SRC)
