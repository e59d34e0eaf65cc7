"""C03 samples are distinct members of the index set, of the required size."""
from .sac import *
from dv import terms as tm
INTMAX = I(2147483647)
def perm0(n, *c): return lambda k: app('perm#0', c + (n, k), 'I')
def pool1(): p = perm0(n1); return Vec('int', ('fn', n1, lambda k: i1(p(k))))
def pool2(): return Vec('std::vector<int>', ('fn', n1, lambda f: Vec('int', ('fn', nf(f), lambda k: i2(f, perm0(nf(f), f)(k))))))
def position(it, x, pc):
    """x = indices(p): p"""
    x = lp.resolve(it, x, pc)
    if x.op == 'app' and x.args[0] == 'indices': return x.args[-1]
    return None
def rnd(it, f, this, args):
    it.trusted.add('contract of rnd(): a value of 0..INT_MAX (std::uniform_int_distribution as constructed)')
    r = it.symval('int', *it.newname('random')); it.st.pc += [le(I(0), r), le(r, INTMAX)]
    return ('v', r)
def virt(it, base, st, e, f):
    nm = e['name']
    if nm == 'isSampleGood':
        for x in e['args']: it.arg_ref(x)
        it.trusted.add('isSampleGood: an arbitrary verdict that changes nothing')
        return ('v', it.symval('bool', *it.newname('good')))
    if nm == 'getSampleSize':
        it.trusted.add('getSampleSize: a non-negative constant of the problem'); return ('v', ssize)
    if nm == 'getSampleSizes':
        it.trusted.add('getSampleSizes: one non-negative size per camera')
        return ('v', Vec('int', ('fn', n1, lambda f: szf(f))))
    return NotImplemented
ssize = var('sample size', 'I')
def szf(f): return app('sample size.len', (f,), 'I')
A, B = var('a', 'I'), var('b', 'I')
def distinct(ck, it, v, n, bound, pc, what):
    """v[0..n-1] are indices(p) for distinct p within bound"""
    pa = pc + [le(I(0), A), lt(A, n)]
    p = position(it, v.get(A), pa)
    ck.require('%s: every entry is an entry of the index set' % what, TRUE if p is not None else FALSE, pa)
    if p is None: return
    ck.require('%s: the position exists' % what, and_(le(I(0), p), lt(p, bound)), pa)
    pab = pa + [le(I(0), B), lt(B, n), not_(eq(A, B))]
    pA, pB = position(it, v.get(A), pab), position(it, v.get(B), pab)
    if pA is None or pB is None: ck.require('%s: every entry is an entry of the index set' % what, FALSE, pab); return
    ck.require('%s: different entries are different positions' % what, not_(eq(pA, pB)), pab)
def reach(ck, it, pre):
    if not it.perms: ck.require('the pool is shuffled by exchanging entries', FALSE, [])
    for ex, k, N, L in it.perms:
        for a, b, pc in ex:
            x, y = (a, b) if not any(t.op == 'app' and t.args[0].startswith('random') for t in tm.atoms_of(a)) else (b, a)
            rs = [t for t in tm.atoms_of(y) if t.op in ('app', 'var') and t.args[0].startswith('random')]
            if len(rs) != 1: continue
            q = var('target', 'I')
            pc2 = [c for c in pc if not any(t is rs[0] for t in tm.atoms_of(c))] + [le(x, q), lt(q, L), le(L, INTMAX)]
            r = sub(q, x)
            ck.require('place i of the sample is filled in step i', eq(x, k), pc2)
            ck.require('some random number brings any remaining entry to the current place', and_(le(I(0), r), le(r, INTMAX), eq(tm.subst(y, {rs[0]: r}), q)), pc2)
def draw(ck):
    it = ck.interp(virtual_hook=virt, contracts={SCP + '::rnd': rnd})
    f = it.prog.find(SCP + '::drawIndexSample')
    def th():
        for c in (le(I(0), ssize), le(ssize, n1), le(n1, INTMAX)): it.assume(c)
        this = problem(it, VP, indices1(), pool1())
        s = it.alloc(Vec('int', ('fn', ssize, lambda k: app('before', (k,), 'I'))))
        it.call(f, this, [('lv', s)])
        return it.read(s), it.read_struct(this).f['shuffled_indices_']
    outs = [(st, v) for st, k, v in it.explore(th)]
    ck.cover(outs)
    for st, (s, pool) in outs:
        ck.require('sample size', eq(s.len, ssize), st.pc)
        distinct(ck, it, s, ssize, n1, st.pc, 'sample')
        ck.require('the pool keeps its size', eq(pool.len, n1), st.pc)
        distinct(ck, it, pool, n1, n1, st.pc, 'pool')
    reach(ck, it, st.pc)
    ck.obligations(it)
def samples(ck):
    it = ck.interp(virtual_hook=virt, contracts={SCP + '::rnd': rnd})
    f = it.prog.find(SCP + '::getSamples')
    def th():
        for c in (le(I(0), ssize), le(I(0), n1), le(n1, INTMAX)): it.assume(c)
        this = problem(it, VP, indices1(), pool1())
        s = it.alloc(it.symval('std::vector<int>', 'before')); n = it.alloc(var('iterations', 'I'))
        it.call(f, this, [('lv', n), ('lv', s)])
        return it.read(s), it.read_struct(this).f['shuffled_indices_'], it.read(n)
    outs = [(st, v) for st, k, v in it.explore(th)]
    ck.cover(outs, 3)
    full = 0
    for st, (s, pool, iters) in outs:
        empty = isnum(s.len) and nv(s.len) == 0
        if not empty:
            full += 1
            ck.require('a sample has the required size', eq(s.len, ssize), st.pc)
            distinct(ck, it, s, ssize, n1, st.pc, 'sample')
            ck.require('the iteration count is untouched when a sample was drawn', eq(iters, var('iterations', 'I')), st.pc)
        else: ck.require('without a sample the loop is told to stop, or only the sample is empty', implies(lt(n1, ssize), eq(iters, INTMAX)), st.pc)
        ck.require('the pool keeps its size', eq(pool.len, n1), st.pc)
        distinct(ck, it, pool, n1, n1, st.pc, 'pool')
    ck.require('samples are drawn', TRUE if full else FALSE, [])
    ck.obligations(it)
F = var('camera', 'I')
def cams(c): return [le(I(0), c), lt(c, n1)]
def sane(it):
    # every camera: 0 <= number of correspondences <= INT_MAX
    c = fresh('c', 'I')
    return [le(I(0), n1), le(n1, INTMAX), forall(c, implies(and_(*cams(c)), and_(le(I(0), nf(c)), le(nf(c), INTMAX), le(I(0), szf(c)), le(szf(c), INTMAX))))]
def sane_at(c): return [le(I(0), nf(c)), le(nf(c), INTMAX), le(I(0), szf(c)), le(szf(c), INTMAX)]
def multi_draw(ck):
    it = ck.interp(virtual_hook=virt, contracts={MCP + '::rnd': rnd})
    f = it.prog.find(MCP + '::drawIndexSample')
    def th():
        for c in sane(it): it.assume(c)
        c = fresh('c', 'I'); it.assume(forall(c, implies(and_(*cams(c)), le(szf(c), nf(c)))))
        this = problem(it, VMP, indices2(), pool2())
        s = it.alloc(Vec('std::vector<int>', ('fn', n1, lambda j: Vec('int', ('fn', szf(j), lambda k: app('before', (j, k), 'I'))))))
        it.call(f, this, [('lv', s)])
        return it.read(s), it.read_struct(this).f['shuffled_indices_']
    outs = [(st, v) for st, k, v in it.explore(th)]
    ck.cover(outs)
    for st, (s, pool) in outs: after_multi(ck, it, st.pc + [le(szf(F), nf(F))], s, pool)
    reach(ck, it, st.pc)
    ck.obligations(it)
def after_multi(ck, it, pc, s, pool):
    pc = pc + cams(F) + sane_at(F)
    if s is not None:
        ck.require('one sample per camera', eq(s.len, n1), pc)
        ck.require('a sample has the required size', eq(s.get(F).len, szf(F)), pc)
        distinct(ck, it, s.get(F), szf(F), nf(F), pc, 'sample')
    ck.require('the pools keep their size', and_(eq(pool.len, n1), eq(pool.get(F).len, nf(F))), pc)
    distinct(ck, it, pool.get(F), nf(F), nf(F), pc, 'pool')
def draw_contract(it, f, this, args):
    """what multi_draw proves, for any pool and sample sizes that fit"""
    pool = it.read_struct(this).f['shuffled_indices_']; s = it.read(args[0][1])
    c = fresh('c', 'I'); rng = [le(I(0), c), lt(c, s.len)]
    it.oblige('requires', and_(eq(s.len, pool.len), forall(c, implies(and_(*rng), le(s.get(c).len, pool.get(c).len)))), 'the samples fit into the pools', f.get('ln'))
    nm, ctx = it.newname('draw'); nm = 'perm#' + nm
    def row(j):
        r = pool.get(j); return Vec('int', ('fn', r.len, lambda k: r.get(app(nm, tuple(ctx) + (j, r.len, k), 'I'))))
    it.write((this[0], this[1] + (('f', 'shuffled_indices_'),)), Vec(pool.et, ('fn', pool.len, row)))
    it.write(args[0][1], Vec(s.et, ('fn', s.len, lambda j: Vec('int', ('fn', s.get(j).len, lambda k: row(j).get(k))))))
    return None
def multi_samples(ck):
    it = ck.interp(virtual_hook=virt, contracts={MCP + '::rnd': rnd, MCP + '::drawIndexSample': draw_contract})
    f = it.prog.find(MCP + '::getSamples')
    def th():
        for c in sane(it): it.assume(c)
        this = problem(it, VMP, indices2(), pool2())
        s = it.alloc(it.symval('std::vector<std::vector<int>>', 'before')); n = it.alloc(var('iterations', 'I'))
        it.call(f, this, [('lv', n), ('lv', s)])
        return it.read(s), it.read_struct(this).f['shuffled_indices_'], it.read(n)
    outs = [(st, v) for st, k, v in it.explore(th)]
    ck.cover(outs, 3)
    full = 0
    for st, (s, pool, iters) in outs:
        empty = isnum(s.len) and nv(s.len) == 0
        full += not empty
        if not empty: ck.require('the iteration count is untouched when a sample was drawn', eq(iters, var('iterations', 'I')), st.pc)
        after_multi(ck, it, st.pc, None if empty else s, pool)
    ck.require('samples are drawn', TRUE if full else FALSE, [])
    ck.obligations(it)
def establish(ck):
    """setIndices / setUniformIndices: the pool is the index set"""
    for cls, base, multi in ((VP, SCP, False), (VMP, MCP, True)):
        for fn in ('setIndices', 'setUniformIndices'):
            it = ck.interp(virtual_hook=virt)
            f = it.prog.find(base + '::' + fn)
            def th():
                for c in sane(it): it.assume(c)
                this = it.alloc(it.symval(cls, 'problem'))
                if fn == 'setIndices': a = ('lv', it.alloc(indices2() if multi else indices1()))
                else: a = ('v', Vec('int', ('fn', n1, nf)) if multi else n1)
                it.call(f, this, [a])
                st = it.read_struct(this)
                return it.read(st.f['indices_'].lv), st.f['shuffled_indices_']
            outs = [(st, v) for st, k, v in it.explore(th)]
            ck.cover(outs)
            for st, (ix, pool) in outs:
                for v, w in ((ix, 'index set'), (pool, 'pool')):
                    ck.require('%s %s: %s size' % (base.split('::')[-1].split('<')[0], fn, w), eq(v.len, n1), st.pc)
                    pa = st.pc + cams(A)
                    if not multi: ck.require('%s: %s content' % (fn, w), eq(v.get(A), i1(A) if fn == 'setIndices' else A), pa)
                    else:
                        pa = pa + sane_at(A)
                        ck.require('%s: %s size per camera' % (fn, w), eq(v.get(A).len, nf(A)), pa)
                        ck.require('%s: %s content per camera' % (fn, w), eq(v.get(A).get(B), i2(A, B) if fn == 'setIndices' else B), pa + [le(I(0), B), lt(B, nf(A))])
            ck.obligations(it)
# ------------------------------------------------------------ concrete problems
SPR, SPA, SPC = ('opengv::sac_problems::%s::' % n for n in ('relative_pose', 'absolute_pose', 'point_cloud'))
SRC = ['src/sac_problems/relative_pose/%s.cpp' % n for n in ('CentralRelativePoseSacProblem', 'TranslationOnlySacProblem', 'NoncentralRelativePoseSacProblem', 'EigensolverSacProblem',
       'RotationOnlySacProblem', 'MultiNoncentralRelativePoseSacProblem', 'MultiCentralRelativePoseSacProblem')] + [
       'src/sac_problems/absolute_pose/AbsolutePoseSacProblem.cpp', 'src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp', 'src/sac_problems/point_cloud/PointCloudSacProblem.cpp']
# number of correspondences each solver consumes (the solver's own points plus those needed for disambiguation)
TABLE = [(SPA + 'AbsolutePoseSacProblem', {'TWOPT': 2, 'KNEIP': 4, 'GAO': 4, 'EPNP': 6, 'GP3P': 4}),
         (SPR + 'CentralRelativePoseSacProblem', {'STEWENIUS': 8, 'NISTER': 8, 'SEVENPT': 9, 'EIGHTPT': 9}),
         (SPR + 'NoncentralRelativePoseSacProblem', {'SIXPT': 9, 'GE': 8, 'SEVENTEENPT': 17}),
         (SPR + 'RotationOnlySacProblem', 2), (SPR + 'TranslationOnlySacProblem', 2), (SPC + 'PointCloudSacProblem', 3), (SPR + 'EigensolverSacProblem', None)]
ncam = var('number of cameras', 'I')
def enumval(ck, cls, name):
    return ck.prog.enum_value(cls + '::' + name)
def size_single(ck, cls, want):
    it = ck.interp()
    f = ck.prog.find(cls + '::getSampleSize')
    def th():
        this = it.alloc(obj(it, cls, 'problem'))
        s = it.read_struct(this)
        v = it.rv(it.call(f, this, []))
        return v, it.read_struct(this)
    outs = [(st, v) for st, k, v in it.explore(th)]
    ck.cover(outs)
    for st, (v, s) in outs:
        if isinstance(want, dict):
            for nm, w in want.items():
                cond = [eq(s.f['_algorithm'], I(enumval(ck, cls, nm)))]
                if '_asCentral' in s.f: cond.append(not_(s.f['_asCentral']))
                ck.require('%s: sample size with %s' % (cls.split('::')[-1], nm), eq(v, I(w)), st.pc + cond)
            if '_asCentral' in s.f: ck.require('%s: sample size as a central problem' % cls.split('::')[-1], eq(v, I(8)), st.pc + [s.f['_asCentral']])
        else: ck.require('%s: sample size' % cls.split('::')[-1], eq(v, s.f['_sampleSize'] if want is None else I(want)), st.pc)
    ck.obligations(it)
def vsum(ck, v, n, pc, what):
    """the sum of v[0..n-1] for v built from a constant by changes of single entries; each change is checked to be in range"""
    j = fresh('j', 'I')
    def go(t):
        if t.op == 'ite':
            c, a, b = t.args
            if c.op == 'not': c, a, b = c.args[0], b, a
            if c.op == '=':
                l, r = c.args
                x = pos_of(sub(l, r), j)
                if x is not None:
                    ck.require('%s: the changed camera exists' % what, and_(le(I(0), x), lt(x, n)), pc)
                    return add(go(b), sub(tm.subst(a, {j: x}), tm.subst(b, {j: x})))
        if t.op == '+': return add(*[go(x) for x in t.args])
        if any(u is j for u in tm.atoms_of(t)): raise Unsupported('a sum of %s' % tm.show(t)[:80])
        return mul(n, t)
    return go(v.get(j))
def pos_of(d, j):
    """x such that d = 0 is j = x"""
    a = tm.subst(d, {j: I(0)}); c = sub(d, a)
    if c is j: return neg(a)
    if neg(c) is j: return a
    return None
def size_multi(ck, cls, want, count):
    it = ck.interp(abstract=getters({count: lambda: ncam}))
    f = ck.prog.find(cls + '::getSampleSizes')
    q = var('q', 'I')
    def th():
        it.assume(le(I(1), ncam)); it.assume(le(ncam, INTMAX))
        this = it.alloc(obj(it, cls, 'problem'))
        v = it.rv(it.call(f, this, []))
        return v, it.read_struct(this)
    outs = [(st, v) for st, k, v in it.explore(th)]
    ck.cover(outs)
    nm = cls.split('::')[-1]
    for st, (v, s) in outs:
        ck.require('%s: one size per camera' % nm, eq(v.len, ncam), st.pc)
        pc = st.pc + [le(I(0), q), lt(q, ncam)]
        if want is None: ck.require('%s: every camera contributes the configured number' % nm, eq(v.get(q), s.f['_sampleSize']), pc); continue
        ck.require('%s: sizes are not negative' % nm, le(I(0), v.get(q)), pc)
        tot = vsum(ck, v, ncam, st.pc, nm)
        if isinstance(want, dict):
            for k, w in want.items():
                ck.require('%s: the sizes add up to the size of %s' % (nm, k), eq(tot, I(w)), st.pc + [eq(s.f['_algorithm'], I(enumval(ck, cls, k))), not_(s.f['_asCentral'])])
            ck.require('%s: the sizes add up to the size of the central solver' % nm, eq(tot, I(8)), st.pc + [s.f['_asCentral']])
        else: ck.require('%s: the sizes add up to the size of the solver' % nm, eq(tot, I(want)), st.pc)
    ck.obligations(it)
def sizes(ck):
    for cls, want in TABLE: ck.contract(cls.split('::')[-1] + '::getSampleSize', size_single, cls, want)
    ck.contract('MultiNoncentralAbsolutePoseSacProblem::getSampleSizes', size_multi, SPA + 'MultiNoncentralAbsolutePoseSacProblem', 4, 'getNumberFrames')
    ck.contract('MultiNoncentralRelativePoseSacProblem::getSampleSizes', size_multi, SPR + 'MultiNoncentralRelativePoseSacProblem', {'SIXPT': 9, 'GE': 8, 'SEVENTEENPT': 17}, 'getNumberPairs')
    ck.contract('MultiCentralRelativePoseSacProblem::getSampleSizes', size_multi, SPR + 'MultiCentralRelativePoseSacProblem', None, 'getNumberPairs')
def run(ck):
    load(ck); ck.load(*SRC)
    ck.contract('SampleConsensusProblem::drawIndexSample', draw)
    ck.contract('SampleConsensusProblem::getSamples', samples)
    ck.contract('MultiSampleConsensusProblem::drawIndexSample', multi_draw)
    ck.contract('MultiSampleConsensusProblem::getSamples', multi_samples)
    ck.contract('setIndices, setUniformIndices', establish)
    sizes(ck)
    ck.native('c03.cpp', srcs=SRC + ['src/absolute_pose/%s.cpp' % n for n in ('CentralAbsoluteAdapter', 'NoncentralAbsoluteMultiAdapter')] + ['src/point_cloud/PointCloudAdapter.cpp'] + ['src/relative_pose/%s.cpp' % n for n in ('CentralRelativeAdapter', 'NoncentralRelativeAdapter', 'NoncentralRelativeMultiAdapter', 'CentralRelativeMultiAdapter')], lazy=True)
