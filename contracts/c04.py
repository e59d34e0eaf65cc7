"""C04 inlier counting and selection agree with the distances."""
from .sac import *

def one(it, cls, base, fn, ix, extra):
    f = it.prog.find(base + '::' + fn)
    m = var('model', 'I'); thr = var('threshold')
    def th():
        it.assume(le(I(0), n1))
        this = problem(it, cls, ix)
        mv = it.symval('VModel', 'model'); mv.f['id'] = m
        r = it.call(f, this, [('lv', it.alloc(mv)), ('v', thr)] + extra(it))
        return it.rv(r) if r is not None else it.read(it.outlv)
    return m, thr, [(st, v) for st, k, v in it.explore(th)]
def out(et):
    def x(it):
        # whatever the caller's list contained before must not matter
        old = it.symval('std::vector<%s>' % et, 'before')
        it.assume(le(I(0), old.len))
        it.outlv = it.alloc(old); return [('lv', it.outlv)]
    return x
def count_select(ck):
    it = ck.interp(virtual_hook=scoring)
    m, thr, cs = one(it, VP, SCP, 'countWithinDistance', indices1(), lambda it: [])
    ck.cover(cs)
    k = fresh('k', 'I'); below = lambda i: lt(dist(m, i1(i)), thr)
    want = mksum(k, ite(below(k), I(1), I(0)), n1)
    for st, v in cs: ck.require('count = number of indices with distance below the threshold', eq(v, want), st.pc)
    m, thr, ss = one(it, VP, SCP, 'selectWithinDistance', indices1(), out('int'))
    ck.cover(ss)
    spec = lp.mkfilter('int', Vec('int', ('c', [])), n1, below, i1, 'spec', ())
    for st, v in ss:
        ck.require('as many inliers selected as counted', eq(v.len, want), st.pc)
        ck.record('%s: selected = the indices with distance below the threshold, in index order' % ck.cur, 'proved' if lp.equalv(it, v, spec, st.pc) else 'not discharged', 'filter comparison', 0)
    ck.obligations(it)
def multi(ck):
    it = ck.interp(virtual_hook=scoring)
    m, thr, cs = one(it, VMP, MCP, 'countWithinDistance', indices2(), lambda it: [])
    ck.cover(cs)
    j = fresh('j', 'I'); k = fresh('k', 'I'); below = lambda j: (lambda i: lt(dist(m, j, i2(j, i)), thr))
    per = lambda j: mksum(k, ite(below(j)(k), I(1), I(0)), nf(j))
    for st, v in cs: ck.require('count = number of indices with distance below the threshold', eq(v, mksum(j, per(j), n1)), st.pc)
    m, thr, ss = one(it, VMP, MCP, 'selectWithinDistance', indices2(), out('std::vector<int>'))
    ck.cover(ss)
    f = var('camera', 'I')
    for st, v in ss:
        pc = st.pc + [le(I(0), f), lt(f, n1)]
        ck.require('one inlier list per camera', eq(v.len, n1), st.pc)
        ck.require('as many inliers selected as counted in every camera', eq(v.get(f).len, per(f)), pc)
        spec = lp.mkfilter('int', Vec('int', ('c', [])), nf(f), below(f), lambda i: i2(f, i), 'spec', ())
        ck.record('%s: selected = the indices of the camera with distance below the threshold, in index order' % ck.cur, 'proved' if lp.equalv(it, v.get(f), spec, pc) else 'not discharged', 'filter comparison', 0)
    ck.obligations(it)
def distances(ck):
    """getDistancesToModel covers the whole index set"""
    for cls, base, ix, s0 in ((VP, SCP, indices1(), lambda it: Vec('double', ('c', []))), (VMP, MCP, indices2(), lambda it: Vec('std::vector<double>', ('fn', n1, lambda f: Vec('double', ('c', [])))))):
        it = ck.interp(virtual_hook=scoring)
        f = it.prog.find(base + '::getDistancesToModel'); m = var('model', 'I')
        def th():
            it.assume(le(I(0), n1))
            this = problem(it, cls, ix); mv = it.symval('VModel', 'model'); mv.f['id'] = m
            o = it.alloc(s0(it)); it.call(f, this, [('lv', it.alloc(mv)), ('lv', o)]); return it.read(o)
        outs = [(st, v) for st, k, v in it.explore(th)]
        ck.cover(outs)
        i = var('i', 'I'); c = var('camera', 'I')
        for st, v in outs:
            if cls is VP:
                ck.require('one distance per index', eq(v.len, n1), st.pc)
                ck.require('distance of the i-th index', eq(v.get(i), dist(m, i1(i))), st.pc + [le(I(0), i), lt(i, n1)])
            else:
                pc = st.pc + [le(I(0), c), lt(c, n1)]
                ck.require('one distance per index of the camera', eq(v.get(c).len, nf(c)), pc)
                ck.require('distance of the i-th index of the camera', eq(v.get(c).get(i), dist(m, c, i2(c, i))), pc + [le(I(0), i), lt(i, nf(c))])
        ck.obligations(it)
def run(ck):
    load(ck)
    ck.contract('SampleConsensusProblem count and select', count_select)
    ck.contract('MultiSampleConsensusProblem count and select', multi)
    ck.contract('distances over the index set', distances)
    # the concrete problems
    from . import c10, c11
    c10.run(ck, native=False); c11.run(ck, native=False)
    ck.native('c04.cpp', srcs=c10.SRC + c11.SRC + ['src/relative_pose/%s.cpp' % n for n in ('CentralRelativeAdapter', 'NoncentralRelativeAdapter', 'NoncentralRelativeMultiAdapter', 'CentralRelativeMultiAdapter')] +
              ['src/absolute_pose/CentralAbsoluteAdapter.cpp', 'src/absolute_pose/NoncentralAbsoluteMultiAdapter.cpp', 'src/point_cloud/PointCloudAdapter.cpp'], lazy=True)
