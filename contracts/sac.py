"""Contracts of the abstract sample-consensus problem (model: opaque identity)."""
from .lib import *
from dv import loops as lp
import os
TU = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'inst', 'sac.cpp')
S_ = 'opengv::sac::'
SCP = S_ + 'SampleConsensusProblem<VModel>'; MCP = S_ + 'MultiSampleConsensusProblem<VModel>'
VP, VMP = 'VProblem', 'VMultiProblem'
def load(ck):
    ck.load(TU)
    ck.prog.rec[VP] = {'fields': [], 'bases': [SCP]}; ck.prog.rec[VMP] = {'fields': [], 'bases': [MCP]}
    ck.prog.rec['VModel'] = {'fields': [{'name': 'id', 't': 'int'}], 'bases': []}
def dist(m, *ix): return app('distance', (m,) + ix, 'R')
def append(v, n, f):
    """v followed by f(0..n-1)"""
    l0 = v.len
    if isnum(l0) and nv(l0) == 0: return Vec(v.et, ('fn', n, f))
    return Vec(v.et, ('fn', add(l0, n), lambda i: v_ite(lt(i, l0), v.get(i), f(sub(i, l0)))))
def scoring(it, base, st, e, f):
    """virtual_hook: contract of getSelectedDistancesToModel (proved for every concrete problem under C10/C11):
    appends one distance per listed index, in order"""
    if e['name'] != 'getSelectedDistancesToModel': return NotImplemented
    a = [it.arg_ref(x) for x in e['args']]
    m = it.rv(a[0]).f['id']; ix = it.rv(a[1]); sc = it.rv(a[2])
    it.trusted.add('contract of the virtual getSelectedDistancesToModel: one distance per listed index, appended in order (proved for the concrete problems under C10, C11)')
    if ix.et in INTS: r = append(sc, ix.len, lambda i: dist(m, ix.get(i)))
    else:
        it.oblige('requires', eq(sc.len, ix.len), 'one score list per camera', e.get('ln'))
        r = Vec(sc.et, ('fn', sc.len, lambda j: append(sc.get(j), ix.get(j).len, lambda i: dist(m, j, ix.get(j).get(i)))))
    it.write(a[2][1], r)
    return None
n1 = var('indices.len', 'I'); i1 = lambda k: app('indices', (k,), 'I')
nf = lambda f: app('indices[].len', (f,), 'I'); i2 = lambda f, k: app('indices', (f, k), 'I')
def indices1(): return Vec('int', ('fn', n1, i1))
def indices2(): return Vec('std::vector<int>', ('fn', n1, lambda f: Vec('int', ('fn', nf(f), lambda k: i2(f, k)))))
def problem(it, cls, ix, shuf=None):
    """a problem over the given index set; everything else arbitrary"""
    p = it.symval(cls, 'problem')
    p.f['indices_'] = Ptr(it.alloc(ix))
    if shuf is not None: p.f['shuffled_indices_'] = shuf
    return it.alloc(p)
