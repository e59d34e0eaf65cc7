"""C01/C02 the robust estimators' main loops, for every history of draws."""
from .sac import *
from dv.protocol import Loop
import os
from fractions import Fraction

def slen(d): return app('sample.len', (d,), 'I')
def ok(d): return app('a model was found', (d,), 'B')
def Mid(d): return app('model of draw', (d,), 'I')
thr = var('threshold'); prob = var('probability'); maxit = var('max_iterations', 'I')
MAXD = R(Fraction(float.fromhex('0x1.fffffffffffffp+1023')))
class Ctx:
    def __init__(s, ck, kind):
        s.ck = ck; s.kind = kind; s.multi = kind == 'multi'; s.memo = {}
        s.cls = S_ + {'ransac': 'Ransac<VProblem>', 'lmeds': 'Lmeds<VProblem>', 'multi': 'MultiRansac<VMultiProblem>'}[kind]
    # ---------- what a draw yields
    def sample(s, d):
        if d not in s.memo: s.memo[d] = s.sample1(d)
        return s.memo[d]
    def sample1(s, d):
        if not s.multi: return Vec('int', ('fn', slen(d), lambda k: app('sample', (d, k), 'I')))
        return Vec('std::vector<int>', ('fn', slen(d), lambda j: Vec('int', ('fn', app('sample[].len', (d, j), 'I'), lambda k: app('sample', (d, j, k), 'I')))))
    def size(s, d):
        if not s.multi: return slen(d)
        j = fresh('j', 'I'); return mksum(j, app('sample[].len', (d, j), 'I'), slen(d))
    def total(s):
        if not s.multi: return n1
        j = fresh('j', 'I'); return mksum(j, nf(j), n1)
    def count(s, m):
        k = fresh('k', 'I')
        if not s.multi: return mksum(k, ite(lt(dist(m, i1(k)), thr), I(1), I(0)), n1)
        j = fresh('j', 'I'); return mksum(j, mksum(k, ite(lt(dist(m, j, i2(j, k)), thr), I(1), I(0)), nf(j)), n1)
    def inliers(s, m, below=None):
        below = below or (lambda d: lt(d, thr)); e = Vec('int', ('c', []))
        if not s.multi: return lp.mkfilter('int', e, n1, lambda i: below(dist(m, i1(i))), i1, 'inl', ())
        return Vec('std::vector<int>', ('fn', n1, lambda j: lp.mkfilter('int', e, nf(j), lambda i: below(dist(m, j, i2(j, i))), lambda i: i2(j, i), 'inl', (j,))))
    def drawn(s, v):
        """the draw a sample came from"""
        if isinstance(v, Vec) and v.kind[0] == 'fn' and v.len.op == 'app' and v.len.args[0] == 'sample.len': return v.len.args[1]
        raise Unsupported('a model is computed from something that is not a drawn sample')
    # ---------- contracts of the virtual methods of the problem
    def virt(s, it, base, st, e, f):
        nm = e['name']; g = it.st.ghost
        if nm == 'getSamples':
            a = [it.arg_ref(x) for x in e['args']]; d = g['D']
            if it.decide(lt(I(0), slen(d))):
                it.write(a[1][1], s.sample(d)); g['D'] = add(d, I(1)); g['cur'] = d; g['seen'] = 0
            else:
                it.write(a[1][1], Vec('int' if not s.multi else 'std::vector<int>', ('c', []))); g['stop'] = 1
                it.write(a[0][1], it.symval('int', *it.newname('iterations after impossible draw')))
            it.trusted.add('contract of getSamples: an empty sample, or a new one; the iteration counter is only touched when no sample is possible (C03)')
            return None
        if nm == 'computeModelCoefficients':
            a = [it.arg_ref(x) for x in e['args']]
            d = s.drawn(it.rv(a[0]))
            it.oblige('protocol', eq(d, sub(g['D'], I(1))), 'the model is computed from the sample just drawn', e.get('ln'))
            it.oblige('protocol', TRUE if not g.get('seen') else FALSE, 'every draw is evaluated once', e.get('ln'))
            g['seen'] = 1
            m = it.read(a[1][1])
            if it.decide(ok(d)):
                m.f['id'] = Mid(d); it.write(a[1][1], m); g['E'] = add(g['E'], I(1)); g['isok'] = 1
                it.assume(le(I(0), s.count(Mid(d))))
                return ('v', TRUE)
            m.f['id'] = app('left by failed draw', (d,), 'I'); it.write(a[1][1], m); g['F'] = add(g['F'], I(1)); g['isok'] = 0
            return ('v', FALSE)
        if nm in ('countWithinDistance', 'selectWithinDistance'):
            it.trusted.add('contract of countWithinDistance / selectWithinDistance (proved under C04)')
            a = [it.arg_ref(x) for x in e['args']]
            m = it.rv(a[0]).f['id']; t = it.rv(a[1])
            it.oblige('protocol', eq(t, thr), 'scored with the configured threshold', e.get('ln'))
            if nm[0] == 'c': return ('v', s.count(m))
            it.write(a[2][1], s.inliers(m)); return None
        if nm == 'getDistancesToModel' and not s.multi:
            a = [it.arg_ref(x) for x in e['args']]
            m = it.rv(a[0]).f['id']; v = it.rv(a[1])
            it.write(a[1][1], append(v, n1, lambda i: dist(m, i1(i))))
            it.trusted.add('contract of getDistancesToModel: one distance per index of the problem, appended (proved under C04)')
            return None
        return NotImplemented
    def sort(s, it, vs, e):
        b, en = vs
        v = it.read(b.lv)
        if not (isinstance(b, Iter) and eq(b.i, I(0)) is TRUE and eq(en.i, v.len) is TRUE and v.et in FLTS): raise Unsupported('std::sort of a part')
        x = var('sort!i', 'I'); body = v.get(x); n = v.len
        d = it.st.ghost.get('cur')
        if d is not None and body.sort == 'R':   # the sequence of squared distances of the current model, however it is written
            want = s.squared(d, x)
            if it.solver.check(list(it.st.pc) + [le(I(0), x), lt(x, n), not_(eq(body, want))], timeout=3000) == 'unsat': body = want
        def at(i):
            r = app('sorted', (n, body, i), 'R'); c = lt(r, MAXD)
            if 'ph!' in show(i) or 'i!' in show(i): return r   # placeholders of the engine
            if c not in it.st.pc: it.st.pc.append(c)
            return r
        s.ck.assume.append('squared distances are finite (below the largest double)') if len(s.ck.assume) == 0 else None
        it.write(b.lv, Vec(v.et, ('fn', n, at))); return None
    # ---------- penalties
    def squared(s, d, x):
        y = dist(Mid(d), i1(x)); return ite(lt(y, R(0)), R(0), mul(y, y))
    def finite(s, d):
        x = var('sort!i', 'I'); body = s.squared(d, x); mid = app('idiv', (n1, I(2)), 'I')
        return [lt(app('sorted', (n1, body, i), 'R'), MAXD) for i in (mid, sub(mid, I(1)))]
    def penalty(s, d):
        x = var('sort!i', 'I'); body = s.squared(d, x)
        at = lambda i: app('sorted', (n1, body, i), 'R')
        mid = app('idiv', (n1, I(2)), 'I')
        return ite(eq(app('imod', (n1, I(2)), 'I'), I(0)), div(add(at(sub(mid, I(1))), at(mid)), R(2)), at(mid))
    def step(s, case, st, took, d, b):
        if s.kind == 'lmeds': better = lambda x, y: lt(s.pen(st, x), s.pen(st, y))
        else: better = lambda x, y: lt(s.count(Mid(y)), s.count(Mid(x)))
        if case == 'A': return [('the first hypothesis is stored', TRUE if took else FALSE)]
        return [('a hypothesis is stored only when it is strictly better', better(d, b)) if took else ('a better hypothesis is never discarded', not_(better(d, b)))]
    def pen(s, st, d): return s.penalty(d)
    # ---------- run
    def run(s, which):
        ck = s.ck
        bounds = [lambda e, f, d: le(e, maxit), lambda e, f, d: le(f, mul(I(10), maxit))]
        cells = {}
        def mpath(it): return (cells['this'], ('f', 'model_'))
        facts = lambda d: [ok(d), lt(I(0), slen(d)), le(I(0), s.count(Mid(d)))] + (s.finite(d) if s.kind == 'lmeds' else [])
        L = Loop(ck, mpath, bounds, s.step if which == 'C02' else (lambda *a: []), facts=facts)
        it = ck.interp(virtual_hook=s.virt, loop_hook=L.hook, sort=s.sort, simp=s.simp)
        f = it.prog.find(s.cls + '::computeModel')
        def th():
            for c in (le(I(0), maxit), le(maxit, I(214748364)), le(I(1), n1), lt(R(0), prob), lt(prob, R(1))): it.assume(c)
            st = it.symval(s.cls, 'estimator')
            st.f['sac_model_'] = Ptr(problem(it, VMP if s.multi else VP, indices2() if s.multi else indices1()))
            st.f['threshold_'] = thr; st.f['probability_'] = prob; st.f['max_iterations_'] = maxit
            this = it.alloc(st); cells['this'] = this[0]
            g = it.st.ghost; g['E'] = I(0); g['F'] = I(0); g['D'] = I(0); g['stop'] = 0; g['b'] = None; g['how'] = 'not entered'
            r = it.rv(it.call(f, this, [('v', var('verbosity', 'I'))]))
            return r, it.read(this)
        outs = [(st, v) for st, k, v in it.explore(th)]
        ck.cover(outs, 3 if s.kind != 'lmeds' else 3)
        if not L.ran: raise Unsupported('no sampling loop found')
        for st, (r, me) in outs:
            g = st.ghost; E, b = g['E'], g['b']
            found = le(I(1), E)
            if which == 'C01':
                ck.require('true exactly when a model was found in this run', or_(and_(r, found), and_(not_(r), not_(found))), st.pc)
                if b is not None:
                    pc = st.pc + [le(I(0), b), lt(b, g['D'])]
                    ck.record('%s: the stored sample is one drawn in this run' % ck.cur, 'proved' if lp.equalv(it, me.f['model_'], s.sample(b), pc) else 'not discharged', 'comparison', 0)
                    ck.require('the stored model was computed from the stored sample', eq(me.f['model_coefficients_'].f['id'], Mid(b)), pc)
                    spec = s.inliers(Mid(b), None if s.kind != 'lmeds' else lambda d: le(d, thr))
                    j = var('camera', 'I')
                    have = me.f['inliers_']
                    if s.multi: good = lp.equalv(it, have.len, n1, pc) and lp.equalv(it, have.get(j), spec.get(j), pc + [le(I(0), j), lt(j, n1)])
                    else: good = lp.equalv(it, have, spec, pc)
                    ck.record('%s: the inliers are the correspondences within the threshold of the stored model, in order' % ck.cur, 'proved' if good else 'not discharged', 'filter comparison', 0)
                else: ck.require('without a model no inliers are reported', eq(me.f['inliers_'].len, I(0)), st.pc)
            else:
                ck.require('at most one hypothesis beyond the maximum', le(E, add(maxit, I(1))), st.pc)
                ck.require('at most ten times the maximum of failed samples', le(g['F'], mul(I(10), maxit)), st.pc)
                if s.kind != 'lmeds' and g['how'] != 'not entered' and not g['stop']:
                    early = and_(le(E, maxit), lt(g['F'], mul(I(10), maxit)))
                    if b is not None:
                        w = div(toreal(s.count(Mid(b))), toreal(s.total()))
                        p = sub(R(1), app('pow', (w, toreal(s.size(b))), 'R')); eps = R(Fraction(1, 2 ** 52))
                        p = ite(lt(eps, p), p, eps); hi = sub(R(1), eps); p = ite(lt(p, hi), p, hi)
                        k = div(app('log', (sub(R(1), prob),), 'R'), app('log', (p,), 'R'))
                        ck.require('no stop before the requested confidence', implies(early, le(k, toreal(E))), st.pc)
                    else: ck.require('no stop before the budgets without a hypothesis', not_(early), st.pc)
        if which == 'C02':
            # head invariants bound the number of iterations: each one increases D = E + F
            D = len(L.bounds_on)
            ck.require('hypotheses and failures stay within their budgets at every iteration (termination)', TRUE if D == 2 else FALSE)
        ck.obligations(it)
    def simp(s, c): return c
def estimator(ck, kind, which): Ctx(ck, kind).run(which)
def run(ck, which='C01'):
    load(ck)
    for k in os.environ.get('DV_ONLY', 'ransac multi lmeds').split(): ck.contract({'ransac': 'Ransac', 'multi': 'MultiRansac', 'lmeds': 'Lmeds'}[k] + '::computeModel', estimator, k, which)
    from . import c04
    ck.contract('SampleConsensusProblem count and select', c04.count_select)
    ck.contract('MultiSampleConsensusProblem count and select', c04.multi)
    ck.native('c01.cpp', args=('1' if which == 'C01' else '2',), srcs=[], lazy=True)
