"""C18 Gauss-Jordan elimination: invertible row operations, reduced form.

The two outermost loops of the routine are annotated with their invariants: after k steps down the first k columns of
the working block are unit upper triangular; after k steps up the last k of them are cleared down to the exit row.
Matrix sizes, entries and the exit row are arbitrary; inner loops are summarised by closed forms."""
from .lib import *
from dv import loops as lp
SRC = ['src/math/gauss_jordan.cpp']
rows, cols, ex = var('rows', 'I'), var('cols', 'I'), var('exit', 'I')
EPS = R(Fraction('1e-10'))
i = var('i', 'I'); c = var('c', 'I')
def table(m): return Vec('std::vector<double> *', ('fn', rows, lambda r: Vec('double', ('fn', cols, lambda q: m(r, q)))))
def down(name, k):
    """unit upper triangular in the first k columns"""
    e = lambda r, q: app(name, (r, q), 'R')
    return lambda r, q: ite(and_(lt(q, r), lt(q, k)), R(0), ite(and_(eq(q, r), lt(r, k)), R(1), e(r, q)))
def up(name, k):
    """unit upper triangular, columns rows-k .. rows-1 cleared from the exit row on"""
    e = lambda r, q: app(name, (r, q), 'R')
    return lambda r, q: ite(and_(lt(q, r), lt(q, rows)), R(0), ite(eq(q, r), R(1), ite(and_(lt(r, q), lt(q, rows), le(sub(rows, k), q), le(ex, r)), R(0), e(r, q))))
def clear(x): return or_(eq(x, R(0)), lt(EPS, x), lt(x, neg(EPS)))
class Phase:
    """invariant of the n-th outermost loop of the elimination"""
    def __init__(s, ck): s.ck = ck; s.n = 0; s.inside = False
    def hook(s, it, n, cond, inc, body, do):
        if s.inside: return False
        from dv.interp import Cont, LoopExit
        ck = s.ck; s.n += 1
        if do or s.n > 2: raise Unsupported('elimination with other outermost loops than one down and one up')
        phase = s.n; base = it.st; k = var('steps%d' % phase, 'I')
        shape = (lambda nm, kk: down(nm, kk)) if phase == 1 else (lambda nm, kk: up(nm, kk))
        bound = rows if phase == 1 else sub(sub(rows, I(1)), ex)
        M = shape('m%d' % phase, k)
        cell = s.cell
        start = it.read((cell, ()))
        r_, q_ = var('r0', 'I'), var('q0', 'I')
        ck.require('step %s: the invariant holds at the start' % ('down', 'up')[phase - 1], eq(start.get(r_).get(q_), shape_of(phase, start, I(0), r_, q_)), base.pc + [le(I(0), r_), lt(r_, rows), le(I(0), q_), lt(q_, cols)])
        s.counters = {}
        def iteration(quiet):
            def th():
                for cc, (v0, d) in s.counters.items(): it.st.mem[cc] = add(v0, mul(I(d), k))
                it.st.mem[cell] = table(M)
                it.assume(le(I(0), k)); it.assume(le(k, bound) if not quiet else TRUE)
                if not it.decide(it.loopcond(cond)): raise LoopExit()
                try: it.run(body)
                except Cont: pass
                it.run(inc)
            q0 = it.quiet; it.quiet += 1 if quiet else 0; s.inside = True
            try: return it.explore(th)
            finally: it.quiet = q0; s.inside = False
        for rnd in range(3):     # the counters of the loop
            it.quiet += 1; it.discovering += 1
            try: outs = iteration(True)
            finally: it.quiet -= 1; it.discovering -= 1
            new = False; was = dict(s.counters)
            for st, kind, v in outs:
                if kind == 'exit': continue
                for cc, v0 in base.mem.items():
                    if cc == cell: continue
                    v1 = st.mem.get(cc)
                    w = v0 if cc not in was else add(v0, mul(I(was[cc][1]), k))
                    if v1 is None or v1 is w or lp.unchanged(w, v1): continue
                    d = sub(v1, w) if isinstance(v1, T) and v1.sort == 'I' else None
                    if d is None or not isnum(d): raise Unsupported('elimination loop: %s becomes %r' % (show(w), v1))
                    if cc not in s.counters: s.counters[cc] = (v0, nv(d)); new = True
                    elif s.counters[cc][1] != nv(d): raise Unsupported('elimination loop: counter')
            if not new: break
        outs = iteration(False)
        exits = []
        for st, kind, v in outs:
            if kind == 'exit': exits.append(st); continue
            if kind != 'normal': raise Unsupported('elimination loop left by ' + kind)
            s.step(phase, it, st, k, M, it_read(st, cell))
        if len(exits) != 1: raise Unsupported('elimination loop exits: phase %d %r' % (phase, [[show(c) for c in e.pc] for e in exits]))
        it.st = exits[0]
        ck.require('step %s: all steps are done' % ('down', 'up')[phase - 1], eq(k, bound), it.st.pc)
        for cc in list(it.st.mem): it.st.mem[cc] = lp.sv(it.st.mem[cc], {k: bound})
        it.st.pc = list(base.pc)
        return True
    def step(s, phase, it, st, k, M, V):
        ck = s.ck; pc = list(st.pc)
        w = 'step %s: ' % ('down', 'up')[phase - 1]
        rng = [le(I(0), i), lt(i, rows), le(I(0), c), lt(c, cols)]
        ck.require(w + 'within the number of rows', le(add(k, I(1)), rows if phase == 1 else sub(sub(rows, I(1)), ex)), pc)
        new = lambda r, q, p=pc: rs(it, V.get(r).get(q), p)
        if phase == 1:
            f = k
            # the row moved to the working position
            probe = pc + rng + [eq(i, f)]
            src = None
            for a in tm_apps(V.get(f).get(c), 'm1'):
                if a.args[-1] is c and a.args[-2] is not f: src = a.args[-2]
            q = src if src is not None else f
            ck.require(w + 'the pivot row is one of the remaining rows', and_(le(f, q), lt(q, rows)), pc)
            piv = M(q, f)
            ck.require(w + 'the pivot is zero only if the remaining column is', implies(eq(piv, R(0)), eq(M(i, f), R(0))), pc + [le(f, i), lt(i, rows)])
            nz = [not_(eq(piv, R(0)))]
            fr = lambda q_: V.get(f).get(q_)
            ck.require(w + 'pivot row = old row / pivot', eq(mul(fr(c), piv), M(q, c)), pc + nz + [le(I(0), c), lt(c, cols), le(I(0), piv)])
            ck.require(w + 'pivot row = old row / pivot (negative pivot)', eq(mul(fr(c), piv), M(q, c)), pc + nz + [le(I(0), c), lt(c, cols), lt(piv, R(0))])
            sr = ite(eq(i, q), f, i)
            lam = M(sr, f); below = [lt(f, i)]
            neg_ = [clear(fr(c)), clear(lam)]
            ck.require(w + 'lower rows = old row - multiple of the pivot row', eq(V.get(i).get(c), sub(M(sr, c), mul(lam, fr(c)))), pc + nz + rng + below + neg_)
            ck.require(w + 'upper rows are untouched', eq(V.get(i).get(c), M(i, c)), pc + rng + [lt(i, f)])
            N = shape_of(1, V, add(k, I(1)), i, c)
        else:
            f = sub(sub(rows, I(1)), k)
            lam = M(i, f); fr = lambda q_: M(f, q_)
            ck.require(w + 'rows above = old row - multiple of the working row', eq(V.get(i).get(c), sub(M(i, c), mul(lam, fr(c)))), pc + rng + [lt(i, f), le(ex, i), clear(fr(c)), clear(lam)])
            ck.require(w + 'other rows are untouched', eq(V.get(i).get(c), M(i, c)), pc + rng + [or_(le(f, i), lt(i, ex))])
            N = shape_of(2, V, add(k, I(1)), i, c)
            nz = []; neg_ = [clear(lam), clear(fr(c)), clear(fr(f))]
        ck.require(w + 'the invariant is preserved', eq(V.get(i).get(c), N), pc + nz + rng + neg_ + ([clear(fr(f)), clear(lam)] if phase == 1 else []))
        ck.require(w + 'rows keep their length', and_(eq(V.len, rows), eq(V.get(i).len, cols)), pc + rng)
def it_read(st, cell): return st.mem[cell]
def tm_apps(t, name):
    from dv import terms as tm
    return sorted((a for a in tm.atoms_of(t) if a.op == 'app' and a.args[0] == name), key=lambda a: a.id)
def rs(it, v, pc): return lp.resolve_v(it, v, pc)
def shape_of(phase, V, k, r, q):
    """what the invariant after k steps says about entry (r,q) of V"""
    x = V.get(r).get(q)
    if phase == 1: return ite(and_(lt(q, r), lt(q, k)), R(0), ite(and_(eq(q, r), lt(r, k)), R(1), x))
    return ite(and_(lt(q, r), lt(q, rows)), R(0), ite(eq(q, r), R(1), ite(and_(lt(r, q), lt(q, rows), le(sub(rows, k), q), le(ex, r)), R(0), x)))
def elimination(ck):
    P = Phase(ck)
    it = ck.interp(loop_hook=P.hook)
    it.red = lambda v: lp.resolve(it, v, it.st.pc)
    f = it.prog.find('opengv::math::gauss_jordan')
    def th():
        for x in (le(I(1), rows), le(rows, cols), le(I(0), ex), lt(ex, rows)): it.assume(x)
        P.n = 0; P.inside = False
        lv = it.alloc(table(lambda r, q: app('m0', (r, q), 'R'))); P.cell = lv[0]
        it.call(f, None, [('lv', lv), ('v', ex)])
        return it.read(lv)
    outs = [(st, v) for st, k, v in it.explore(th)]
    ck.cover(outs)
    if P.n != 2: raise Unsupported('elimination with %d outermost loops' % P.n)
    for st, v in outs:
        pc = list(st.pc) + [le(ex, i), lt(i, rows), le(I(0), c), lt(c, rows)]
        ck.require('rows from the exit row on end in reduced form', eq(v.get(i).get(c), ite(eq(i, c), R(1), R(0))), pc)
    ck.obligations(it)
def run(ck):
    ck.load(*SRC)
    ck.contract('gauss_jordan', elimination)
    ck.assume.append('entries whose magnitude does not exceed 1e-10 when the routine compares them count as zero')
    ck.native('c18.cpp', srcs=SRC)
