"""Invariants of the hypothesise-and-verify loop.

The loop draws samples (one draw per iteration), asks the problem for a model and
scores it.  Ghost state: D draws so far, E of them gave a model, F did not, b the
draw whose result is currently stored.  Every location the body changes gets the
strongest of these closed forms that is inductive (checked by executing one
iteration from an arbitrary state satisfying all of them, once with no model so
far and once with some):
   start value + E / F / D                 (counters)
   start value while E = 0, V(b) after     (written when a hypothesis is stored)
   arbitrary                               (everything else)"""
from . import terms as tm, loops as lp
from .terms import *
from .values import *
import os, sys
DEBUG = os.environ.get('DV_DEBUG') == '2'
def show1(v): return (show(v) if isinstance(v, T) else '%s %s' % (v.kind[0], v.len) if isinstance(v, Vec) else repr(v))[:200]

def calls(prog, node, name, seen=None):
    """does the statement (transitively) contain a call of the named method?"""
    seen = set() if seen is None else seen
    if isinstance(node, list): return any(calls(prog, x, name, seen) for x in node)
    if not isinstance(node, dict): return False
    if node.get('name') == name and 'args' in node: return True
    f = node.get('fid')
    if f and f not in seen:
        seen.add(f); d = prog.fn.get(f)
        if d and d.get('body') and calls(prog, d['body'], name, seen): return True
    return any(calls(prog, v, name, seen) for v in node.values() if isinstance(v, (dict, list)))

class Loop:
    def __init__(s, ck, model_path, bounds, step, trigger='getSamples', facts=None):
        """model_path: (cell, path) getter of the stored sample; bounds(E, F, D): candidate inequalities;
        step(case, st, took, d, b): obligations [(what, goal)] of an iteration in which draw d was evaluated;
        facts(d): what is known about an evaluated draw"""
        s.ck = ck; s.model_path = model_path; s.bounds = bounds; s.step = step; s.trigger = trigger; s.facts = facts or (lambda d: []); s.done = False; s.ran = 0
        s.E = var('hypotheses', 'I'); s.F = var('failures', 'I'); s.D = var('draws', 'I'); s.b = var('best draw', 'I')
    def hook(s, it, n, cond, inc, body, do):
        if not calls(it.prog, body if not callable(body) else None, s.trigger): return False
        if do: raise Unsupported('sampling loop with the test at its end')
        from .interp import Cont, LoopExit, Ret, Obl
        s.ran += 1
        base = it.st; E, F, D, b = s.E, s.F, s.D, s.b
        g0 = base.ghost
        ln = n.get('ln')
        hv = {}; order = []
        def put(st, fn):
            for h in order: st.mem[h.cell] = lp.put(st.mem[h.cell], h.path, fn(h))
        def inv(case):
            c = [le(I(0), F), eq(D, add(E, F))] if case == 'B' else [le(I(0), F), eq(D, F)]
            if case == 'B': c += [le(I(1), E), le(I(0), b), lt(b, D)] + s.facts(b)
            e = E if case == 'B' else I(0)
            return c + [q for q in (f(e, F, D) for f in s.bounds_on)]
        s.bounds_on = list(s.bounds)
        def iteration(case, fn, quiet):
            def th():
                put(it.st, fn)
                g = it.st.ghost; g['E'] = E if case == 'B' else I(0); g['F'] = F; g['D'] = D; g['stop'] = 0; g['cur'] = None
                for c in inv(case): it.assume(c)
                if not it.decide(it.loopcond(cond)): raise LoopExit()
                try: it.run(body)
                except Cont: pass
                it.run(inc)
            q0 = it.quiet; it.quiet += 1 if quiet else 0
            it.loopctx.append(D)
            try: return it.explore(th)
            finally: it.quiet = q0; it.loopctx.pop()
        # ---- what changes
        for rnd in range(8):
            new = False
            outs = iteration('B', lambda h: h.h, True)
            for st, kind, v in outs:
                for cell, v0 in base.mem.items():
                    v1 = st.mem.get(cell)
                    if v1 is None or v1 is v0: continue
                    cur = v0
                    for h in order:
                        if h.cell == cell: cur = lp.put(cur, h.path, h.h)
                    if not lp.shape_same(cur, v1): raise Unsupported('sampling loop: a pointer changes')
                    l0 = dict(lp.leaves(cur)); l1 = dict(lp.leaves(v1))
                    if l0.keys() != l1.keys(): raise Unsupported('sampling loop: a value changes its shape')
                    for p in l0:
                        if (cell, p) in hv or lp.unchanged(l0[p], l1[p]): continue
                        v00 = lp.get(v0, p); h = lp.Hav(cell, p, v00, lp.havoc(v00)); hv[(cell, p)] = h; order.append(h); new = True
            if not new: break
        else: raise Unsupported('sampling loop: no fixpoint of modified locations')
        keys = {h.key for h in order} | {h.h.len for h in order if isinstance(h.h, Vec)}
        nb = len(base.pc)
        # ---- candidates
        mp = s.model_path(it)
        for h in order:
            h.cand = []
            if isinstance(h.h, T) and h.h.sort == 'I':
                for w in ('E', 'F', 'D'): h.cand.append((w, (lambda case, d, w=w, h=h: add(h.v0, {'E': E if case == 'B' else I(0), 'F': F, 'D': D}[w]))))
            vals = []
            for st, kind, v in outs:
                if kind not in ('normal', 'break'): continue
                x = lp.get(st.mem[h.cell], h.path)
                if x is h.h or lp.unchanged(x, h.h) or lp.free(x, keys | {E, F, b}): continue
                cs = [c for c in st.pc[nb:] if not lp.free(c, keys | {E, F, b})]
                vals.append((and_(*cs), x))
            if vals:
                first = vals[0][1]
                V = first if all(lp.unchanged(x, first) for _, x in vals) else lp.merged(vals)
                h.cand.append(('best', (lambda case, d, V=V, h=h, memo={}: h.v0 if case == 'A' else memo[d] if d in memo else memo.setdefault(d, lp.sv(V, {D: d})))))
            h.cand.append(('any', lambda case, d, h=h: h.h)); h.k = 0
        mh = hv.get(mp)
        # ---- strongest inductive choice
        case_outs = {}
        for rnd in range(60):
            ok = True; case_outs = {}
            dropped = set()
            for case in 'AB':
                fn = lambda h, case=case: h.cand[h.k][1](case, b)
                case_outs[case] = iteration(case, fn, True)
                for st, kind, v in case_outs[case]:
                    if kind == 'exit': continue
                    took, b1, c1 = s.choice(it, st, mh, case, fn)
                    st.ghost['b'] = b1; st.ghost['took'] = took
                    if kind != 'normal': continue
                    m = {E: st.ghost['E'], F: st.ghost['F'], D: st.ghost['D']}
                    for h in order:
                        nm, t = h.cand[h.k]
                        if nm == 'any' or h.key in dropped: continue
                        want = lp.sv(t(c1, b1), m) if nm != 'best' else t(c1, b1)
                        if nm == 'best' and b1 is None and c1 == 'B': good = False
                        else: good = lp.equalv(it, want, lp.get(st.mem[h.cell], h.path), st.pc)
                        if not good:
                            if DEBUG: print('  drop', lp.locname(it, base, h), nm, 'case', case, 'want', show1(want), 'have', show1(lp.get(st.mem[h.cell], h.path)), b1, file=sys.stderr)
                            h.k += 1; ok = False; dropped.add(h.key)
                if not ok: break
            if ok:   # the bounds are tested once the locations are stable
                for case in 'AB':
                    for st, kind, v in case_outs[case]:
                        if kind != 'normal': continue
                        for f in list(s.bounds_on):
                            q = f(st.ghost['E'], st.ghost['F'], st.ghost['D'])
                            if it.solver.check(list(st.pc) + [not_(q)], timeout=2000, lin=True) != 'unsat':
                                if DEBUG: print('  drop bound', show(q), 'case', case, [show(c) for c in st.pc[-8:]], file=sys.stderr)
                                s.bounds_on.remove(f); ok = False
            if ok: break
        else: raise Unsupported('sampling loop: no inductive invariant')
        # bounds must hold initially
        for f in s.bounds_on:
            if it.solver.check(list(base.pc) + [not_(f(I(0), I(0), I(0)))], timeout=2000, lin=True) != 'unsat': raise Unsupported('sampling loop: bound does not hold initially')
        # ---- obligations of one iteration
        q0 = len(it.obls)
        full = {}
        for case in 'AB':
            fn = lambda h, case=case: h.cand[h.k][1](case, b)
            full[case] = iteration(case, fn, False)
        exits = []
        for case in 'AB':
            fn = lambda h, case=case: h.cand[h.k][1](case, b)
            for st, kind, v in full[case]:
                if kind == 'exit':
                    st.ghost['b'] = b if case == 'B' else None; st.ghost['how'] = 'condition'; exits.append((st, kind, v)); continue
                took, b1, c1 = s.choice(it, st, mh, case, fn)
                st.ghost['b'] = b1; g = st.ghost
                if g.get('cur') is not None and g.get('isok'):
                    for what, goal in s.step(case, st, took, D, b): s.ck.require(what, goal, st.pc)
                if kind == 'normal': s.ck.require('every iteration draws exactly one sample', eq(g['D'], add(D, I(1))), st.pc)
                else: st.ghost['how'] = kind; exits.append((st, kind, v))
        if not it.quiet:
            for h in order:
                nm = h.cand[h.k][0]
                if nm == 'any': continue
                o = Obl('invariant@%s: %s = %s holds initially and is preserved' % (ln, lp.locname(it, base, h), {'best': 'start value, or what the stored draw gave', 'E': 'start value + number of hypotheses', 'F': 'start value + number of failed draws', 'D': 'start value + number of draws'}[nm]), (), TRUE, 'invariant', str(ln))
                o.res = 'proved'; o.how = 'loop invariant preservation'
                if o.name not in it._oblkeys: it._oblkeys.add(o.name); it.obls.append(o)
        it.st = base
        ex = var('exit of the sampling loop', 'I')
        i = it.choose([eq(ex, I(j)) for j in range(len(exits))])
        st, kind, v = exits[i]
        c = it.st.pc[-1]
        it.st = st.clone(); it.st.pc.append(c)
        if kind == 'return': raise Ret(v)
        return True
    def choice(s, it, st, mh, case, fn):
        """(took, stored draw after the iteration, case after the iteration)"""
        e1 = st.ghost['E']
        c1 = 'B' if case == 'B' or not (isnum(e1) and nv(e1) == 0) else 'A'
        if mh is None: return False, (s.b if case == 'B' else None), c1
        now = lp.get(st.mem[mh.cell], mh.path)
        start = fn(mh)
        if lp.unchanged(now, start): return False, (s.b if case == 'B' else None), c1
        return True, s.D, c1
