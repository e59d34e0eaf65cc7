"""C16 The relative pose of the central problem: decomposition of essential matrices, selection by total reprojection error.

The essential matrices are arbitrary (results of the solvers under C15), their singular value decomposition is used by its
contract, triangulation by C09, the reprojection error is the one of C11. The selection loop is annotated with its
invariant: what is stored is a candidate that no candidate looked at so far beats, or nothing."""
from .lib import *
from dv import loops as lp
from dv.prove import Rules
from . import c11, c22
from .c22 import RP, CENTRAL, ix, L, join
SRC = ['src/sac_problems/relative_pose/CentralRelativePoseSacProblem.cpp', 'src/triangulation/methods.cpp']
ESS = lambda k: absmat('essential', k, r=3, c=3)
W = Mat(3, 3, [R(x) for x in (0, -1, 0, 1, 0, 0, 0, 0, 1)])
class Factors:
    """entries of U, V and the singular values of the k-th essential matrix; `param` puts U = su Q(u_k), V = sv Q(v_k)"""
    def __init__(s, su, sv): s.sg = {'u': su, 'v': sv}; s.su = su; s.sv = sv; s.ru = Rules(); s.seen = {}
    def __call__(s, k): return absmat('U', k, r=3, c=3), absmat('V', k, r=3, c=3), absvec('s', k)
    def rot(s, n, k):
        if (n, k) not in s.seen:
            q = Mat(4, 1, [app('%s.%d' % (n, j), (k,), 'R') for j in range(4)])
            a, b, c, d = q.d
            s.ru.add(a, 2, sub(R(1), add(mul(b, b), mul(c, c), mul(d, d))))
            s.seen[n, k] = Q(q) if s.sg[n] > 0 else mat_map(neg, Q(q))
        return s.seen[n, k]
    def param(s, t):
        m = {}
        for a in atoms_of(t):
            if a.op == 'app' and a.args[0][:2] in ('U.', 'V.'):
                i, j = map(int, a.args[0][2:].split('_')); m[a] = s.rot(a.args[0][0].lower(), a.args[1])[i, j]
        return subst(t, m) if m else t
    def candidates(s, k):
        U, V, S = s(k); r = []
        for Wx in (W, tr(W)):
            Rm = mm(U, Wx, tr(V))
            if s.su * s.sv < 0: Rm = mat_map(neg, Rm)
            for sg in (1, -1): r.append((mat_map(lambda e: from_poly(poly(e), 'R'), Rm), mat_fn(3, 1, lambda i, j: mul(R(sg), S[0, 0], U[i, 2]))))
        return r
def cells(v, path=()):
    """the leaves of a value"""
    if isinstance(v, Mat): return [(path + (('m', n),), e) for n, e in enumerate(v.d)]
    if isinstance(v, Struct): return [x for f in sorted(v.f) for x in cells(v.f[f], path + ((f,),))]
    return [(path, v)]
class Selection:
    """invariant of the loop over the essential matrices"""
    def __init__(s, ck, one): s.ck = ck; s.one = one; s.done = 0; s.case = None; s.memo = {}; s.busy = False
    def hook(s, it, n, cond, inc, body, do):
        from dv.interp import Cont, LoopExit
        from dv.protocol import calls
        if s.busy or callable(body) or not calls(it.prog, body, 'triangulate2'): return False
        ck = s.ck
        base = it.st; i = I(0) if s.one else var('candidate!', 'I'); count = I(1) if s.one else L
        if do: raise Unsupported('selection loop with the test at its end')
        key = (tuple(base.pc), len(base.mem))
        if key not in s.memo: s.memo[key] = s.analyse(it, base, i, cond, inc, body)     # the same state when a later choice is explored
        changed, best, start, always, kept, wins = s.memo[key]
        s.wins = wins; s.i = i
        it.st = base
        s.done += 1
        order = list(wins)
        flags = [var('won%d' % x, 'B') for x in range(len(order))]
        w = it.choose([and_(*[not_(f) for f in flags])] + flags)
        s.case = None if w == 0 else order[w - 1]
        it.st.ghost['won'] = -1 if w == 0 else w - 1
        for cc in always: it.st.mem[cc] = s.fresh(changed[cc])
        for cc in changed:
            if changed[cc] is i: it.st.mem[cc] = count
        j = var('other', 'I')
        Istar = I(0) if s.one else var('best candidate', 'I'); at = (lambda x, k: x) if s.one else (lambda x, k: lp.sv(x, {i: k}))
        cur = start
        if w:
            it.assume(le(I(0), Istar)); it.assume(lt(Istar, count))
            cur = at(order[w - 1], Istar); it.assume(le(cur, start))
            for cc in kept: it.st.mem[cc] = at(copyv(wins[order[w - 1]][cc]), Istar)
        s.facts = (cur, start)
        it.assume(forall(j, implies(and_(le(I(0), j), lt(j, count)), and_(*[le(cur, at(q, j)) for q in order]))))
        return True
    def analyse(s, it, base, i, cond, inc, body):
        from dv.interp import Cont, LoopExit
        ck = s.ck
        changed = {}                 # cell -> value at the start of an arbitrary iteration
        best = None
        for rnd in range(4):
            def th():
                for cc, v in changed.items(): it.st.mem[cc] = copyv(v)
                it.assume(le(I(0), i))
                if not it.decide(it.loopcond(cond)): raise LoopExit()
                try: it.run(body)
                except Cont: pass
                it.run(inc)
            s.busy = True; it.quiet += 1; it.discovering += 1
            try: outs = it.explore(th)
            finally: s.busy = False; it.quiet -= 1; it.discovering -= 1
            new = False
            for st, kind, v in outs:
                if kind == 'exit': continue
                if kind != 'normal': raise Unsupported('selection loop left by ' + kind)
                for cc, v0 in base.mem.items():
                    if cc in changed: continue
                    v1 = st.mem.get(cc)
                    if v1 is None or v1 is v0 or lp.unchanged(v0, v1): continue
                    new = True
                    if isinstance(v0, T) and v0.sort == 'I' and isinstance(v1, T) and v1 is add(v0, I(1)) and v0 is I(0): changed[cc] = i
                    elif isinstance(v0, T): changed[cc] = var('stored%d' % cc, v0.sort)
                    elif isinstance(v0, Mat): changed[cc] = symmat(v0.r, v0.c, 'stored%d' % cc)
                    elif isinstance(v0, Struct): changed[cc] = s.havoc(it, v0, v1, 'stored%d' % cc)
                    else: raise Unsupported('selection loop: %r changes' % (v0,))
            if not new: break
        else: raise Unsupported('selection loop: changing locations')
        wins = {}; exits = []; paths = []
        for st, kind, v in outs:
            if kind == 'exit': exits.append(st); continue
            diff = {cc: st.mem[cc] for cc, v0 in changed.items() if v0 is not i and not lp.unchanged(v0, st.mem[cc])}
            if i in changed.values():
                cc = [c for c in changed if changed[c] is i][0]
                if st.mem[cc] is not add(i, I(1)): raise Unsupported('selection loop: counter')
            paths.append((st, diff))
        if len(exits) != 1 and not s.one: raise Unsupported('selection loop exits')
        # the stored quality: a real location starting at a constant that is compared
        reals = [cc for cc, v0 in changed.items() if isinstance(v0, T) and v0.sort == 'R' and isnum(base.mem[cc])]
        always = [cc for cc in changed if changed[cc] is not i and all(cc in d for st, d in paths)]
        reals = [cc for cc in reals if cc not in always]
        if len(reals) != 1: raise Unsupported('selection loop: stored quality')
        best = reals[0]; B = changed[best]; start = base.mem[best]
        kept = [cc for cc in changed if changed[cc] is not i and cc not in always]
        for st, d in paths:
            if best not in d:
                if any(cc in d for cc in kept): raise Unsupported('selection loop: winner without quality')
                continue
            q = d[best]
            for cc in kept:
                if any(x is changed[o] or x in leaves(changed[o]) for o in changed if changed[o] is not i for x in atoms_all(st.mem[cc])): raise Unsupported('selection loop: stored value depends on the one before')
            old = wins.get(q)
            if old is None: wins[q] = {cc: st.mem[cc] for cc in kept}
            else:
                for cc in kept:
                    if not lp.unchanged(old[cc], st.mem[cc]): raise Unsupported('selection loop: one quality, two winners')
        s.wins = wins; s.i = i
        for st, d in paths:
            if best not in d:
                for q in wins: ck.require('selection: a candidate that is not taken is no better than the stored one', le(B, q), st.pc)
            else:
                for q in wins: ck.require('selection: the candidate taken is no worse than the others of its matrix', le(d[best], q), st.pc)
                ck.require('selection: the candidate taken is no worse than the stored one', le(d[best], B), st.pc)
        it.st = base
        return changed, best, start, always, kept, wins
    def havoc(s, it, v0, v1, name):
        r = copyv(v0)
        for f in r.f:
            a, b = v0.f[f], v1.f[f]
            if a is b or lp.unchanged(a, b): continue
            if isinstance(a, T): r.f[f] = var(name + '.' + f, a.sort)
            elif isinstance(a, Mat): r.f[f] = symmat(a.r, a.c, name + '.' + f)
            elif isinstance(a, Struct): r.f[f] = s.havoc(it, a, b, name + '.' + f)
            else: raise Unsupported('selection loop: member %s' % f)
        return r
    def fresh(s, v): return copyv(v)
def atoms_all(v): return {a for _, e in cells(v) if isinstance(e, T) for a in atoms_of(e)}
def leaves(v): return [e for _, e in cells(v)] if not isinstance(v, T) else [v]

ALGS = {'NISTER': ('fivept_nister', 8, 5), 'STEWENIUS': ('fivept_stewenius', 8, 5), 'SEVENPT': ('sevenpt', 9, 7), 'EIGHTPT': ('eightpt', 9, 8)}
def central(ck, alg, su, sv):
    solver, size, given = ALGS[alg]
    nm = Namer(20, True); tab = c22.reltab(False); solved = []; dec = []
    F = Factors(su, sv)
    one = solver == 'eightpt'
    def result(it, q, args):
        if one: return ('v', ESS(I(0)))
        it.assume(le(I(0), L))
        if solver == 'fivept_stewenius': return ('v', Vec('opengv::complexEssential_t', ('fn', L, lambda k: mat_map2(Cx, ESS(k), absmat('imaginary', k, r=3, c=3)))))
        return ('v', Vec('opengv::essential_t', ('fn', L, ESS)))
    def decomp(it, base, A, args):
        if base != 'Eigen::JacobiSVD': raise Unsupported('a %s where the contract expects a singular value decomposition' % base)
        ks = sorted({a.args[1] for e in A.d for a in atoms_of(e) if a.op == 'app' and a.args[0].startswith('essential.')}, key=lambda x: x.id)
        if len(ks) != 1: raise Unsupported('the decomposed matrix is not one of the essential matrices')
        k = ks[0]
        dec.append((list(it.st.pc), A, k))
        U, V, S = F(k)
        return Struct('#' + base, {'A': A, 'U': U, 'V': V, 'S': S}, {'name': base})
    sel = Selection(ck, one)
    def score(k):
        r = []
        for Rm, t in F.candidates(k):
            q = R(0)
            for x in range(size):
                e = ix(I(x))
                q = add(q, c11.score(tab['getBearingVector1'](e), tab['getBearingVector2'](e), Rm, t))
            r.append(q)
        return r
    matched = {}
    def check(it, st, r, out, R0, t0):
        if not sel.done: raise Unsupported('no selection loop')
        if r is not TRUE and r is not FALSE: raise Unsupported('result of computeModelCoefficients')
        k = sel.i
        if not matched:
            # the qualities compared are those of the four candidates
            want = score(k); left = list(sel.wins)
            for p, w in enumerate(want):
                hit = None
                for q in left:
                    if not poly(sub(nm.expand(q, names_in(w)), w)): hit = q; break
                if hit is None:
                    for q in left:
                        if same(ck, nm, q, w): hit = q; break
                if hit is None:
                    ck.record('%s: candidate %d is compared by its total reprojection error over the sample' % (ck.cur, p), 'refuted', 'evaluation', 0); continue
                matched[hit] = p; left.remove(hit)
                require_named(ck, nm, 'candidate %d is compared by its total reprojection error over the sample' % p, hit, w)
            ck.record('%s: there are no other candidates' % ck.cur, 'proved' if not left else 'refuted', 'symbolic execution', 0)
        j = var('other', 'I')
        bad = and_(*[lt(q if one else subst(q, {k: j}), R(1000000)) for q in sel.wins])
        if r is FALSE:
            ck.require('failure is only reported without an essential matrix', FALSE if one else eq(L, I(0)), st.pc + [forall(j, implies(and_(le(I(0), j), lt(j, I(1) if one else L)), bad))])
            return
        w = st.ghost.get('won', -1)
        ck.record('%s: success needs a candidate' % ck.cur, 'proved' if w >= 0 else 'refuted', 'symbolic execution', 0)
        if w < 0: return
        q = list(sel.wins)[w]
        if q not in matched: return
        Istar = I(0) if one else var('best candidate', 'I')
        Rm, t = F.candidates(Istar)[matched[q]]
        Ro, to = mat_fn(3, 3, lambda a, b: out[a, b]), mat_fn(3, 1, lambda a, b: out[a, 3])
        Ro, to = mat_map(nm.expand, Ro), mat_map(nm.expand, to)
        par = lambda m: mat_map(F.param, m)
        ck.require_mat('the rotation of the model is the one of the candidate of smallest error', Ro, Rm, st.pc, F.ru)
        ck.require_mat('the translation of the model is the one of the candidate of smallest error', to, t, st.pc, F.ru)
        ck.require_mat('the rotation is orthonormal', mm(par(Ro), tr(par(Ro))), ident(3), st.pc, F.ru)
        ck.require('the rotation has determinant +1', eq(mat_det(par(Ro)), R(1)), st.pc, F.ru)
    prep = lambda it, p: p.f.update({'_algorithm': I(ck.prog.enum_value(CENTRAL + '::' + alg))})
    calls = []
    c22.relative(ck, CENTRAL, c22.ask([RP + solver], calls, result), tab, prep, check, c22.POSE, size, red=nm, decomp=decomp, loop_hook=sel.hook, simp=lambda c: c if not det(nm, c) else ck.pr.simp_cond(F.param(nm.expand(c)), F.ru))
    c22.listed(ck, calls, solver, given)
    ck.record('%s: the solver is called' % ck.cur, 'proved' if len(calls) >= 1 else 'refuted', 'symbolic execution', 0)
    for pc, A, k in dec: ck.require_mat('the decomposed matrix is an essential matrix of the solver', A, ESS(k), pc)
def det(nm, c):
    """a condition on the decomposition only"""
    e = nm.expand(c) if not any(nm.uses(a, 'sample') or nm.uses(a, 'triangulated') or nm.uses(a, 'adapter') for a in c.args if isinstance(a, T)) else None
    return e is not None and any(a.op == 'app' and a.args[0][:2] in ('U.', 'V.') for a in atoms_of(e))
def same(ck, nm, a, b):
    from dv import prove as pv
    sm = pv.Sampler(pv.Rules(), 3)
    vals = {}
    def uf(t, args):
        if t.op == 'app' and t.args[0] in nm.defs:
            k = (t.args[0], tuple(args))
            if k not in vals:
                ps, d = nm.defs[t.args[0]]; vals[k] = evaluate(d, dict(zip(ps, args)), uf)
            return vals[k]
        return sm.uf(t, args)
    try: u, v = float(evaluate(a, {}, uf)), float(evaluate(b, {}, uf))
    except (EvalError, OverflowError, ZeroDivisionError) as e:
        print('EVAL', repr(e)[:200]); return False
    return abs(u - v) < 1e-9 * (1 + abs(u))
def lemmas(ck):
    """every candidate has the decomposed matrix as its essential matrix (up to sign)"""
    for su in (1, -1):
        for sv in (1, -1):
            F = Factors(su, sv); k = I(0); U, V, S = F(k); s = S[0, 0]; U, V = F.rot('u', k), F.rot('v', k)
            E = mm(U, diag(s, s, R(0)), tr(V))
            for n, (Rm, t) in enumerate(F.candidates(k)):
                G = mm(skew(mat_map(F.param, t)), mat_map(F.param, Rm))
                x = None
                for sg in (1, -1):
                    if all(not F.ru.reduce(poly(sub(G[a, b], mul(R(sg), E[a, b])))) for a in range(3) for b in range(3)): x = sg
                ck.record('candidate %d has the essential matrix +-E (signs %+d %+d)' % (n, su, sv), 'proved' if x else 'refuted', 'polynomial identity', 0)
import os
def run(ck):
    c11.CANON[0] = True; only = os.environ.get('DV_ONLY', ''); contract = ck.contract
    ck.contract = lambda n, *a: contract(n, *a) if only in n else None
    ck.load(*SRC)
    ck.contract('candidates', lemmas)
    for alg in ALGS:
        for su in (1, -1):
            for sv in (1, -1): ck.contract('CentralRelativePoseSacProblem %s (det U = %+d, det V = %+d)' % (alg, su, sv), central, alg, su, sv)
    ck.assume += ['JacobiSVD returns orthogonal U, V and the singular values (every orthogonal 3x3 matrix is +-Q(q) for a unit quaternion q)', 'the essential matrices are arbitrary here (C15); the total error of unit bearing vectors is below 10^6',
                  'a true relative pose is one of the four decompositions of its essential matrix (twisted pair), scores zero (C11) and is the only one in front of both cameras']
    ck.native('c16.cpp')
