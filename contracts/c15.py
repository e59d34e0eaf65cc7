"""C15 Essential-matrix solvers: rows, null-space combination, the ten cubic constraints, elimination, rank and determinant."""
import os
from .lib import *
from dv.terms import poly, from_poly
from .c17 import run_
RP = 'opengv::relative_pose::'; NI = RP + 'modules::fivept_nister::'; ST = RP + 'modules::fivept_stewenius::'
SRC = ['src/relative_pose/methods.cpp', 'src/relative_pose/modules/main.cpp', 'src/relative_pose/modules/fivept_nister/modules.cpp', 'src/relative_pose/modules/fivept_stewenius/modules.cpp', 'src/math/Sturm.cpp']
NIS = ['xxx', 'yyy', 'xxy', 'xyy', 'xxz', 'xx', 'yyz', 'yy', 'xyz', 'xy', 'xzz', 'xz', 'x', 'yzz', 'yz', 'y', 'zzz', 'zz', 'z', '']
STE = ['xxx', 'xxy', 'xyy', 'yyy', 'xxz', 'xyz', 'yyz', 'xzz', 'yzz', 'zzz', 'xx', 'xy', 'yy', 'xz', 'yz', 'zz', 'x', 'y', 'z', '']
XYZ = {k: var(k) for k in 'xyz'}
def mono(m): return mul(*[XYZ[k] for k in m]) if m else R(1)
def matrix_of(v): return mat_fn(3, 3, lambda i, j: v.d[3 * i + j])     # the essential matrix of a coefficient vector
def solver_args(it, f, n, ix, tab):
    args = []
    for p in f['params']:
        t = noref(p['t'])
        if t.endswith('RelativeAdapterBase'): args.append(('lv', it.alloc(it.symval(RP + 'RelativeAdapterBase', 'adapter'))))
        elif 'vector<int' in t: args.append(('lv', it.alloc(Vec('int', ('fn', n, ix)))))
        else: raise Unsupported('parameter ' + t)
    return args
def overload(ck, q): return [f for f in ck.prog.by_q[q] if any('vector<int' in p['t'] for p in f['params'])][0]
def rows(ck, what, A, n, E_of, pc):
    """row k of the stacked matrix times a coefficient vector is the epipolar constraint of listed correspondence k for the matrix of these coefficients"""
    k = fresh('k', 'I'); i = app('idx[]', (k,), 'I'); e = symvec(9, 'e'); a, b = absvec('f1', i), absvec('f2', i)
    r, c = (I(A.r), I(A.c)) if isinstance(A, Mat) else (A.r, A.c)
    ck.require('%s: one row per listed correspondence' % what, eq(r, n), pc); ck.require('%s: nine columns' % what, eq(c, I(9)), pc)
    epi = mm(tr(a), E_of(e), b).d[0]
    if isinstance(A, Mat):
        for q in range(A.r):
            sb = {k: I(q)}; g = lambda x: subst(x, sb)
            ck.require('%s: row %d is an epipolar constraint' % (what, q), eq(add(*[mul(A[q, j], e.d[j]) for j in range(9)]), g(epi)), pc)
    else: ck.require('%s: every row is the epipolar constraint of its correspondence' % what, eq(add(*[mul(A.get(k, I(j)), e.d[j]) for j in range(9)]), epi), pc + [le(I(0), k), lt(k, n)])
TAB = {'getBearingVector1': lambda i: absvec('f1', i), 'getBearingVector2': lambda i: absvec('f2', i)}
def fivept(ck, q, main, least):
    n = var('n', 'I'); ix = lambda k: app('idx[]', (k,), 'I'); dec, seen = [], []
    V = symmat(9, 9, 'V')
    def decomp(it, base, A, a): dec.append((list(it.st.pc), base, A)); return Struct('#' + base, {'A': A, 'V': copyv(V)}, {'name': base})
    def solver(it, f, this, args): seen.append((list(it.st.pc), copyv(it.rv(args[0])))); return None
    it = ck.interp({RP + 'modules::' + main: solver}, abstract=getters(TAB), decomp=decomp); f = overload(ck, RP + q)
    def th(): it.assume(le(I(least), n)); return it.rv(it.call(f, None, solver_args(it, f, n, ix, TAB)))
    outs = [(st, v) for st, k, v in it.explore(th)]; ck.cover(outs)
    ck.record('%s: one decomposition and one solver call on every path' % ck.cur, 'proved' if len(dec) == len(seen) == len(outs) else 'refuted', 'symbolic execution', 0)
    for pc, base, A in dec: rows(ck, 'stacked matrix', A, n, matrix_of, pc)
    for pc, EE in seen: ck.require_mat('the null space handed on', EE, mat_fn(9, 4, lambda i, j: V[i, 5 + j]), pc)
    ck.obligations(it)
def eight(ck):
    n = var('n', 'I'); ix = lambda k: app('idx[]', (k,), 'I'); dec = []
    V = symmat(9, 9, 'V'); U2, V2 = symmat(3, 3, 'U2'), symmat(3, 3, 'V2'); S2 = symvec(3, 's')
    def decomp(it, base, A, a):
        dec.append((list(it.st.pc), A, len([d for d in dec if d[0] == it.st.pc])))
        first = not (isinstance(A, Mat) and A.c == 3)
        return Struct('#' + base, {'A': A, 'V': copyv(V)} if first else {'A': A, 'U': copyv(U2), 'V': copyv(V2), 'S': copyv(S2)}, {'name': base})
    it = ck.interp({}, abstract=getters(TAB), decomp=decomp); f = overload(ck, RP + 'eightpt')
    def th(): it.assume(le(I(8), n)); return it.rv(it.call(f, None, solver_args(it, f, n, ix, TAB)))
    outs = [(st, v) for st, k, v in it.explore(th)]; ck.cover(outs, 1)
    big = [d for d in dec if not (isinstance(d[1], Mat) and d[1].c == 3)]; small = [d for d in dec if isinstance(d[1], Mat) and d[1].c == 3]
    ck.record('%s: two decompositions' % ck.cur, 'proved' if len(big) == len(small) == 1 else 'refuted', 'symbolic execution', 0)
    v8 = col(*[V[i, 8] for i in range(9)])
    for pc, A, _ in small: F = A
    E_of = lambda e: mat_fn(3, 3, lambda i, j: subst(F[i, j], dict(zip(v8.d, e.d))))
    for pc, A, _ in big: rows(ck, 'stacked matrix', A, n, E_of, pc)
    for st, E in outs:
        ck.require_mat('the closest matrix with the two largest singular values', E, mm(U2, diag(col(S2.d[0], S2.d[1], R(0))), tr(V2)), st.pc)
        ck.require('the result has no full rank', eq(mat_det(E), R(0)), st.pc)
    ck.obligations(it)
def diag(v): return mat_fn(v.r, v.r, lambda i, j: v.d[i] if i == j else R(0))
def seven(ck, exact):
    n = I(7) if exact else var('n', 'I'); ix = lambda k: app('idx[]', (k,), 'I'); dec, eig = [], []
    V = symmat(9, 9, 'V'); D = [Cx(var('D.%d' % i), var('Di.%d' % i)) for i in range(3)]; Inv = symmat(3, 3, 'W')
    inverted = []
    def decomp(it, base, A, a):
        if base == 'Eigen::JacobiSVD': dec.append((list(it.st.pc), A)); return Struct('#' + base, {'A': A, 'V': copyv(V)}, {'name': base})
        eig.append((list(it.st.pc), A)); return Struct('#' + base, {'A': A, 'D': Mat(3, 1, [copyv(x) for x in D])}, {'name': base})
    def inverse(it, A): inverted.append(copyv(A)); return copyv(Inv)
    it = ck.interp({}, abstract=getters(TAB), decomp=decomp, inverse=inverse); f = overload(ck, RP + 'sevenpt')
    def th():
        if not exact: it.assume(le(I(8), n))
        return it.rv(it.call(f, None, solver_args(it, f, n, ix, TAB)))
    outs = [(st, v) for st, k, v in it.explore(th)]; ck.cover(outs)
    v7, v8 = [col(*[V[i, k] for i in range(9)]) for k in (7, 8)]
    F1 = matrix_of(v8); F2 = matrix_of(v7)
    for pc, A in dec: rows(ck, 'stacked matrix', A, n, matrix_of, pc)
    if not exact:
        for st, v in outs:
            ck.require('one matrix', eq(v.len, I(1)), st.pc); ck.require_mat('the null vector', v.get(I(0)), F1, st.pc)
        ck.obligations(it); return
    for A in inverted: ck.require_mat('inverted matrix', A, F2)
    for pc, A in eig: ck.require_mat('the pencil is F2^-1 F1', A, mm(Inv, F1), pc)
    M = symmat(3, 3, 'M'); lam = var('lam'); G = symmat(3, 3, 'F2')
    ck.require('with F1 = F2 M the combination F1 - l F2 is singular where M has eigenvalue l', eq(mat_det(msub(mm(G, M), mscale(lam, G))), mul(mat_det(G), mat_det(msub(M, mscale(lam, diag(col(R(1), R(1), R(1)))))))))
    det = mat_det(F1)
    for st, v in outs:
        if not isnum(v.len): raise Unsupported('number of results')
        m = nv(v.len)
        ck.record('%s: between one and three matrices' % ck.cur, 'proved' if 1 <= m <= 3 else 'refuted', 'symbolic execution', 0)
        for k in range(m):
            E = v.get(I(k)); q = next((j for j in range(3) if D[j].re in names_in(E) or D[j].im in names_in(E)), None)
            if q is None:
                ck.require_mat('the first null vector itself', E, F1, st.pc)
                ck.require('only if its determinant vanishes (to the tolerance)', lt(cabs(det), R(Fraction(1, 10**7))), st.pc); continue
            ck.require_mat('result %d is F1 - l F2' % k, E, msub(F1, mscale(D[q].re, F2)), st.pc)
            if m == 3: ck.require('result %d: l is real (to the tolerance)' % k, lt(cabs(D[q].im), R(Fraction(1, 10**7))), st.pc)
            else:
                for j in range(3): ck.require('l is the eigenvalue closest to being real (%d)' % j, le(cabs(D[q].im), cabs(D[j].im)), st.pc)
        if m == 3:
            ck.record('%s: three different eigenvalues' % ck.cur, 'proved' if sorted(next(j for j in range(3) if D[j].re in names_in(v.get(I(k)))) for k in range(3)) == [0, 1, 2] else 'refuted', 'symbolic execution', 0)
    ck.obligations(it)
def names_in(m):
    from dv.terms import atoms_of
    s = set()
    for x in m.d: s |= set(atoms_of(x))
    return s
# ---------------------------------------------------------------- the ten cubic constraints
def constraints(EE):
    e = mat_fn(9, 1, lambda i, j: add(mul(XYZ['x'], EE[i, 0]), mul(XYZ['y'], EE[i, 1]), mul(XYZ['z'], EE[i, 2]), EE[i, 3])); E = matrix_of(e)
    G = mm(E, tr(E)); t = trace(G); T3 = msub(mscale(R(2), mm(G, E)), mscale(t, E))
    return [poly(mat_det(E))] + [poly(x) for x in T3.d]
def combination(rowp, cons):
    """the invertible matrix expressing the rows by the constraints, or the first row that is no combination"""
    piv, basis = [], []       # reduced constraint polynomials
    for i, c in enumerate(cons):
        p = dict(c); w = [Fraction(0)] * len(cons); w[i] = Fraction(1)
        for m, q, v in basis:
            if p.get(m):
                k = p[m] / q[m]; sub_p(p, q, k); w = [a - k * b for a, b in zip(w, v)]
        p = {m: x for m, x in p.items() if x}
        if not p: return None, 'dependent constraints'
        basis.append((next(iter(p)), p, w))
    W = []
    for i, r in enumerate(rowp):
        p = dict(r); w = [Fraction(0)] * len(cons)
        for m, q, v in basis:
            if p.get(m): k = p[m] / q[m]; sub_p(p, q, k); w = [a + k * b for a, b in zip(w, v)]
        if any(p.values()): return None, 'row %d is no combination of the constraints' % i
        W.append(w)
    n = len(W); M = [list(w) for w in W]; rank = 0
    for c in range(n):
        p = next((r for r in range(rank, n) if M[r][c]), None)
        if p is None: continue
        M[rank], M[p] = M[p], M[rank]
        for r in range(rank + 1, n):
            k = M[r][c] / M[rank][c]
            if k: M[r] = [a - k * b for a, b in zip(M[r], M[rank])]
        rank += 1
    return (W, None) if rank == n else (None, 'the rows span only %d of %d constraints' % (rank, n))
def sub_p(p, q, k):
    for m, x in q.items(): p[m] = p.get(m, 0) - k * x
def compose(ck, q, order):
    EE = symmat(9, 4, 'EE'); it = ck.interp({}); outs = run_(ck, it, q, [EE], shape=lambda p: symmat(10, 20, 'before')); ck.cover(outs, 1)
    cons = constraints(EE)
    for st, (_, A) in outs:
        P = [poly(add(*[mul(A[i, j], mono(order[j])) for j in range(20)])) for i in range(10)]
        W, why = combination(P, cons)
        ck.record('%s: the ten rows are the determinant and trace constraints on the null-space combination, up to an invertible combination%s' % (ck.cur, '' if W else ' (%s)' % why), 'proved' if W else 'refuted', 'polynomial normal form', 0)
        if W: ck.record('%s: the combination is invertible' % ck.cur, 'proved', 'linear algebra over the rationals', 0)
    ck.obligations(it)
def nister(ck):
    """elimination of the polynomial system down to one tenth-order polynomial, and back-substitution"""
    EE = symmat(9, 4, 'EE'); A_ = symmat(10, 20, 'A'); X = symmat(10, 10, 'X'); A3 = symmat(10, 10, 'a3'); got, dec, pol = [], [], []
    def comp(it, f, this, args): it.write(args[1][1], copyv(A_)); got.append(copyv(it.rv(args[0])))
    def decomp(it, base, A, a): dec.append((base, A)); return Struct('#' + base, {'A': A, 'X': copyv(X)}, {'name': base})
    NR = [0]
    def sturm(it, f, this, args): pol.append(copyv(it.rv(args[0]))); return ('v', Struct('#sturm', {}, {'name': 'sturm'}))
    def roots(it, f, this, args): return ('v', Vec('double', ('c', [var('root%d' % i) for i in range(NR[0])])))
    pols = []
    def polish(it, f, this, args):
        pols.append((copyv(it.rv(args[0])), [it.rv(a) for a in args[1:4]])); k = len(pols) - 1
        for a, nm in zip(args[1:4], 'xyz'): it.write(a[1], var('%s%d' % (nm, k)))
    for NR[0] in range(11):       # a polynomial of order ten has at most ten roots
        del got[:], dec[:], pol[:], pols[:]
        prod = mm(X, mat_fn(10, 10, lambda i, j: A_[i, 10 + j])); names = {from_poly(poly(prod[i, j]), 'R'): A3[i, j] for i in range(10) for j in range(10)}
        def named(t): return names.get(from_poly(poly(t), 'R'), t) if t.op == '+' and len(t.args) == 10 else t       # entries of the eliminated system by name
        it = ck.interp({NI + 'composeA': comp, NI + 'pollishCoefficients': polish, 'opengv::math::Sturm::Sturm': sturm, 'opengv::math::Sturm::findRoots': roots}, decomp=decomp, red=named)
        f = ck.prog.find(RP + 'modules::fivept_nister_main'); d = {}
        def th():
            d['o'] = it.alloc(Vec('Eigen::Matrix<double, 3, 3, 0, 3, 3>', ('c', []))); it.call(f, None, [('lv', it.alloc(copyv(EE))), ('lv', d['o'])]); return it.read(d['o'])
        outs = [(st, v) for st, k, v in it.explore(th)]; ck.cover(outs, 1)
        for x in got: ck.require_mat('the constraints are those of the null space', x, EE)
        for b, A in dec: ck.require_mat('the left half is inverted', A, mat_fn(10, 10, lambda i, j: A_[i, j]))
        # reduced system: leading monomials + a3 * tail = 0
        red = A3; z = var('z'); zz = [mul(*([z] * k)) if k else R(1) for k in range(11)]
        def row(i): return [add(*[mul(red[i, o + j], zz[d_ - j]) for j in range(d_ + 1)]) for o, d_ in ((0, 2), (3, 2), (6, 3))]
        Bz = Mat(3, 3, [sub(a, mul(z, b)) for k in (4, 6, 8) for a, b in zip(row(k), row(k + 1))])
        ck.record('%s: one polynomial is solved' % ck.cur, 'proved' if len(pol) == 1 else 'refuted', 'symbolic execution', 0)
        for p in pol:
            val = add(*[mul(p.d[j], zz[10 - j]) for j in range(11)]); det = mat_det(Bz)
            same = [s for s in (1, -1) if ck.pr.prove(eq(val, mul(R(s), det)), [])[0] == 'proved']
            ck.require('the tenth-order polynomial is the determinant of the eliminated system', eq(val, mul(R(same[0] if same else 1), det)))
        for k, (A, (x, y, zr)) in enumerate(pols):
            ck.require_mat('polishing uses the constraints', A, A_); ck.require('root %d is used' % k, eq(zr, var('root%d' % k)))
            Br = mat_map(lambda t: subst(t, {z: zr}), Bz)
            m2 = sub(mul(Br[0, 0], Br[1, 1]), mul(Br[0, 1], Br[1, 0]))
            for r in range(2): ck.require('x, y of root %d solve row %d of the eliminated system' % (k, r), eq(add(mul(Br[r, 0], x), mul(Br[r, 1], y), Br[r, 2]), R(0)), [ne(m2, R(0))])
        for st, v in outs:
            ck.require('one matrix per root', eq(v.len, I(NR[0])), st.pc)
            for k in range(NR[0]):
                e = [add(mul(var('x%d' % k), EE[i, 0]), mul(var('y%d' % k), EE[i, 1]), mul(var('z%d' % k), EE[i, 2]), EE[i, 3]) for i in range(9)]
                nn = sqrt(add(*[mul(t, t) for t in e]))
                ck.require_mat('matrix %d is the normalised null-space combination' % k, v.get(I(k)), matrix_of(mat_fn(9, 1, lambda i, j: div(e[i], nn))), st.pc)
        ck.obligations(it)
def stewenius(ck):
    """the action matrix represents multiplication by x, and its eigenvectors are the monomials of the solutions"""
    EE = symmat(9, 4, 'EE'); A_ = symmat(10, 20, 'A'); X = symmat(10, 10, 'X'); A3 = symmat(10, 10, 'a3'); got, dec = [], []
    Vx = mat_fn(10, 10, lambda i, j: Cx(var('V.%d_%d' % (i, j)), var('Vi.%d_%d' % (i, j))))
    def comp(it, f, this, args): it.write(args[1][1], copyv(A_)); got.append(copyv(it.rv(args[0])))
    def decomp(it, base, A, a): dec.append((base, A)); return Struct('#' + base, {'A': A, 'X': copyv(X), 'V': copyv(Vx)}, {'name': base})
    prod = mm(X, mat_fn(10, 10, lambda i, j: A_[i, 10 + j])); names = {from_poly(poly(prod[i, j]), 'R'): A3[i, j] for i in range(10) for j in range(10)}
    def named(t): return names.get(from_poly(poly(t), 'R'), t) if t.op == '+' and len(t.args) == 10 else t
    it = ck.interp({ST + 'composeA': comp}, decomp=decomp, red=named); f = ck.prog.find(RP + 'modules::fivept_stewenius_main'); d = {}
    def th():
        d['o'] = it.alloc(Vec('Eigen::Matrix<std::complex<double>, 3, 3, 0, 3, 3>', ('c', []))); it.call(f, None, [('lv', it.alloc(copyv(EE))), ('lv', d['o'])]); return it.read(d['o'])
    outs = [(st, v) for st, k, v in it.explore(th)]; ck.cover(outs, 1)
    for x in got: ck.require_mat('the constraints are those of the null space', x, EE)
    inv_ = [A for b, A in dec if b != 'Eigen::EigenSolver']; act = [A for b, A in dec if b == 'Eigen::EigenSolver']
    ck.record('%s: one inverse, one eigenvalue problem' % ck.cur, 'proved' if len(inv_) == len(act) == 1 else 'refuted', 'symbolic execution', 0)
    for A in inv_: ck.require_mat('the left half is inverted', A, mat_fn(10, 10, lambda i, j: A_[i, j]))
    b = col(*[mono(m) for m in STE[10:]])
    # leading monomials by the tail: lead_i = -sum_j a3_ij b_j
    lead = {''.join(sorted(m)): neg(add(*[mul(A3[i, j], b.d[j]) for j in range(10)])) for i, m in enumerate(STE[:10])}; tail = {''.join(sorted(m)): b.d[i] for i, m in enumerate(STE[10:])}
    for M in act:
        for i, m in enumerate(STE[10:]):
            t = ''.join(sorted(m + 'x')); want = lead[t] if t in lead else tail[t]
            ck.require('row %d multiplies the monomial %s by x' % (i, m or '1'), eq(mm(M, b).d[i], want))
    for st, v in outs:
        ck.require('ten matrices', eq(v.len, I(10)), st.pc)
        for k in range(10):
            E = v.get(I(k)); V = lambda i: (Vx[i, k].re, Vx[i, k].im)
            cm = lambda p, q: (sub(mul(p[0], q[0]), mul(p[1], q[1])), add(mul(p[0], q[1]), mul(p[1], q[0])))
            # proportional to EE (x, y, z, 1)^T w with the eigenvector's entries w(x, y, z, 1) at its end
            e = [tuple(add(*[mul(EE[i, j], V(6 + j)[c]) for j in range(4)]) for c in (0, 1)) for i in range(9)]; got_ = [(E[i // 3, i % 3].re, E[i // 3, i % 3].im) for i in range(9)]
            dn = [ne(add(mul(V(9)[0], V(9)[0]), mul(V(9)[1], V(9)[1])), R(0))]
            for i in range(1, 9):
                l, r = cm(got_[i], e[0]), cm(got_[0], e[i])
                for c in (0, 1): ck.require('matrix %d is proportional to the null-space combination of eigenvector %d (%d)' % (k, k, i), eq(l[c], r[c]), st.pc + dn)
    ck.obligations(it)
def run(ck):
    only = os.environ.get('DV_ONLY', ''); contract = ck.contract
    ck.contract = lambda n, *a: contract(n, *a) if only in n else None
    ck.load(*SRC)
    ck.contract('five-point (Nister): stacked rows', fivept, 'fivept_nister', 'fivept_nister_main', 5)
    ck.contract('five-point (Stewenius): stacked rows', fivept, 'fivept_stewenius', 'fivept_stewenius_main', 5)
    ck.contract('eight-point', eight)
    ck.contract('seven-point', seven, True)
    ck.contract('seven-point, more correspondences', seven, False)
    ck.contract('constraint coefficients (Nister)', compose, NI + 'composeA', NIS)
    ck.contract('constraint coefficients (Stewenius)', compose, ST + 'composeA', STE)
    ck.contract('fivept_nister_main', nister)
    ck.contract('fivept_stewenius_main', stewenius)
    ck.assume += ['JacobiSVD: the last columns of V span the null space; EigenSolver: eigenvectors and eigenvalues; FullPivLU: the inverse; the left half of the constraint matrix is invertible (general position)', 'Sturm::findRoots is left arbitrary (zero to ten roots); the polishing step is left arbitrary']
    ck.native('c15.cpp')
