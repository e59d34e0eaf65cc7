"""C17 The eigenvalue-based relative pose solvers: summation terms, cost matrix, its smallest eigenvalue, and the derivatives."""
import os
from .lib import *
from dv.terms import poly, powi
from dv import interp as ip
from .c06 import exposed
RP = 'opengv::relative_pose::'; EM = RP + 'modules::eigensolver::'; GM = RP + 'modules::ge::'
SRC = ['src/relative_pose/methods.cpp', 'src/relative_pose/modules/main.cpp', 'src/relative_pose/modules/eigensolver/modules.cpp', 'src/relative_pose/modules/ge/modules.cpp', 'src/math/cayley.cpp']
CAY = col(*[var('c.%d' % i) for i in range(3)])
def sym(n, name): return mat_fn(n, n, lambda i, j: var('%s.%d_%d' % (name, min(i, j), max(i, j))))
# ---------------------------------------------------------------- derivatives of terms
def diff(t, d):
    """derivative of t; d: atom -> derivative (atoms not listed are constant)"""
    memo = {}
    def da(a):
        if a in memo: return memo[a]
        if a in d: r = d[a]
        elif a.op in ('var', 'num', 'bv'): r = R(0)
        elif a.op == 'inv': r = neg(mul(go(a.args[0]), a, a))
        elif a.op == 'sqrt': r = div(go(a.args[0]), mul(R(2), a))
        elif a.op == 'app':
            f = a.args[0]; xs = [x for x in a.args[1:] if isinstance(x, T)]; ds = [go(x) if x.sort == 'R' else R(0) for x in xs]
            if all(x is R(0) or not poly(x) for x in ds): r = R(0)
            elif f == 'cos': r = neg(mul(app('sin', (xs[0],), 'R'), ds[0]))
            elif f == 'sin': r = mul(app('cos', (xs[0],), 'R'), ds[0])
            elif f == 'acos': r = neg(div(ds[0], sqrt(sub(R(1), mul(xs[0], xs[0])))))
            elif f == 'pow' and isnum(xs[1]): r = mul(xs[1], div(a, xs[0]), ds[0])
            else: raise Unsupported('derivative of ' + f)
        else: raise Unsupported('derivative of ' + a.op)
        memo[a] = r; return r
    def go(t):
        if t.sort != 'R': t = toreal(t)
        s = []
        for m, c in poly(t).items():
            for i, (a, e) in enumerate(m):
                x = da(ATOM[a])
                if x is R(0) or not poly(x): continue
                fs = [num(c * e, 'R')] + [ATOM[b] for j, (b, k) in enumerate(m) for _ in range(k - (1 if i == j else 0))] + [x]
                s.append(mul(*fs))
        return from_poly(poly(add(*s)), 'R') if len(s) > 1 else s[0] if s else R(0)
    return go(t)
# ---------------------------------------------------------------- the summation terms
AB = ((0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (2, 0))     # xx yy zz xy yz zx
def fterms(f1, f2): return [mscale(mul(f1.d[a], f1.d[b]), outer(f2, f2)) for a, b in AB]
def vec9(v, m):      # (v_x m; v_y m; v_z m)
    return Mat(9, 1, [mul(v.d[i], m.d[j]) for i in range(3) for j in range(3)])
def gterms(f1, f2, t1, t2):
    """the generalised summation terms of one correspondence"""
    u1 = vec9(mat_cross(f2, t2), f1); u2 = vec9(mat_cross(f1, t1), f2); r = []
    for u in (u1, u2):
        for a in range(3): r.append(mscale(f1.d[a], outer(f2, u)))
    return r + [mscale(R(-1), outer(u1, u1)), mscale(R(-1), outer(u2, u1)), mscale(R(-1), outer(u2, u2))]
NAMES = ['xxF', 'yyF', 'zzF', 'xyF', 'yzF', 'zxF', 'x1P', 'y1P', 'z1P', 'x2P', 'y2P', 'z2P', 'm11P', 'm12P', 'm22P']
def listed(ck, q, gen, weights, rule):
    """the terms handed to the minimisation are the weighted sums over exactly the listed correspondences"""
    n = var('n', 'I'); ix = lambda k: app('idx[]', (k,), 'I'); seen = []
    g1 = lambda i: absvec('f1', i); g2 = lambda i: absvec('f2', i); wt = lambda i: app('w', (i,), 'R')
    tab = {'getBearingVector1': g1, 'getBearingVector2': g2, 'getWeight': wt, 'getCamOffset1': lambda i: absvec('o1', i), 'getCamOffset2': lambda i: absvec('o2', i),
           'getCamRotation1': lambda i: absmat('C1', i), 'getCamRotation2': lambda i: absmat('C2', i)}
    main = RP + 'modules::' + ('ge_main2' if gen else 'eigensolver_main')
    def solver(it, f, this, args): seen.append((list(it.st.pc), [copyv(it.rv(a)) for a in args])); return None
    def arun(it, f, this, args): return ('v', symmat(3, 3, 'arun'))
    def r2c(it, f, this, args): return ('v', symvec(3, 'start'))
    nm = Namer(6, True); k = fresh('k', 'I'); i = ix(k)
    a, b = [mat_map(nm, x) for x in ((mm(absmat('C1', i), g1(i)), mm(absmat('C2', i), g2(i))) if gen else (g1(i), g2(i)))]
    nm.seal(a, b)
    it = ck.interp({main: solver, 'opengv::math::arun': arun, 'opengv::math::rot2cayley': r2c}, abstract=getters(tab), red=nm)
    f = [f for f in ck.prog.by_q[q] if any('vector<int' in p['t'] for p in f['params']) and any('Output' in p['t'] for p in f['params']) and not any('Indices' in p['t'] for p in f['params'])][0]
    def th():
        it.assume(le(I(6), n)); args = []
        for p in f['params']:
            t = noref(p['t'])
            if t.endswith('RelativeAdapterBase'): args.append(('lv', it.alloc(it.symval(RP + 'RelativeAdapterBase', 'adapter'))))
            elif 'vector<int' in t: args.append(('lv', it.alloc(Vec('int', ('fn', n, ix)))))
            elif t == 'bool': args.append(('v', B(weights)))
            else: args.append(('lv', it.alloc(it.symval(t, p['name']))))
        return it.rv(it.call(f, None, args))
    outs = [(st, v) for st, k, v in it.explore(th)]
    ck.cover(outs)
    w = wt(i); fac = nm(div(w, nm(sqrt(nm(mksum(k, mul(w, w), n)))))) if weights else R(1)
    terms = fterms(a, b) + (gterms(a, b, absvec('o1', i), absvec('o2', i)) if gen else [])
    ck.record('%s: the minimisation is called on every path' % ck.cur, 'proved' if seen else 'refuted', 'symbolic execution', 0)
    for pc, args in seen:
        for name, A, S in zip(NAMES, args, terms):
            for r in range(S.r):
                for c in range(S.c): require_named(ck, nm, '%s[%d,%d] is the weighted sum over the listed correspondences' % (name, r, c), A[r, c], mksum(k, nm(mul(fac, S[r, c])), n), pc)
    ck.obligations(it)
# ---------------------------------------------------------------- the cost matrix
def symterms(gen):
    r = [sym(3, nm) for nm in NAMES[:6]]
    if gen: r += [symmat(3, 9, nm) for nm in NAMES[6:12]] + [sym(9, 'm11P'), symmat(9, 9, 'm12P'), sym(9, 'm22P')]
    return r
def reduced(c):
    """(1+|c|^2) times the rotation of the Cayley vector c"""
    x, y, z = c.d; one = R(1); q = lambda v: mul(v, v); two = R(2)
    return Mat(3, 3, [sub(add(one, q(x)), add(q(y), q(z))), mul(two, sub(mul(x, y), z)), mul(two, add(mul(x, z), y)),
                      mul(two, add(mul(x, y), z)), sub(add(one, q(y)), add(q(x), q(z))), mul(two, sub(mul(y, z), x)),
                      mul(two, sub(mul(x, z), y)), mul(two, add(mul(y, z), x)), sub(add(one, q(z)), add(q(x), q(y)))])
def run_(ck, it, q, args, outs=0, shape=None):
    """call q; further matrix outputs (by reference) are returned with the result"""
    f = ck.prog.find(q); r = []
    def th():
        ls = []
        for p, a in zip(f['params'], args): ls.append(('lv', it.alloc(copyv(a))) if ip.is_ref(p['t']) else ('v', copyv(a)))
        for p in f['params'][len(args):]: ls.append(('lv', it.alloc(shape(p) if shape else it.symval(noref(p['t']), 'before.' + p['name']))))
        v = it.rv(it.call(f, None, ls))
        return [v] + [it.read(l[1]) for l in ls[len(args):]]
    return [(st, v) for st, k, v in it.explore(th)]
def matrix(ck, gen):
    """the cost matrix is the sum of the outer products of the (generalised) epipolar plane normals, for every rotation"""
    S = symterms(gen); syms = {x for m in S for x in m.d}
    it = ck.interp({}); outs = run_(ck, it, (GM + 'composeG') if gen else (EM + 'composeM'), S + [CAY]); ck.cover(outs, 1)
    f1, f2, t1, t2 = [symvec(3, x) for x in ('f1', 'f2', 't1', 't2')]; w = var('w')
    one = [mscale(w, x) for x in fterms(f1, f2) + (gterms(f1, f2, t1, t2) if gen else [])]
    sub_ = {x: y for m, o in zip(S, one) for x, y in zip(m.d, o.d)}
    Rb = reduced(CAY); nrm = mat_cross(f1, mm(Rb, f2))
    g = Mat(4, 1, nrm.d + [mm(tr(f1), msub(mm(skew(t1), Rb), mm(Rb, skew(t2))), f2).d[0]]) if gen else nrm
    for st, (M,) in outs:
        n = 4 if gen else 3
        for i in range(n):
            for j in range(n):
                p = poly(M[i, j])
                lin = all(sum(e for a, e in m if ATOM[a] in syms) == 1 for m in p)
                ck.record('%s: [%d,%d] is linear in the summation terms' % (ck.cur, i, j), 'proved' if lin else 'refuted', 'polynomial normal form', 0)
                ck.require('[%d,%d] for one correspondence is the product of the constraint normal\'s entries' % (i, j), eq(subst(M[i, j], sub_), mul(w, g.d[i], g.d[j])), st.pc)
    ck.obligations(it)
def jacobians(ck, gen):
    """the derivative matrices are the exact derivatives of the cost matrix"""
    S = symterms(gen); q = (GM + 'composeG') if gen else (EM + 'composeM')
    it = ck.interp({}); A = run_(ck, it, q, S + [CAY]); ck.cover(A, 1)
    it2 = ck.interp({}); n = 4 if gen else 3
    Bo = run_(ck, it2, q + 'withJacobians', S + [CAY], shape=lambda p: zeros(n, n)); ck.cover(Bo, 1)
    M0 = A[0][1][0]
    for st, (M, *J) in Bo:
        ck.require_mat('the same cost matrix', M, M0, st.pc)
        for c in range(3):
            D = {CAY.d[c]: R(1)}
            ck.require_mat('derivative %d' % c, J[c], mat_map(lambda x: diff(x, D), mat_fn(n, n, lambda i, j: M0[i, j])), st.pc)
    ck.obligations(it); ck.obligations(it2)
# ---------------------------------------------------------------- the smallest eigenvalue
def charpoly(M):
    """coefficients b, c, d of det(x I - M) = x^3 + b x^2 + c x + d"""
    m2 = lambda i, j: sub(mul(M[i, i], M[j, j]), mul(M[i, j], M[j, i]))
    return neg(trace(M)), add(m2(0, 1), m2(0, 2), m2(1, 2)), neg(mat_det(M))
def trigonometric(nm, b, c, d, B, q, y, z, ru):
    """terms over the coefficients b, c, d rewritten to w = q^2 (w^2 = b^2-3c), y = cos(t), z = sin(t), where 2 w^3 cos(3t) = 2b^3-9bc+27d and 0 <= t <= pi/3"""
    third = R(Fraction(1, 3)); x3 = sub(mul(R(4), powi(y, 3)), mul(R(3), y)); s3 = mul(z, sub(mul(R(4), mul(y, y)), R(1)))
    C = mul(third, sub(mul(B, B), powi(q, 4)))
    D = mul(R(Fraction(1, 27)), add(mul(R(2), powi(q, 6), x3), mul(R(-2), powi(B, 3)), mul(R(9), B, C)))
    base = {b: B, c: C, d: D}; memo = {}; pr = nm.pr
    same = lambda u, v: pr.prove(eq(u, v), [], ru)[0] == 'proved'
    def at(a):
        if a in memo: return memo[a]
        if a in base: r = base[a]
        elif a.op == 'var' or (a.op == 'app' and a.args[0].startswith('val#')): r = a
        elif a.op == 'inv': r = div(R(1), go(a.args[0]))
        elif a.op == 'sqrt':
            x = go(a.args[0])
            if same(x, mul(R(4), powi(q, 12))): r = mul(R(2), powi(q, 6))
            elif same(x, powi(q, 12)): r = powi(q, 6)
            elif same(x, powi(q, 4)): r = mul(q, q)
            elif same(x, mul(s3, s3)): r = s3
            else: raise Unsupported('root in the closed form')
        elif a.op == 'app' and a.args[0] == 'pow' and isnum(a.args[2]) and nv(a.args[2]) == Fraction(1, 3):
            if not same(go(a.args[1]), powi(q, 6)): raise Unsupported('root in the closed form')
            r = mul(q, q)
        elif a.op == 'app' and a.args[0] in ('cos', 'sin'):
            h = from_poly(poly(mul(R(3), a.args[1])), 'R')
            if not (h.op == 'app' and h.args[0] == 'acos' and same(go(h.args[1]), x3)): raise Unsupported('angle in the closed form')
            r = y if a.args[0] == 'cos' else z
        else: raise Unsupported('closed form: %s' % show(a)[:60])
        memo[a] = r; return r
    def go(t):
        return subst_top(t, {ATOM[a]: at(ATOM[a]) for m in poly(t) for a, e in m})
    return go, C, D
def smallest(ck, jac):
    """the value is the smallest root of the characteristic polynomial of the cost matrix; the derivatives are those of this value"""
    M = sym(3, 'M'); J = [sym(3, 'J%d' % k) for k in range(3)]; S = symterms(False); forwarded = []
    def comp(it, f, this, args):
        forwarded.append([copyv(it.rv(a)) for a in args[:7]])
        for k, l in enumerate(args[7:]): it.write(l[1], copyv(J[k]))
        return ('v', copyv(M))
    nm = Namer(3, True); nm.pr = ck.pr
    canon = lambda x: nm(from_poly(poly(x), 'R'))
    cp = charpoly(M); dcp = [[diff(x, {M[i, j]: J[k][i, j] for i in range(3) for j in range(3)}) for x in cp] for k in range(3)]
    b, c, d = [canon(x) for x in cp]; db = [[canon(x) for x in r] for r in dcp]
    for x in (b, c, d): nm.seal(x)
    for r in db:
        for x in r: nm.seal(x)
    def plain(t):
        for m in poly(t):
            for a, e in m: return ATOM[a], nv(R(poly(t)[m]))
    it = ck.interp({EM + 'composeM': comp, EM + 'composeMwithJacobians': comp}, red=nm)
    outs = run_(ck, it, EM + ('getSmallestEVwithJacobian' if jac else 'getSmallestEV'), S + [CAY], shape=lambda p: zeros(1, 3) if jac else zeros(3, 3)); ck.cover(outs, 1)
    for a in forwarded:
        for nm_, x, y in zip(NAMES[:6] + ['the rotation'], a, S + [CAY]): ck.require_mat('the cost matrix is composed from ' + nm_, x, y)
    B, q, y, z = [var(v) for v in ('b', 'q', 'y', 'z')]; ru = Rules(); ru.add(z, 2, sub(R(1), mul(y, y)))
    (an, ka), (cn, kc), (dn, kd) = [plain(x) for x in (b, c, d)]
    keep = names_in(b, c, d, *[x for r in db for x in r])
    go0, C, D = trigonometric(nm, an, cn, dn, B, q, y, z, ru)
    # b = ka*an etc., so the names stand for B/ka, C/kc, D/kd
    go, _, _ = (go0, 0, 0) if (ka, kc, kd) == (1, 1, 1) else (None, 0, 0)
    if go is None:
        m1 = {an: mul(R(Fraction(1) / ka), var('b0')), cn: mul(R(Fraction(1) / kc), var('c0')), dn: mul(R(Fraction(1) / kd), var('d0'))}
        g0, _, _ = trigonometric(nm, var('b0'), var('c0'), var('d0'), B, q, y, z, ru)
        go = lambda t: g0(from_poly(poly(subst(t, m1)), 'R'))
    th = R(Fraction(1, 3)); L = mul(sub(neg(B), mul(R(2), mul(q, q), y)), th)
    pd = add(mul(R(3), L, L), mul(R(2), B, L), C)
    ck.require('the closed form is a root of the characteristic polynomial', eq(add(powi(L, 3), mul(B, L, L), mul(C, L), D), R(0)), [], ru)
    u = var('u'); yu = add(R(Fraction(1, 2)), mul(u, u))      # cos(t) >= 1/2
    ck.require('the characteristic polynomial does not fall there', le(R(0), subst(pd, {y: yu})), [], ru)
    ck.require('it is left of the inflection point', le(subst(add(mul(R(6), L), mul(R(2), B)), {y: yu}), R(0)), [], ru)
    for st, (v, out) in outs:
        ck.require('the value is the smallest eigenvalue', eq(go(nm.expand(v, keep)), L), st.pc, ru)
        if not jac: ck.require_mat('the cost matrix is handed out', out, M, st.pc); continue
        for k in range(3):
            b1, c1, d1 = db[k]
            ck.require('derivative %d is that of the smallest eigenvalue' % k, eq(mul(go(nm.expand(out[0, k], keep)), pd), neg(add(mul(b1, L, L), mul(c1, L), d1))), st.pc, ru)
    ck.obligations(it)
# ---------------------------------------------------------------- the generalised cost
def charpoly4(M):
    """coefficients of det(x I - M) = x^4 + B x^3 + C x^2 + D x + E"""
    m2 = lambda i, j: sub(mul(M[i, i], M[j, j]), mul(M[i, j], M[j, i]))
    def minor(ix): return mat_det(mat_fn(len(ix), len(ix), lambda i, j: M[ix[i], ix[j]]))
    return [neg(trace(M)), add(*[m2(i, j) for i in range(4) for j in range(i)]), neg(add(*[minor([k for k in range(4) if k != l]) for l in range(4)])), det4(M)]
def det4(M):
    r = R(0)
    for c in range(4):
        k = [x for x in range(4) if x != c]
        d = mat_det(mat_fn(3, 3, lambda i, j: M[i + 1, k[j]])); r = add(r, mul(R((-1) ** c), M[0, c], d))
    return r
def ferrari(nm, names, B, w, y, S, r, ru, pr):
    """terms over the coefficients of the quartic rewritten to the roots' half sums and differences: with u = x + B/4 the quartic is (u^2 + w u + (w^2-S^2)/4)(u^2 - w u + ...)"""
    Rf = lambda a, b=1: R(Fraction(a, b))
    m = mul(Rf(1, 2), add(mul(S, S), mul(R(3), mul(w, w)), mul(R(-4), y)))
    al = sub(mul(w, w), mul(R(2), y)); be = mul(w, m); t = sub(mul(w, w), y); ga = sub(mul(t, t), mul(Rf(1, 4), mul(m, m)))
    C = add(al, mul(Rf(3, 8), mul(B, B))); D = add(be, mul(Rf(-1, 8), powi(B, 3)), mul(Rf(1, 2), mul(B, C)))
    E = add(ga, mul(Rf(3, 256), powi(B, 4)), mul(Rf(-1, 16), mul(B, B, C)), mul(Rf(1, 4), mul(B, D)))
    p = sub(mul(Rf(-1, 12), mul(al, al)), ga); q = add(mul(Rf(-1, 108), powi(al, 3)), mul(Rf(1, 3), mul(al, ga)), mul(Rf(-1, 8), mul(be, be)))
    e = add(y, mul(Rf(5, 6), al)); P = from_poly(poly(p), 'R')
    ru.add(r, 2, from_poly(poly(mul(Rf(-1, 3), P)), 'R'))      # r^2 = -p/3 >= 0: three real resolvent roots
    base = dict(zip(names, (B, C, D, E))); memo = {}
    same = lambda u, v: pr.prove(eq(u, v), [], ru)[0] == 'proved'
    def at(a):
        if a in memo: return memo[a]
        if a in base: x = base[a]
        elif a.op == 'inv': x = div(R(1), go(a.args[0]))
        elif a.op == 'sqrt':
            z = go(a.args[0])
            for v in (w, S, r, powi(r, 3)):
                if same(z, mul(v, v)): x = v; break
            else: raise Unsupported('root in the closed form')
        elif a.op == 'app' and a.args[0] == 'pow' and isnum(a.args[2]) and nv(a.args[2]) == Fraction(1, 3):
            if not same(go(a.args[1]), powi(r, 6)): raise Unsupported('root in the closed form')
            x = mul(r, r)
        elif a.op == 'app' and a.args[0] == 'cos':
            h = from_poly(poly(mul(R(3), a.args[1])), 'R')
            if not (h.op == 'app' and h.args[0] == 'acos'): raise Unsupported('angle in the closed form')
            g = go(h.args[1])       # cos(acos(g)/3) = e/(2r): 4 Y^3 - 3 Y = g
            if not same(mul(R(2), g, powi(r, 3)), sub(powi(e, 3), mul(R(3), e, mul(r, r)))): raise Unsupported('angle in the closed form')
            x = div(e, mul(R(2), r))
        else: raise Unsupported('closed form: %s' % show(a)[:60])
        x = from_poly(poly(x), 'R'); memo[a] = x; return x
    def go(t): return subst_top(t, {ATOM[a]: at(ATOM[a]) for mo in poly(t) for a, k in mo})
    return go, (C, D, E), (al, be, ga, p, q, e)
def quartic(ck):
    """the two values are the two smallest roots of the characteristic polynomial of the generalised cost matrix"""
    M = sym(4, 'M'); S_ = symterms(True); forwarded = []
    def comp(it, f, this, args): forwarded.append([copyv(it.rv(a)) for a in args[:16]]); return ('v', copyv(M))
    nm = Namer(3, True); cp = [nm(from_poly(poly(x), 'R')) for x in charpoly4(M)]
    for x in cp: nm.seal(x)
    it = ck.interp({GM + 'composeG': comp}, red=nm)
    outs = run_(ck, it, GM + 'getEV', S_ + [CAY], shape=lambda p: symvec(4, 'before')); ck.cover(outs, 1)
    for a in forwarded:
        for n_, x, y_ in zip(NAMES + ['the rotation'], a, S_ + [CAY]): ck.require_mat('the cost matrix is composed from ' + n_, x, y_)
    B, w, y, S, r = [var(v) for v in ('B', 'w', 'y', 'S', 'r')]; ru = Rules()
    base, mp = [], {}
    for i, x in enumerate(cp):       # a name may stand for the negated coefficient
        (mo, k), = poly(x).items(); a0 = var('k%d' % i); base.append(a0); mp[ATOM[mo[0][0]]] = mul(R(Fraction(1) / Fraction(k)), a0)
    go, (C, D, E), (al, be, ga, p, q, e) = ferrari(nm, base, B, w, y, S, r, ru, ck.pr)
    tr_ = lambda t: go(from_poly(poly(subst(nm.expand(t, names_in(*cp)), mp)), 'R'))
    h = R(Fraction(1, 2)); x3, x2 = [add(mul(R(Fraction(-1, 4)), B), mul(R(Fraction(-1, 2)), w), mul(R(Fraction(s, 2)), S)) for s in (-1, 1)]
    for X, nm_ in ((x3, 'smallest'), (x2, 'second')): ck.require('the %s value is a root of the characteristic polynomial' % nm_, eq(add(powi(X, 4), mul(B, powi(X, 3)), mul(C, X, X), mul(D, X), E), R(0)))
    # y is the largest resolvent root, so the pair {smallest, second} lies below the other pair
    ck.require('the resolvent root solves the resolvent', eq(add(powi(e, 3), mul(p, e), q), R(0)))
    u = var('u'); Y = add(h, mul(u, u)); er = mul(R(2), r, Y); ck.require('the largest resolvent root is taken', le(R(0), add(mul(R(3), er, er), mul(R(-3), r, r))))
    T_ = var('T'); ru2 = Rules(); m = mul(h, add(mul(S, S), mul(R(3), w, w), mul(R(-4), y)))
    ru2.add(y, 1, mul(R(Fraction(1, 4)), add(mul(h, sub(T_, S), add(T_, S)), mul(S, S), mul(R(3), w, w))))      # T^2 = S^2 - 4 m: the other pair is B/-4 + w/2 -+ T/2
    ck.require('half difference of the other pair', eq(mul(T_, T_), sub(mul(S, S), mul(R(4), m))), [], ru2)
    y2 = mul(h, sub(mul(R(Fraction(1, 4)), add(S, T_), add(S, T_)), al)); e2 = add(y2, mul(R(Fraction(5, 6)), al))
    ck.require('(S+T)^2/4 belongs to another resolvent root, hence S+T <= 2w', eq(add(powi(e2, 3), mul(p, e2), q), R(0)), [], ru2)
    for st, (_, roots) in outs:
        ck.require('value 3 is the smallest root', eq(tr_(roots[3, 0]), x3), st.pc, ru)
        ck.require('value 2 is the second smallest root', eq(tr_(roots[2, 0]), x2), st.pc, ru)
    ck.obligations(it)
def cost(ck):
    """the cost is the smallest (step 1) or second smallest (step 0) eigenvalue"""
    S = symterms(True)
    for step, k in ((0, 2), (1, 3)):
        got = []
        def ev(it, f, this, args): got.append([copyv(it.rv(a)) for a in args[:16]]); it.write(args[16][1], symvec(4, 'root'))
        it = ck.interp({GM + 'getEV': ev}); outs = run_(ck, it, GM + 'getCost', S + [CAY, I(step)]); ck.cover(outs, 1)
        for st, (v,) in outs: ck.require('step %d' % step, eq(v, var('root.%d' % k)), st.pc)
        for a in got:
            for n_, x, y in zip(NAMES + ['the rotation'], a, S + [CAY]): ck.require_mat('evaluated with ' + n_, x, y)
def difference(ck, quick):
    """the derivatives are difference quotients of the cost (without the common step length)"""
    S = symterms(True); got = []; step = var('step', 'I')
    def c_(it, f, this, args):
        got.append([copyv(it.rv(a)) for a in args[:15]]); return ('v', app('cost', tuple(it.rv(args[15]).d) + (it.rv(args[16]),), 'R'))
    it = ck.interp({GM + 'getCost': c_}); f = ck.prog.find(GM + ('getQuickJacobian' if quick else 'getCostWithJacobian')); cur = var('current'); d = {}
    def th():
        args = []
        for p_ in f['params']:
            n_ = p_['name']
            if n_ in NAMES: args.append(('lv', it.alloc(copyv(S[NAMES.index(n_)]))))
            elif n_ == 'cayley': args.append(('lv', it.alloc(copyv(CAY))))
            elif n_ == 'jacobian': d['j'] = it.alloc(symmat(1, 3, 'before')); args.append(('lv', d['j']))
            elif n_ == 'step': args.append(('v', step))
            else: args.append(('v', cur))
        v = it.rv(it.call(f, None, args)); return v, it.read(d['j'])
    outs = [(st, v) for st, k, v in it.explore(th)]; ck.cover(outs, 1)
    for a in got[:1] + got[-1:]:
        for n_, x, y in zip(NAMES, a, S): ck.require_mat('evaluated with ' + n_, x, y)
    ck.record('%s: every evaluation gets the same terms' % ck.cur, 'proved' if all(x is y for a in got for m, s in zip(a, S) for x, y in zip(m.d, s.d)) else 'unknown', 'comparison', 0)
    for st, (v, J) in outs:
        if not quick: ck.require('the value is the cost', eq(v, app('cost', tuple(CAY.d) + (step,), 'R')), st.pc)
        steps = {nv(h) for j in range(3) for x in atoms_of(J[0, j]) if x.op == 'app' and x.args[0] == 'cost' for h in [from_poly(poly(sub(x.args[1 + j], CAY.d[j])), 'R')] if isnum(h)}
        eps = max([abs(Fraction(x)) for x in steps] or [0])
        ck.record('%s: a small positive step' % ck.cur, 'proved' if 0 < eps <= Fraction(1, 10 ** 4) else 'refuted', 'evaluation', 0)
        for j in range(3):
            at = lambda h: app('cost', tuple(add(x, R(h)) if i == j else x for i, x in enumerate(CAY.d)) + (step,), 'R')
            ck.require('derivative %d' % j, eq(J[0, j], sub(at(eps), cur if quick else at(-eps))), st.pc)
    ck.obligations(it)
def main(ck, gen):
    """the result: the rotation of the final parameters, and the eigenvectors of the cost matrix at just these parameters, in descending order"""
    S = symterms(gen); n = 4 if gen else 3; composed, dec, starts, funs = [], [], [], []
    M = sym(n, 'M'); O = 'opengv::' + ('GeOutput' if gen else 'EigensolverOutput')
    rot_ = lambda x: mat_fn(3, 3, lambda i, j: app('cayley2rot.%d_%d' % (i, j), tuple(x.d), 'R'))
    def c2r(it, f, this, a): return ('v', rot_(it.rv(a[0])))
    def r2c(it, f, this, a): starts.append(copyv(it.rv(a[0]))); return ('v', symvec(3, 'start'))
    def comp(it, f, this, a): composed.append([copyv(it.rv(x)) for x in a]); return ('v', copyv(M))
    def small(it, f, this, a):
        funs.append([copyv(it.rv(x)) for x in a[:-1]]); x = it.rv(a[len(S)])
        it.write(a[-1][1], Mat(1, 3, [app('jac.%d' % k, tuple(x.d), 'R') for k in range(3)])); return ('v', app('ev', tuple(x.d), 'R'))
    def gcost(it, f, this, a): return ('v', app('cost', tuple(it.rv(a[len(S)]).d) + (it.rv(a[len(S) + 1]),), 'R'))
    def gjac(it, f, this, a):
        x = it.rv(a[len(S)]); it.write(a[-2][1], Mat(1, 3, [app('jac.%d' % k, tuple(x.d), 'R') for k in range(3)]))
    def sort(it, vs, e):
        a, b = vs[:2]; l = a.lv; vec = it.read(l)
        if len(vs) != 2 or not isnum(vec.len) or nv(vec.len) != n or eq(a.i, I(0)) is not TRUE or eq(b.i, vec.len) is not TRUE: raise Unsupported('sorting')
        vals = [vec.get(I(i)) for i in range(n)]
        ps = [copyv(vals[i]) for i in range(n)]
        for i in range(n): ps[i].f['second'] = var('lam.%d' % i); ps[i].f['first'] = symvec(n, 'vec%d' % i)
        pairs.append(vals); f = [g for g in it.prog.by_q.get('operator<', []) if noref(g['params'][0]['t']) == ps[0].cls]
        if len(f) != 1: raise Unsupported('comparison of the sorted pairs')
        order = it.rv(it.call(f[0], None, [('lv', it.alloc(ps[0])), ('lv', it.alloc(ps[1]))]))
        orders.append(order); it.write(l, Vec(vec.et, ('c', ps))); return None
    pairs, orders = [], []
    def decomp(it, base, A, a):
        dec.append((base, A))
        return Struct('#' + base, {'A': A, 'V': mat_fn(n, n, lambda i, j: Cx(var('V.%d_%d' % (i, j)), var('Vi.%d_%d' % (i, j)))), 'D': Mat(n, 1, [Cx(var('D.%d' % i), var('Di.%d' % i)) for i in range(n)])}, {'name': base})
    def lm(it, st, xlv):
        x0 = it.read(xlv); fun = st.f['fun'].lv
        while it.read_struct(fun).cls.startswith('#Eigen'): fun = it.read_struct(fun).f['fun'].lv
        r = it.alloc(symvec(3, 'res')); p = it.alloc(symvec(3, 'probe'))
        f = it.prog.by_q[it.read_struct(fun).cls + '::operator()'][0]
        it.call(f, fun, [('lv', p), ('lv', r)]); lms.append((copyv(x0), copyv(it.read(r)))); it.write(xlv, symvec(3, 'final'))
    lms = []
    mo = 'opengv::math::'
    con = {mo + 'cayley2rot': c2r, mo + 'rot2cayley': r2c, (GM + 'composeG') if gen else (EM + 'composeM'): comp, EM + 'getSmallestEVwithJacobian': small, GM + 'getCost': gcost, GM + 'getQuickJacobian': gjac, GM + 'getCostWithJacobian': gjac}
    it = ck.interp(con, decomp=decomp, lm=lm, sort=sort, havoc_ok=True)
    f = ck.prog.find(RP + 'modules::' + ('ge_main2' if gen else 'eigensolver_main')); d = {}
    def th():
        args = []
        for p_ in f['params']:
            if p_['name'] in NAMES: args.append(('lv', it.alloc(copyv(S[NAMES.index(p_['name'])]))))
            elif 'utput' in p_['t']: d['o'] = it.alloc(it.symval(O, 'before')); args.append(('lv', d['o']))
            else: args.append(('lv', it.alloc(symvec(3, 'start'))))
        it.call(f, None, args); return it.read(d['o'])
    outs = [(st, v) for st, k, v in it.explore(th)]; ck.cover(outs)
    for x in starts: ck.require_mat('the start belongs to the rotation handed in', x, symmat(3, 3, 'before.rotation'))
    for x0, r in lms:
        ck.require_mat('the minimisation starts there', x0, symvec(3, 'start'))
        ck.require_mat('it drives the derivatives of the smallest eigenvalue to zero', r, Mat(3, 1, [app('jac.%d' % k, tuple(symvec(3, 'probe').d), 'R') for k in range(3)]))
    for a in funs:
        for n_, x, y in zip(NAMES, a, S): ck.require_mat('derivatives evaluated with ' + n_, x, y)
    if not gen: ck.record('%s: one minimisation' % ck.cur, 'proved' if len(lms) == len(outs) == len(funs) else 'refuted', 'symbolic execution', 0)
    ck.record('%s: one cost matrix, decomposed' % ck.cur, 'proved' if len(composed) == len(dec) == len(pairs) == len(outs) else 'refuted', 'symbolic execution', 0)
    for (st, o), a, (base, A), ps, od in zip(outs, composed, dec, pairs, orders):
        for n_, x, y in zip(NAMES, a, S): ck.require_mat('the cost matrix is composed from ' + n_, x, y)
        x = a[len(S)]
        if not gen: ck.require_mat('at the minimiser', x, symvec(3, 'final'), st.pc)
        ck.require_mat('the rotation is that of the final parameters', o.f['rotation'], rot_(x), st.pc)
        ck.require_mat('the decomposed matrix is the cost matrix there', A, M, st.pc)
        ck.require('pairs are ordered by descending eigenvalue', eq_b(od, lt(var('lam.1'), var('lam.0'))), st.pc)
        for i in range(n):
            ck.require('pair %d: eigenvalue' % i, eq(ps[i].f['second'], var('D.%d' % i)), st.pc)
            ck.require_mat('pair %d: its eigenvector' % i, ps[i].f['first'], mat_fn(n, 1, lambda r, c: var('V.%d_%d' % (r, i))), st.pc)
        ck.require_mat('eigenvalues are handed out in that order', o.f['eigenvalues'], mat_fn(n, 1, lambda i, j: var('lam.%d' % i)), st.pc)
        ck.require_mat('eigenvectors are handed out in that order', o.f['eigenvectors'], mat_fn(n, n, lambda i, j: var('vec%d.%d' % (j, i))), st.pc)
        v = symvec(n, 'vec%d' % (n - 1))
        if gen:
            t = o.f['translation']
            ck.require_mat('the translation is the eigenvector of the smallest eigenvalue, scaled to last entry one', mat_fn(3, 1, lambda i, j: mul(t[i, 0], v.d[3])), mat_fn(3, 1, lambda i, j: v.d[i]), st.pc + [ne(v.d[3], R(0))])
        else:
            l0, l1 = var('lam.0'), var('lam.1'); k = sqrt(add(mul(l0, l0), mul(l1, l1)))
            ck.require_mat('the translation is the eigenvector of the smallest eigenvalue', o.f['translation'], mat_map(lambda x: mul(k, x), v), st.pc)
    ck.obligations(it)
def eq_b(a, b): return or_(and_(a, b), and_(not_(a), not_(b)))
def functor(ck):
    """the minimisation sees the derivatives of the smallest eigenvalue at its parameters"""
    S = symterms(False); cls = RP + 'modules::Eigensolver_step'; got = []
    def ev(it, f, this, args):
        got.append([copyv(it.rv(a)) for a in args[:7]]); it.write(args[7][1], Mat(1, 3, [var('jac.%d' % k) for k in range(3)])); return ('v', var('value'))
    it = ck.interp({EM + 'getSmallestEVwithJacobian': ev}, lm=None)
    f = ck.prog.by_q[cls + '::operator()'][0]
    def th():
        o = it.symval(cls, 'functor')
        names = [p['n'] if 'n' in p else p for p in it.fields(cls)] if hasattr(it, 'fields') else None
        for nm, m in zip(NAMES, S): o.f['_' + nm] = Ptr(it.alloc(copyv(m)))
        l = it.alloc(o); x = it.alloc(copyv(CAY)); r = it.alloc(symvec(3, 'res'))
        it.call(f, l, [('lv', x), ('lv', r)]); return it.read(r)
    outs = [(st, v) for st, k, v in it.explore(th)]; ck.cover(outs, 1)
    for a in got:
        for nm, x, y in zip(NAMES[:6] + ['the rotation'], a, S + [CAY]): ck.require_mat('evaluated with ' + nm, x, y)
    for st, r in outs: ck.require_mat('the residuals are the derivatives', r, symvec(3, 'jac'), st.pc)
    ck.obligations(it)
def run(ck):
    only = os.environ.get('DV_ONLY', ''); contract = ck.contract
    ck.contract = lambda n, *a: contract(n, *a) if only in n else None
    ck.load(*SRC)
    for gen, q in ((False, 'eigensolver'), (True, 'ge')):
        for w in (False, True): ck.contract('%s summation terms%s' % (q, ' (weighted)' if w else ''), listed, RP + q, gen, w, None)
        ck.contract('cost matrix of ' + q, matrix, gen)
        ck.contract('derivatives of the cost matrix of ' + q, jacobians, gen)
    ck.contract('getSmallestEV', smallest, False)
    ck.contract('getSmallestEVwithJacobian', smallest, True)
    ck.contract('eigensolver_main', main, False)
    ck.contract('residual function of the eigensolver', functor)
    ck.contract('smallest eigenvalues of the generalised cost matrix', quartic)
    ck.contract('getCost', cost)
    ck.contract('getCostWithJacobian', difference, False)
    ck.contract('getQuickJacobian', difference, True)
    ck.assume += ['the generalised minimisation uses difference quotients of the cost: proved to be differences at the perturbed parameters, not limits',
                  'the closed form of the quartic is taken at simple eigenvalues (w, r > 0), where the cost matrix being symmetric gives four real roots',
                  'the closed form is taken where the smallest eigenvalue is simple (b^2 > 3c); cos(acos(x)/3) is in [1/2,1] and solves 4y^3-3y=x, pow(x,1/3) is the non-negative cube root']
    ck.native('c17.cpp')
