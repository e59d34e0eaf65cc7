"""C14 Polynomial root finders.

Complex numbers are terms of the commutative ring generated by the reals, i (i^2 = -1) and radicals w = csqrt(x), c = cpow(x, 1/3)
with w^2 = x and c^3 = x; only equations (no order) are used of them. The closed-form solvers are proved to return the real parts of
numbers z_k with lead * prod (x - z_k) = polynomial, which makes every real root one of them."""
from .lib import *
SRC = ['src/math/roots.cpp', 'src/math/Sturm.cpp']
M = 'opengv::math::'
IMAG = var('i!'); THIRD = R(Fraction(1, 3))
def is_third(p): return isnum(p) and abs(Fraction(nv(p)) - Fraction(1, 3)) < Fraction(1, 10**15)
def cleared(p, ru):
    """a non-zero multiple of p without inverses"""
    for _ in range(60):
        p = ru.reduce(p)
        ia = {a for m in p for a, e in m if ATOM[a].op == 'inv'}
        if not ia: return p
        a = max(ia, key=lambda x: ATOM[x].depth if hasattr(ATOM[x], 'depth') else x)
        a = next((x for x in ia if not any(x != y and ATOM[x] in atoms_of(ATOM[y]) for y in ia)), a)
        X = ru.reduce(poly(ATOM[a].args[0])); n = max(e for m in p for x, e in m if x == a); o = {}
        for j in range(n + 1):
            c = {tuple((x, e) for x, e in m if x != a): v for m, v in p.items() if dict(m).get(a, 0) == j}
            if c: o = padd(o, pmul(c, ppow(X, n - j)) if n - j else c)
        p = o
    raise Unsupported('nested inverses')
def field(units):
    """canonical form of values: inverses of monomials in the units A are powers of k = 1/A"""
    def go(t):
        if t.sort != 'R' or t.op in ('num', 'var', 'app', 'sqrt'): return t
        p = poly(t); o = {}
        if len(p) > 400: return t
        for m, c in p.items():
            f = {}; bad = None
            for a, e in m:
                at = ATOM[a]
                if at.op == 'inv':
                    q_ = poly(at.args[0])
                    if len(q_) == 1 and all(ATOM[x] in units for x, _ in list(q_)[0]):
                        (m2, c2), = q_.items(); c = Fraction(c) / Fraction(c2) ** e
                        for x, e2 in m2: f[units[ATOM[x]].id] = f.get(units[ATOM[x]].id, 0) + e * e2; ATOM[units[ATOM[x]].id] = units[ATOM[x]]
                        continue
                f[a] = f.get(a, 0) + e
            for A, k in units.items():
                n = min(f.get(A.id, 0), f.get(k.id, 0))
                for x in (A, k):
                    if x.id in f:
                        f[x.id] -= n
                        if not f[x.id]: del f[x.id]
            mm_ = tuple(sorted(f.items())); v = o.get(mm_, 0) + c
            if v == 0: o.pop(mm_, None)
            else: o[mm_] = v
        return from_poly({m: Fraction(c) for m, c in o.items()}, 'R')
    return go
def radicals(ts, ru):
    """defining equations of the radicals and of i"""
    ru.add(IMAG, 2, R(-1))
    for a in set().union(*[atoms_of(t) for t in ts]):
        if a.op == 'app' and a.args[0] == 'csqrt': ru.add(a, 2, a.args[1])
        if a.op == 'app' and a.args[0] in ('cpow', 'pow') and is_third(a.args[2]): ru.add(a, 3, a.args[1])
        if a.op == 'sqrt': ru.add(a, 2, a.args[0])
    return ru
def inner(t):
    """the number whose real part is returned"""
    return t.args[1] if t.op == 'app' and t.args[0] == 're' else t
def expand(lead, zs):
    """coefficients of lead * prod (x - z), highest first"""
    c = [lead]
    for z in zs:
        c = [from_poly(poly(sub(a, mul(z, b))), 'R') for a, b in zip(c + [R(0)], [R(0)] + c)]
    return c
def vanishing(ru, *ps): return all(not cleared(poly(p), ru) for p in ps)

def same(a, b): return not poly(sub(a, b))
def zero_set(pc):
    """numbers that vanish on the path: equations with 0, |b| <= |a| with a = 0, radicals of zero"""
    Z = []; cs = []
    def flat(c):
        if c.op == 'and': [flat(x) for x in c.args]
        else: cs.append(c)
    for c in pc: flat(c)
    def known(t):
        while True:
            p = poly(t)
            if len(p) == 1 and len(list(p)[0]) == 1 and t.op == '*': t = ATOM[list(p)[0][0][0]]
            if t.op == 'app' and t.args[0] in ('csqrt', 'cpow', 'pow', 'cabsv'): t = t.args[1]
            elif t.op == 'sqrt': t = t.args[0]
            else: break
        if not any(same(t, z) for z in Z): Z.append(t)
    for _ in range(3):
        for c in cs:
            if c.op == '=': known(sub(c.args[0], c.args[1]) if not isnum(c.args[0]) and not isnum(c.args[1]) else c.args[0] if isnum(c.args[1]) and nv(c.args[1]) == 0 else c.args[1] if isnum(c.args[0]) and nv(c.args[0]) == 0 else sub(c.args[0], c.args[1]))
            if c.op == '<=':
                b, a = c.args
                if a.op == b.op == 'app' and a.args[0] == b.args[0] == 'cabsv' and any(same(a.args[1], z) for z in Z): known(b.args[1])
    return Z
def impossible(ck, pc, Z):
    """a magnitude below zero, or contradicting real conditions"""
    def flat(c): return [y for x in c.args for y in flat(x)] if c.op == 'and' else [c]
    for c in [y for x in pc for y in flat(x)]:
        if c.op == '<' and c.args[1].op == 'app' and c.args[1].args[0] == 'cabsv' and any(same(c.args[1].args[1], z) for z in Z): return True
    return ck.pr.prove(FALSE, pc)[0] == 'proved'
def cases(ck, todo):
    """conditional values split into the cases of their conditions"""
    out = []
    while todo:
        pc, ts = todo.pop(0)
        it_ = [a for x in ts + pc for a in atoms_of(x) if a.op == 'ite' and not any(b.op == 'ite' for b in atoms_of(a.args[0]))]
        if not it_: out.append((pc, ts)); continue
        c = it_[0].args[0]
        for cond, j in ((c, 1), (not_(c), 2)):
            m = {a: a.args[j] for a in it_ if a.args[0] is c}
            pc2 = [subst(x, m) for x in pc] + [cond]
            if any(x is FALSE for x in pc2) or ck.pr.prove(FALSE, pc2)[0] == 'proved': continue
            todo.append((pc2, [subst(x, m) for x in ts]))
    return out
def defined(ck, what, pc, zs, ru, skip=()):
    """divisors do not vanish: a power of each is a non-zero multiple of a power of a number known not to vanish"""
    def flat(c): return [y for x in c.args for y in flat(x)] if c.op == 'and' else [c]
    N = []
    for c in [y for x in pc for y in flat(x)]:
        if c.op == 'not' and c.args[0].op == '=': N.append(sub(*c.args[0].args))
    for i_ in {a for z in zs for a in atoms_of(z) if a.op == 'inv'}:
        X = i_.args[0]; ok = any(i_ in atoms_of(a) for a in skip)      # atan of an infinite quotient is its limit
        for n in (1, 2, 3):
            for y in N:
                if ok: break
                p, q_ = ru.reduce(poly(powi(X, n))), ru.reduce(poly(powi(y, n)))
                ok = bool(p) and set(p) == set(q_) and len({Fraction(p[m]) / Fraction(q_[m]) for m in p}) == 1
        ck.record('%s: %s: no division by zero' % (ck.cur, what), 'proved' if ok else 'refuted', 'polynomial normal form', 0, None if ok else show(X)[:200])
def roots_of(ck, what, lead, zs, co, ru, fast=True):
    ok = len(zs) == len(co) - 1 and all(not cleared(poly(sub(x, y)), ru) for x, y in zip(expand(lead, zs), co))
    ck.record('%s: %s: the polynomial is lead * product of (x - value)' % (ck.cur, what), 'proved' if ok else 'refuted', 'polynomial normal form', 0)
def combination(t, Z, ru):
    import itertools
    return any(vanishing(ru, sub(t, add(*[mul(R(c), z) for c, z in zip(cs, Z)]))) for cs in itertools.product((0, -1, 1, -2, 2), repeat=len(Z)))
def quartic(ck, which):
    """the values are the real parts of the four roots of every quartic with non-zero leading coefficient"""
    A, B, k = var('A'), var('B'), var('invA'); al, be, ga = var('alpha'), var('beta'), var('gamma'); norm_ = field({A: k})
    # every quartic is of this form: its coefficients through those of the depressed quartic
    C = add(mul(A, al), mul(R(Fraction(3, 8)), B, B, k)); D = add(mul(A, be), mul(R(Fraction(1, 2)), B, al), mul(R(Fraction(1, 16)), B, B, B, k, k))
    E = add(mul(A, ga), mul(R(Fraction(1, 4)), B, be), mul(R(Fraction(1, 16)), B, B, al, k), mul(R(Fraction(1, 256)), B, B, B, B, k, k, k))
    co = [A, B, C, D, E]
    P = sub(mul(R(Fraction(-1, 12)), al, al), ga); Q_ = add(mul(R(Fraction(-1, 108)), al, al, al), mul(THIRD, al, ga), mul(R(Fraction(-1, 8)), be, be))
    it = ck.interp(red=norm_, cring=IMAG, nodef=True); f = ck.prog.find(M + 'o4_roots', 'Matrix' if which else 'vector<')
    outs = call(it, f, Mat(5, 1, list(co)) if which else Vec('double', ('c', list(co))), pc=[ne(A, R(0))])
    ck.cover(outs)
    for n, (st, v) in enumerate(outs):
        what = 'path %d' % n; ck.require('%s: four values' % what, eq(v.len, I(4)), st.pc)
        zs = [norm_(inner(v.get(I(j)))) for j in range(nv(v.len))]
        Z = zero_set(st.pc); pc = list(st.pc)
        for z in list(Z):         # a principal square root that equals a real number: that number is not negative
            p = poly(z); S = [a for m in p for a, e in m if ATOM[a].op == 'app' and ATOM[a].args[0] == 'csqrt']
            if len(S) != 1 or not any(m == ((S[0], 1),) for m in p): continue
            c1 = p[((S[0], 1),)]; c0 = from_poly({m: x for m, x in p.items() if m != ((S[0], 1),)}, 'R')
            if any(ATOM[S[0]] in atoms_of(x) for x in [c0]): continue
            h = from_poly(poly(mul(R(-1 / Fraction(c1)), c0)), 'R')
            if any(a is IMAG or (a.op == 'app' and a.args[0] in ('csqrt', 'cpow')) for a in atoms_of(h)): continue
            pc.append(le(R(0), h))
            if impossible(ck, pc, Z): break
            if ck.pr.prove(eq(h, R(0)), pc)[0] == 'proved': Z += [h, ATOM[S[0]].args[1]]
        if Z and impossible(ck, pc, Z):
            ck.record('%s: %s cannot occur' % (ck.cur, what), 'proved', 'path condition', 0); continue
        ru = radicals(zs + Z, Rules()); ru.add(k, 1, div(R(1), A))
        if Z:
            for a in set().union(*[atoms_of(z) for z in zs]):          # radicals of numbers that vanish
                if a.op == 'app' and a.args[0] == 'csqrt' and combination(a.args[1], Z[:3], ru): ru.add(a, 1, R(0))
            if len(Z) == 3 and vanishing(ru0(zs + Z, A, k), add(*Z, mul(R(2), al)), sub(add(mul(Z[0], Z[1]), mul(Z[0], Z[2]), mul(Z[1], Z[2])), sub(mul(al, al), mul(R(4), ga))), sub(mul(*Z), mul(be, be))):
                for x in (al, be, ga): ru.add(x, 1, R(0))
            else:
                q0 = [z for z in Z if proportional(z, Q_)]
                if q0 and any(vanishing_mod(z, Q_, P) for z in Z):      # P = Q = 0
                    if any(proportional(z, al) for z in Z):
                        for x in (al, be, ga): ru.add(x, 1, R(0))
                    else: ru.add(ga, 1, mul(R(Fraction(-1, 12)), al, al)); ru.add(be, 2, mul(R(8), add(mul(R(Fraction(-1, 108)), al, al, al), mul(R(Fraction(-1, 36)), al, al, al))))
        defined(ck, what, pc, zs, radicals(zs + Z + pc, Rules()))
        roots_of(ck, what, A, zs, co, ru)
    ck.obligations(it); ck.used(it)
def ru0(ts, A, k):
    ru = radicals(ts, Rules()); ru.add(k, 1, div(R(1), A)); return ru
def proportional(a, b):
    p, q_ = poly(a), poly(b)
    if set(p) != set(q_) or not p: return False
    return len({Fraction(p[m]) / Fraction(q_[m]) for m in p}) == 1
def vanishing_mod(z, Q_, P):
    """z = x Q^2 + y P^3 with y != 0 (Q = 0 then gives P = 0)"""
    return same(z, add(mul(R(Fraction(1, 4)), Q_, Q_), mul(R(Fraction(1, 27)), P, P, P)))
def cubic(ck):
    """the values are the real parts of the three roots of every cubic with non-zero leading coefficient"""
    a, b, k = var('a'), var('b'), var('inva'); t0, t1 = var('theta0'), var('theta1'); norm_ = field({a: k})
    c = mul(THIRD, sub(mul(b, b), t0), k); d = mul(R(Fraction(1, 27)), add(t1, mul(b, b, b), mul(R(-3), b, t0)), k, k)
    term = sub(mul(t1, t1), mul(R(4), t0, t0, t0)); co = [a, b, c, d]; half = R(Fraction(1, 2))
    it = ck.interp(red=norm_, cring=IMAG, nodef=True); f = ck.prog.find(M + 'o3_roots')
    outs = call(it, f, Vec('double', ('c', list(co))), pc=[ne(a, R(0))]); ck.cover(outs)
    for n, (pc, zs) in enumerate(cases(ck, [(list(st.pc), [inner(v.get(I(j))) for j in range(nv(v.len))]) for st, v in outs])):
        what = 'path %d' % n; zs = [norm_(z) for z in zs]
        ck.record('%s: %s: three values' % (ck.cur, what), 'proved' if len(zs) == 3 else 'refuted', 'symbolic execution', 0)
        Z = zero_set(pc); ru = radicals(zs + Z + pc, Rules()); ru.add(k, 1, div(R(1), a))
        trig = [x for x in set().union(*[atoms_of(z) for z in zs + Z]) if x.op == 'app' and x.args[0] in ('cos', 'sin')]
        if trig:                  # cos and sin of a third of the argument of re + i im
            re = mul(half, t1); rad = [x for x in set().union(*[atoms_of(z) for z in zs + Z]) if x.op == 'sqrt' and same(x.args[0], neg(term))]
            im = mul(half, rad[0]) if rad else R(0); mod = [x for x in set().union(*[atoms_of(z) for z in zs + Z]) if x.op == 'sqrt' and same(norm_(x.args[0]), norm_(mul(re, re) if not rad else add(mul(re, re), mul(im, im))))]
            ok = bool(rad) and len(mod) == 1 and len({x.args[1] for x in trig}) == 1
            if ok:
                h = poly(mul(R(3), trig[0].args[1])); at = [x for m in h for x, e in m if ATOM[x].op == 'app' and ATOM[x].args[0] in ('atan', 'atan2')]
                ok = len(at) == 1
                if ok:
                    X = at_ = ATOM[at[0]]; off = sub(from_poly(h, 'R'), X)
                    if X.args[0] == 'atan2': ok = not cleared(poly(sub(X.args[1], im)), Rules()) and same(X.args[2], re) and same(off, R(0))
                    else:
                        ok = not cleared(poly(sub(mul(X.args[1], re), im)), Rules())
                        minus = ck.pr.prove(lt(re, R(0)), pc)[0] == 'proved'; plus = minus or ck.pr.prove(le(R(0), re), pc)[0] == 'proved'
                        ok = ok and plus and isnum(from_poly(poly(off), 'R')) and abs(float(nv(from_poly(poly(off), 'R'))) - (math.pi if minus else 0)) < 1e-14
            if not ok: ck.record('%s: %s: the angle is a third of the argument of the cube' % (ck.cur, what), 'refuted', 'polynomial normal form', 0); continue
            e = var('unit!'); ru.add(rad[0], 2, neg(term)); ru.add(mod[0], 2, mul(t0, t0, t0))
            cs = [x for x in trig if x.args[0] == 'cos']; sn = [x for x in trig if x.args[0] == 'sin']
            ru.add(app('cos', (trig[0].args[1],), 'R'), 1, sub(e, mul(IMAG, app('sin', (trig[0].args[1],), 'R')))); ru.add(e, 3, mul(add(re, mul(IMAG, im)), div(R(1), mod[0])))
            if Z:                 # a power of it equals re + i im, which does not vanish when the term is negative
                if any(vanishing(ru, sub(powi(z, 3), add(re, mul(IMAG, im)))) for z in Z) and ck.pr.prove(FALSE, pc + [eq(term, R(0))])[0] == 'proved':
                    ck.record('%s: %s cannot occur' % (ck.cur, what), 'proved', 'path condition', 0); continue
        elif Z:
            for z in list(Z):
                roots = [x for x in atoms_of(z) if x.op == 'sqrt']
                if ck.pr.prove(eq(t1, R(0)), pc + [eq(z, R(0))] + [le(R(0), x) for x in roots])[0] == 'proved':
                    x2 = [x for x in roots if ck.pr.prove(eq(x, R(0)), pc + [eq(z, R(0)), eq(t1, R(0))])[0] == 'proved' and same(x.args[0], term)]
                    if x2: ru.add(t0, 1, R(0)); ru.add(t1, 1, R(0))       # theta1 = 0 and theta1^2 = 4 theta0^3
        defined(ck, what, pc, zs, radicals(zs + Z + pc, Rules()), trig and [at_] or [])
        roots_of(ck, what, a, zs, co, ru)
    ck.obligations(it); ck.used(it)
ST = M + 'Sturm::'
def sturm_obj(it, ck, n, C=None, name='C'):
    """a Sturm object of a polynomial with n coefficients"""
    o = it.blank('opengv::math::Sturm')
    if C is not None:
        for k in o.f:
            if k == '_C': o.f[k] = C
            if k == '_dimension': o.f[k] = I(n)
    return o
def polyrem(p, q_):
    """p mod q for coefficient lists (q[0] != 0)"""
    r = list(p); n = len(q_)
    for i in range(len(r) - n + 1):
        f = div(r[i], q_[0])
        for j in range(n): r[i + j] = sub(r[i + j], mul(f, q_[j]))
    return r[len(r) - n + 1:]
def unrolled(it, n, cond, inc, body, do):
    """every iteration executed (the polynomials have a fixed number of coefficients)"""
    from dv.interp import Cont, Brk
    for r in range(200):
        if not (do and r == 0) and not it.decide(it.loopcond(cond)): return True
        try: it.run(body)
        except Cont: pass
        except Brk: return True
        if inc is not None: it.run(inc)
    raise Unsupported('loop')
def remainder(ck, n):
    """the next polynomial of the chain is the negated remainder, also when leading coefficients of the divisor vanish"""
    p1, p2 = symmat(1, n, 'p'), symmat(1, n - 1, 'd'); it = ck.interp(nodef=True, loop_hook=unrolled); f = ck.prog.find(ST + 'computeNegatedRemainder')
    for lead in range(n if n <= 6 else 3):
        pc = [eq(p2[0, j], R(0)) for j in range(lead)] + ([ne(p2[0, lead], R(0))] if lead < n - 1 else [])
        d = {}
        def th():
            for c in pc: it.assume(c)
            d['r'] = it.alloc(it.undef('Eigen::Matrix<double, -1, -1, 0, -1, -1>') if hasattr(it, 'undef') else Mat(0, 0, []))
            it.call(f, it.alloc(sturm_obj(it, ck, n)), [('lv', it.alloc(copyv(p1))), ('lv', it.alloc(copyv(p2))), ('lv', d['r'])]); return it.read(d['r'])
        outs = [(st, v) for st, k, v in it.explore(th)]; ck.cover(outs, 1)
        m = {p2[0, j]: R(0) for j in range(lead)}
        want = [neg(x) for x in polyrem(p1.d, p2.d[lead:])] if lead < n - 1 else []
        want = [R(0)] * (n - len(want)) + want
        for st, v in outs:
            ok = isinstance(v, Mat) and (v.r, v.c) == (1, n)
            for j in range(n):
                ok = ok and not cleared(poly(subst(sub(v[0, j], want[j]), m)), Rules())
            ck.record('%s: %d leading coefficients of the divisor vanish: negated remainder' % (ck.cur, lead), 'proved' if ok else 'refuted', 'polynomial normal form', 0)
    ck.obligations(it); ck.used(it)
def chain(ck, n, which):
    """rows of the table: the polynomial, its derivative, negated remainders of the two previous rows"""
    p = symmat(1, n, 'p'); calls = []
    def rem(it, f, this, args):
        k = len(calls); calls.append((copyv(it.rv(args[0])), copyv(it.rv(args[1])))); w = calls[-1][0].c if isinstance(calls[-1][0], Mat) else -1
        it.write(args[2][1], symmat(1, w, 'rem%d' % k)); return None
    it = ck.interp({ST + 'computeNegatedRemainder': rem}, nodef=True)
    fs = [f for f in ck.prog.by_q[ST + 'Sturm'] if ('vector<' in f['params'][0]['t']) == (which == 0) and len(f['params']) == 1 and 'Sturm' not in f['params'][0]['t']]
    arg = Vec('double', ('c', list(p.d))) if which == 0 else p
    def th():
        del calls[:]
        return it.construct('opengv::math::Sturm', fs[0], [{'k': '#val', 'v': arg}]) if False else build_(it, fs[0], arg)
    outs = [(st, v) for st, k, v in it.explore(th)]; ck.cover(outs, 1)
    for st, v in outs:
        C = v.f['_C']; ck.require('dimension', eq(v.f['_dimension'], I(n)), st.pc)
        def row(i): return [C[i, j] for j in range(n)]
        spec = [list(p.d)]
        if n > 1: spec.append([R(0)] + [mul(R(n - i), p.d[i - 1]) for i in range(1, n)])
        for i in range(2, n):
            rm = symmat(1, n - i + 2, 'rem%d' % (i - 2)); spec.append([R(0)] * i + rm.d[2:])
        for i in range(n): ck.require_mat('row %d of the chain' % i, Mat(1, n, row(i)), Mat(1, n, spec[i]), st.pc)
        ck.record('%s: one remainder per row' % ck.cur, 'proved' if len(calls) == max(0, n - 2) else 'refuted', 'symbolic execution', 0)
        for i, (a, b) in enumerate(calls):
            ck.require_mat('dividend of row %d' % (i + 2), a, Mat(1, n - i, spec[i][i:]), st.pc); ck.require_mat('divisor of row %d' % (i + 2), b, Mat(1, n - i - 1, spec[i + 1][i + 1:]), st.pc)
    ck.obligations(it); ck.used(it)
def changes(ck, n, name):
    """the value is the number of sign changes of the chain at the bound, vanishing values left out"""
    x = var('x'); C = mat_fn(n, n, lambda i, j: var('C.%d_%d' % (i, j)) if j >= i else R(0)); s_ = [var('s%d' % i) for i in range(n)]
    val = [add(*[mul(C[i, j], powi(x, n - 1 - j)) if n - 1 - j else C[i, j] for j in range(i, n)]) for i in range(n)]
    names = {from_poly(poly(v), 'R'): s for v, s in zip(val, s_)}
    seen = set()
    def named(t):
        r = names.get(from_poly(poly(t), 'R')) if t.sort == 'R' and t.op in ('+', '*', 'var') else None
        if r is not None: seen.add(r)
        return r if r is not None else t
    it = ck.interp(nodef=True, simp=lambda c: comparison(c, named)); f = ck.prog.find(ST + name)
    outs = call(it, f, x, pc=[ne(s_[0], R(0))], this=it.alloc(sturm_obj(it, ck, n, C))) if False else explore_(it, f, n, C, x, s_[0], ck)
    ck.cover(outs)
    for st, v in outs:
        sg = []
        for s in s_:
            for k, c in ((1, lt(R(0), s)), (-1, lt(s, R(0))), (0, eq(s, R(0)))):
                if ck.pr.prove(c, st.pc)[0] == 'proved': sg.append({k}); break
            else: sg.append({k for k, c in ((1, lt(R(0), s)), (-1, lt(s, R(0))), (0, eq(s, R(0)))) if ck.pr.prove(not_(c), st.pc)[0] != 'proved'})
        import itertools
        vals = set()
        for t in itertools.product(*sg):
            t = [y for y in t if y]; vals.add(sum(1 for a, b in zip(t, t[1:]) if a != b))
        ck.record('%s: number of sign changes' % ck.cur, 'proved' if isnum(v) and vals == {nv(v)} else 'refuted', 'case analysis', 0)
    ck.obligations(it); ck.used(it)
def comparison(c, named):
    if c.op in ('<', '<=', '='): return mk(c.op, tuple(named(a) for a in c.args), 'B') if not any(a.sort == 'I' for a in c.args) else c
    if c.op == 'not': return not_(comparison(c.args[0], named))
    return c
def explore_(it, f, n, C, x, s0, ck):
    def th():
        it.assume(ne(s0, R(0))); return it.rv(it.call(f, it.alloc(sturm_obj(it, ck, n, copyv(C))), [('v', x)]))
    return [(st, v) for st, k, v in it.explore(th)]
def build_(it, f, arg):
    o = it.alloc(it.blank('opengv::math::Sturm')); it.call(f, o, [('lv', it.alloc(copyv(arg)))]); return it.read(o)
def bounds_(ck, n):
    """every root is strictly inside: the bound exceeds the sum of the two largest |c_i / c_0|^(1/i) (Lagrange)"""
    C = mat_fn(n, n, lambda i, j: var('C.%d_%d' % (i, j)) if j >= i else R(0)); it = ck.interp(nodef=True); f = ck.prog.find(ST + 'computeLagrangianBound')
    def th(): return it.rv(it.call(f, it.alloc(sturm_obj(it, ck, n, copyv(C))), []))
    outs = [(st, v) for st, k, v in it.explore(th)]; ck.cover(outs)
    ms = [var('m%d' % i) for i in range(n - 1)]; sub_ = {}
    for i in range(n - 1):
        x = cabs(div(C[0, i + 1], C[0, 0])); sub_[x if i == 0 else sqrt(x) if i == 1 else app('pow', (x, R(Fraction(1, i + 1))), 'R')] = ms[i]
    for st, v in outs:
        pc = [subst(c, sub_) for c in st.pc] + [le(R(0), m) for m in ms]; b = subst(v, sub_)
        for i in range(n - 1):
            for j in range(i if n == 2 else i + 1, n - 1): ck.require('bound exceeds the magnitudes %d and %d' % (i, j), lt(add(ms[i], ms[j]) if i != j else ms[i], b), pc)
    ck.obligations(it); ck.used(it)
BR = 'opengv::math::Bracket'
def V_(x): return app('V', (from_poly(poly(x), 'R'),), 'I')
def chain_value(it, f, this, args): return ('v', V_(it.rv(args[0])))
def anonymous():
    """products and quotients are arbitrary numbers"""
    memo = {}
    def go(t):
        if t.sort != 'R' or t.op in ('num', 'var'): return t
        if all(sum(e for a, e in m) < 2 for m in poly(t)) and not any(a.op == 'inv' for a in atoms_of(t)): return t
        if t not in memo: memo[t] = fresh('quotient', 'R')
        return memo[t]
    return go
def alike(a, b):
    if a is b: return True
    if isinstance(a, Mat) and isinstance(b, Mat): return (a.r, a.c) == (b.r, b.c) and all(x is y for x, y in zip(a.d, b.d))
    if isinstance(a, Struct) and isinstance(b, Struct): return set(a.f) == set(b.f) and all(alike(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, Vec) and isinstance(b, Vec): return a.kind[0] == b.kind[0] and (len(a.kind[1]) == len(b.kind[1]) and all(alike(x, y) for x, y in zip(a.kind[1], b.kind[1])) if a.kind[0] == 'c' else a.kind[-1] is b.kind[-1])
    return type(a) is type(b) and not isinstance(a, T) and repr(a) == repr(b)
class Step:
    """one arbitrary step of the search: the front bracket (L, U) is replaced by its halves, dropped when it holds no root, or yields one root"""
    def __init__(s, ck, n): s.ck = ck; s.n = n; s.busy = False; s.done = 0
    def bracket(s, it, lo, up, cl, cu):
        b = it.blank(BR); b.f.update({'_lowerBound': lo, '_upperBound': up, '_lowerBoundChangesComputed': TRUE, '_upperBoundChangesComputed': TRUE, '_lowerBoundChanges': cl, '_upperBoundChanges': cu}); return b
    def same_bracket(s, what, b, lo, up, pc):
        ck = s.ck
        for k, w in (('_lowerBound', lo), ('_upperBound', up), ('_lowerBoundChanges', V_(lo)), ('_upperBoundChanges', V_(up))): ck.require('%s: %s' % (what, k[1:]), eq(b.f[k], w), pc)
        for k in ('_lowerBoundChangesComputed', '_upperBoundChangesComputed'): ck.require('%s: %s' % (what, k[1:]), b.f[k], pc)
    def arbitrary(s, it, cond, inc, body):
        """an inner search loop leaves arbitrary values in everything it changes"""
        from dv.interp import Cont, Brk
        base = it.st; hold = set()
        def th():
            if not it.decide(it.loopcond(cond)): return
            try: it.run(body)
            except (Cont, Brk): pass
        for rnd in range(2):
            it.quiet += 1; it.discovering += 1
            try: outs = it.explore(th)
            finally: it.quiet -= 1; it.discovering -= 1
            for st, k, v in outs: hold |= {c for c, v0 in base.mem.items() if not alike(st.mem.get(c), v0)}
            def fr(v):
                if isinstance(v, T): return fresh('any', v.sort)
                if isinstance(v, Mat): return mat_map(fr, v)
                raise Unsupported('inner loop changes %r' % (v,))
            for c in hold: it.st.mem[c] = fr(base.mem[c])
        return True
    def hook(s, it, n, cond, inc, body, do):
        if s.busy: return s.arbitrary(it, cond, inc, body) if inc is None and not do else False
        ck = s.ck; base = it.st; stack = [c for c, v in base.mem.items() if isinstance(v, Vec) and ('Bracket' in v.et)]
        if len(stack) != 1: return False
        cell = stack[0]; s.busy = True; s.done += 1
        out = [c for c, v in base.mem.items() if isinstance(v, Vec) and v.et == 'double' and c in s.roots(base)]
        if len(out) != 1: raise Unsupported('list of roots')
        out = out[0]; B_ = s.B
        v0 = it.read((cell, ())); ck.record('%s: the search starts with one bracket' % ck.cur, 'proved' if isnum(v0.len) and nv(v0.len) == 1 else 'refuted', 'symbolic execution', 0)
        s.same_bracket('first bracket', it.read(v0.get(I(0)).lv), neg(B_), B_, base.pc)
        L, U = var('L'), var('U'); m = var('found', 'I'); old = Vec('double', ('fn', m, lambda i: app('earlier', (i,), 'R')))
        res = []
        def th():
            b0, b1 = it.alloc(s.bracket(it, L, U, V_(L), V_(U))), it.alloc(s.bracket(it, var('L1'), var('U1'), V_(var('L1')), V_(var('U1'))))
            it.st.mem[cell] = Vec(v0.et, ('c', [type(v0.get(I(0)))(b0), type(v0.get(I(0)))(b1)])); it.st.mem[out] = old
            for c in (lt(L, U), le(V_(U), V_(L)), le(I(0), V_(U)), le(I(0), m), lt(R(0), s.eps)): it.assume(c)
            from dv.interp import Cont, LoopExit
            if not it.decide(it.loopcond(cond)): raise LoopExit()
            try: it.run(body)
            except Cont: pass
            if inc is not None: it.run(inc)
            it.st.ghost['#b1'] = b1
        outs = it.explore(th); s.busy = False
        mid = mul(R(Fraction(1, 2)), add(L, U)); nroots = sub(V_(L), V_(U))
        ck.record('%s: the search goes on while there are brackets' % ck.cur, 'proved' if not any(k == 'exit' for st, k, v in outs) else 'refuted', 'symbolic execution', 0)
        kinds = set()
        for st, kind, v in outs:
            if kind == 'exit': continue
            sv_, rv_ = st.mem[cell], st.mem[out]; pc = st.pc; items = sv_.kind[1] if sv_.kind[0] == 'c' else []
            ck.record('%s: the other brackets are kept' % ck.cur, 'proved' if len(items) in (1, 3) and items[0].lv == st.ghost['#b1'] else 'refuted', 'symbolic execution', 0)
            s1 = it.st; it.st = st
            try: bs = [it.read(x.lv) for x in items]
            finally: it.st = s1
            if len(bs) == 3:
                kinds.add('halves'); s.same_bracket('lower half', bs[1], L, mid, pc); s.same_bracket('upper half', bs[2], mid, U, pc); ck.require('no root is reported for a bracket that is divided', eq(rv_.len, m), pc)
                continue
            grown = ck.pr.prove(eq(rv_.len, add(m, I(1))), pc)[0] == 'proved'
            if not grown:
                kinds.add('none'); ck.require('a bracket without result holds no root', and_(eq(rv_.len, m), eq(nroots, I(0))), pc); continue
            kinds.add('root'); r = rv_.get(m); e = s.eps
            lo, up = ite(lt(L, sub(r, e)), sub(r, e), L), ite(lt(add(r, e), U), add(r, e), U)
            near = ck.pr.prove(and_(le(sub(r, L), e), le(sub(U, r), e)), pc)[0] == 'proved'
            if near: ck.require('the root reported is within the tolerance of the only root of its bracket', eq(nroots, I(1)), pc)
            else:
                for pc2, (lo2, up2) in cases(ck, [(list(pc), [lo, up])]):
                    ck.require('the bracket holds one root', eq(nroots, I(1)), pc2); ck.require('the root reported is within the tolerance of it', eq(sub(V_(lo2), V_(up2)), I(1)), pc2)
        for k in ('halves', 'none', 'root'): ck.record('%s: some step: %s' % (ck.cur, k), 'proved' if k in kinds else 'refuted', 'symbolic execution', 0)
        it.st.mem[out] = Vec('double', ('fn', m, lambda i: app('result', (i,), 'R'))); it.st.mem[cell] = Vec(v0.et, ('c', []))
        return True
    def roots(s, base): return [s.outcell]
def search(ck, n, name):
    C = mat_fn(n, n, lambda i, j: var('C.%d_%d' % (i, j)) if j >= i else R(0)); S = Step(ck, n); S.B = var('bound'); S.eps = var('eps_x' if name == 'findRoots2' else 'eps')
    def bound(it, f, this, args): it.assume(lt(R(0), S.B)); return ('v', S.B)
    it = ck.interp({ST + 'computeLagrangianBound': bound, ST + 'evaluateChain2': chain_value, ST + 'evaluateChain': chain_value}, nodef=True, loop_hook=S.hook, havoc_ok=True, wrap=False, red=anonymous()); f = ck.prog.find(ST + name)
    def th():
        o = it.alloc(Vec('double', ('c', []))); S.outcell = o[0]
        for c in (lt(R(0), S.eps), le(V_(S.B), V_(neg(S.B))), le(I(0), V_(S.B))): it.assume(c)
        it.call(f, it.alloc(sturm_obj(it, ck, n, copyv(C))), [('lv', o)] + [('v', S.eps)] + ([('v', var('eps_val'))] if name == 'findRoots2' else []))
    outs = it.explore(th); ck.cover([(st, v) for st, k, v in outs])
    ck.record('%s: the search is one loop over brackets' % ck.cur, 'proved' if S.done else 'refuted', 'symbolic execution', 0)
    ck.obligations(it); ck.used(it)
def polish(ck, n, k):
    """findRoots reports one root per bracket, not further from its centre than the width asked for"""
    C = mat_fn(n, n, lambda i, j: var('C.%d_%d' % (i, j)) if j >= i else R(0)); B_ = var('bound'); asked = []
    mids = [var('centre%d' % i) for i in range(k)]
    def bound(it, f, this, args): it.assume(lt(R(0), B_)); return ('v', B_)
    def br(it, f, this, args): asked.append(it.rv(args[1]) if len(args) > 1 else R(-1)); it.write(args[0][1], Vec('double', ('c', list(mids))))
    it = ck.interp({ST + 'computeLagrangianBound': bound, ST + 'bracketRoots': br}, nodef=True, loop_hook=unrolled, red=anonymous()); f = ck.prog.find(ST + 'findRoots')
    def th(): return it.rv(it.call(f, it.alloc(sturm_obj(it, ck, n, copyv(C))), []))
    outs = [(st, v) for st, kk, v in it.explore(th)]; ck.cover(outs)
    for e in asked[:1]: ck.require('the width asked for is positive', lt(R(0), e), [lt(R(0), B_)])
    ck.record('%s: brackets of one width' % ck.cur, 'proved' if asked and all(same(a, asked[0]) for a in asked) else 'refuted', 'symbolic execution', 0)
    for st, v in outs:
        ck.require('one root per bracket', eq(v.len, I(k)), st.pc)
        for j in range(k):
            d = sub(v.get(I(j)), mids[j])
            ck.require('root %d stays with its bracket' % j, le(d, asked[0]), st.pc + [lt(R(0), B_)]); ck.require('root %d stays with its bracket' % j, le(neg(d), asked[0]), st.pc + [lt(R(0), B_)])
    ck.obligations(it); ck.used(it)
import os
def run(ck):
    ck.load(*SRC)
    ck.assume += ['principal complex square and cube roots: w^2 = x with Re w >= 0, c^3 = x; atan of an infinite quotient is its limit',
        'Sturm theorem (the difference of the sign changes of the chain counts the real roots of a square-free polynomial in an interval) and the Lagrange bound are used as mathematics',
        'the Sturm chain is verified for every polynomial with 2 to 11 coefficients (computeNegatedRemainder up to 11 with at most two vanishing leading coefficients, up to 6 with any), sign counting for up to 5 rows, the bound for up to 6 coefficients; the search over brackets for any number of brackets found so far, a front bracket and one further']
    only = os.environ.get('DV_ONLY')
    if only:
        c0 = ck.contract; ck.contract = lambda n, *a: c0(n, *a) if only in n else None
    ck.contract('o3_roots', cubic)
    ck.contract('o4_roots (vector)', quartic, 0)
    ck.contract('o4_roots (matrix)', quartic, 1)
    for n in range(3, 12): ck.contract('computeNegatedRemainder (%d coefficients)' % n, remainder, n)
    for n in range(2, 12):
        for w in (0, 1): ck.contract('Sturm(%s) of %d coefficients' % (('vector', 'matrix')[w], n), chain, n, w)
    for n in range(2, 6):
        for nm in ('evaluateChain', 'evaluateChain2'): ck.contract('%s (%d rows)' % (nm, n), changes, n, nm)
    for n in range(2, 7): ck.contract('computeLagrangianBound (%d)' % n, bounds_, n)
    for nm in ('findRoots2', 'bracketRoots'): ck.contract(nm + ' search', search, 4, nm)
    ck.contract('findRoots polishing', polish, 3, 2)
    ck.native('c14.cpp', lazy=True)
