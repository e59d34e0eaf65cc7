"""Discharging obligations: exact polynomial algebra with case splitting, z3, numeric refutation."""
import time, random, math, hashlib
from fractions import Fraction
from . import terms as tm
from .terms import *
from .solver import Z3

class GaveUp(Exception): pass

class Rules:
    """oriented polynomial hypotheses atom^k -> poly (k=1: definition, k=2: e.g. unit vectors)"""
    def __init__(s, parent=None):
        s.r = dict(parent.r) if parent else {}
        s.pos = set(parent.pos) if parent else set()     # terms known > 0 (ids of canonical terms)
        s.cache = {}
    def add(s, atom, k, rhs):
        s.r[atom.id] = (k, tm.poly(rhs)); tm.ATOM[atom.id] = atom; s.cache = {}
        return s
    def unit(s, vec):
        """vec: list of atoms with unit norm; eliminates the square of the last one"""
        v = list(vec)
        return s.add(v[-1], 2, add(R(1), *[neg(mul(x, x)) for x in v[:-1]]))
    def reduce(s, p):
        if not s.r: return p
        out = {}
        work = p
        R_ = s.r
        pw = {}
        while True:
            nxt = {}; done = True
            for m, c in work.items():
                hit = None
                for (a, e) in m:
                    rr = R_.get(a)
                    if rr and e >= rr[0]: hit = (a, e, rr); break
                if hit is None:
                    v = out.get(m, 0) + c
                    if v == 0: out.pop(m, None)
                    else: out[m] = v
                    continue
                a, e, (k, rhs) = hit
                n, r = divmod(e, k)
                key = (a, n)
                if key not in pw: pw[key] = tm.ppow(rhs, n)
                rest = tuple((x, y) for (x, y) in m if x != a)
                if r: rest = tm.mmul(rest, ((a, r),))
                for m2, c2 in pw[key].items():
                    mm = tm.mmul(rest, m2)
                    v = nxt.get(mm, 0) + c * c2
                    if v == 0: nxt.pop(mm, None)
                    else: nxt[mm] = v
                if len(nxt) > 3000000: raise tm.TooBig()
            if not nxt: return {m: tm.q(c) for m, c in out.items()}
            work = nxt

def nonneg(p):
    """syntactic sum of squares"""
    for m, c in p.items():
        if c < 0 or any(e % 2 and tm.ATOM[a].op != 'sqrt' for a, e in m): return False
    return True

def content(p):
    """positive rational content and sign of leading coefficient"""
    from math import gcd
    num_ = 0; den = 1
    for c in p.values():
        f = Fraction(c)
        num_ = gcd(num_, abs(f.numerator)); den = den * f.denominator // gcd(den, f.denominator)
    lead = p[max(p)]
    c = Fraction(num_, den)
    return -c if lead < 0 else c

def psqrt(p):
    """exact square root of a polynomial (up to sign), or None"""
    if not p: return {}
    # leading monomial in a fixed lexicographic order
    atoms = sorted({a for m in p for a, _ in m})
    def expv(m):
        d = dict(m); return tuple(d.get(a, 0) for a in atoms)
    def mono(v): return tuple((a, e) for a, e in zip(atoms, v) if e)
    P = {expv(m): Fraction(c) for m, c in p.items()}
    lead = max(P); lc = P[lead]
    if any(e % 2 for e in lead) or lc < 0: return None
    n, d = math.isqrt(lc.numerator), math.isqrt(lc.denominator)
    if n * n != lc.numerator or d * d != lc.denominator: return None
    r = {tuple(e // 2 for e in lead): Fraction(n, d)}
    l0 = tuple(e // 2 for e in lead); c0 = Fraction(n, d)
    rem = dict(P)
    def sub_(x, c, y, cy):
        k = tuple(a + b for a, b in zip(x, y)); v = rem.get(k, 0) - c * cy
        if v == 0: rem.pop(k, None)
        else: rem[k] = v
    sub_(l0, c0, l0, c0)
    for _ in range(len(P) + 2):
        if not rem: return {mono(v): tm.q(c) for v, c in r.items()}
        k = max(rem); t = tuple(a - b for a, b in zip(k, l0))
        if any(e < 0 for e in t) or t >= l0: return None
        c = rem[k] / (2 * c0)
        for y, cy in list(r.items()): sub_(t, 2 * c, y, cy)
        sub_(t, c, t, c)
        r[t] = c
    return None

class Prover:
    def __init__(s, z3=None, seed=1):
        s.z = z3 or Z3(); s.seed = seed
        s.stats = {'poly': 0, 'z3': 0, 'split': 0}
        s.max_split = 400
        s.numeric_gen = None
        s.assumed_nonzero = set()
        s.mono_cap = 400000
        s.posfn = None

    # ---------------------------------------------------------- normalisation
    def norm(s, t, rules, memo):
        """rebuild t with inv/sqrt arguments in reduced normal form, real parts untouched otherwise"""
        r = memo.get(t)
        if r is not None: return r
        if t.op in ('num', 'var', 'bv', 'true', 'false') or not t.args: r = t
        elif t.op == 'inv':
            d = s.cancel(s.rpoly(s.norm(t.args[0], rules, memo), rules), rules)
            d, f = s.clear_inv(d, rules)
            r = s.inv_of(d)
            if f: r = mul(r, *f)
        elif t.op == 'sqrt':
            d = s.cancel(s.rpoly(s.norm(t.args[0], rules, memo), rules), rules)
            d2, f = s.clear_inv(d, rules)
            if f:
                d = d2; out = []
                for x in sorted(set(f), key=lambda y: y.id):
                    k = f.count(x)
                    if k % 2: d = s.sqrt_sq(rules.reduce(tm.pmul(d, tm.poly(x))), rules); k += 1
                    out.append(tm.powi(tm.mk('inv', (s.abs_of(x, rules),), 'R'), k // 2))
                r = mul(s.sqrt_of(d, rules), *out)
            else: r = s.sqrt_of(d, rules)
        else:
            na = [s.norm(a, rules, memo) if a.__class__ is T else a for a in t.args]
            if t.op in ('sum', 'forall'): r = t if na[1] is t.args[1] and (len(na) < 3 or na[2] is t.args[2]) else tm.mk(t.op, tuple(na), t.sort)
            elif all(x is y for x, y in zip(na, t.args)): r = t
            else: r = tm.rebuild(t, na)
        memo[t] = r
        return r
    def clear_inv(s, d, rules):
        """d = d2 / prod(f): multiply out the inverses of single atoms"""
        f = []
        for _ in range(6):
            mx = {}
            for m in d:
                for a, e in m:
                    if tm.ATOM[a].op == 'inv': mx[a] = max(mx.get(a, 0), e)
            if not mx or len(d) > 200: break
            a = min(mx); k = mx[a]; x = tm.ATOM[a].args[0]
            out = {}
            px = tm.poly(x); pw = {}
            for m, c in d.items():
                e = dict(m).get(a, 0); rest = {tuple((y, z) for y, z in m if y != a): c}
                if k - e:
                    if k - e not in pw: pw[k - e] = tm.ppow(px, k - e)
                    rest = tm.pmul(rest, pw[k - e])
                out = tm.padd(out, rest)
            s.assumed_nonzero.add(x)
            d = s.cancel(s.sqrt_sq(rules.reduce(out), rules), rules)
            f += [x] * k
        return d, f
    def inv_of(s, d):
        if not d: return tm.mk('inv', (R(0),), 'R')
        if len(d) == 1 and () in d: return R(Fraction(1) / Fraction(d[()]))
        c = content(d)
        # factor out monomials: inv(c*m*rest)
        com = None
        for m in d:
            dm = dict(m)
            com = dm if com is None else {a: min(e, dm[a]) for a, e in com.items() if a in dm}
        out = [R(Fraction(1) / c)]
        if com:
            for a, e in com.items():
                at = tm.ATOM[a]
                for _ in range(e): out.append(at.args[0] if at.op == 'inv' else tm.mk('inv', (at,), 'R'))
            d = {tuple((a, e - com.get(a, 0)) for a, e in m if e - com.get(a, 0)): v for m, v in d.items()}
        d = tm.pscale(d, Fraction(1) / c)
        if not (len(d) == 1 and () in d): out.append(tm.mk('inv', (tm.from_poly(d, 'R'),), 'R'))
        return mul(*out)
    def sqrt_of(s, d, rules):
        if not d: return R(0)
        r = psqrt(d)
        if r is not None:
            t = tm.from_poly(r, 'R')
            return s.abs_of(t, rules)
        c = abs(content(d))
        n, m = math.isqrt(c.numerator), math.isqrt(c.denominator)
        sq = 1
        # pull out the largest square factor of the content (small factors only)
        if n * n == c.numerator and m * m == c.denominator: sq = Fraction(n, m); d = tm.pscale(d, Fraction(1) / c)
        # sqrt(inv(x)^2 * y) and the like: pull out even monomial factors
        com = None
        for mm in d:
            dm = dict(mm)
            com = dm if com is None else {a: min(e, dm[a]) for a, e in com.items() if a in dm}
        out = [R(sq)]
        if com and any(e >= 2 for e in com.values()):
            ev = {a: e // 2 * 2 for a, e in com.items() if e >= 2}
            for a, e in ev.items():
                b = tm.powi(tm.ATOM[a], e // 2)
                out.append(s.abs_of(b, rules))
            d = {tuple((a, e - ev.get(a, 0)) for a, e in m2 if e - ev.get(a, 0)): v for m2, v in d.items()}
            r = psqrt(d)
            if r is not None: out.append(s.abs_of(tm.from_poly(r, 'R'), rules)); return mul(*out)
        for a, (k, rhs) in rules.r.items():
            if k == 2 and len(rhs) == len(d) and all(rhs.get(m) == v for m, v in d.items()):
                out.append(s.abs_of(tm.ATOM[a], rules)); return mul(*out)
        out.append(tm.sqrt(tm.from_poly(d, 'R')))
        return mul(*out)
    def reducer(s, rules, cap=400):
        """value rewriting hook: normal form modulo the rules"""
        memo = {}; nm = {}
        def red(t):
            r = memo.get(t)
            if r is not None: return r
            try:
                x = s.norm(t, rules, nm)
                p = s.rpoly(x, rules)
                p = s.cancel(p, rules)
                r = tm.from_poly(p, 'R') if len(p) <= cap else t
            except (tm.TooBig, GaveUp): r = t
            memo[t] = r; memo[r] = r
            return r
        return red
    def cancel(s, p, rules): 
        """x * inv(x) -> 1 and inv(sqrt(x))^2 -> inv(x), for atoms x (their being non-zero is the divisor's definedness)"""
        for _ in range(20):
            ch = False; out = {}
            for m, c in p.items():
                d = dict(m); hit = False
                for a in list(d):
                    t = tm.ATOM[a]
                    if t.op != 'inv' or a not in d: continue
                    x = t.args[0]
                    if x.id in d and x.id in tm.ATOM:
                        k = min(d[a], d[x.id])
                        for y in (a, x.id):
                            d[y] -= k
                            if not d[y]: del d[y]
                        s.assumed_nonzero.add(x); hit = True
                    elif x.op == 'sqrt' and d[a] >= 2:
                        n = d[a] // 2; d[a] %= 2
                        if not d[a]: del d[a]
                        iv = s.inv_of(tm.poly(x.args[0]))
                        ip_ = tm.ppow(tm.poly(iv), n)
                        for m2, c2 in tm.pmul({tuple(sorted(d.items())): c}, ip_).items():
                            v = out.get(m2, 0) + c2
                            if v == 0: out.pop(m2, None)
                            else: out[m2] = v
                        ch = True; hit = None; break
                if hit is None: continue
                m2 = tuple(sorted(d.items())) if hit else m
                v = out.get(m2, 0) + c
                if v == 0: out.pop(m2, None)
                else: out[m2] = v
                ch = ch or bool(hit)
            if not ch: return p
            p = s.sqrt_sq(rules.reduce(out), rules)
        return p
    def abs_of(s, t, rules):
        if s.posfn and s.posfn(t): return t
        if t in rules.pos: return t
        if neg(t) in rules.pos: return neg(t)
        if t.op == 'inv':
            a = s.abs_of(t.args[0], rules)
            if a is t.args[0]: return t
            if a.op == 'ite': return ite(a.args[0], neg(t), t)
            return neg(t)
        return tm.cabs(t)
    def rpoly(s, t, rules):
        p = tm.poly(t)
        p = rules.reduce(p)
        p = s.sqrt_sq(p, rules)
        return p
    def sqrt_sq(s, p, rules):
        """sqrt(a)^2 -> a"""
        for _ in range(50):
            hit = None
            for m in p:
                for a, e in m:
                    if e >= 2 and tm.ATOM[a].op == 'sqrt': hit = a; break
                if hit: break
            if hit is None: return p
            arg = tm.poly(tm.ATOM[hit].args[0])
            out = {}
            pw = {}
            for m, c in p.items():
                e = dict(m).get(hit, 0)
                if e < 2: out = tm.padd(out, {m: c}) if m in out else (out.__setitem__(m, c) or out); continue
                n, r = divmod(e, 2)
                if n not in pw: pw[n] = tm.ppow(arg, n)
                rest = tuple((x, y) for x, y in m if x != hit)
                if r: rest = tm.mmul(rest, ((hit, 1),))
                for m2, c2 in pw[n].items():
                    mm = tm.mmul(rest, m2); v = out.get(mm, 0) + c * c2
                    if v == 0: out.pop(mm, None)
                    else: out[mm] = v
            p = rules.reduce(out)
        return p
    def inv_cancel(s, p, rules):
        """multiply by denominators until none is left; None-free polynomial equivalent to p=0"""
        for _ in range(60):
            invs = {}
            for m in p:
                for a, e in m:
                    if tm.ATOM[a].op == 'inv': invs[a] = max(invs.get(a, 0), e)
            if not invs: return p
            # outermost first: the one with the largest depth
            a = max(invs, key=lambda x: (tm.ATOM[x].depth, x))
            d = s.rpoly(tm.ATOM[a].args[0], rules)
            s.assumed_nonzero.add(tm.ATOM[a].args[0])
            k = invs[a]
            groups = {}
            for m, c in p.items():
                e = dict(m).get(a, 0)
                groups.setdefault(k - e, {})[tuple((x, y) for x, y in m if x != a)] = c
            out = {}
            for e, g in groups.items():
                if e: g = tm.pmul(g, tm.ppow(d, e))
                out = tm.padd(out, g)
            p = s.sqrt_sq(rules.reduce(out), rules)
            if len(p) > s.mono_cap: raise GaveUp('polynomial too large')
        raise GaveUp('denominators')

    def simp_cond(s, c, rules):
        """normalise a branch condition; decides it when it is a trivial sum of squares"""
        c = s.norm(c, rules, {})
        def g(x):
            if x.op in ('<', '<=') and x.args[0].sort == 'R':
                p = s.rpoly(sub(x.args[1], x.args[0]), rules)
                if len(p) > 40: return x
                if nonneg(p) and (x.op == '<=' or p.get((), 0) > 0): return TRUE
                np = tm.pscale(p, -1)
                if nonneg(np) and (x.op == '<' or np.get((), 0) > 0): return FALSE
                return x
            if x.op == 'not': return not_(g(x.args[0]))
            if x.op == 'and': return and_(*[g(y) for y in x.args])
            if x.op == 'or': return or_(*[g(y) for y in x.args])
            return x
        return g(c)
    # ------------------------------------------------------------- equalities
    def ites(s, t):
        """conditions of ite subterms, innermost conditions first"""
        best = None
        for x in tm.atoms_of(t):
            if x.op == 'ite' and not x.fv:
                c = x.args[0]
                if not any(y.op == 'ite' for y in tm.atoms_of(c)):
                    if best is None or c.depth < best.depth or (c.depth == best.depth and c.id < best.id): best = c
        return best
    def eq_zero(s, e, pc, rules, depth=0):
        """prove e = 0 under pc"""
        e = s.norm(e, rules, {})
        c = s.ites(e)
        if c is not None:
            s.stats['split'] += 1
            if s.stats['split'] > s.max_split: raise GaveUp('case splits')
            for cc, val in ((c, TRUE), (not_(c), FALSE)):
                if any(not_(cc) is x for x in pc): continue
                if cc in pc or not s.contradicts(pc, cc):
                    e2 = s.replace_cond(e, c, val)
                    r2 = s.learn(rules, cc)
                    if not s.eq_zero(e2, pc + [cc], r2, depth + 1): return False
            return True
        p = s.rpoly(e, rules)
        if not p: s.stats['poly'] += 1; return True
        p = s.inv_cancel(p, rules)
        if not p: s.stats['poly'] += 1; return True
        q2 = s.sum_shift(p, pc)
        if q2 is not None and depth < 40:
            return s.eq_zero(q2, pc, rules, depth + 1)
        s.residual = p
        # products of square roots, sums etc. not handled: let nonlinear z3 try small ones
        if len(p) <= 60 and s.z3try(pc, eq(tm.from_poly(p, 'R'), R(0)), rules): return True
        return False
    def sum_shift(s, p, pc):
        """sum_{k<n} g(k+c) -> sum_{k<n+c} g(k) - g(0) - ... - g(c-1), for n >= 0"""
        m = {}
        for mono in p:
            for a, e in mono:
                t = tm.ATOM[a]
                if t.op != 'sum' or t in m: continue
                k, body, n = t.args
                offs = set()
                for x in tm.atoms_of(body):
                    if x.op == 'app' and k in x.fv:
                        for y in x.args[1:]:
                            if k in y.fv and y.sort == 'I':
                                q_ = tm.poly(y)
                                if y.op in ('bv', '+') and q_.get(((k.id, 1),)) == 1: offs.add(q_.get((), 0))
                    elif k in x.fv and x.op in ('toreal', 'ite', '<', '<=', '='): offs.add(None)
                if len(offs) == 1 and None not in offs:
                    c = offs.pop()
                    if 0 < c <= 64 and (tm.le(I(0), n) is TRUE or s.z.check(list(pc) + [lt(n, I(0))], timeout=800, lin=True) == 'unsat'):
                        kk = tm.fresh('k', 'I')
                        b2 = tm.subst(body, {k: sub(kk, I(c))})
                        m[t] = sub(tm.mksum(kk, b2, add(n, I(c))), add(*[tm.subst(b2, {kk: I(j)}) for j in range(c)]))
        if not m: return None
        return tm.subst(tm.from_poly(p, 'R'), m)
    def learn(s, rules, c):
        """sign / definition facts from a branch condition"""
        r = rules
        if c.op == '<':
            a, b = c.args
            d = tm.from_poly(tm.padd(tm.poly(b), tm.pscale(tm.poly(a), -1)), 'R') if a.sort == 'R' else None
            if d is not None:
                r = Rules(rules); r.pos.add(d); r.pos.add(sub(b, a))
                if isnum(a) and nv(a) == 0: r.pos.add(b)
                if isnum(b) and nv(b) == 0: r.pos.add(neg(a))
        elif c.op == '<=':
            a, b = c.args
            if a.sort == 'R':
                r = Rules(rules)
                if isnum(a) and nv(a) == 0: r.pos.add(b)     # >=0 is all abs_of needs
                if isnum(b) and nv(b) == 0: r.pos.add(neg(a))
                r.pos.add(sub(b, a))
        elif c.op == '=' and c.args[0].sort == 'R':
            p = tm.padd(tm.poly(c.args[0]), tm.pscale(tm.poly(c.args[1]), -1))
            # linear in an atom not occurring elsewhere
            for m, k in p.items():
                if len(m) == 1 and m[0][1] == 1 and tm.ATOM[m[0][0]].op in ('var', 'app'):
                    a = m[0][0]
                    if not any(x == a for m2 in p if m2 != m for x, _ in m2):
                        rest = {m2: -Fraction(v) / Fraction(k) for m2, v in p.items() if m2 != m}
                        if a in rules.r: continue
                        r = Rules(rules); r.add(tm.ATOM[a], 1, tm.from_poly({k2: tm.q(v) for k2, v in rest.items()}, 'R')); break
        elif c.op == 'and':
            for x in c.args: r = s.learn(r, x)
        return r
    def replace_cond(s, e, c, val):
        m = {c: val}
        return tm.subst(e, m)
    def contradicts(s, pc, c):
        return s.z.check(list(pc) + [c], timeout=600, lin=True) == 'unsat'
    def z3try(s, pc, goal, rules, timeout=3000):
        hyp = list(pc)
        for a, (k, rhs) in rules.r.items():
            hyp.append(eq(tm.powi(tm.ATOM[a], k), tm.from_poly(rhs, 'R')))
        ats = set()
        tm.atoms_of(goal, ats)
        r = s.z.check(hyp + [not_(goal)], timeout=timeout, lin=False)
        if r == 'unsat': s.stats['z3'] += 1; return True
        return False

    # ------------------------------------------------------------------- main
    def prove(s, goal, pc=(), rules=None, timeout=4000):
        """returns (status, how); status in proved / unknown"""
        rules = rules or Rules()
        pc = list(pc)
        t0 = time.time()
        try:
            r, how = s._prove(goal, pc, rules, timeout)
        except (GaveUp, tm.TooBig) as ex:
            r, how = False, 'gave up: %s' % (ex,)
        except RecursionError:
            r, how = False, 'gave up: recursion'
        return ('proved' if r else 'unknown'), how
    def _prove(s, goal, pc, rules, timeout):
        if goal is TRUE: return True, 'simplifier'
        if goal in pc: return True, 'hypothesis'
        if goal.op == 'and':
            hows = set()
            for g in goal.args:
                ok, how = s._prove(g, pc, rules, timeout)
                if not ok: return False, how
                hows.add(how)
            return True, '+'.join(sorted(hows))
        for c in pc: rules = s.learn(rules, c)
        if goal.op == 'or':
            # a \/ b : assume not a, prove b (try the last as goal)
            *h_, g = goal.args
            if g.op == '=' and g.args[0].sort == 'R':
                ok, how = s._prove(g, pc + [not_(x) for x in h_], rules, timeout)
                if ok: return ok, how
        if goal.op == '=' and goal.args[0].sort == 'R':
            s.stats['split'] = 0
            e = sub(goal.args[0], goal.args[1])
            s.residual = None
            if not has_conditional_only_ints(e):
                if s.eq_zero(e, pc, rules): return True, 'polynomial normal form'
        if goal.op in ('<', '<=') and goal.args[0].sort == 'R' and s.ineq_from_hyp(goal, pc, rules): return True, 'polynomial normal form'
        if s.z.check(pc + [not_(goal)], timeout=min(timeout, 2500), lin=True) == 'unsat': return True, 'z3 (linear)'
        if s.z3try(pc, goal, rules, timeout): return True, 'z3 (nonlinear)'
        # disjunctive path conditions: case split
        ors = [c for c in pc if c.op == 'or']
        if ors and len(pc) < 80:
            c = ors[0]; rest = [x for x in pc if x is not c]
            ok = True
            for x in c.args:
                if s.contradicts(rest, x): continue
                o, how = s._prove(goal, rest + [x], s.learn(rules, x), timeout)
                if not o: ok = False; break
            if ok: return True, 'case analysis'
        return False, 'not discharged'

def _ineq_from_hyp(s, goal, pc, rules):
    """goal a < b where b - a is a positive multiple of a hypothesis' difference, or a sum of squares"""
    try:
        g = s.rpoly(s.norm(sub(goal.args[1], goal.args[0]), rules, {}), rules)
        if nonneg(g) and (goal.op == '<=' or g.get((), 0) > 0): return True
        if len(g) > 20000: return False
        lead = max(g) if g else None
        for c in pc:
            strict = True
            neg_ = c.op == 'not'
            h = c.args[0] if neg_ else c
            if h.op not in ('<', '<=') or h.args[0].sort != 'R': continue
            x, y = (h.args[1], h.args[0]) if neg_ else h.args
            st = (h.op == '<') != neg_
            if goal.op == '<' and not st: continue
            d = s.rpoly(s.norm(sub(y, x), rules, {}), rules)
            if len(d) != len(g) or lead not in d: continue
            k = Fraction(g[lead]) / Fraction(d[lead])
            if k > 0 and all(m in d and Fraction(v) == k * Fraction(d[m]) for m, v in g.items()): return True
    except (tm.TooBig, GaveUp): pass
    return False
Prover.ineq_from_hyp = _ineq_from_hyp
def has_conditional_only_ints(e): return False

# ------------------------------------------------------------------ refutation
class Sampler:
    """random values for free symbols respecting the rules"""
    def __init__(s, rules, seed, fixed=None):
        s.rules = rules; s.rng = random.Random(seed); s.env = {}; s.fixed = fixed or {}
        s.busy = set()
    def num(s, sort):
        r = s.rng
        if sort == 'R': return r.choice([r.gauss(0, 1), r.gauss(0, 1), r.uniform(-3, 3), r.uniform(0, 1)])
        if sort == 'I': return r.choice([0, 1, 2, 3, 4, 5, 6, 7, r.randint(0, 12)])
        if sort == 'B': return r.random() < 0.5
        return r.randint(0, 100)
    def uf(s, x, args):
        if x.op == 'var': key = x
        else: key = (x.args[0], tuple(args), x.sort)
        if key in s.env: return s.env[key]
        if x.op == 'app':
            n = x.args[0]
            try:
                v = {'idiv': lambda a, b: int(a) // int(b) if a >= 0 else -(-int(a) // int(b)), 'imod': lambda a, b: int(a) % int(b), 'trunc': lambda a: int(a),
                     'floor': lambda a: math.floor(a), 'ceil': lambda a: math.ceil(a), 'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'log': math.log, 'exp': math.exp,
                     'acos': math.acos, 'asin': math.asin, 'pow': lambda a, b: a ** b if a > 0 else float('nan'), 'atan2': math.atan2, 'log10': math.log10, 'atan': math.atan}[n](*args)
                s.env[key] = v; return v
            except KeyError: pass
            except (ValueError, ZeroDivisionError, OverflowError): raise tm.EvalError(n)
        rr = s.rules.r.get(x.id) if x.op == 'var' else None
        if rr and x not in s.busy:
            s.busy.add(x)
            v = tm.evaluate(tm.from_poly(rr[1], 'R'), {}, s.uf)
            s.busy.discard(x)
            if rr[0] == 2:
                if v < 0: raise tm.EvalError('rule')
                v = math.sqrt(v) * s.rng.choice([1, -1])
        elif x in s.fixed: v = s.fixed[x]
        else: v = s.num(x.sort)
        s.env[key] = v
        return v
def scale_for(s, rules): pass
def refute(goal, pc, rules, tries=400, seed=1, prep=None, tmax=6.0):
    """search for an assignment satisfying pc but not goal; returns dict or None"""
    t0 = time.time()
    for k in range(tries):
        if time.time() - t0 > tmax: return None
        sm = Sampler(rules, seed * 1000003 + k)
        if prep: prep(sm)
        # unit vectors need small components: scale samples
        if k % 2 == 0:
            base = sm.num
            sm.num = (lambda b: lambda sort: b(sort) * 0.4 if sort == 'R' else b(sort))(base)
        try:
            memo = {}
            if not all(tm.evaluate(c, {}, sm.uf, memo) for c in pc): continue
            if goal.op == '=' and goal.args[0].sort == 'R':
                a = float(tm.evaluate(goal.args[0], {}, sm.uf, memo)); b = float(tm.evaluate(goal.args[1], {}, sm.uf, memo))
                if a != a or b != b or abs(a) > 1e8: continue
                if abs(a - b) > 1e-5 * (1 + abs(a) + abs(b)): return dump(sm, {'lhs': a, 'rhs': b})
            elif not tm.evaluate(goal, {}, sm.uf, memo): return dump(sm, {})
        except (tm.EvalError, OverflowError, ZeroDivisionError): continue
    return None
def dump(sm, extra):
    d = {}
    for k, v in sm.env.items():
        n = k.args[0] if isinstance(k, T) else '%s(%s)' % (k[0], ','.join(map(str, k[1])))
        d[n] = v if isinstance(v, (int, float, bool)) else float(v)
        if len(d) > 60: break
    d.update(extra)
    return d
