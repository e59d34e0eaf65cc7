"""z3 back end."""
import z3, time
from . import terms as tm
from .terms import T, TRUE, FALSE, not_, and_

class Z3:
    def __init__(s, nl=True):
        s.cache = {}; s.fcache = {}; s.calls = 0; s.time = 0.0; s.fun = {}; s.tcache = {}
        s.unknown = 0
    def sort(s, k): return {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort(), 'O': z3.IntSort()}[k]
    def tr(s, t, side, lin=False):
        """translate; side collects definitional axioms; lin abstracts nonlinear real terms"""
        key = (t, lin)
        memo = s.tcache
        st = [t]
        while st:
            x = st[-1]
            if (x, lin) in memo: st.pop(); continue
            ch = [a for a in x.args if a.__class__ is T and (a, lin) not in memo]
            if x.op in ('forall',): ch = [a for a in ch]
            if ch: st.extend(ch); continue
            memo[(x, lin)] = s.node(x, lin)
            st.pop()
        return memo[key]
    def node(s, x, lin):
        g = lambda a: s.tcache[(a, lin)]
        o = x.op; a = x.args
        if o == 'num':
            if x.sort == 'I': return z3.IntVal(a[0])
            v = a[0]
            return z3.RealVal(str(v)) if isinstance(v, int) else z3.RealVal('%d/%d' % (v.numerator, v.denominator))
        if o == 'true': return z3.BoolVal(True)
        if o == 'false': return z3.BoolVal(False)
        if o == 'var': return z3.Const(a[0] + ':' + x.sort, s.sort(x.sort))
        if o == 'bv': return z3.Const('#%d' % a[0], z3.IntSort())
        if o == '+': return z3.Sum([g(y) for y in a])
        if o == '*':
            if lin and sum(1 for y in a if y.op != 'num') > 1: return z3.Const('nl!%d' % x.id, s.sort(x.sort))
            r = g(a[0])
            for y in a[1:]: r = r * g(y)
            return r
        if o == 'inv': return z3.Const('inv!%d' % x.id, z3.RealSort())
        if o == 'sqrt': return z3.Const('sqrt!%d' % x.id, z3.RealSort())
        if o == 'toreal': return z3.ToReal(g(a[0]))
        if o == 'not': return z3.Not(g(a[0]))
        if o == 'and': return z3.And([g(y) for y in a])
        if o == 'or': return z3.Or([g(y) for y in a])
        if o == '<': return g(a[0]) < g(a[1])
        if o == '<=': return g(a[0]) <= g(a[1])
        if o == '=': return g(a[0]) == g(a[1])
        if o == 'ite': return z3.If(g(a[0]), g(a[1]), g(a[2]))
        if o == 'sum': return z3.Const('sum!%d' % x.id, s.sort(x.sort)) if not x.fv else z3.Function('sum!%d' % x.id, *([z3.IntSort()] * len(x.fv) + [s.sort(x.sort)]))(*[g2(s, y, lin) for y in sorted(x.fv, key=lambda v: v.id)])
        if o == 'forall': return z3.ForAll([g(a[0])], g(a[1]))
        if o == 'app':
            key = (a[0], tuple(y.sort for y in a[1:]), x.sort)
            f = s.fun.get(key)
            if f is None:
                f = z3.Function(a[0] + '/' + ''.join(y.sort for y in a[1:]) + x.sort, *([s.sort(y.sort) for y in a[1:]] + [s.sort(x.sort)]))
                s.fun[key] = f
            return f(*[g(y) for y in a[1:]]) if len(a) > 1 else z3.Const(a[0] + '/' + x.sort, s.sort(x.sort))
        raise Exception('z3 translation of ' + o)
    def axioms(s, ts, lin):
        """defining facts of special subterms"""
        out = []
        seen = set()
        for t in ts: tm.atoms_of(t, seen)
        more = True
        for x in list(seen):
            if x.fv: continue
            if x.op == 'app':
                n = x.args[0]
                if n.endswith('.len') or n.endswith('.rows') or n.endswith('.cols'): out.append(s.tr(x, None, lin) >= 0)
                if n == 'imod':
                    aa, bb = s.tr(x.args[1], None, lin), s.tr(x.args[2], None, lin)
                    v = s.tr(x, None, lin)
                    out.append(z3.Implies(z3.And(aa >= 0, bb > 0), z3.And(v >= 0, v < bb, v <= aa)))
                    out.append(z3.Implies(z3.And(aa >= 0, aa < bb), v == aa))
                    if x.args[2].op == 'num' and x.args[2].args[0] > 0:
                        d = s.tr(tm.app('idiv', x.args[1:], 'I'), None, lin)
                        out.append(z3.Implies(aa >= 0, aa == d * bb + v))
                if n == 'idiv':
                    aa, bb = s.tr(x.args[1], None, lin), s.tr(x.args[2], None, lin)
                    v = s.tr(x, None, lin)
                    if x.args[2].op == 'num' and x.args[2].args[0] > 0:
                        out.append(z3.Implies(aa >= 0, z3.And(v * bb <= aa, aa < v * bb + bb)))
                    else: out.append(z3.Implies(z3.And(aa >= 0, bb > 0), z3.And(v >= 0, v <= aa)))
                if n.startswith('perm#'):   # a bijection of 0..len-1 (last two arguments: len, position)
                    L, j = s.tr(x.args[-2], None, lin), s.tr(x.args[-1], None, lin); v = s.tr(x, None, lin)
                    w = s.tr(tm.app('inverse of ' + n, x.args[1:-1] + (x,), 'I'), None, lin)
                    out.append(z3.Implies(z3.And(j >= 0, j < L), z3.And(v >= 0, v < L, w == j)))
                if n == 'trunc':
                    r = s.tr(x.args[1], None, lin); v = s.tr(x, None, lin)
                    out.append(z3.Implies(r >= 0, z3.And(z3.ToReal(v) <= r, r < z3.ToReal(v) + 1)))
                    out.append(z3.Implies(r <= 0, z3.And(z3.ToReal(v) >= r, r > z3.ToReal(v) - 1)))
                if n == 'floor':
                    r = s.tr(x.args[1], None, lin); v = s.tr(x, None, lin)
                    out.append(z3.And(v <= r, r < v + 1, z3.IsInt(v)))
            elif x.op == 'var':
                if x.args[0].endswith('.len'): out.append(s.tr(x, None, lin) >= 0)
            elif x.op == 'sqrt':
                v = s.tr(x, None, lin); out.append(v >= 0)
                if not lin: out.append(z3.Implies(s.tr(x.args[0], None, lin) >= 0, v * v == s.tr(x.args[0], None, lin)))
                else: out.append(z3.Implies(s.tr(x.args[0], None, lin) > 0, v > 0))
            elif x.op == 'inv':
                d = s.tr(x.args[0], None, lin); v = s.tr(x, None, lin)
                if not lin: out.append(z3.Implies(d != 0, v * d == 1))
                else:
                    out.append(z3.Implies(d > 0, v > 0)); out.append(z3.Implies(d < 0, v < 0))
            elif x.op == 'sum':
                b = x.args[1]
                v = s.tr(x, None, lin)
                if b.op == 'ite' and b.args[1].op == 'num' and b.args[2].op == 'num' and b.args[1].args[0] in (0, 1) and b.args[2].args[0] in (0, 1):
                    n = s.tr(x.args[2], None, lin)
                    out.append(z3.Implies(n >= 0, z3.And(v >= 0, v <= (n if x.sort == 'I' else z3.ToReal(n)))))
        return out
    def check(s, fs, timeout=2000, lin=False, want_model=False):
        key = (frozenset(f.id for f in fs), lin)
        if not want_model and key in s.cache: return s.cache[key]
        t0 = time.time()
        sol = z3.Solver(); sol.set('timeout', timeout)
        zs = [s.tr(f, None, lin) for f in fs]
        ax = s.axioms(fs, lin)
        for z in zs + ax: sol.add(z)
        r = str(sol.check())
        s.calls += 1; s.time += time.time() - t0
        if r == 'unknown': s.unknown += 1
        if want_model: return r, (sol.model() if r == 'sat' else None)
        s.cache[key] = r
        return r
    def feasible(s, pc, c):
        """False only when pc /\\ c is definitely inconsistent"""
        from .terms import and_
        fs = list(pc) + [c]
        # cone of influence is cheap enough here: abstract nonlinear parts first
        r = s.check(fs, timeout=1500, lin=True)
        return r != 'unsat'

def g2(s, y, lin):
    if (y, lin) not in s.tcache: s.tcache[(y, lin)] = s.node(y, lin)
    return s.tcache[(y, lin)]
