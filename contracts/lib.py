"""Spec vocabulary shared by the contracts (independent of the code under test)."""
import math, time
from dv.terms import *
from dv.terms import poly, from_poly, ATOM, evaluate, EvalError
from dv.values import *
from dv.prove import Rules
from dv import interp as ip

def symvec(n, name): return Mat(n, 1, [var('%s.%d' % (name, i)) for i in range(n)])
def symmat(r, c, name): return mat_fn(r, c, lambda i, j: var('%s.%d_%d' % (name, i, j)))
def col(*xs): return Mat(len(xs), 1, [x if isinstance(x, T) else R(x) for x in xs])
def Q(q):
    """rotation of a unit quaternion (a,b,c,d)"""
    a, b, c, d = q.d
    two = R(2)
    return Mat(3, 3, [
        sub(R(1), mul(two, add(mul(c, c), mul(d, d)))), mul(two, sub(mul(b, c), mul(a, d))), mul(two, add(mul(b, d), mul(a, c))),
        mul(two, add(mul(b, c), mul(a, d))), sub(R(1), mul(two, add(mul(b, b), mul(d, d)))), mul(two, sub(mul(c, d), mul(a, b))),
        mul(two, sub(mul(b, d), mul(a, c))), mul(two, add(mul(c, d), mul(a, b))), sub(R(1), mul(two, add(mul(b, b), mul(c, c))))])
def unitq(name, rules=None):
    q = symvec(4, name)
    ru = rules or Rules()
    a, b, c, d = q.d
    ru.add(a, 2, sub(R(1), add(mul(b, b), mul(c, c), mul(d, d))))
    return q, ru
def rot(name, ru):
    """symbolic rotation matrix parametrised by a unit quaternion"""
    q, _ = unitq(name, ru)
    return Q(q)
def madd(a, b): return mat_map2(s_add, a, b)
def msub(a, b): return mat_map2(s_sub, a, b)
def mscale(k, a): return mat_map(lambda x: s_mul(k, x), a)
def mm(*ms):
    r = ms[0]
    for m in ms[1:]: r = mat_mul(r, m)
    return r
def tr(a): return mat_T(a)
def norm(a): return sqrt(from_poly(poly(mat_dot(a, a)), 'R'))
def skew(v):
    x, y, z = v.d
    o = R(0)
    return Mat(3, 3, [o, neg(z), y, z, o, neg(x), neg(y), x, o])

def resolve(it, q, *contain): return it.prog.find(q, *contain)
def call(it, q, *args, pc=(), rules=None, ck=None, this=None, contain=(), st0=None):
    """symbolically execute the real function; returns [(state, value)] for the normally returning paths"""
    f = q if isinstance(q, dict) else resolve(it, q, *contain)
    def th():
        for c in pc: it.assume(c)
        av = []
        for p, a in zip(f['params'], args):
            if isinstance(a, tuple) and len(a) == 2 and a[0] in ('lv', 'v'): av.append(a)
            elif ip.is_ref(p['t']): av.append(('lv', it.alloc(copyv(a))))
            else: av.append(('v', copyv(a)))
        return it.rv(it.call(f, this, av))
    return [(st, v) for st, k, v in it.explore(th)]

# ------------------------------------------------------------------ adapters
def absvec(name, *idx, n=3):
    """value of an abstract vector getter, e.g. absvec('adapter.getPoint1', i)"""
    return Mat(n, 1, [app('%s.%d' % (name, j), tuple(idx), 'R') for j in range(n)])
def absmat(name, *idx, r=3, c=3):
    return mat_fn(r, c, lambda i, j: app('%s.%d_%d' % (name, i, j), tuple(idx), 'R') if idx else var('%s.%d_%d' % (name, i, j)))
def getters(table):
    """cfg hook: contracts of abstract adapter methods; table name -> fn(*index terms) -> value"""
    def h(it, st, name, e, args, ts):
        if name in table:
            r = table[name](*ts)
            if r is None: return None
            it.trusted.add('assumed contract: ' + name + ' returns the stored correspondence data')
            return ('v', r)
        return None
    return h
def obj(it, cls, name):
    """arbitrary object of an abstract class"""
    return it.symval(cls, name)
def sumvec(f, n, dim=3):
    k = fresh('k', 'I'); v = f(k)
    return Mat(v.r, v.c, [mksum(k, x, n) for x in v.d])
def trace(a):
    return add(*[a[i, i] for i in range(a.r)])
def diag(*xs): return mat_fn(len(xs), len(xs), lambda i, j: xs[i] if i == j else R(0))
def outer(a, b): return mat_mul(a, mat_T(b))
def pick_decomp(ck, base, give):
    """cfg hook: contract of an Eigen decomposition; give(it, A, k) -> dict of components (k = how many so far)"""
    seen = []
    def h(it, b, A, args):
        if b != base: raise Unsupported('a %s where the contract expects %s' % (b, base))
        r = give(it, A, len(seen)); seen.append(A)
        if r is None: return None
        f = {'A': A}; f.update(r)
        return Struct('#' + b, f, {'name': b})
    h.seen = seen
    return h

class Namer:
    """names for large or non-polynomial values: the same value gets the same name, as a function of the loop counters in it; expand() undoes it.
    Names stand for polynomials over the inputs as long as these are small, so that the name does not depend on how the code splits the computation."""
    def __init__(s, size=150, deep=False): s.size = size; s.deep = deep; s.memo = {}; s.defs = {}; s.sizes = {}; s.sealed = set()
    def inner(s, t):
        """t over the inputs if that is small enough, otherwise over the names of such values"""
        full = s.size_of(t) <= 350
        for _ in range(8):
            names = [a for a in {a for m in poly(t) for a, e in m} if ATOM[a].op == 'app' and ATOM[a].args[0] in s.defs and ATOM[a].args[0] not in s.sealed and (full or not s.base(ATOM[a].args[0]))]
            if not names: break
            size = {a: len(poly(s.defs[ATOM[a].args[0]][1])) for a in names}
            if sum(math.prod(size.get(a, 1) ** e for a, e in m) for m in poly(t)) > 350: break
            mp = {}
            for a in names:
                ps, d = s.defs[ATOM[a].args[0]]; mp[ATOM[a]] = subst(d, dict(zip(ps, ATOM[a].args[1:])))
            t = from_poly(poly(subst_top(t, mp)), 'R')
        return t
    def seal(s, *ms):
        """names that later values are expressed by"""
        s.sealed |= {x.args[0] for x in names_in(*ms)}
    def base(s, n):
        return n in s.sealed or not any(ATOM[a].op == 'app' and ATOM[a].args[0] in s.defs for m in poly(s.defs[n][1]) for a, e in m)
    def size_of(s, t):
        r = 0
        for m in poly(t):
            x = 1
            for a, e in m:
                if ATOM[a].op == 'app' and ATOM[a].args[0] in s.defs and ATOM[a].args[0] not in s.sealed:
                    n = ATOM[a].args[0]
                    if n not in s.sizes: s.sizes[n] = s.size_of(s.defs[n][1])
                    x *= s.sizes[n] ** e
            r += x
        return r
    def __call__(s, t):
        r = s.memo.get(t)
        if r is None:
            if t.op == '+' or t.op == 'sum':      # a sum that is being built: only the summand is named
                sums = [x for x in (t.args if t.op == '+' else (t,)) if x.op == 'sum' and not isnum(x.args[2]) and any('!' in str(y.args[0]) for y in atoms_of(x.args[2]) if y.op == 'var')]
                if sums:
                    rest = [x for x in t.args if x not in sums] if t.op == '+' else []
                    r = add(*sums, s(from_poly(poly(add(*rest) if len(rest) > 1 else rest[0]), 'R'))) if rest else t
                    s.memo[t] = r; return r
            at = atoms_of(t)
            nonpoly = lambda x: x.op in ('inv', 'sqrt') and not (x.args[0].op in ('var', 'app') and not x.args[0].args[0].startswith('val#'))
            named = lambda x: x.op == 'app' and x.args[0].startswith('val#')
            r = t
            if not named(t) and not any(x.op in ('var', 'app') and x.args[0].startswith('hv!') for x in at) and (len(at) >= s.size or any(nonpoly(x) or s.deep and named(x) for x in at)):
                if s.deep and t.sort == 'R': t = s.inner(from_poly(poly(t), 'R')); at = atoms_of(t)
                if s.deep and len(at) < s.size and not any(nonpoly(x) for x in at): s.memo[r] = t; return t
                if s.deep and t.sort == 'R' and poly(t) and poly(t)[max(poly(t))] < 0: k = neg(s(from_poly(poly(neg(t)), 'R'))); s.memo[r] = k; return k     # -x is minus the name of x
                ps = sorted((x for x in at if x.op == 'var' and x.sort == 'I' and '!' in x.args[0]), key=lambda x: x.id)
                qs = [var('#p%d' % i, 'I') for i in range(len(ps))]; t = subst(t, dict(zip(ps, qs)))     # equal functions of the counters get the same name
                if t.sort == 'R': t = from_poly(poly(t), 'R')
                k = app('val#%d' % t.id, ps, 'R'); s.defs['val#%d' % t.id] = (qs, t)
                s.memo[r] = k; return k
            s.memo[r] = r
        return r
    def expand(s, t, keep=()):
        while True:
            m = {}
            for x in atoms_of(t):
                if x.op == 'app' and x.args[0] in s.defs and x not in keep:
                    ps, d = s.defs[x.args[0]]
                    m[x] = subst(d, dict(zip(ps, x.args[1:])))
            if not m: return t
            t = subst(t, m)
            if t.sort == 'R': t = from_poly(poly(t), 'R')
    def uses(s, t, pre, seen=None):
        """argument lists of the functions whose name starts with pre in the expansion of t"""
        seen = {} if seen is None else seen
        if t in seen: return seen[t]
        r = set()
        for x in atoms_of(t):
            if x.op != 'app': continue
            if x.args[0].startswith(pre): r.add(x.args[1:])
            elif x.args[0] in s.defs:
                ps, d = s.defs[x.args[0]]; m = dict(zip(ps, x.args[1:]))
                r |= {tuple(subst(y, m) for y in a) for a in s.uses(d, pre, seen)}
        seen[t] = r
        return r
def subst_top(t, m):
    """replace atoms of the polynomial t (not those inside its atoms)"""
    r = []
    for mo, c in poly(t).items():
        fs = [num(c, 'R')]
        for a, e in mo: fs += [m.get(ATOM[a], ATOM[a])] * e
        r.append(mul(*fs) if len(fs) > 1 else fs[0])
    return add(*r) if len(r) > 1 else r[0] if r else R(0)
def names_in(*ms):
    return {x for m in ms for e in (m.d if isinstance(m, Mat) else [m]) for x in atoms_of(e) if x.op == 'app' and x.args[0].startswith('val#')}
def require_named(ck, nm, what, a, b, pc=()):
    """a = b, decided over the names occurring in the specification b (the code's values stay shared); a difference must show in an evaluation of both sides"""
    from dv import prove as pv
    t0 = time.time(); name = '%s: %s' % (ck.cur, what)
    x = nm.expand(a, names_in(b))
    if not poly(sub(x, b)): ck.record(name, 'proved', 'polynomial normal form over shared subterms', time.time() - t0); return True
    for seed in range(60):
        sm = pv.Sampler(pv.Rules(), seed); vals = {}
        def uf(t, args):
            if t.op == 'app' and t.args[0] in nm.defs:
                k = (t.args[0], tuple(args))
                if k not in vals:
                    ps, d = nm.defs[t.args[0]]; vals[k] = evaluate(d, dict(zip(ps, args)), uf)
                return vals[k]
            return sm.uf(t, args)
        memo = {}
        try:
            if not all(evaluate(c, {}, uf, memo) for c in pc): continue
            u, v = float(evaluate(a, {}, uf, memo)), float(evaluate(b, {}, uf, memo))
        except (EvalError, OverflowError, ZeroDivisionError): continue
        if abs(u - v) > 1e-5 * (1 + abs(u) + abs(v)): ck.record(name, 'refuted', 'evaluation', time.time() - t0, {'witness': pv.dump(sm, {'lhs': u, 'rhs': v})}); return False
    raise Unsupported('equality of large terms: ' + what)
