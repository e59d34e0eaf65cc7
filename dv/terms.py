"""Hash-consed first-order terms with exact polynomial normal forms.

Sorts: 'I' (mathematical integers), 'R' (reals), 'B' (booleans), 'O' (opaque).
Sum terms bind an integer index; their normal form is canonical: bodies are
expanded and constant or index-free factors pulled out.
"""
from fractions import Fraction
import itertools, random, math

class T:
    __slots__ = ('op', 'args', 'sort', 'id', 'depth', 'fv', '_p', '__weakref__')
    def __repr__(self): return show(self)

_tab = {}
_cnt = itertools.count()
EMPTY = frozenset()

def mk(op, args, sort):
    key = (op, args, sort)
    t = _tab.get(key)
    if t is None:
        t = T(); t.op = op; t.args = args; t.sort = sort; t.id = next(_cnt); t._p = None
        d = 0; fv = EMPTY
        for a in args:
            if a.__class__ is T:
                if a.depth > d: d = a.depth
                if a.fv:
                    fv = a.fv if not fv else (fv if a.fv <= fv else fv | a.fv)
        if op == 'bv': fv = frozenset((t,))
        if op == 'sum':
            d += 1; fv = fv - frozenset((args[0],))
        if op == 'forall':
            d += 1; fv = fv - frozenset((args[0],))
        t.depth = d; t.fv = fv
        _tab[key] = t
    return t

def q(x):
    if isinstance(x, Fraction):
        return x.numerator if x.denominator == 1 else x
    return x

def num(x, sort='R'):
    return mk('num', (q(Fraction(x)) if not isinstance(x, int) else x,), sort)
def I(x): return mk('num', (int(x),), 'I')
def R(x): return num(x, 'R')
TRUE = mk('true', (), 'B'); FALSE = mk('false', (), 'B')
def B(b): return TRUE if b else FALSE
def var(name, sort='R'): return mk('var', (name,), sort)
def app(f, args, sort):
    if f in ('floor', 'ceil', 'trunc') and len(args) == 1 and args[0].op == 'num': return num(getattr(math, f)(args[0].args[0]), sort)
    return mk('app', (f,) + tuple(args), sort)
_fresh = itertools.count()
def fresh(name, sort): return var('%s!%d' % (name, next(_fresh)), sort)

def isnum(t): return t.op == 'num'
def nv(t): return t.args[0]

def add(*xs):
    s = xs[0].sort
    if s == 'I' and not all(x.op == 'num' for x in xs):
        p = {}
        for x in xs: p = padd(p, poly(x))
        return from_poly(p, 'I')
    c = 0; r = []
    for x in xs:
        if x.op == 'num': c += nv(x)
        elif x.op == '+': 
            for y in x.args:
                if y.op == 'num': c += nv(y)
                else: r.append(y)
        else: r.append(x)
    if c != 0 or not r: r.append(mk('num', (q(c),), s))
    if len(r) == 1: return r[0]
    return mk('+', tuple(r), s)

def mul(*xs):
    s = xs[0].sort
    if s == 'I' and not all(x.op == 'num' for x in xs):
        p = {(): 1}
        for x in xs: p = pmul(p, poly(x))
        return from_poly(p, 'I')
    c = 1; r = []
    for x in xs:
        if x.op == 'num': c *= nv(x)
        elif x.op == '*':
            for y in x.args:
                if y.op == 'num': c *= nv(y)
                else: r.append(y)
        else: r.append(x)
    if c == 0: return mk('num', (0,), s)
    if c != 1 or not r: r.insert(0, mk('num', (q(c),), s))
    if len(r) == 1: return r[0]
    return mk('*', tuple(r), s)

def neg(x): return mul(mk('num', (-1,), x.sort), x)
def sub(a, b): 
    if a is b: return mk('num', (0,), a.sort)
    return add(a, neg(b))
def div(a, b):
    if b.op == 'num' and nv(b) != 0:
        return mul(a, R(Fraction(1) / Fraction(nv(b))))
    if a.op == 'num' and nv(a) == 0: return a
    return mul(a, mk('inv', (b,), 'R'))
def sqrt(a):
    if a.op == 'num':
        f = Fraction(nv(a))
        if f >= 0:
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator: return R(Fraction(n, d))
    return mk('sqrt', (a,), 'R')
def powi(a, n):
    r = num(1, a.sort)
    for _ in range(n): r = mul(r, a)
    return r
def toreal(a):
    if a.sort == 'R': return a
    if a.op == 'num': return R(nv(a))
    if a.op == 'ite': return ite(a.args[0], toreal(a.args[1]), toreal(a.args[2]))
    if a.op == 'sum': return mksum(a.args[0], toreal(a.args[1]), a.args[2])
    if a.op in ('+', '*'):
        return (add if a.op == '+' else mul)(*[toreal(x) for x in a.args])
    return mk('toreal', (a,), 'R')

def not_(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    if a.op == '<': return le(a.args[1], a.args[0])
    if a.op == '<=': return lt(a.args[1], a.args[0])
    return mk('not', (a,), 'B')
def and_(*xs):
    r = []
    for x in xs:
        if x is FALSE: return FALSE
        if x is TRUE: continue
        if x.op == 'and': ys = x.args
        else: ys = (x,)
        for y in ys:
            if y not in r: r.append(y)
    if not r: return TRUE
    if len(r) == 1: return r[0]
    return mk('and', tuple(r), 'B')
def or_(*xs):
    r = []
    for x in xs:
        if x is TRUE: return TRUE
        if x is FALSE: continue
        ys = x.args if x.op == 'or' else (x,)
        for y in ys:
            if y not in r: r.append(y)
    if not r: return FALSE
    if len(r) == 1: return r[0]
    return mk('or', tuple(r), 'B')
def implies(a, b): return or_(not_(a), b)
def _cmpc(a, b):
    """constant difference of linear int terms, if any"""
    if a.op == 'num' and b.op == 'num': return nv(a) - nv(b)
    if a.sort == 'I':
        d = sub(a, b)
        if d.op == 'num': return nv(d)
    return None
def lt(a, b):
    if a is b: return FALSE
    c = _cmpc(a, b)
    if c is not None: return B(c < 0)
    return mk('<', (a, b), 'B')
def le(a, b):
    if a is b: return TRUE
    c = _cmpc(a, b)
    if c is not None: return B(c <= 0)
    return mk('<=', (a, b), 'B')
def eq(a, b):
    if a is b: return TRUE
    if a.sort == 'B':
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return not_(b)
        if b is FALSE: return not_(a)
        return mk('=', (a, b) if a.id < b.id else (b, a), 'B')
    c = _cmpc(a, b)
    if c is not None: return B(c == 0)
    return mk('=', (a, b) if a.id < b.id else (b, a), 'B')
def ne(a, b): return not_(eq(a, b))
def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort == 'B':
        if a is TRUE and b is FALSE: return c
        if a is FALSE and b is TRUE: return not_(c)
        return or_(and_(c, a), and_(not_(c), b))
    return mk('ite', (c, a, b), a.sort)
def cabs(a):
    if a.op == 'num': return num(abs(nv(a)), a.sort)
    return ite(lt(a, num(0, a.sort)), neg(a), a)

def bound(d): return mk('bv', (d,), 'I')
def mksum(k, body, n):
    """sum_{k=0}^{n-1} body ; k any int var/bv term"""
    if body.op == 'num' and nv(body) == 0: return body
    if n.op == 'num' and nv(n) <= 0: return num(0, body.sort)
    if n.op == 'num' and nv(n) <= 40:
        return add(*[subst(body, {k: I(i)}) for i in range(nv(n))]) if nv(n) > 1 else subst(body, {k: I(0)})
    b = bound(body.depth + 0)
    body2 = subst(body, {k: b})
    return mk('sum', (b, body2, n), body.sort)
def forall(k, body):
    b = bound(body.depth + 0)
    body2 = subst(body, {k: b})
    if body2 is TRUE: return TRUE
    return mk('forall', (b, body2), 'B')

REB = {'+': lambda a, s: add(*a), '*': lambda a, s: mul(*a), 'not': lambda a, s: not_(*a), 'and': lambda a, s: and_(*a),
       'or': lambda a, s: or_(*a), '<': lambda a, s: lt(*a), '<=': lambda a, s: le(*a), '=': lambda a, s: eq(*a),
       'ite': lambda a, s: ite(*a), 'sqrt': lambda a, s: sqrt(*a), 'toreal': lambda a, s: toreal(*a),
       'inv': lambda a, s: div(R(1), a[0])}
def rebuild(t, args):
    f = REB.get(t.op)
    if f: return f(args, t.sort)
    if t.op == 'sum': return mksum(args[0], args[1], args[2])
    if t.op == 'forall': return forall(args[0], args[1])
    return mk(t.op, tuple(args), t.sort)

def subst(t, m, memo=None):
    if memo is None: memo = {}
    return _subst(t, m, memo)
def _subst(t, m, memo):
    r = memo.get(t)
    if r is not None: return r
    r = m.get(t)
    if r is None:
        if not t.args or t.op in ('num', 'var', 'bv'): r = t
        else:
            ch = False; na = []
            if t.op in ('sum', 'forall'):
                if atoms_of(t).isdisjoint(m): memo[t] = t; return t
                # avoid capture: re-bind with a fresh var
                fvv = fresh('b', 'I')
                body = _subst(t.args[1], {**m, t.args[0]: fvv}, {})
                if t.op == 'sum': r = mksum(fvv, body, _subst(t.args[2], m, memo))
                else: r = forall(fvv, body)
                memo[t] = r
                return r
            for a in t.args:
                if a.__class__ is T:
                    b = _subst(a, m, memo)
                    if b is not a: ch = True
                    na.append(b)
                else: na.append(a)
            r = rebuild(t, na) if ch else t
    memo[t] = r
    return r

def atoms_of(t, seen=None):
    """all subterms"""
    if seen is None: seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        for a in x.args:
            if a.__class__ is T: st.append(a)
    return seen
def contains(t, xs):
    return not atoms_of(t).isdisjoint(xs)

# ---------------------------------------------------------------- polynomials
# poly: dict {monomial: coeff}; monomial: tuple of (atomid, exp), sorted by id
ATOM = {}
def padd(p, r):
    if len(p) < len(r): p, r = r, p
    o = dict(p)
    for m, c in r.items():
        v = o.get(m, 0) + c
        if v == 0: o.pop(m, None)
        else: o[m] = v
    return o
def mmul(a, b):
    if not a: return b
    if not b: return a
    # merge
    r = []; i = j = 0; la = len(a); lb = len(b)
    while i < la and j < lb:
        x = a[i]; y = b[j]
        if x[0] == y[0]: 
            r.append((x[0], x[1] + y[1])); i += 1; j += 1
        elif x[0] < y[0]: r.append(x); i += 1
        else: r.append(y); j += 1
    if i < la: r.extend(a[i:])
    if j < lb: r.extend(b[j:])
    return tuple(r)
class TooBig(Exception): pass
LIMIT = [4000000]
def pmul(p, r):
    if len(p) * len(r) > LIMIT[0]: raise TooBig()
    if len(p) == 1 and () in p:
        c = p[()]
        return {m: q(c * v) for m, v in r.items()} if c != 1 else r
    if len(r) == 1 and () in r:
        c = r[()]
        return {m: q(c * v) for m, v in p.items()} if c != 1 else p
    o = {}
    g = o.get
    for m1, c1 in p.items():
        for m2, c2 in r.items():
            m = mmul(m1, m2)
            o[m] = g(m, 0) + c1 * c2
    return {m: q(c) for m, c in o.items() if c != 0}
def pscale(p, c): return {m: q(v * c) for m, v in p.items()} if c != 0 else {}
def ppow(p, n):
    r = {(): 1}
    while n:
        if n & 1: r = pmul(r, p)
        n >>= 1
        if n: p = pmul(p, p)
    return r

def atom_poly(t):
    ATOM[t.id] = t
    return {((t.id, 1),): 1}

def poly(t):
    if t._p is not None: return t._p
    # iterative to avoid deep recursion
    stack = [t]
    while stack:
        x = stack[-1]
        if x._p is not None: stack.pop(); continue
        if x.op == 'num': x._p = {(): q(nv(x))} if nv(x) != 0 else {}; stack.pop(); continue
        if x.op in ('+', '*'):
            pend = [a for a in x.args if a._p is None]
            if pend: stack.extend(pend); continue
            if x.op == '+':
                o = {}
                for a in x.args:
                    for m, c in a._p.items():
                        v = o.get(m, 0) + c
                        if v == 0: o.pop(m, None)
                        else: o[m] = v
                x._p = {m: q(c) for m, c in o.items()}
            else:
                r = {(): 1}
                for a in sorted(x.args, key=lambda y: len(y._p)): r = pmul(r, a._p)
                x._p = r
            stack.pop(); continue
        if x.op == 'sum': x._p = sum_poly(x); stack.pop(); continue
        x._p = atom_poly(canon_atom(x)); stack.pop()
    return t._p

def canon_atom(t):
    """canonicalise arguments of real-valued atoms (inv, sqrt)"""
    if t.op in ('inv', 'sqrt'):
        a = from_poly(poly(t.args[0]), 'R')
        if a is not t.args[0]:
            return mk(t.op, (a,), 'R')
    return t

def sum_poly(t):
    k, body, n = t.args
    p = poly(body)
    out = {}
    for m, c in p.items():
        outer = []; inner = []
        for (a, e) in m:
            (inner if k in ATOM[a].fv else outer).append((a, e))
        if not inner:
            nn = toreal(n) if t.sort == 'R' else n
            at = poly(nn)   # constant body: n * c  (n >= 0 is an obligation of the maker)
        else:
            bt = from_poly({tuple(inner): 1}, t.sort)
            at = atom_poly(mk('sum', (k, bt, n), t.sort) if k.args[0] <= bt.depth else mksum(k, bt, n))     # bound variables numbered by depth
        out = padd(out, pmul({tuple(outer): c}, at))
    return out

def mono_term(m, sort):
    if not m: return num(1, sort)
    fs = []
    for a, e in m:
        fs.extend([ATOM[a]] * e)
    if len(fs) == 1: return fs[0]
    return mk('*', tuple(fs), sort)
def from_poly(p, sort):
    if not p: return num(0, sort)
    items = sorted(p.items())
    r = []
    for m, c in items:
        if m == (): r.append(mk('num', (q(c),), sort)); continue
        mt = mono_term(m, sort)
        if c == 1: r.append(mt)
        else:
            fs = (mk('num', (q(c),), sort),) + (mt.args if mt.op == '*' else (mt,))
            r.append(mk('*', fs, sort))
    if len(r) == 1: return r[0]
    t = mk('+', tuple(r), sort)
    t._p = p if t._p is None else t._p
    return t

# ------------------------------------------------------------------ printing
def show(t, d=0):
    if d > 12: return '..'
    o = t.op
    if o == 'num': return str(t.args[0])
    if o in ('var',): return str(t.args[0])
    if o == 'bv': return '#%d' % t.args[0]
    if o in ('true', 'false'): return o
    if o == 'app': return '%s(%s)' % (t.args[0], ','.join(show(a, d + 1) for a in t.args[1:]))
    if o in ('+', '*', '<', '<=', '=', 'and', 'or'):
        s = (' %s ' % o).join(show(a, d + 1) for a in t.args[:40]) + (' ...' if len(t.args) > 40 else '')
        return '(' + s + ')'
    return '%s(%s)' % (o, ','.join(show(a, d + 1) if isinstance(a, T) else str(a) for a in t.args))

# ----------------------------------------------------------- numeric evaluation
class EvalError(Exception): pass
def evaluate(t, env, uf, memo=None):
    """float/Fraction evaluation. env: dict term->value; uf(name,args,sort)->value"""
    if memo is None: memo = {}
    def ev(x):
        r = memo.get(x)
        if r is not None: return r
        o = x.op; a = x.args
        if x in env: r = env[x]
        elif o == 'num': r = a[0]
        elif o == 'true': r = True
        elif o == 'false': r = False
        elif o == '+':
            r = 0
            for y in a: r = r + ev(y)
        elif o == '*':
            r = 1
            for y in a: r = r * ev(y)
        elif o == 'inv':
            d = ev(a[0])
            if d == 0: raise EvalError('div0')
            r = Fraction(1) / d if isinstance(d, (int, Fraction)) else 1 / d
        elif o == 'sqrt':
            d = ev(a[0])
            if d < 0: raise EvalError('sqrt')
            r = math.sqrt(d)
        elif o == 'toreal': r = ev(a[0])
        elif o == 'ite': r = ev(a[1]) if ev(a[0]) else ev(a[2])
        elif o == 'not': r = not ev(a[0])
        elif o == 'and': r = all(ev(y) for y in a)
        elif o == 'or': r = any(ev(y) for y in a)
        elif o == '<': r = ev(a[0]) < ev(a[1])
        elif o == '<=': r = ev(a[0]) <= ev(a[1])
        elif o == '=':
            x0, x1 = ev(a[0]), ev(a[1])
            if isinstance(x0, float) or isinstance(x1, float):
                r = abs(x0 - x1) <= 1e-9 * (1 + abs(x0) + abs(x1))
            else: r = x0 == x1
        elif o == 'sum':
            n = ev(a[2]); r = 0
            if n > 64: raise EvalError('sum')
            for i in range(int(n)):
                r = r + evaluate(a[1], {**env, a[0]: i}, uf)
        elif o in ('app', 'var'):
            r = uf(x, [ev(y) for y in a[1:]] if o == 'app' else [])
        else: raise EvalError(o)
        memo[x] = r
        return r
    import sys
    if sys.getrecursionlimit() < 20000: sys.setrecursionlimit(20000)
    return ev(t)
