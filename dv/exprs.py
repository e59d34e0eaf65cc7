"""Expression evaluation (methods of Interp)."""
from fractions import Fraction
from . import terms as tm
from .terms import T, I, R, B, TRUE, FALSE, add, sub, mul, div, neg, eq, ne, lt, le, and_, or_, not_, ite, toreal, app, var, fresh, isnum, nv, mksum, cabs, powi
from .values import *
from . import values as V

__all__ = ['ev', 'evx', 'cond', 'lv', 'lvx', 'mkview', 'abstract_call', 'fncall', 'mcall', 'opcall', 'ctor', 'eig_method', 'vec_method',
           'stdcall', 'bounds', 'scalar', 'comma_items', 'eig_solver', 'deref', 'aref', 'to_mat', 'smat_dim', 'prod', 'assign', 'binop', 'struct_at', 'as_int', 'e_value', 'cplx', 'expose', 'lam_call']

def ev(s, e):
    r = s.evx(e)
    if r is None: return None
    return s.read(r[1]) if r[0] == 'lv' else r[1]
def lv(s, e):
    r = s.evx(e)
    if r is None or r[0] != 'lv': raise Unsupported('lvalue expected (line %s, %s)' % (e.get('ln'), e.get('k')))
    return r[1]
def lvx(s, e):
    r = s.evx(e)
    return r[1] if r[0] == 'lv' else s.alloc(r[1])
def scalar(s, v):
    if isinstance(v, Mat) and v.r == v.c == 1: return v.d[0]
    return v
def cond(s, e):
    v = s.scalar(s.ev(e))
    if isinstance(v, T):
        if v.sort == 'B': return v
        return ne(v, tm.num(0, v.sort))
    if isinstance(v, Ptr): return not_(v.isnull)
    raise Unsupported('condition value %r' % (v,))

def as_int(s, v):
    v = s.scalar(v)
    if not isinstance(v, T): raise Unsupported('index %r' % (v,))
    if v.sort == 'B': return ite(v, I(1), I(0))
    if v.sort == 'R':
        if isnum(v) and Fraction(nv(v)).denominator == 1: return I(nv(v))
        return app('trunc', (v,), 'I')
    return v

def evx(s, e):
    k = e['k']
    if k == 'cast':
        ck = e['ck']
        if ck in ('NoOp', 'LValueToRValue', 'UncheckedDerivedToBase', 'DerivedToBase', 'ConstructorConversion', 'ArrayToPointerDecay', 'FunctionToPointerDecay', 'UserDefinedConversion', 'BaseToDerived', 'BuiltinFnToFnPtr'):
            r = s.evx(e['e'])
            if ck == 'LValueToRValue' and r[0] == 'lv': return ('v', s.read(r[1]))
            return r
        if ck == 'ToVoid': s.evx(e['e']); return None
        v = s.scalar(s.ev(e['e']))
        if ck == 'IntegralCast': return ('v', ite(v, I(1), I(0)) if isinstance(v, T) and v.sort == 'B' else v)
        if ck == 'IntegralToFloating': return ('v', toreal(s.as_int(v)))
        if ck == 'FloatingCast': return ('v', v)
        if ck == 'FloatingToIntegral': return ('v', s.as_int(v))
        if ck in ('IntegralToBoolean', 'FloatingToBoolean'): return ('v', ne(v, tm.num(0, v.sort)) if v.sort != 'B' else v)
        if ck == 'PointerToBoolean': return ('v', not_(v.isnull))
        if ck == 'NullToPointer': return ('v', Ptr(None))
        if ck == 'BitCast': return ('v', v)
        raise Unsupported('cast ' + ck)
    if k == 'ref':
        dk = e['dk']
        if dk == 'enum': return ('v', I(int(e['v'])))
        if dk == 'func': return ('v', Fn(('func', e['fid'], e['q'])))
        fr = s.frames[-1]
        if e['id'] in fr.env: return ('lv', fr.env[e['id']])
        if 'cv' in e: return ('v', I(int(e['cv'])))
        if e.get('init'): return ('v', s.ev(e['init']))
        if e.get('q') in ('std::cout', 'std::cerr', 'stderr', 'stdout', 'std::clog'): return ('v', Opaque('stream'))
        if e.get('glob'):
            if e['q'] == 'std::ignore': return ('v', Opaque('ignore'))
            key = 'glob:' + e['q']
            if key not in s.st.ghost: s.st.ghost[key] = s.alloc(s.symval(e['dt'], e['q']))
            return ('lv', s.st.ghost[key])
        raise Unsupported('reference to ' + e.get('q', e.get('name', '?')))
    if k == 'int': return ('v', I(int(e['v'])))
    if k == 'flt':
        return ('v', R(Fraction(e['v'])))
    if k == 'bool': return ('v', B(e['v']))
    if k == 'str': return ('v', Opaque('str'))
    if k == 'null': return ('v', Ptr(None))
    if k == 'zero':
        t = noref(e['t'])
        return ('v', R(0) if t in FLTS else I(0) if t in INTS else FALSE if t == 'bool' else Ptr(None))
    if k == 'this': return ('v', Ptr(s.frames[-1].this))
    if k == 'mem':
        if e['mk'] != 'field': raise Unsupported('member ' + e['name'])
        b = s.evx(e['b'])
        if e['arrow']: base = s.deref(b)
        else: base = b[1] if b[0] == 'lv' else s.alloc(b[1])
        st = s.struct_at(base)
        v = st.f.get(e['name'])
        if v is None and e['name'] not in st.f:
            # Eigen LM parameters and the like
            if st.cls.startswith('#'):
                st.f[e['name']] = Opaque(e['name']) if not (noref(e['t']) in FLTS or noref(e['t']) in INTS) else s.symval(noref(e['t']), e['name'])
                v = st.f[e['name']]
            else: raise Unsupported('field %s of %s' % (e['name'], st.cls))
        if is_ref(e.get('ft', '')):
            return ('lv', v.lv)
        if isinstance(v, Struct) and v.cls == '#box' and False: pass
        return ('lv', (base[0], base[1] + (('f', e['name']),)))
    if k == 'idx':
        b = s.evx(e['b']); i = s.as_int(s.ev(e['i']))
        return ('lv', s.aref(b, i, e.get('ln')))
    if k == 'un':
        op = e['op']
        if op == '&':
            r = s.evx(e['e'])
            if r[0] != 'lv': raise Unsupported('address of temporary')
            return ('v', Ptr(r[1]))
        if op == '*':
            x = e['e']
            while x.get('k') == 'cast' and x.get('ck') in ('LValueToRValue', 'NoOp') or x.get('k') == 'paren': x = x['e']
            r = s.evx(x) if noref(e.get('t', '')).startswith('std::vector') else s.evx(e['e'])
            if r[0] == 'lv' and noref(e.get('t', '')).startswith('std::vector') and isinstance(s.read(r[1]), Vec): return r     # pointer element standing for its vector
            return ('lv', s.deref(r, True))
        if op in ('++', '--'):
            r = s.evx(e['e']); old = s.read(r[1])
            d = 1 if op == '++' else -1
            if isinstance(old, Iter): new = Iter(old.lv, add(old.i, I(d)))
            elif isinstance(old, Ptr):
                p = old.lv
                if p[1] and p[1][-1][0] == 'i': new = Ptr((p[0], p[1][:-1] + (('i', add(p[1][-1][1], I(d))),)))
                else: new = Ptr((p[0], p[1] + (('i', I(d)),)))
            else: new = add(old, tm.num(d, old.sort))
            s.write(r[1], new)
            return ('v', old) if e['post'] else r
        v = s.scalar(s.ev(e['e']))
        if op == '-': return ('v', mapneg(v))
        if op == '+': return ('v', v)
        if op == '!': return ('v', not_(v) if isinstance(v, T) and v.sort == 'B' else (v.isnull if isinstance(v, Ptr) else eq(v, tm.num(0, v.sort))))
        raise Unsupported('unary ' + op)
    if k == 'bin':
        op = e['op']
        if op == ',': s.evx(e['l']); return s.evx(e['r'])
        if op == '=':
            v = s.ev(e['r']); l = s.evx(e['l'])
            if l[0] != 'lv': raise Unsupported('assignment to temporary')
            t = noref(e['l'].get('t', ''))
            s.write(l[1], s.conv(t, v)); return l
        if op in ('&&', '||'):
            a = s.cond(e['l'])
            ka = s.known(a)
            if ka is not None:
                if ka == (op == '||'): return ('v', B(ka))
                return ('v', s.cond(e['r']))
            n0 = len(s.st.pc)
            s.st.pc.append(a if op == '&&' else not_(a))
            mark = s.st.pc[n0]
            bb = s.cond(e['r'])
            if len(s.st.pc) > n0 + 1:    # right operand forked: keep the guard too
                return ('v', and_(a, bb) if op == '&&' else or_(a, bb))
            s.st.pc.pop()
            return ('v', and_(a, bb) if op == '&&' else or_(a, bb))
        a = s.ev(e['l']); b = s.ev(e['r'])
        return ('v', s.binop(op, a, b, e))
    if k == 'cassign':
        b = s.ev(e['r']); l = s.evx(e['l']); a = s.read(l[1])
        if isinstance(a, Ptr): 
            b = s.as_int(b); b = b if e['op'] == '+' else neg(b)
            p = a.lv
            if p[1] and p[1][-1][0] == 'i': new = Ptr((p[0], p[1][:-1] + (('i', add(p[1][-1][1], b)),)))
            else: new = Ptr((p[0], p[1] + (('i', b),)))
            s.write(l[1], new); return l
        if isinstance(a, T) and isinstance(b, T) and a.sort != b.sort:
            v = s.binop(e['op'], toreal(a) if a.sort == 'I' else a, toreal(b) if b.sort == 'I' else b, e)
            if a.sort == 'I': v = s.as_int(v)
        else: v = s.binop(e['op'], a, b, e)
        s.write(l[1], v); return l
    if k == 'cond':
        if e['b'].get('k') == 'call' and e['b'].get('name') == '__assert_fail':
            c = s.cond(e['c']); s.oblige('assert', c, 'assertion', e.get('ln')); s.assume(c); return None
        c = s.cond(e['c'])
        kc = s.known(c)
        if kc is None and noref(e['t']) in FLTS | INTS | {'bool'}:
            st0 = s.st
            def th(x, cc):
                def f():
                    s.assume(cc); return s.scalar(s.ev(x))
                return f
            oa = s.explore(th(e['a'], c)); ob = s.explore(th(e['b'], not_(c)))
            if len(oa) == 1 and len(ob) == 1 and all(_pure(st0, o[0]) for o in (oa[0], ob[0])):
                return ('v', v_ite(c, oa[0][2], ob[0][2]))
        return s.evx(e['a']) if s.decide(c) else s.evx(e['b'])
    if k == 'call': return s.fncall(e)
    if k == 'mcall': return s.mcall(e)
    if k == 'opcall': return s.opcall(e)
    if k == 'ctor': return s.ctor(e)
    if k == 'new':
        at = e['at']
        i = e['init']
        if e.get('size'):
            n = s.as_int(s.ev(e['size']))
            nm = 'new!%d' % s.st.next
            return ('v', Ptr(s.alloc(Vec(at, ('fn', n, lambda i: s.symval(at, nm + '[]', (i,)))))))
        v = s.ev(i) if i else s.undef(at)
        return ('v', Ptr(s.alloc(v)))
    if k == 'delete': s.evx(e['e']); return None
    if k == 'ilist':
        t = noref(e['t']); vs = [s.ev(a) for a in e['args']]
        if len(vs) == 1 and not t.endswith(']'): return ('v', vs[0])
        return ('v', Vec('', ('c', vs)))
    if k == 'lambda':
        fr = s.frames[-1]
        env = {}
        for c in e['caps']:
            l = fr.env[c['id']]
            env[c['id']] = l if c['byref'] else s.alloc(s.read(l))
        return ('v', Fn(('lam', e, env, fr.this, fr.f)))
    raise Unsupported('expression %s line %s' % (e.get('what', k), e.get('ln')))

def _pure(a, b):
    for c, v in a.mem.items():
        if c in b.mem and not same(v, b.mem[c]): return False
    return True

def mapneg(v):
    if isinstance(v, Mat): return V.mat_map(s_neg, v)
    if isinstance(v, SMat): return SMat(v.r, v.c, ('fn', lambda i, j: s_neg(v.get(i, j))))
    if isinstance(v, T) and v.sort == 'B': v = ite(v, I(1), I(0))
    return s_neg(v)

def binop(s, op, a, b, e=None):
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if op in ('==', '!='):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.lv is None: r = b.isnull
                elif b.lv is None: r = a.isnull
                else: r = B(a.lv == b.lv)
                return r if op == '==' else not_(r)
        if op in ('+', '-') and isinstance(a, Ptr) and isinstance(b, T):
            d = s.as_int(b); d = d if op == '+' else neg(d)
            p = a.lv
            if p[1] and p[1][-1][0] == 'i': return Ptr((p[0], p[1][:-1] + (('i', add(p[1][-1][1], d)),)))
            return Ptr((p[0], p[1] + (('i', d),)))
        raise Unsupported('pointer operation ' + op)
    a = s.scalar(a); b = s.scalar(b)
    if isinstance(a, (Mat, SMat)) or isinstance(b, (Mat, SMat)): return s.prod(op, a, b)
    if isinstance(a, Vec) or isinstance(a, Opaque) or isinstance(b, Opaque): raise Unsupported('operator %s on %r' % (op, a))
    if isinstance(a, T) and a.sort == 'B' and op not in ('==', '!=', '&&', '||', '&', '|', '^'): a = ite(a, I(1), I(0))
    if isinstance(b, T) and b.sort == 'B' and op not in ('==', '!=', '&&', '||', '&', '|', '^'): b = ite(b, I(1), I(0))
    if isinstance(a, T) and isinstance(b, T) and a.sort != b.sort:
        if a.sort == 'B': a = ite(a, I(1), I(0))
        if b.sort == 'B': b = ite(b, I(1), I(0))
        if a.sort != b.sort: a, b = toreal(a), toreal(b)
    if isinstance(a, Cx) or isinstance(b, Cx):
        f = {'+': cadd, '-': csub, '*': cmulv, '/': cdivv}.get(op)
        if f is None:
            a = cx(a); b = cx(b); r = and_(eq(a.re, b.re), eq(a.im, b.im))
            return r if op == '==' else not_(r)
        return f(a, b)
    if op == '+': return add(a, b)
    if op == '-':
        r = sub(a, b)
        if e is not None and a.sort == 'I' and noref(e.get('t', '')) in UNS and s.cfg.get('wrap', True):
            s.oblige('nowrap', le(I(0), r), 'unsigned subtraction does not wrap', e.get('ln'))
        return r
    if op == '*': return mul(a, b)
    if op == '/':
        if a.sort == 'I':
            if isnum(a) and isnum(b) and nv(b): 
                x, y = nv(a), nv(b); q_ = abs(x) // abs(y); return I(q_ if (x < 0) == (y < 0) else -q_)
            s.oblige('div', ne(b, I(0)), 'integer divisor is non-zero', e and e.get('ln'))
            return app('idiv', (a, b), 'I')
        if not s.nodef: s.oblige('def', ne(b, R(0)), 'divisor is non-zero', e and e.get('ln'))
        return div(a, b)
    if op == '%':
        if isnum(a) and isnum(b) and nv(b):
            x, y = nv(a), nv(b); r = abs(x) % abs(y); return I(r if x >= 0 else -r)
        s.oblige('div', ne(b, I(0)), 'modulus is non-zero', e and e.get('ln'))
        return app('imod', (a, b), 'I')
    if op == '<': return lt(a, b)
    if op == '>': return lt(b, a)
    if op == '<=': return le(a, b)
    if op == '>=': return le(b, a)
    if op == '==': return eq(a, b)
    if op == '!=': return ne(a, b)
    if op in ('&', '|') and a.sort == 'B': return and_(a, b) if op == '&' else or_(a, b)
    if op in ('&', '|', '^', '<<', '>>') and isnum(a) and isnum(b):
        x, y = nv(a), nv(b)
        return I({'&': x & y, '|': x | y, '^': x ^ y, '<<': x << y, '>>': x >> y}[op])
    raise Unsupported('binary ' + op)

def smat_dim(v):
    return (I(v.r), I(v.c)) if isinstance(v, Mat) else (v.r, v.c)
def _g(v, i, j):
    if isinstance(v, Mat):
        return v[nv(i), nv(j)]
    return v.get(i, j)
def to_mat(v):
    """SMat with numeric dims -> Mat"""
    if isinstance(v, SMat) and isnum(v.r) and isnum(v.c):
        return V.mat_fn(nv(v.r), nv(v.c), lambda i, j: v.get(I(i), I(j)))
    return v
def sqnorm(v):
    if isinstance(v, SMat) and isnum(v.c):
        i = fresh('i', 'I'); return add(*[mksum(i, mul(v.get(i, I(j)), v.get(i, I(j))), v.r) for j in range(nv(v.c))])
    return V.mat_dot(v, v)
def prod(s, op, a, b):
    a = to_mat(a); b = to_mat(b)
    ma = isinstance(a, (Mat, SMat)); mb = isinstance(b, (Mat, SMat))
    if ma and mb:
        if op in ('+', '-'):
            f = s_add if op == '+' else s_sub
            if isinstance(a, Mat) and isinstance(b, Mat): return V.mat_map2(f, a, b)
            ra, ca = smat_dim(a)
            return SMat(ra, ca, ('fn', lambda i, j: f(_g(a, i, j), _g(b, i, j))))
        if op == '*':
            if isinstance(a, Mat) and isinstance(b, Mat): return V.mat_mul(a, b)
            ra, ca = smat_dim(a); rb, cb = smat_dim(b)
            k = fresh('k', 'I')
            def f(i, j):
                if isnum(ca):
                    r = None
                    for x in range(nv(ca)):
                        t = s_mul(_g(a, i, I(x)), _g(b, I(x), j)); r = t if r is None else s_add(r, t)
                    return r
                return mksum(k, s_mul(a.get(i, k), b.get(k, j)), ca)
            if isnum(ra) and isnum(cb): return V.mat_fn(nv(ra), nv(cb), lambda i, j: f(I(i), I(j)))
            return SMat(ra, cb, ('fn', f))
        if op in ('==', '!=') and isinstance(a, Mat) and isinstance(b, Mat) and (a.r, a.c) == (b.r, b.c) and all(isinstance(x, T) for x in a.d + b.d):
            c = and_(*[eq(toreal(x), toreal(y)) for x, y in zip(a.d, b.d)])
            return c if op == '==' else not_(c)
        raise Unsupported('matrix operator ' + op)
    if ma:
        b = toreal(b) if isinstance(b, T) else b
        f = {'*': s_mul, '/': s_div}.get(op)
        if f is None: raise Unsupported('matrix %s scalar' % op)
        if isinstance(a, Mat): return V.mat_map(lambda x: f(x, b), a)
        return SMat(a.r, a.c, ('fn', lambda i, j: f(a.get(i, j), b)))
    a = toreal(a) if isinstance(a, T) else a
    if op != '*': raise Unsupported('scalar %s matrix' % op)
    if isinstance(b, Mat): return V.mat_map(lambda x: s_mul(a, x), b)
    return SMat(b.r, b.c, ('fn', lambda i, j: s_mul(a, b.get(i, j))))

def struct_at(s, l):
    return s.read_struct(l)
def deref(s, r, star=False):
    """lvalue designated by a pointer-like result"""
    v = s.read(r[1]) if r[0] == 'lv' else r[1]
    if isinstance(v, Ptr):
        if v.lv is None:
            s.oblige('null', FALSE, 'null pointer dereference'); raise Infeasible_()
        if v.isnull is not FALSE: s.oblige('null', not_(v.isnull), 'pointer is not null')
        l = v.lv
        if star:
            t = s.st.mem[l[0]]
            try:
                cur = t
                for p in l[1]: cur = s.step(cur, p)
                if isinstance(cur, Vec) and r[0] == 'v' and False: pass
            except Exception: pass
        return l
    if isinstance(v, Iter): return (v.lv[0], v.lv[1] + (('i', v.i),))
    if isinstance(v, Struct) and v.cls == '#box':
        if r[0] != 'lv': return (s.alloc(v)[0], (('f', 'v'),))
        return (r[1][0], r[1][1] + (('f', 'v'),))
    if isinstance(v, Struct):   # -> on an object (already dereferenced)
        return r[1] if r[0] == 'lv' else s.alloc(v)
    if isinstance(v, Vec) and star and r[0] == 'lv': return (r[1][0], r[1][1] + (('i', I(0)),))
    raise Unsupported('dereference of %r' % (v,))
def Infeasible_():
    from .interp import Infeasible
    return Infeasible()

def bounds(s, i, n, what, ln):
    s.oblige('bounds', and_(le(I(0), i), lt(i, n)), what, ln)
    if not s.quiet: 
        c = and_(le(I(0), i), lt(i, n))
        if c is FALSE: raise Infeasible_()

def aref(s, b, i, ln):
    """b[i] for arrays/pointers/vectors"""
    if b[0] == 'lv':
        v = s.read(b[1]); l = b[1]
    else:
        v = b[1]; l = None
    if isinstance(v, Ptr):
        l = v.lv
        cur = s.read(l)
        if isinstance(cur, Vec) and not (l[1] and l[1][-1][0] == 'i' and not isinstance(cur, Vec)):
            s.bounds(i, cur.len, 'array index in range', ln)
            return (l[0], l[1] + (('i', i),))
        if l[1] and l[1][-1][0] == 'i':
            j = add(l[1][-1][1], i)
            base = s.read((l[0], l[1][:-1]))
            if isinstance(base, Vec): s.bounds(j, base.len, 'array index in range', ln)
            return (l[0], l[1][:-1] + (('i', j),))
        if isnum(i) and nv(i) == 0: return l
        raise Unsupported('pointer indexing')
    if isinstance(v, Vec):
        if l is None: l = s.alloc(v)
        s.bounds(i, v.len, 'index in range', ln)
        if v.kind[0] == 'filter':      # what a list of selected positions contains
            d = v.kind[3]
            if isnum(d['base'].len) and nv(d['base'].len) == 0:
                j = app('sel!%s' % d['id'], tuple(d['ctx']) + (d['n'], i), 'I')
                f = implies(and_(le(I(0), i), lt(i, v.len)), and_(le(I(0), j), lt(j, d['n']), d['c'](j)))
                if f is not TRUE and f not in s.st.pc: s.st.pc.append(f)
        return (l[0], l[1] + (('i', i),))
    if isinstance(v, Iter):
        return (v.lv[0], v.lv[1] + (('i', add(v.i, i)),))
    raise Unsupported('indexing of %r' % (v,))

# ------------------------------------------------------------------ calls
def lam_call(s, fn, vals):
    kind = fn.call
    if kind[0] == 'lam':
        from .interp import Frame, Ret
        _, e, env, this, f = kind
        fr = Frame({**f, 'ret': 'auto'}, this); fr.env = dict(env)
        for p, a in zip(e['params'], vals):
            if is_ref(p['t']) and a[0] == 'lv': fr.env[p['id']] = a[1]
            else: fr.env[p['id']] = s.alloc(s.conv(p['t'], s.rv(a)))
        s.frames.append(fr)
        try:
            try: s.exec(e['body']); return None
            except Ret as r: return r.v
        finally: s.frames.pop()
    if kind[0] == 'func':
        f = s.prog.fn.get(kind[1])
        if f: return s.call(f, None, vals)
    if kind[0] == 'py': return kind[1](s, vals)
    raise Unsupported('call of function value')

def expose(s, v):
    """scalar terms of a value (arguments of an abstract function)"""
    if isinstance(v, T): return [v]
    if isinstance(v, Cx): return [v.re, v.im]
    if isinstance(v, Mat): return [y for x in v.d for y in s.expose(x)]
    if isinstance(v, Struct): return [y for x in v.f.values() for y in s.expose(x)]
    raise Unsupported('abstract argument %r' % (v,))

def abstract_call(s, st, name, e, args):
    ts = []
    for a in args:
        v = s.rv(a)
        ts += s.expose(v)
    nm = (st.meta or {}).get('name', 'obj') + '.' + name
    idx = tuple((st.meta or {}).get('idx', ())) + tuple(ts)
    h = s.cfg.get('abstract')
    if h:
        r = h(s, st, name, e, args, ts)
        if r is not None: return r
    t = e['t'] if e['t'] else 'void'
    if t == 'void': return None
    s.trusted.add('abstract:' + name)
    return ('v', s.symval(t, nm, idx))

def fncall(s, e):
    if 'q' not in e:
        f = s.ev(e['callee'])
        if isinstance(f, Fn): return s.lam_call(f, [s.arg_ref(a) for a in e['args']])
        raise Unsupported('indirect call')
    qn = e['q']; fid = e['fid']
    c = s.contracts.get(fid) or s.contracts.get(qn)
    f = s.prog.fn.get(fid)
    if c is not None:
        args = s.args(f, e['args']) if f else [s.arg_ref(a) for a in e['args']]
        s.called.add(fid); s.callexpr = e
        return c(s, f, None, args)
    if f is not None:
        return s.call(f, None, s.args(f, e['args']))
    return s.stdcall(e, qn)

def mcall(s, e):
    if 'fid' not in e: raise Unsupported('member pointer call')
    cls = e['cls']; name = e['name']; fid = e['fid']
    if cls.startswith('Eigen::'): return s.eig_method(e, cls, name)
    if cls.startswith('std::'): return s.vec_method(e, cls, name)
    o = s.evx(e['obj'])
    base = s.deref(o) if e['arrow'] else (o[1] if o[0] == 'lv' else s.alloc(o[1]))
    st = s.struct_at(base)
    f = s.prog.fn.get(fid)
    if e['virt']:
        if s.virtual_hook:
            r = s.virtual_hook(s, base, st, e, f)
            if r is not NotImplemented: return r
        f = s.prog.resolve(st.cls, fid)
    c = s.contracts.get(f['fid'] if f else fid) or s.contracts.get(f['q'] if f else e['q'])
    if c is None and f is None: c = s.contracts.get(e['q'])
    if c is not None:
        s.called.add(fid)
        args = s.args(f, e['args']) if f else [s.arg_ref(a) for a in e['args']]
        s.callexpr = e
        return c(s, f, base, args)
    if f is not None: return s.call(f, base, s.args(f, e['args']))
    return s.abstract_call(st, name, e, [s.arg_ref(a) for a in e['args']])

def ctor(s, e):
    cls = e['cls']; a = e['args']
    if cls.startswith('Eigen::'):
        if cls.startswith('Eigen::Matrix<'):
            st, r, c = V.mat_dims(cls)
            if not a:
                return ('v', s.undef(cls))
            if len(a) == 1:
                v = s.ev(a[0])
                v = to_mat(v)
                if isinstance(v, Mat): return ('v', s.conv(cls, v))
                if isinstance(v, SMat): return ('v', v)
                if isinstance(v, T) and (r == -1 or c == -1):
                    n = s.as_int(v)
                    if isnum(n):
                        return ('v', _undef(s, 'Eigen::Matrix<double, %d, %d, 0, 0, 0>' % ((nv(n), 1) if c == 1 else (1, nv(n)))))
                    nm, ix = s.newname('undef!')
                    return ('v', SMat(n if r == -1 else I(r), n if c == -1 and r != -1 else I(c), ('fn', lambda i, j: app(nm, ix + (i, j), 'R'))))
                if isinstance(v, (Cx, T)) and r == c == 1: return ('v', Mat(1, 1, [v]))
                raise Unsupported('matrix constructor from %r' % (v,))
            if len(a) == 2 and (r == -1 or c == -1):
                x = s.as_int(s.ev(a[0])); y = s.as_int(s.ev(a[1]))
                if isnum(x) and isnum(y): return ('v', _undef(s, 'Eigen::Matrix<%s, %d, %d, 0, 0, 0>' % (st, nv(x), nv(y))))
                nm, ix = s.newname('undef!')
                return ('v', SMat(x, y, ('fn', lambda i, j: app(nm, ix + (i, j), 'R'))))
            if len(a) in (2, 3, 4):
                return ('v', Mat(r, c, [toreal(s.scalar(s.ev(x))) if True else None for x in a]))
        return s.eig_solver(e, cls, a)
    if cls.startswith('std::complex'):
        if len(a) == 1:
            return ('v', cx(s.scalar(s.ev(a[0]))))
        x, y = [toreal(s.scalar(s.ev(t))) for t in a]
        if s.cfg.get('cring'): return ('v', Cx(add(x, mul(s.cfg['cring'], y)), R(0)))
        return ('v', Cx(x, y))
    if cls.startswith('std::vector<') or cls.startswith('std::__cxx11::list<'):
        et = V.targs(cls)[0]
        if not a: return ('v', Vec(et, ('c', [])))
        if len(a) >= 1:
            v = s.ev(a[0])
            if isinstance(v, Vec): return ('v', v)
            if isinstance(v, T):
                n = s.as_int(v)
                fill = s.ev(a[1]) if len(a) > 1 and not (a[1].get('cls', '').startswith('std::allocator') or a[1].get('t', '').startswith('std::allocator')) else None
                return ('v', _mkvec(s, et, n, fill))
            if isinstance(v, Iter) and len(a) >= 2:
                w = s.ev(a[1])
                if isinstance(w, Iter) and w.lv == v.lv:
                    src = s.read(v.lv)
                    n = sub(w.i, v.i)
                    if isnum(n) and isnum(v.i): return ('v', Vec(et, ('c', [src.get(I(nv(v.i) + j)) for j in range(nv(n))])))
                    return ('v', Vec(et, ('fn', n, lambda i: src.get(add(v.i, i)))))
        raise Unsupported('vector constructor')
    if cls.startswith('std::shared_ptr<'):
        if not a: return ('v', Ptr(None))
        v = s.ev(a[0])
        if isinstance(v, Ptr) or isinstance(v, Struct): return ('v', v)
        raise Unsupported('shared_ptr constructor')
    if cls.startswith('__gnu_cxx::__normal_iterator') or cls.startswith('std::_List'):
        return ('v', s.ev(a[0])) if a else ('v', Opaque('iter'))
    if cls.startswith('std::'):
        return ('v', s.ev(a[0])) if len(a) == 1 and e.get('copy') else ('v', Opaque(cls))
    if e.get('copy'):
        f = s.prog.fn.get(e['fid'])
        if f is None or f.get('implicit'): return ('v', s.ev(a[0]))
    if cls in s.st.ghost.get('#ctor', {}): pass
    f = s.prog.fn.get(e['fid'])
    c = s.contracts.get(e['fid']) or (s.contracts.get(f['q']) if f and not e.get('copy') else None)
    if c: return c(s, f, None, [s.arg_ref(x) for x in a])
    if f is None:
        if not a: return ('v', s.blank(cls))
        raise Unsupported('constructor of ' + cls)
    return ('v', s.construct(cls, f, a))

def _undef(s, t):
    nm, ix = s.newname('undef!')
    return s.symval(t, nm, ix)
def _mkvec(s, et, n, fill=None):
    if fill is None:
        fill = R(0) if et in FLTS else I(0) if et in INTS else FALSE if et == 'bool' else None
    if isnum(n) and nv(n) <= 5000:
        return Vec(et, ('c', [copyv(fill) if fill is not None else s.undef(et) for _ in range(nv(n))]))
    if fill is None: fill = s.undef(et)
    return Vec(et, ('fn', n, lambda i: copyv(fill)))

def lib_pow(s, x, e):
    """x^e for a rational e > 0: powers of the root"""
    if e.denominator == 1 and e <= 64: return ('v', powi(x, int(e)))
    if e.denominator == 2 and e < 64: return ('v', powi(tm.sqrt(x), e.numerator))
    s.trusted.add('pow')
    if e.denominator < 64 and e < 64: return ('v', powi(app('pow', (x, R(Fraction(1, e.denominator))), 'R'), e.numerator))
    return ('v', app('pow', (x, R(e)), 'R'))

def eig_solver(s, e, cls, a):
    base = cls.split('<')[0]
    if base in ('Eigen::JacobiSVD', 'Eigen::EigenSolver', 'Eigen::SelfAdjointEigenSolver', 'Eigen::FullPivLU', 'Eigen::PartialPivLU'):
        A = to_mat(s.ev(a[0]))
        s.trusted.add(base)
        h = s.cfg.get('decomp')
        if h:
            r = h(s, base, A, a)
            if r is not None: return ('v', r)
        nm, ix = s.newname(base.split('::')[1])
        def SV(t, x): return s.symval(t, x, ix)
        f = {'A': A}
        R_, C_ = smat_dim(A)
        if base == 'Eigen::JacobiSVD':
            if isinstance(A, Mat):
                f['U'] = SV('Eigen::Matrix<double, %d, %d, 0,0,0>' % (A.r, A.r), nm + '.U'); f['S'] = SV('Eigen::Matrix<double, %d, 1,0,0,0>' % min(A.r, A.c), nm + '.S')
                f['V'] = SV('Eigen::Matrix<double, %d, %d,0,0,0>' % (A.c, A.c), nm + '.V')
            else:
                f['U'] = SMat(R_, R_, ('fn', lambda i, j: app(nm + '.U', ix + (i, j), 'R')))
                if isnum(C_):
                    f['V'] = SV('Eigen::Matrix<double, %d, %d,0,0,0>' % (nv(C_), nv(C_)), nm + '.V')
                    f['S'] = SV('Eigen::Matrix<double, %d, 1,0,0,0>' % nv(C_), nm + '.S')
        elif base == 'Eigen::EigenSolver':
            if not isinstance(A, Mat): raise Unsupported('EigenSolver of symbolic size')
            f['D'] = SV('Eigen::Matrix<std::complex<double>, %d, 1,0,0,0>' % A.r, nm + '.D')
            f['V'] = SV('Eigen::Matrix<std::complex<double>, %d, %d,0,0,0>' % (A.r, A.r), nm + '.V')
        elif base == 'Eigen::SelfAdjointEigenSolver':
            if not isinstance(A, Mat): raise Unsupported('SelfAdjointEigenSolver of symbolic size')
            f['D'] = SV('Eigen::Matrix<double, %d, 1,0,0,0>' % A.r, nm + '.D')
            f['V'] = SV('Eigen::Matrix<double, %d, %d,0,0,0>' % (A.r, A.r), nm + '.V')
        else:
            if isinstance(A, Mat): f['X'] = SV('Eigen::Matrix<double, %d, %d, 0,0,0>' % (A.r, A.r), nm + '.X')
        st = Struct('#' + base, f, {'name': nm})
        s.st.facts.append((base.split('::')[1], nm, f))
        return ('v', st)
    if base in ('Eigen::NumericalDiff', 'Eigen::LevenbergMarquardt'):
        r = s.evx(a[0])
        l = r[1] if r[0] == 'lv' else s.alloc(r[1])
        return ('v', Struct('#' + base, {'fun': Ptr(l), 'parameters': Struct('#params', {})}, {'name': base}))
    if base in ('Eigen::CommaInitializer',): return ('v', s.ev(a[0]))
    raise Unsupported('Eigen class ' + cls)

def mkview(s, base, r, c, pos):
    """lvalue of a sub-matrix of base; pos(i,j)->(i',j') relative to base"""
    if base[1] and base[1][-1][0] == 'm':
        m = base[1][-1]
        ps = []
        for i in range(r):
            for j in range(c):
                a, b = pos(i, j)
                a = nv(a) if isinstance(a, T) else a; b = nv(b) if isinstance(b, T) else b
                ps.append(m[3][a * m[2] + b])
        return (base[0], base[1][:-1] + (('m', r, c, tuple(ps)),))
    return (base[0], base[1] + (('m', r, c, tuple(pos(i, j) for i in range(r) for j in range(c))),))

def _idx(x): return nv(x) if isnum(x) else x
def _plus(x, i): return x + i if isinstance(x, int) else add(x, I(i))

def eig_method(s, e, cls, name):
    a = e['args']
    if cls.split('<')[0] in ('Eigen::LevenbergMarquardt',):
        o = s.lvx(e['obj'])
        if name == 'resetParameters': return None
        if name == 'minimize':
            x = s.lvx(a[0])
            h = s.cfg.get('lm')
            st = s.struct_at(o)
            if h: h(s, st, x)
            else:
                v = to_mat(s.read(x))
                nm, ix = s.newname('lm')
                s.trusted.add('Eigen::LevenbergMarquardt')
                new = s.symval('Eigen::Matrix<double, %d, %d,0,0,0>' % (v.r, v.c), nm + '.x', ix)
                s.st.facts.append(('lm', st.f['fun'], v, new))
                s.write(x, new)
            return ('v', I(0))
    ob = e['obj']
    o = s.evx(ob)
    if o is None: raise Unsupported('method on void')
    if o[0] == 'v' and isinstance(o[1], Ptr): o = ('lv', o[1].lv)
    v = s.read(o[1]) if o[0] == 'lv' else o[1]
    if isinstance(v, SMat):
        v2 = to_mat(v)
        if v2 is not v:
            v = v2
    if isinstance(v, Struct) and v.cls.startswith('#Eigen'):
        k = {'matrixU': 'U', 'matrixV': 'V', 'singularValues': 'S', 'eigenvalues': 'D', 'eigenvectors': 'V', 'inverse': 'X'}.get(name)
        if k and k in v.f: return ('v', copyv(v.f[k]))
        if name == 'solve':
            b = to_mat(s.ev(a[0]))
            h = s.cfg.get('solve')
            if h:
                r = h(s, v, b)
                if r is not None: return ('v', r)
            A = v.f['A']
            nm, ix = s.newname('solve')
            x = s.symval('Eigen::Matrix<double, %d, %d,0,0,0>' % (A.c if isinstance(A, Mat) else nv(A.c), b.c if isinstance(b, Mat) else nv(b.c)), nm, ix)
            s.st.facts.append(('solve', v.meta['name'], A, x, b))
            return ('v', x)
        raise Unsupported('%s.%s' % (v.cls, name))
    if isinstance(v, T) or isinstance(v, Cx): v = Mat(1, 1, [v])
    if not isinstance(v, (Mat, SMat)): raise Unsupported('Eigen method %s on %r' % (name, v))
    nr, nc = smat_dim(v)
    if name in ('block', 'col', 'row'):
        if name == 'block':
            if len(a) == 4:
                i0, j0, r, c = [s.as_int(s.ev(x)) for x in a]
                if not (isnum(r) and isnum(c)): raise Unsupported('block of symbolic size')
                r, c = nv(r), nv(c)
            else:
                ta = e['targs'].split(','); r, c = int(ta[0]), int(ta[1])
                i0, j0 = [s.as_int(s.ev(x)) for x in a[:2]]
        elif name == 'col':
            i0 = I(0); j0 = s.as_int(s.ev(a[0])); c = 1
            if not isnum(nr):
                if o[0] == 'lv' or True: return ('v', SMat(nr, I(1), ('fn', lambda i, j: v.get(i, j0))))
            r = nv(nr)
        else:
            i0 = s.as_int(s.ev(a[0])); j0 = I(0); r = 1
            if not isnum(nc): return ('v', SMat(I(1), nc, ('fn', lambda i, j: v.get(i0, j))))
            c = nv(nc)
        s.oblige('bounds', and_(le(I(0), i0), le(add(i0, I(r)), nr), le(I(0), j0), le(add(j0, I(c)), nc)), 'matrix block in range', e.get('ln'))
        i0 = _idx(i0); j0 = _idx(j0)
        if o[0] == 'lv': return ('lv', s.mkview(o[1], r, c, lambda i, j: (_plus(i0, i), _plus(j0, j))))
        return ('v', V.mat_fn(r, c, lambda i, j: s.mat_get(v, _plus(i0, i), _plus(j0, j))))
    if name == 'transpose':
        if isinstance(v, SMat): return ('v', SMat(v.c, v.r, ('fn', lambda i, j: v.get(j, i))))
        if o[0] == 'lv': return ('lv', s.mkview(o[1], v.c, v.r, lambda i, j: (j, i)))
        return ('v', V.mat_T(v))
    if name == 'transposeInPlace':
        s.write(o[1], V.mat_T(v)); return None
    if name == 'setZero':
        s.write(o[1], V.zeros(v.r, v.c)); return o
    if name == 'size': return ('v', mul(nr, nc))
    if name == 'rows': return ('v', nr)
    if name == 'cols': return ('v', nc)
    if name == 'operator const double' or name.startswith('operator'): return ('v', s.scalar(v))
    if name == 'cross':
        b = to_mat(s.ev(a[0])); return ('v', V.mat_cross(v, b))
    if name == 'dot':
        b = to_mat(s.ev(a[0])); return ('v', V.mat_dot(v, b))
    if name == 'norm':
        x = sqnorm(v)
        try: return ('v', tm.sqrt(tm.from_poly(tm.poly(x), 'R') if len(tm.poly(x)) < 400 else x))
        except tm.TooBig: return ('v', tm.sqrt(x))
    if name == 'squaredNorm': return ('v', sqnorm(v))
    if name in ('normalized', 'normalize'):
        n = tm.sqrt(V.mat_dot(v, v)); w = V.mat_map(lambda x: div(x, n), v)
        if name == 'normalize': s.write(o[1], w); return None
        return ('v', w)
    if name == 'determinant': return ('v', V.mat_det(v))
    if name == 'trace':
        r = v[0, 0]
        for i in range(1, v.r): r = s_add(r, v[i, i])
        return ('v', r)
    if name == 'sum':
        r = v.d[0]
        for x in v.d[1:]: r = s_add(r, x)
        return ('v', r)
    if name == 'inverse':
        h = s.cfg.get('inverse')
        if h:
            r = h(s, v)
            if r is not None: return ('v', r)
        if v.r <= 4: return ('v', V.mat_inv(v))
        nm, ix = s.newname('matinv')
        X = s.symval('Eigen::Matrix<double, %d, %d, 0,0,0>' % (v.r, v.r), nm, ix)
        s.st.facts.append(('inverse', nm, {'A': v, 'X': X}))
        return ('v', X)
    if name == 'eval' or name == 'noalias' or name == 'derived': return o
    if name == 'data': raise Unsupported('raw matrix data')
    if name in ('x', 'y', 'z', 'w'):
        i = 'xyzw'.index(name); return ('lv', (o[1][0], o[1][1] + (('e', i, 0),))) if o[0] == 'lv' else ('v', v.d[i])
    if name == 'coeff': return ('v', s.mat_get(v, _idx(s.as_int(s.ev(a[0]))), _idx(s.as_int(s.ev(a[1]))) if len(a) > 1 else 0))
    if name in ('head', 'tail', 'segment', 'topRows', 'leftCols', 'leftRows'):
        raise Unsupported('Eigen method ' + name)
    raise Unsupported('Eigen method ' + name)

def comma_items(s, e):
    if e['k'] == 'opcall' and e['op'] == ',':
        b, xs = s.comma_items(e['args'][0]); return b, xs + [e['args'][1]]
    if e['k'] == 'opcall' and e['op'] == '<<':
        return e['args'][0], [e['args'][1]]
    if e['k'] == 'cast': return s.comma_items(e['e'])
    raise Unsupported('comma initialiser')

def assign(s, l, v, cls=''):
    old = None
    v = to_mat(v)
    if isinstance(v, Mat) and not (l[1] and l[1][-1][0] == 'm'):
        cur = s.read(l)
        if isinstance(cur, SMat):
            s.write_raw(l, v) if hasattr(s, 'write_raw') else s.write(l, v)
            return
        if isinstance(cur, Mat) and cls.startswith('Eigen::Matrix<'):
            v = s.conv(cls, v)
    s.write(l, v)

def opcall(s, e):
    op = e['op']; a = e['args']; cls = e.get('cls', '')
    qn = e.get('q', '')
    fid = e.get('fid')
    if fid in s.prog.fn and not cls.startswith('Eigen') and not cls.startswith('std'):
        f = s.prog.fn[fid]
        c = s.contracts.get(fid) or s.contracts.get(f['q'])
        if e.get('member'):
            o = s.lvx(a[0]); rest = a[1:]
            st = s.struct_at(o)
            g = s.prog.resolve(st.cls, fid) if f.get('virt') else f
            args = s.args(g or f, rest)
            return c(s, f, o, args) if c else s.call(g or f, o, args)
        args = s.args(f, a)
        return c(s, f, None, args) if c else s.call(f, None, args)
    # streams
    if op == '<<' and (qn.startswith('std::operator<<') or cls.startswith('std::basic_ostream') or qn == 'Eigen::operator<<'):
        return ('v', Opaque('stream'))
    if op == ',' or (op == '<<' and cls.startswith('Eigen::DenseBase')):
        b, xs = s.comma_items(e)
        base = s.lvx(b); m = to_mat(s.read(base))
        if not isinstance(m, Mat): raise Unsupported('comma initialiser on symbolic matrix')
        vals = [s.ev(x) for x in xs]
        r0 = c0 = 0; rowh = 1; new = m.copy()
        for v in vals:
            v = to_mat(v)
            if not isinstance(v, Mat): v = Mat(1, 1, [toreal(v) if isinstance(v, T) else v])
            if c0 >= m.c: r0 += rowh; c0 = 0; rowh = v.r
            if c0 == 0: rowh = v.r
            for i in range(v.r):
                for j in range(v.c):
                    if r0 + i >= m.r or c0 + j >= m.c: raise OutOfBounds('comma initialiser overflow')
                    new.d[(r0 + i) * m.c + c0 + j] = v[i, j]
            c0 += v.c
        if not (r0 + rowh >= m.r and c0 >= m.c): raise OutOfBounds('comma initialiser incomplete')
        s.write(base, new); return ('lv', base)
    if op == '=':
        if cls.startswith('Eigen'):
            v = s.ev(a[1]); l = s.lvx(a[0])
            v = copyv(v)
            s.assign(l, v, cls); return ('lv', l)
        v = s.ev(a[1]); l = s.lv(a[0])
        if cls.startswith('std::complex'): v = cx(s.scalar(v))
        s.write(l, copyv(v)); return ('lv', l)
    if op in ('()', '[]'):
        o = s.evx(a[0])
        v = s.read(o[1]) if o[0] == 'lv' else o[1]
        if isinstance(v, Fn): return s.lam_call(v, [s.arg_ref(x) for x in a[1:]])
        if isinstance(v, Opaque):
            h = s.cfg.get('opaque_call')
            if h: return h(s, v, e)
            raise Unsupported('call of ' + v.what)
        if isinstance(v, (Vec, Iter)) or (isinstance(v, Ptr)):
            return ('lv', s.aref(o, s.as_int(s.ev(a[1])), e.get('ln')))
        if isinstance(v, (Mat, SMat)):
            ii = [s.as_int(s.ev(x)) for x in a[1:]]
            nr, nc = smat_dim(v)
            if len(ii) == 1:
                if isinstance(v, SMat) and not isnum(v.r) and isnum(v.c) and nv(v.c) == 1: i, j = ii[0], I(0)
                elif isnum(nc) and nv(nc) == 1: i, j = ii[0], I(0)
                elif isnum(nr) and nv(nr) == 1: i, j = I(0), ii[0]
                else: raise Unsupported('linear index into matrix')
            else: i, j = ii
            s.oblige('bounds', and_(le(I(0), i), lt(i, nr), le(I(0), j), lt(j, nc)), 'matrix index in range', e.get('ln'))
            i = _idx(i); j = _idx(j)
            if o[0] == 'lv':
                l = o[1]
                if l[1] and l[1][-1][0] == 'm':
                    m = l[1][-1]
                    if isinstance(i, int) and isinstance(j, int):
                        if not (0 <= i < m[1] and 0 <= j < m[2]): raise OutOfBounds('block entry')
                        p = m[3][i * m[2] + j]
                        return ('lv', (l[0], l[1][:-1] + (('e', p[0], p[1]),)))
                    return ('v', s.mat_get(v, i, j))
                return ('lv', (l[0], l[1] + (('e', i, j),)))
            return ('v', s.mat_get(v, i, j))
        raise Unsupported('operator%s on %r' % (op, v))
    if op == '->' or (op == '*' and len(a) == 1):
        o = s.evx(a[0])
        l = s.deref(o, op == '*')
        if op == '*': return ('lv', l)
        return ('v', Ptr(l))
    if op in ('+=', '-=', '*=', '/='):
        b = s.ev(a[1]); l = s.lvx(a[0]); v = s.read(l)
        if isinstance(v, Iter): s.write(l, Iter(v.lv, add(v.i, s.as_int(b)) if op == '+=' else sub(v.i, s.as_int(b)))); return ('lv', l)
        r = s.binop(op[0], v, b, None)
        s.assign(l, r); return ('lv', l)
    if op in ('++', '--'):
        o = s.evx(a[0]); v = s.read(o[1])
        d = I(1 if op == '++' else -1)
        if isinstance(v, Iter):
            s.write(o[1], Iter(v.lv, add(v.i, d)))
            return ('v', v) if len(a) == 2 else o
        raise Unsupported('operator' + op)
    if op == '!' or op == '~': raise Unsupported('operator' + op)
    vals = [s.ev(x) for x in a]
    if len(vals) == 1:
        if op == '-': return ('v', mapneg(vals[0]))
        return ('v', vals[0])
    x, y = vals
    if isinstance(x, Iter) or isinstance(y, Iter):
        if isinstance(x, Iter) and isinstance(y, Iter):
            if op == '-': return ('v', sub(x.i, y.i))
            f = {'==': eq, '!=': ne, '<': lt, '<=': le, '>': lambda p, q_: lt(q_, p), '>=': lambda p, q_: le(q_, p)}[op]
            return ('v', f(x.i, y.i))
        if isinstance(y, T): return ('v', Iter(x.lv, add(x.i, y) if op == '+' else sub(x.i, y)))
    if isinstance(x, Fn) or isinstance(y, Fn): raise Unsupported('function operator')
    return ('v', s.binop(op, x, y, e if not cls.startswith('Eigen') else None))

def vec_method(s, e, cls, name):
    a = e['args']; base = cls.split('<')[0]
    if base == 'std::complex':
        v = cx(s.ev(e['obj']))
        if s.cfg.get('cring'): return ('v', cpart(s, name, v.re))
        return ('v', v.re if name == 'real' else v.im)
    o = s.evx(e['obj'])
    if e['arrow'] and not isinstance(s.read(o[1]) if o[0] == 'lv' else o[1], Vec): o = ('lv', s.deref(o))
    if 'shared_ptr' in base:
        if name == 'reset':
            if a:
                v = s.ev(a[0]); s.write(o[1], v if isinstance(v, Ptr) else Ptr(s.alloc(v)))
            else: s.write(o[1], Ptr(None))
            return None
        if name == 'get':
            v = s.read(o[1]) if o[0] == 'lv' else o[1]
            return ('v', v if isinstance(v, Ptr) else Ptr((o[1][0], o[1][1] + (('f', 'v'),))))
        raise Unsupported('shared_ptr::' + name)
    if base == 'std::mersenne_twister_engine': return None
    v = s.read(o[1]) if o[0] == 'lv' else o[1]
    if isinstance(v, Ptr): o = ('lv', v.lv); v = s.read(v.lv)
    if isinstance(v, Struct) and v.cls == '#box':
        o = ('lv', (o[1][0], o[1][1] + (('f', 'v'),))); v = v.f['v']
    if isinstance(v, Opaque): 
        for x in a: s.evx(x)
        return ('v', Opaque(v.what + '.' + name))
    if not isinstance(v, Vec): raise Unsupported('%s::%s on %r' % (base, name, v))
    l = o[1] if o[0] == 'lv' else None
    if name == 'size': return ('v', v.len)
    if name == 'empty': return ('v', eq(v.len, I(0)))
    if name in ('reserve', 'shrink_to_fit'):
        for x in a: s.evx(x)
        return None
    if name == 'clear': s.write(l, Vec(v.et, ('c', []))); return None
    if name in ('push_back', 'emplace_back'):
        x = s.ev(a[0])
        x = s.conv(v.et, x)
        v = s.read(l)
        s.write(l, v.push(copyv(x))); return None
    if name == 'pop_back':
        n = sub(v.len, I(1))
        s.write(l, Vec(v.et, ('c', v.kind[1][:-1])) if v.kind[0] == 'c' else Vec(v.et, ('fn', n, v.get))); return None
    if name == 'pop_front':
        if v.kind[0] != 'c': raise Unsupported('pop_front')
        s.write(l, Vec(v.et, ('c', v.kind[1][1:]))); return None
    if name == 'at':
        i = s.as_int(s.ev(a[0]))
        return ('lv', s.aref(o, i, e.get('ln')))
    if name == 'back' or name == 'front':
        i = sub(v.len, I(1)) if name == 'back' else I(0)
        s.bounds(i, v.len, name + '() of non-empty vector', e.get('ln'))
        return ('lv', (l[0], l[1] + (('i', i),)))
    if name in ('begin', 'cbegin'): return ('v', Iter(l if l else s.alloc(v), I(0)))
    if name in ('end', 'cend'): return ('v', Iter(l if l else s.alloc(v), v.len))
    if name == 'data': return ('v', Ptr(l))
    if name == 'resize':
        n = s.as_int(s.ev(a[0])); fill = s.ev(a[1]) if len(a) > 1 else None
        if v.kind[0] == 'c' and isnum(n):
            k = nv(n); items = v.kind[1][:k]
            more = _mkvec(s, v.et, I(k - len(items)), fill).kind[1] if k > len(items) else []
            s.write(l, Vec(v.et, ('c', items + more))); return None
        s.oblige('bounds', le(I(0), n), 'resize to a non-negative size', e.get('ln'))
        ol = v.len
        if v.kind[0] == 'compact' and (n is v.kind[1].len or s.known(eq(n, v.kind[1].len)) or s.valid(eq(n, v.kind[1].len))): s.write(l, v.kind[1]); return None
        tail = _mkvec(s, v.et, fresh('n', 'I'), fill)
        def g(i):
            c = lt(i, ol)
            if ol.op == 'num' and nv(ol) == 0: return tail.get(i)
            return v_ite(c, v.get(i), tail.get(i))
        s.write(l, Vec(v.et, ('fn', n, g))); return None
    if name == 'insert' and len(a) == 3:
        p = s.ev(a[0]); x = s.ev(a[1]); y = s.ev(a[2])
        if isinstance(p, Iter) and isinstance(x, Iter) and eq(p.i, v.len) is TRUE:
            src = s.read(x.lv); n = sub(y.i, x.i)
            if v.kind[0] == 'c' and isnum(n): s.write(l, Vec(v.et, ('c', v.kind[1] + [src.get(add(x.i, I(j))) for j in range(nv(n))]))); return None
            ol = v.len; vv = v
            s.write(l, Vec(v.et, ('fn', add(ol, n), lambda i: v_ite(lt(i, ol), vv.get(i), src.get(add(x.i, sub(i, ol))))))); return None
        raise Unsupported('vector insert')
    raise Unsupported('%s::%s' % (base, name))

def cpart(s, name, t):
    """real or imaginary part of a complex number given as a term of the ring generated by the reals, i and the complex radicals"""
    i = s.cfg['cring']; t = from_poly(poly(t), 'R'); p = [{}, {}]
    for m, c in poly(t).items():
        n = sum(e for a, e in m if a == i.id); r = tuple((a, e) for a, e in m if a != i.id); k = -c if n % 4 > 1 else c
        p[n % 2][r] = p[n % 2].get(r, 0) + k
    p = [from_poly({m: c for m, c in x.items() if c}, 'R') for x in p]
    if not any(a is i or (a.op == 'app' and a.args[0] in ('csqrt', 'cpow')) for x in p for a in atoms_of(x)): return p[0 if name == 'real' else 1]
    return app('re' if name == 'real' else 'im', (t,), 'R')
def cplx(s, name, z, facts):
    if s.cfg.get('cring'): return Cx(app(name, (from_poly(poly(z.re), 'R'),) + facts, 'R'), R(0))
    nm, ix = s.newname(name)
    w = s.symval('std::complex<double>', nm, ix)
    s.st.facts.append(('cx', name, w, z) + facts)
    return w

def e_value(s, e): return s.scalar(s.ev(e))

def stdcall(s, e, qn):
    a = e['args']; nm = qn.split('::')[-1]
    if qn.startswith('Eigen::'):
        if nm == 'Zero':
            md = V.mat_dims(noref(_retmat(e)))
            if a:
                d = [s.as_int(s.ev(x)) for x in a]
                if all(isnum(x) for x in d): return ('v', V.zeros(nv(d[0]), nv(d[1]) if len(d) > 1 else 1))
                return ('v', SMat(d[0], d[1] if len(d) > 1 else I(1), ('fn', lambda i, j: R(0))))
            return ('v', V.mat_fn(md[1], md[2], lambda i, j: R(0) if 'complex' not in md[0] else Cx(R(0), R(0))))
        if nm == 'Identity':
            if a:
                d = [s.as_int(s.ev(x)) for x in a]
                if not all(isnum(x) for x in d): return ('v', SMat(d[0], d[1], ('fn', lambda i, j: ite(eq(i, j), R(1), R(0)))))
                return ('v', V.ident(nv(d[0]), nv(d[1])))
            md = V.mat_dims(noref(_retmat(e))); return ('v', V.ident(md[1], md[2]))
        if nm == 'Constant':
            md = V.mat_dims(noref(_retmat(e))); v = s.scalar(s.ev(a[0])); return ('v', V.mat_fn(md[1], md[2], lambda i, j: v))
        if nm == 'Ones':
            md = V.mat_dims(noref(_retmat(e))); return ('v', V.mat_fn(md[1], md[2], lambda i, j: R(1)))
        if nm == 'epsilon': return ('v', R(Fraction(1, 2 ** 52)))
    if nm == 'max' and 'numeric_limits' in qn: return ('v', I(2147483647) if '<int>' in qn else R(Fraction(float.fromhex('0x1.fffffffffffffp+1023'))))
    if nm == 'min' and 'numeric_limits' in qn: return ('v', I(-2147483648) if '<int>' in qn else R(Fraction(float.fromhex('0x1p-1022'))))
    if nm == 'epsilon': return ('v', R(Fraction(1, 2 ** 52)))
    if qn in ('fprintf', 'printf', 'std::printf', 'fflush'):
        return ('v', I(0))
    if nm in ('forward', 'move', 'ref', 'cref'): return s.evx(a[0])
    if qn in ('std::swap',):
        x = s.lv(a[0]); y = s.lv(a[1])
        vx = s.read(x); vy = s.read(y); s.write(x, vy); s.write(y, vx); return None
    if qn in ('std::min', 'std::max'):
        x = s.e_value(a[0]); y = s.e_value(a[1])
        return ('v', ite(lt(y, x), y, x) if nm == 'min' else ite(lt(x, y), y, x))
    if qn == 'std::copy':
        b = s.ev(a[0]); en = s.ev(a[1]); d = s.ev(a[2])
        if isinstance(b, Iter) and isinstance(d, Iter):
            src = s.read(b.lv); dst = s.read(d.lv); n = sub(en.i, b.i)
            s.oblige('bounds', and_(le(I(0), b.i), le(en.i, src.len), le(I(0), n), le(I(0), d.i), le(add(d.i, n), dst.len)), 'copied range inside both vectors', e.get('ln'))
            if isnum(n) and isnum(d.i) and isnum(b.i):
                for j in range(nv(n)): dst = dst.store(I(nv(d.i) + j), src.get(I(nv(b.i) + j)))
            else:
                old = dst
                def g(i):
                    c = and_(le(d.i, i), lt(i, add(d.i, n)))
                    return v_ite(c, src.get(add(b.i, sub(i, d.i))), old.get(i))
                dst = Vec(old.et, ('fn', old.len, g))
            s.write(d.lv, dst); return ('v', Iter(d.lv, add(d.i, n)))
        raise Unsupported('std::copy')
    if qn == 'std::sort':
        h = s.cfg.get('sort')
        vs = [s.ev(x) for x in a]
        if h: return h(s, vs, e)
        return sort_(s, vs, e)
    if qn in ('rand',):
        r = s.symval('int', *s.newname('rand')); s.st.pc.append(le(I(0), r)); s.st.pc.append(le(r, I(2147483647))); return ('v', r)
    if qn in ('time', 'clock'): 
        r = s.symval('int', *s.newname(qn)); s.st.pc.append(le(I(0), r)); return ('v', r)
    if qn == 'std::bind': 
        for x in a: s.evx(x)
        return ('v', Opaque('bind'))
    vals = [s.e_value(x) for x in a]
    if nm in ('pow',):
        x, p = vals
        if isinstance(p, T) and isnum(p) and Fraction(nv(p)).denominator == 1 and 0 <= nv(p) <= 64:
            n = int(nv(p))
            if isinstance(x, Cx):
                r = Cx(R(1), R(0))
                for _ in range(n): r = cmulv(r, x)
                return ('v', r)
            return ('v', powi(toreal(x), n))
        if isinstance(x, Cx):
            return ('v', s.cplx('cpow', x, (p,)))
        if isinstance(p, T) and isnum(p) and Fraction(nv(p)) == Fraction(1, 2): return ('v', tm.sqrt(toreal(x)))
        if isinstance(p, T) and isnum(p):
            e = Fraction(nv(p))
            if e < 0: return ('v', tm.div(R(1), s.rv(lib_pow(s, toreal(x), -e))))
            return lib_pow(s, toreal(x), e)
        s.trusted.add('pow')
        return ('v', app('pow', (toreal(x), toreal(p)), 'R'))
    if nm in ('sqrt',):
        x = vals[0]
        if isinstance(x, Cx): return ('v', s.cplx('csqrt', x, ()))
        x = toreal(x)
        if not s.nodef: s.oblige('def', le(R(0), x), 'square root of a non-negative value', e.get('ln'))
        return ('v', tm.sqrt(x))
    if nm in ('fabs', 'abs'):
        x = vals[0]
        if isinstance(x, Cx) and s.cfg.get('cring'): return ('v', app('cabsv', (from_poly(poly(x.re), 'R'),), 'R'))
        if isinstance(x, Cx): return ('v', tm.sqrt(add(mul(x.re, x.re), mul(x.im, x.im))))
        return ('v', cabs(x))
    if nm in ('sin', 'cos', 'acos', 'asin', 'atan', 'tan', 'log', 'exp', 'floor', 'ceil', 'atan2', 'log10'):
        s.trusted.add(nm)
        return ('v', app(nm, tuple(toreal(x) for x in vals), 'R'))
    if nm in ('isnan', 'isinf', '__builtin_isnan'): return ('v', FALSE)
    raise Unsupported('external function ' + qn)

def sort_(s, vs, e):
    """sorting a vector of known length: every permutation consistent with the order"""
    b, en = vs[0], vs[1]
    vec = s.read(b.lv)
    n = sub(en.i, b.i)
    if not isnum(n) or nv(n) > 4 or vec.kind[0] != 'c': raise Unsupported('std::sort of symbolic length')
    import itertools
    items = [vec.get(I(i)) for i in range(nv(n))]
    def less(x, y):
        if isinstance(x, T): return lt(x, y)
        # user defined operator<
        cand = [f for f in s.prog.by_q.get('operator<', []) if noref(f['params'][0]['t']) == x.cls]
        if not cand: raise Unsupported('std::sort comparison')
        r = s.call(cand[0], None, [('v', copyv(x)), ('v', copyv(y))])
        return s.rv(r)
    perms = list(itertools.permutations(range(len(items))))
    conds = []
    for p in perms:
        c = []
        for u, w in zip(p, p[1:]): c.append(not_(less(items[w], items[u])))
        conds.append(and_(*c))
    k = s.choose(conds)
    p = perms[k]
    s.write(b.lv, Vec(vec.et, ('c', [items[i] for i in p])))
    return None

def _retmat(e):
    """matrix type named in the class of a static Eigen call such as Zero()"""
    qn = e['q']; i = qn.index('<')
    return V.targs(qn[i - 0:] if False else qn)[0]
