"""Values of the symbolic C++ store."""
import re
from .terms import *

class Unsupported(Exception): pass

class Cx:
    __slots__ = ('re', 'im')
    def __init__(s, re, im): s.re = re; s.im = im
    def __repr__(s): return 'Cx(%r,%r)' % (s.re, s.im)
def cx(v):
    if isinstance(v, Cx): return v
    return Cx(toreal(v), R(0))
def cadd(a, b): a = cx(a); b = cx(b); return Cx(add(a.re, b.re), add(a.im, b.im))
def csub(a, b): a = cx(a); b = cx(b); return Cx(sub(a.re, b.re), sub(a.im, b.im))
def cmulv(a, b): a = cx(a); b = cx(b); return Cx(sub(mul(a.re, b.re), mul(a.im, b.im)), add(mul(a.re, b.im), mul(a.im, b.re)))
def cdivv(a, b):
    a = cx(a); b = cx(b)
    if isnum(b.im) and nv(b.im) == 0: return Cx(div(a.re, b.re), div(a.im, b.re))
    d = add(mul(b.re, b.re), mul(b.im, b.im))
    return Cx(div(add(mul(a.re, b.re), mul(a.im, b.im)), d), div(sub(mul(a.im, b.re), mul(a.re, b.im)), d))
def s_add(a, b): return cadd(a, b) if isinstance(a, Cx) or isinstance(b, Cx) else add(a, b)
def s_sub(a, b): return csub(a, b) if isinstance(a, Cx) or isinstance(b, Cx) else sub(a, b)
def s_mul(a, b): return cmulv(a, b) if isinstance(a, Cx) or isinstance(b, Cx) else mul(a, b)
def s_div(a, b): return cdivv(a, b) if isinstance(a, Cx) or isinstance(b, Cx) else div(a, b)
def s_neg(a): return Cx(neg(a.re), neg(a.im)) if isinstance(a, Cx) else neg(a)

class Mat:
    """fixed-size matrix, row-major list of scalars (mutable)"""
    __slots__ = ('r', 'c', 'd')
    def __init__(s, r, c, d): s.r = r; s.c = c; s.d = d
    def copy(s): return Mat(s.r, s.c, list(s.d))
    def __getitem__(s, ij): return s.d[ij[0] * s.c + ij[1]]
    def __repr__(s): return 'Mat%dx%d%r' % (s.r, s.c, s.d)
def mat_fn(r, c, f): return Mat(r, c, [f(i, j) for i in range(r) for j in range(c)])
def mat_T(a): return mat_fn(a.c, a.r, lambda i, j: a[j, i])
def mat_mul(a, b):
    if a.c != b.r: raise Unsupported('matrix product %dx%d * %dx%d' % (a.r, a.c, b.r, b.c))
    def f(i, j):
        xs = []
        for k in range(a.c):
            x = s_mul(a[i, k], b[k, j])
            xs.append(x)
        if any(isinstance(x, Cx) for x in xs):
            r = xs[0]
            for x in xs[1:]: r = cadd(r, x)
            return r
        return add(*xs)
    return mat_fn(a.r, b.c, f)
def mat_map2(f, a, b):
    if (a.r, a.c) != (b.r, b.c): raise Unsupported('matrix shapes %dx%d vs %dx%d' % (a.r, a.c, b.r, b.c))
    return Mat(a.r, a.c, [f(x, y) for x, y in zip(a.d, b.d)])
def mat_map(f, a): return Mat(a.r, a.c, [f(x) for x in a.d])
def mat_det(a):
    n = a.r
    if n == 1: return a.d[0]
    if n == 2: return s_sub(s_mul(a[0, 0], a[1, 1]), s_mul(a[0, 1], a[1, 0]))
    r = None
    for j in range(n):
        if isinstance(a[0, j], T) and isnum(a[0, j]) and nv(a[0, j]) == 0: continue
        m = mat_fn(n - 1, n - 1, lambda i, k: a[i + 1, k if k < j else k + 1])
        x = s_mul(a[0, j], mat_det(m))
        if j % 2: x = s_neg(x)
        r = x if r is None else s_add(r, x)
    return r if r is not None else R(0)
def mat_inv(a):
    n = a.r
    d = mat_det(a)
    if n == 1: return Mat(1, 1, [s_div(R(1), d)])
    def cof(i, j):
        m = mat_fn(n - 1, n - 1, lambda p, q_: a[p if p < j else p + 1, q_ if q_ < i else q_ + 1])
        x = mat_det(m)
        if (i + j) % 2: x = s_neg(x)
        return s_div(x, d)
    return mat_fn(n, n, cof)
def mat_cross(a, b):
    x = a.d; y = b.d
    z = [s_sub(s_mul(x[1], y[2]), s_mul(x[2], y[1])), s_sub(s_mul(x[2], y[0]), s_mul(x[0], y[2])), s_sub(s_mul(x[0], y[1]), s_mul(x[1], y[0]))]
    return Mat(a.r, a.c, z)
def mat_dot(a, b):
    r = None
    for x, y in zip(a.d, b.d):
        t = s_mul(x, y); r = t if r is None else s_add(r, t)
    return r
def ident(n, m=None): return mat_fn(n, m or n, lambda i, j: R(1) if i == j else R(0))
def zeros(n, m): return Mat(n, m, [R(0)] * (n * m))

class SMat:
    """matrix with symbolic dimensions (immutable): get(i,j) on terms.
    kind: ('fn',f) | ('store',base,i,j,v) | ('hav',name)"""
    __slots__ = ('r', 'c', 'kind')
    def __init__(s, r, c, kind): s.r = r; s.c = c; s.kind = kind
    def copy(s): return s
    def get(s, i, j):
        k = s.kind
        if k[0] == 'fn': return k[1](i, j)
        if k[0] == 'store':
            c = and_(eq(i, k[2]), eq(j, k[3]))
            if c is TRUE: return k[4]
            if c is FALSE: return k[1].get(i, j)
            return v_ite(c, k[4], k[1].get(i, j))
        if k[0] == 'hav': return app(k[1], [i, j], 'R')
        if k[0] == 'ite': return v_ite(k[1], k[2].get(i, j), k[3].get(i, j))
        raise Unsupported('SMat ' + k[0])
    def store(s, i, j, v): return SMat(s.r, s.c, ('store', s, i, j, v))

class Vec:
    """std::vector / raw array (immutable).
    kind: ('c',[values]) | ('fn',len,f) | ('push',base,v) | ('store',base,i,v) | ('ite',c,a,b) | ('hav',name,len) | ('filter',...)"""
    __slots__ = ('et', 'kind', '_len')
    def __init__(s, et, kind):
        s.et = et; s.kind = kind
        k = kind[0]
        if k == 'c': s._len = I(len(kind[1]))
        elif k == 'fn': s._len = kind[1]
        elif k == 'push': s._len = add(kind[1]._len, I(1))
        elif k == 'store': s._len = kind[1]._len
        elif k == 'ite': s._len = ite(kind[1], kind[2]._len, kind[3]._len)
        elif k == 'hav': s._len = kind[2]
        elif k == 'filter': s._len = kind[1]
        elif k == 'compact': s._len = kind[2]._len      # base with its first entries overwritten by the filter
        else: raise Unsupported('Vec ' + k)
    @property
    def len(s): return s._len
    def copy(s): return s
    def get(s, i):
        k = s.kind; o = k[0]
        if o == 'c':
            if isnum(i):
                n = nv(i)
                if 0 <= n < len(k[1]): return copyv(k[1][n])
                raise OutOfBounds('index %d of %d' % (n, len(k[1])))
            if not k[1]: raise OutOfBounds('index into empty vector')
            r = k[1][-1]
            for n in range(len(k[1]) - 2, -1, -1): r = v_ite(eq(i, I(n)), k[1][n], r)
            return copyv(r)
        if o == 'fn': return k[2](i)
        if o == 'push':
            c = eq(i, k[1]._len)
            if c is TRUE: return copyv(k[2])
            if c is FALSE: return k[1].get(i)
            c2 = lt(i, k[1]._len)
            if c2 is TRUE: return k[1].get(i)
            return alt(c, lambda: k[2], lambda: k[1].get(i))
        if o == 'store':
            c = eq(i, k[2])
            if c is TRUE: return copyv(k[3])
            if c is FALSE: return k[1].get(i)
            return alt(c, lambda: k[3], lambda: k[1].get(i))
        if o == 'ite': return alt(k[1], lambda: k[2].get(i), lambda: k[3].get(i))
        if o == 'hav': return k[3](i)
        if o == 'filter': return k[2](i)
        if o == 'compact': return alt(lt(i, k[1]._len), lambda: k[1].get(i), lambda: k[2].get(i))
        raise Unsupported('Vec get ' + o)
    def store(s, i, v):
        if s.kind[0] == 'c' and isnum(i):
            n = nv(i)
            if not 0 <= n < len(s.kind[1]): raise OutOfBounds('store %d of %d' % (n, len(s.kind[1])))
            l = list(s.kind[1]); l[n] = v
            return Vec(s.et, ('c', l))
        if s.kind[0] == 'store' and s.kind[2] is i:
            return Vec(s.et, ('store', s.kind[1], i, v))
        if s.kind[0] == 'push' and s.kind[1]._len is i:
            return Vec(s.et, ('push', s.kind[1], v))
        return Vec(s.et, ('store', s, i, v))
    def push(s, v):
        if s.kind[0] == 'c': return Vec(s.et, ('c', s.kind[1] + [v]))
        return Vec(s.et, ('push', s, v))

class OutOfBounds(Exception): pass
def alt(c, f, g):
    """selection where one alternative may be out of bounds (bounds are separate obligations)"""
    try: a = f()
    except OutOfBounds: return copyv(g())
    try: b = g()
    except OutOfBounds: return copyv(a)
    return v_ite(c, a, b)

class Struct:
    __slots__ = ('cls', 'f', 'meta')
    def __init__(s, cls, f, meta=None): s.cls = cls; s.f = f; s.meta = meta
    def copy(s): return Struct(s.cls, {k: copyv(v) for k, v in s.f.items()}, s.meta)
    def __repr__(s): return 'Struct(%s,%r)' % (s.cls[:40], list(s.f))

class Ptr:
    """pointer / reference / shared_ptr; lv None means null"""
    __slots__ = ('lv', 'isnull')
    def __init__(s, lv, isnull=None): s.lv = lv; s.isnull = isnull if isnull is not None else (TRUE if lv is None else FALSE)
    def copy(s): return s
    def __repr__(s): return 'Ptr(%r)' % (s.lv,)
class Iter:
    __slots__ = ('lv', 'i')
    def __init__(s, lv, i): s.lv = lv; s.i = i
    def copy(s): return s
class Fn:
    __slots__ = ('call',)
    def __init__(s, call): s.call = call
    def copy(s): return s
class Opaque:
    __slots__ = ('what',)
    def __init__(s, what): s.what = what
    def copy(s): return s
    def __repr__(s): return 'Opaque(%s)' % s.what

def copyv(v):
    if isinstance(v, (T, Cx)) or v is None: return v
    return v.copy()

def v_ite(c, a, b):
    if c is TRUE: return copyv(a)
    if c is FALSE: return copyv(b)
    if a is b: return copyv(a)
    if isinstance(a, T) and isinstance(b, T):
        if a.sort != b.sort: a, b = toreal(a), toreal(b)
        return ite(c, a, b)
    if isinstance(a, Cx) or isinstance(b, Cx):
        a = cx(a); b = cx(b); return Cx(ite(c, a.re, b.re), ite(c, a.im, b.im))
    if isinstance(a, Mat) and isinstance(b, Mat) and (a.r, a.c) == (b.r, b.c):
        return Mat(a.r, a.c, [v_ite(c, x, y) for x, y in zip(a.d, b.d)])
    if isinstance(a, Vec) and isinstance(b, Vec):
        if a.kind[0] == 'c' and b.kind[0] == 'c' and len(a.kind[1]) == len(b.kind[1]):
            return Vec(a.et, ('c', [v_ite(c, x, y) for x, y in zip(a.kind[1], b.kind[1])]))
        if a.kind[0] == b.kind[0] == 'push' and same(a.kind[1], b.kind[1]):
            try: return Vec(a.et, ('push', a.kind[1], v_ite(c, a.kind[2], b.kind[2])))
            except Unsupported: pass
        if a.kind[0] == b.kind[0] != 'c' and same(a, b): return a
        return Vec(a.et, ('ite', c, a, b))
    if isinstance(a, SMat) and isinstance(b, SMat) and same(a, b): return a
    if isinstance(a, SMat) and isinstance(b, SMat): return SMat(a.r, a.c, ('ite', c, a, b))
    if isinstance(a, Struct) and isinstance(b, Struct) and a.cls == b.cls and a.f.keys() == b.f.keys():
        return Struct(a.cls, {k: v_ite(c, a.f[k], b.f[k]) for k in a.f}, a.meta)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.lv == b.lv: return Ptr(a.lv, ite(c, a.isnull, b.isnull))
        raise Unsupported('merge of different pointers')
    if isinstance(a, Iter) and isinstance(b, Iter) and a.lv == b.lv: return Iter(a.lv, ite(c, a.i, b.i))
    if type(a) is type(b) and isinstance(a, (Fn, Opaque)): return a
    raise Unsupported('merge of %s and %s' % (type(a).__name__, type(b).__name__))

def same(a, b):
    """identity of values up to hash-consed terms"""
    if a is b: return True
    if type(a) is not type(b): return False
    if isinstance(a, Cx): return a.re is b.re and a.im is b.im
    if isinstance(a, Mat): return a.r == b.r and a.c == b.c and all(same(x, y) for x, y in zip(a.d, b.d))
    if isinstance(a, Struct): return a.cls == b.cls and a.f.keys() == b.f.keys() and all(same(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, Vec):
        if a.kind[0] == 'c' and b.kind[0] == 'c': return len(a.kind[1]) == len(b.kind[1]) and all(same(x, y) for x, y in zip(a.kind[1], b.kind[1]))
        if a.kind[0] != b.kind[0]: return False
        if a.kind is b.kind: return True
        if a.kind[0] == 'ite': return a.kind[1] is b.kind[1] and same(a.kind[2], b.kind[2]) and same(a.kind[3], b.kind[3])
        if a.kind[0] == 'push': return same(a.kind[1], b.kind[1]) and same(a.kind[2], b.kind[2])
        if a.kind[0] == 'store': return same(a.kind[1], b.kind[1]) and a.kind[2] is b.kind[2] and same(a.kind[3], b.kind[3])
        if a.kind[0] == 'hav': return a.kind[1] == b.kind[1] and a.kind[2] is b.kind[2] and a.kind[3] is b.kind[3]
        return False
    if isinstance(a, SMat):
        if a.r is not b.r or a.c is not b.c or a.kind[0] != b.kind[0]: return False
        if a.kind is b.kind: return True
        if a.kind[0] == 'store': return same(a.kind[1], b.kind[1]) and a.kind[2] is b.kind[2] and a.kind[3] is b.kind[3] and same(a.kind[4], b.kind[4])
        if a.kind[0] == 'hav': return a.kind[1] == b.kind[1]
        return False
    if isinstance(a, Ptr): return a.lv == b.lv and a.isnull is b.isnull
    if isinstance(a, Iter): return a.lv == b.lv and a.i is b.i
    return False

# ---------------------------------------------------------------- C++ types
def strip_t(t):
    t = t.strip()
    while True:
        if t.startswith('const '): t = t[6:].strip(); continue
        if t.startswith('volatile '): t = t[9:]; continue
        if t.endswith(' const'): t = t[:-6].strip(); continue
        return t
def is_ref(t): return t.rstrip().endswith('&')
def noref(t):
    t = t.strip()
    while t.endswith('&'): t = t[:-1].strip()
    return strip_t(t)
def targs(t):
    """template arguments of a printed type (top level)"""
    i = t.index('<'); depth = 0; cur = ''; out = []
    j = i
    for j in range(i, len(t)):
        ch = t[j]
        if ch == '<':
            depth += 1
            if depth == 1: continue
        if ch == '>':
            depth -= 1
            if depth == 0: out.append(cur.strip()); break
        if ch == ',' and depth == 1: out.append(cur.strip()); cur = ''; continue
        cur += ch
    return out
INTS = {'int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'char', 'unsigned char', 'long long', 'unsigned long long', 'signed char', 'bool_int'}
UNS = {'unsigned int', 'unsigned long', 'unsigned short', 'unsigned char', 'unsigned long long'}
FLTS = {'double', 'float', 'long double'}
def mat_dims(t):
    if t.startswith('Eigen::Matrix<'):
        a = targs(t)
        return a[0], int(a[1]), int(a[2])
    return None
