"""Loop summaries: inductive invariants inferred from one generic iteration and checked for preservation.

For a loop whose trip count N is known symbolically, every location the body
changes gets a closed form over the iteration number k (counter, accumulated
sum, last written value, appended elements, conditionally appended elements,
elements stored at a linear index, running minimum).  The closed forms together
are the invariant: they hold for k=0 by construction, and the generic iteration
is executed once more from the closed forms to check that it leads from k to
k+1.  A loop that does not fit is reported as outside the verifier."""
from . import terms as tm
from .terms import *
from .values import *

import os
DBG = os.environ.get("DV_DEBUG") == "2"
class NoTemplate(Unsupported): pass
def U(msg): return Unsupported('loop: ' + msg)

# ------------------------------------------------------- substitution in values
def sv(v, m):
    if isinstance(v, T): return tm.subst(v, m)
    if v is None or isinstance(v, (Fn, Opaque)): return v
    if isinstance(v, Cx): return Cx(tm.subst(v.re, m), tm.subst(v.im, m))
    if isinstance(v, Mat): return Mat(v.r, v.c, [sv(x, m) for x in v.d])
    if isinstance(v, Struct): return Struct(v.cls, {k: sv(x, m) for k, x in v.f.items()}, v.meta)
    if isinstance(v, Iter): return Iter((v.lv[0], spath(v.lv[1], m)), tm.subst(v.i, m))
    if isinstance(v, Ptr): return v if v.lv is None else Ptr((v.lv[0], spath(v.lv[1], m)), tm.subst(v.isnull, m))
    if isinstance(v, Vec):
        k = v.kind
        if k[0] == 'c': return Vec(v.et, ('c', [sv(x, m) for x in k[1]]))
        if k[0] == 'fn': return Vec(v.et, ('fn', tm.subst(k[1], m), sfun(k[2], m)))
        if k[0] == 'push': return Vec(v.et, ('push', sv(k[1], m), sv(k[2], m)))
        if k[0] == 'store': return Vec(v.et, ('store', sv(k[1], m), tm.subst(k[2], m), sv(k[3], m)))
        if k[0] == 'ite': return Vec(v.et, ('ite', tm.subst(k[1], m), sv(k[2], m), sv(k[3], m)))
        if k[0] == 'hav': return m[k[1]] if k[1] in m else v
        if k[0] == 'compact': return Vec(v.et, ('compact', sv(k[1], m), sv(k[2], m)))
        if k[0] == 'filter':
            d = k[3]
            return mkfilter(v.et, sv(d['base'], m), tm.subst(d['n'], m), sfun(d['c'], m), sfun(d['g'], m), d['id'], tuple(tm.subst(x, m) for x in d['ctx']))
        raise U('substitution into ' + k[0])
    if isinstance(v, SMat):
        k = v.kind
        r = tm.subst(v.r, m); c = tm.subst(v.c, m)
        if k[0] == 'fn': return SMat(r, c, ('fn', sfun2(k[1], m)))
        if k[0] == 'store': return SMat(r, c, ('store', sv(k[1], m), tm.subst(k[2], m), tm.subst(k[3], m), sv(k[4], m)))
        if k[0] == 'ite': return SMat(r, c, ('ite', tm.subst(k[1], m), sv(k[2], m), sv(k[3], m)))
        if k[0] == 'hav': return m[k[1]] if k[1] in m else v
    raise U('substitution into %r' % (v,))
def spath(p, m): return tuple(tuple(tm.subst(x, m) if isinstance(x, T) else x for x in st) for st in p)
def sfun(f, m):
    def g(i):
        ph = fresh('ph', 'I')
        return sv(sv(f(ph), m), {ph: i})
    return g
def sfun2(f, m):
    def g(i, j):
        a = fresh('ph', 'I'); b = fresh('ph', 'I')
        return sv(sv(f(a, b), m), {a: i, b: j})
    return g
def free(v, ks):
    """does any of the symbols ks (terms or havoc names) occur in v?"""
    if v is None or isinstance(v, (Fn, Opaque)): return False
    if isinstance(v, T):
        if not ks: return False
        at = tm.atoms_of(v)
        if not at.isdisjoint(ks): return True
        return any(x.op == 'app' and x.args[0].startswith('hv!') and x.args[0].split('.')[0] in ks for x in at)
    if isinstance(v, Cx): return free(v.re, ks) or free(v.im, ks)
    if isinstance(v, Mat): return any(free(x, ks) for x in v.d)
    if isinstance(v, Struct): return any(free(x, ks) for x in v.f.values())
    if isinstance(v, Iter): return free(v.i, ks)
    if isinstance(v, Ptr): return False
    if isinstance(v, Vec):
        k = v.kind
        if k[0] == 'c': return any(free(x, ks) for x in k[1])
        if k[0] == 'fn': return free(k[1], ks) or free(k[2](fresh('ph', 'I')), ks)
        if k[0] == 'push': return free(k[1], ks) or free(k[2], ks)
        if k[0] == 'store': return free(k[1], ks) or free(k[2], ks) or free(k[3], ks)
        if k[0] == 'ite': return free(k[1], ks) or free(k[2], ks) or free(k[3], ks)
        if k[0] == 'hav': return k[1] in ks
        if k[0] == 'compact': return free(k[1], ks) or free(k[2], ks)
        if k[0] == 'filter':
            d = k[3]; p = fresh('ph', 'I'); return free(d['base'], ks) or free(d['n'], ks) or free(d['c'](p), ks) or free(d['g'](p), ks)
    if isinstance(v, SMat):
        k = v.kind
        if k[0] == 'fn': return free(k[1](fresh('ph', 'I'), fresh('ph', 'I')), ks)
        if k[0] == 'store': return any(free(x, ks) for x in k[1:5])
        if k[0] == 'ite': return free(k[1], ks) or free(k[2], ks) or free(k[3], ks)
        if k[0] == 'hav': return k[1] in ks
    return True

def mkfilter(et, base, n, c, g, id_, ctx):
    """base followed by g(j) for those j in 0..n-1 (ascending) with c(j)"""
    ph = fresh('j', 'I')
    cnt = mksum(ph, ite(c(ph), I(1), I(0)), n)
    bl = base.len
    def get(i):
        r = g(app('sel!%s' % id_, tuple(ctx) + (n, sub(i, bl)), 'I'))
        if isnum(bl) and nv(bl) == 0: return r
        return v_ite(lt(i, bl), base.get(i), r)
    return Vec(et, ('filter', add(bl, cnt), get, {'base': base, 'n': n, 'c': c, 'g': g, 'id': id_, 'ctx': ctx}))

# ------------------------------------------------------------ leaves of a state
def leaves(v, path=()):
    if isinstance(v, T): yield path, v
    elif isinstance(v, Cx): yield path + ('re',), v.re; yield path + ('im',), v.im
    elif isinstance(v, Mat):
        for i, x in enumerate(v.d): yield from leaves(x, path + (i,))
    elif isinstance(v, Struct):
        for k, x in v.f.items(): yield from leaves(x, path + ('f', k))
    elif isinstance(v, Iter): yield path + ('it',), v.i
    elif isinstance(v, (Vec, SMat)): yield path, v
    # Ptr, Fn, Opaque: must not change
def put(v, path, x):
    if not path: return x
    p = path[0]
    if isinstance(v, Vec): return v.store(p[1], put(v.get(p[1]), path[1:], x))
    if isinstance(v, Cx): return Cx(x, v.im) if p == 're' else Cx(v.re, x)
    if isinstance(v, Mat): d = list(v.d); d[p] = put(d[p], path[1:], x); return Mat(v.r, v.c, d)
    if isinstance(v, Struct): f = dict(v.f); f[path[1]] = put(f[path[1]], path[2:], x); return Struct(v.cls, f, v.meta)
    if isinstance(v, Iter): return Iter(v.lv, x)
    raise U('leaf update')
def get(v, path):
    for_ = path
    while for_:
        p = for_[0]
        if isinstance(v, Vec): v = v.get(p[1]); for_ = for_[1:]
        elif isinstance(v, Cx): v = v.re if p == 're' else v.im; for_ = for_[1:]
        elif isinstance(v, Mat): v = v.d[p]; for_ = for_[1:]
        elif isinstance(v, Struct): v = v.f[for_[1]]; for_ = for_[2:]
        elif isinstance(v, Iter): v = v.i; for_ = for_[1:]
        else: raise U('leaf access')
    return v
def unchanged(a, b, ph=None):
    """syntactic identity of leaf values"""
    if a is b: return True
    if isinstance(a, T) or isinstance(b, T): return False
    if isinstance(a, Vec) and isinstance(b, Vec):
        if a.kind is b.kind: return True
        return same(a, b)
    if isinstance(a, SMat) and isinstance(b, SMat): return a.kind is b.kind
    return same(a, b)
def shape_same(a, b):
    """pointers and opaque parts identical"""
    if isinstance(a, Struct) and isinstance(b, Struct): return a.f.keys() == b.f.keys() and all(shape_same(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, Ptr) and isinstance(b, Ptr): return a.lv == b.lv
    return type(a) is type(b)

def elem_index(v0, v1, ks, nest):
    """v1 = v0 with one element (of vector type) stored at an index not changed by the loop"""
    if not nest or not isinstance(v1, Vec) or v1.kind[0] != 'store': return None
    i = v1.kind[2]; g = v1
    while g.kind[0] == 'store' and g.kind[2] is i: g = g.kind[1]
    b = strip_at(v0, [i])
    if g is not b and g.kind is not b.kind: return None
    if free(i, ks): return None
    try: e = v0.get(i)
    except OutOfBounds: return None
    return i if isinstance(e, Vec) else None
def strip_at(v, idx):
    while isinstance(v, Vec) and v.kind[0] == 'store' and any(v.kind[2] is i for i in idx): v = v.kind[1]
    return v
class Hav:
    defn = None; pre = None; rows = False; kept = False
    def __init__(s, cell, path, v0, h): s.cell = cell; s.path = path; s.v0 = v0; s.h = h; s.tpl = None; s.kind = None; s.key = h if isinstance(h, T) else h.kind[1]

def lens(H):
    """unknown lengths of the vectors among H"""
    return {h.h.len for h in H if isinstance(h.h, Vec) and h.h.len is not h.v0.len}

_hc = [0]
def havoc(v0):
    _hc[0] += 1; n = 'hv!%d' % _hc[0]
    if isinstance(v0, T): return var(n, v0.sort)
    if isinstance(v0, Vec):
        ln = var(n + '.len', 'I')
        et = v0.et
        return Vec(et, ('hav', n, ln, lambda i: _hget(n, v0, i)))
    if isinstance(v0, SMat): return SMat(v0.r, v0.c, ('hav', n))
    raise U('havoc of %r' % (v0,))
def keep_rows(hh, v0):
    def g(i):
        r = hh.kind[3](i)
        return Vec(r.et, ('fn', v0.get(i).len, r.kind[2]))
    return Vec(hh.et, ('hav', hh.kind[1], v0.len, g))
def _hget(n, v0, i):
    raise_ = None
    proto = None
    if v0.kind[0] == 'c' and v0.kind[1]: proto = v0.kind[1][0]
    elif v0.kind[0] in ('fn', 'store', 'push', 'ite', 'filter', 'hav'):
        try: proto = v0.get(I(0)) if not (v0.kind[0] == 'fn') else v0.kind[2](fresh('ph', 'I'))
        except OutOfBounds: proto = None
    if proto is None:
        et = v0.et
        if et in FLTS: return app(n, (i,), 'R')
        if et in INTS: return app(n, (i,), 'I')
        md = mat_dims(et)
        if md and md[1] > 0 and md[2] > 0 and 'complex' not in md[0]: return mat_fn(md[1], md[2], lambda a, b: app('%s.%d_%d' % (n, a, b), (i,), 'R'))
        raise U('element of a vector under construction')
    cnt = [0]
    def mk_(x):
        if isinstance(x, T): cnt[0] += 1; return app('%s.%d' % (n, cnt[0]), (i,), x.sort)
        if isinstance(x, Cx): return Cx(mk_(x.re), mk_(x.im))
        if isinstance(x, Mat): return Mat(x.r, x.c, [mk_(y) for y in x.d])
        if isinstance(x, Struct): return Struct(x.cls, {k: mk_(y) for k, y in x.f.items()}, x.meta)
        if isinstance(x, Vec):
            cnt[0] += 1; nm = '%s.%d' % (n, cnt[0])
            ln = app(nm + '.len', (i,), 'I')
            def g(j):
                c2 = [0]
                pr = x.get(I(0)) if x.kind[0] == 'c' and x.kind[1] else (x.kind[2](fresh('ph', 'I')) if x.kind[0] == 'fn' else None)
                if pr is None:
                    if x.et in FLTS: return app(nm, (i, j), 'R')
                    if x.et in INTS: return app(nm, (i, j), 'I')
                    raise U('nested vector element')
                def mk2(y):
                    if isinstance(y, T): c2[0] += 1; return app('%s.%d' % (nm, c2[0]), (i, j), y.sort)
                    if isinstance(y, Mat): return Mat(y.r, y.c, [mk2(z) for z in y.d])
                    raise U('nested vector element')
                return mk2(pr)
            return Vec(x.et, ('fn', ln, g))
        raise U('havoc element %r' % (x,))
    return mk_(proto)

def linear_in(t, k):
    """t = a*k + b (integers, a const) -> (a, b) or None"""
    p = tm.poly(t); a = 0; b = {}
    for m, c in p.items():
        if m == ((k.id, 1),): a = c
        elif any(tm.ATOM[x] is k or (k in tm.atoms_of(tm.ATOM[x])) for x, _ in m): return None
        else: b[m] = c
    return a, tm.from_poly(b, 'I')

def split_trip(c, k, N):
    """trip count from a comparison linear in k; returns (count, extra requirement) or None"""
    if c.op in ('<', '<=') and c.args[0].sort == 'I':
        d = sub(c.args[1], c.args[0])      # > 0 or >= 0
        ln = linear_in(d, k)
        if ln and ln[0] == -1: return (ln[1] if c.op == '<' else add(ln[1], I(1))), None
        if ln and ln[0] < 0 and isinstance(ln[0], int):
            a = -ln[0]; b = ln[1] if c.op == '<' else add(ln[1], I(1))
            return app('idiv', (add(b, I(a - 1)), I(a)), 'I'), None
    if c.op == 'not' and c.args[0].op == '=' and c.args[0].args[0].sort == 'I':
        x, y = c.args[0].args
        ln = linear_in(sub(x, y), k)
        if ln and ln[0] in (1, -1):
            n = neg(ln[1]) if ln[0] == 1 else ln[1]
            return n, le(I(0), n)
    return None

def ite_map(f, t):
    if isinstance(t, T) and t.op == 'ite': return ite(t.args[0], ite_map(f, t.args[1]), ite_map(f, t.args[2]))
    return f(t)

def summarise(s, n, cond, inc, body):
    from .interp import Infeasible, Brk, Ret, Cont, LoopExit
    base = s.st
    ln = n.get('ln')
    k = var('k!%s.%s' % (s.loopuid(), ln), 'I')
    # ---------------- one generic iteration from a prepared state
    def iteration(prep, quiet, first=None, extra=()):
        def th():
            prep(s.st)
            s.assume(le(I(0), k))
            for c in extra: s.assume(c)
            c = s.loopcond(cond)
            conj = c.args if c.op == 'and' else (c,)
            prim = [x for x in conj if tripable(x)]
            rest = [x for x in conj if x not in prim]
            for x in prim: s.assume(x)
            if rest and not s.decide(and_(*rest)): raise LoopExit()
            try: s.run(body)
            except Cont: pass
            s.run(inc)
        q0 = s.quiet
        s.quiet += 1 if quiet else 0
        s.loopctx.append(k)
        try: return s.explore(th)
        finally: s.quiet = q0; s.loopctx.pop()
    tripable_now = [lambda x: False]
    def tripable(x): return tripable_now[0](x)
    # ---------------- A. discover what changes
    hv = {}
    def prep(st):
        for h in hv.values(): st.mem[h.cell] = put(st.mem[h.cell], h.path, h.h if not isinstance(h.h, T) else h.h)
    for rnd in range(12):
        s.discovering += 1
        try: outs = iteration(prep, True)
        finally: s.discovering -= 1
        new = False; elems = []
        for st, kind, v in outs:
            for cell, v0 in base.mem.items():
                v1 = st.mem.get(cell)
                if v1 is v0 or v1 is None: continue
                cur0 = v0
                for h in hv.values():
                    if h.cell == cell: cur0 = put(cur0, h.path, h.h)
                if type(v1) is not type(cur0) and not (isinstance(v1, (Mat, SMat)) and isinstance(cur0, (Mat, SMat))): raise U('a variable changes its shape (line %s)' % ln)
                if not shape_same(cur0, v1): raise U('a pointer changes (line %s)' % ln)
                l0 = dict(leaves(cur0)); l1 = dict(leaves(v1))
                if l0.keys() != l1.keys(): raise U('a value changes its shape (line %s)' % ln)
                for p in l0:
                    if (cell, p) in hv: continue
                    idx = [q_[len(p)][1] for (cc, q_) in hv if cc == cell and len(q_) > len(p) and q_[:len(p)] == p and isinstance(q_[len(p)], tuple)]
                    a_ = strip_at(l0[p], idx); b_ = strip_at(l1[p], idx)
                    if idx:
                        for i_ in idx:
                            q_ = p + (('e', i_),)
                            if (cell, q_) not in hv: raise U('nested element')
                    if not unchanged(a_, b_):
                        v00 = get(v0, p)
                        ks_ = {k} | {h.key for h in hv.values()}
                        ei = elem_index(v00, l1[p], ks_, True) if not idx else None
                        if ei is not None:
                            elems.append((cell, p, p + (('e', ei),), v00.get(ei))); continue
                        for q_ in [q_ for (cc, q_) in hv if cc == cell and q_[:len(p)] == p]: del hv[(cell, q_)]
                        h = Hav(cell, p, v00, havoc(v00)); hv[(cell, p)] = h; new = True
                        if isinstance(v00, Vec) and isinstance(l1[p], Vec) and not isnum(v00.len) and l1[p].len is v00.len:
                            h.h = Vec(h.h.et, ('hav', h.h.kind[1], v00.len, h.h.kind[3]))
        for h in hv.values():    # a length believed constant that is not
            if isinstance(h.h, Vec) and h.h.len is h.v0.len and not isnum(h.v0.len):
                for st, kind, _ in outs:
                    f = get(st.mem[h.cell], h.path)
                    if kind == 'normal' and not h.kind and f is not h.h and isinstance(f, Vec) and f.len is not h.h.len and f.kind is not h.v0.kind: h.h = havoc(h.v0); h.key = h.h.kind[1]; new = True; break
        if not new:
            # elements of vectors only once everything their index may depend on is known
            for cell, p, q_, v01 in elems:
                if (cell, p) not in hv and (cell, q_) not in hv: hv[(cell, q_)] = Hav(cell, q_, v01, havoc(v01)); new = True
        if not new:
            # a vector whose elements change but not its length
            for h in hv.values():
                if isinstance(h.h, Vec) and h.h.len is not h.v0.len and not isnum(h.v0.len) and h.kind is None:
                    fs = [get(st.mem[h.cell], h.path) for st, kind, _ in outs if kind == 'normal']
                    if fs and all(isinstance(f, Vec) and f.len is h.h.len for f in fs):
                        h.h = Vec(h.h.et, ('hav', h.h.kind[1], h.v0.len, h.h.kind[3])); new = True
        if not new:
            # a table whose rows keep their lengths
            for h in hv.values():
                if isinstance(h.h, Vec) and h.h.len is h.v0.len and h.h.et.startswith('std::vector') and not h.rows:
                    j = fresh('j', 'I'); h.rows = True
                    fs = [(st, get(st.mem[h.cell], h.path)) for st, kind, _ in outs]
                    try: good = all(isinstance(f, Vec) and f.len is h.h.len and (f is h.h or equalv(s, f.get(j).len, h.h.get(j).len, list(st.pc) + [le(I(0), j), lt(j, f.len)])) for st, f in fs)
                    except (Unsupported, OutOfBounds): good = False
                    if good: h.h = keep_rows(h.h, h.v0); h.kept = True; new = True
        if not new: break
    else: raise U('no fixpoint of modified locations')
    H = list(hv.values())
    for h in H:
        for st_ in h.path:
            if isinstance(st_, tuple) and free(st_[1], {k} | {g.key for g in H}): raise U('element index changes (line %s)' % ln)
    keys = {h.key for h in H} | lens(H)
    # ---------------- B1. counters
    def finals(outs, h):
        return [(st, get(st.mem[h.cell], h.path)) for st, kind, _ in outs if kind == 'normal']
    if not any(kind == 'normal' for _, kind, _ in outs):
        # the body always leaves the loop: at most one iteration
        return once(s, base, n, cond, inc, body)
    for h in H:
        if isinstance(h.h, T) and h.h.sort == 'I':
            d = {sub(f, h.h) for _, f in finals(outs, h)}
            if len(d) == 1:
                x = d.pop()
                if isnum(x): h.kind = 'counter'; h.tpl = (lambda kk, h=h, x=x: add(h.v0, mul(x, kk)))
    # ---------------- trip count
    def tprep(st):
        for h in H: st.mem[h.cell] = put(st.mem[h.cell], h.path, h.tpl(k) if h.tpl else h.pre if h.pre is not None else h.h)
    q0 = s.quiet; s.quiet += 1
    def cth():
        tprep(s.st); return s.loopcond(cond)
    co = s.explore(cth); s.quiet = q0
    if len(co) != 1: raise U('condition with side effects (line %s)' % ln)
    c = co[0][2]
    conj = list(c.args) if c.op == 'and' else [c]
    N = None; req = None
    for x in conj:
        if not free(x, keys):
            t = split_trip(x, k, None)
            if t and N is None: N, req = t; primary = x
    if N is None:
        raise U('trip count not recognised (line %s)' % ln)
    if free(N, {k}): raise U('trip count')
    tripable_now[0] = lambda x: x is primary
    if req is not None: s.oblige('termination', req, 'loop reaches its bound', ln)
    # N may be negative: then the loop body is not entered
    if s.choose([le(I(0), N), lt(N, I(0))] if not s.valid(le(I(0), N)) else [TRUE, FALSE]) == 1: return
    if s.known(eq(N, I(0))): return
    base = s.st
    inrange = [le(I(0), k), lt(k, N)]
    # ---------------- B2. the other closed forms
    pend = [h for h in H if h.tpl is None]
    cm = {h.h: h.tpl(k) for h in H if h.tpl is not None and isinstance(h.h, T)}
    for h in pend:      # rows of a table worked on one by one: each still has its initial content
        if isinstance(h.h, Vec) and h.h.et.startswith('std::vector') and h.pre is None:
            at = []
            for st, kind, _ in outs:
                g = get(st.mem[h.cell], h.path) if kind == 'normal' else None
                while g is not None and g.kind[0] == 'store': at.append(tm.subst(g.kind[2], cm)); g = g.kind[1]
            at = list(dict.fromkeys(at))
            if at and all((not free(i, {x.key for x in pend})) and (linear_in(i, k) or (0,))[0] != 0 for i in at):
                h.pre = row_pre(h, [linear_in(i, k) for i in at], k)
    for rnd in range(10):
        if not pend: break
        outs = iteration(tprep, True, extra=inrange)
        prog = False
        pk = {h.key for h in pend} | lens(pend)
        nb = len(base.pc)
        norm = [(st, v) for st, kind, v in outs if kind == 'normal']
        for h in list(pend):
            f = merged([(and_(*[c for c in st.pc[nb:] if c not in inrange]), get(st.mem[h.cell], h.path)) for st, _ in norm])
            t = template(s, h, f, k, pk, N)
            if t == 'again': prog = True
            elif t: h.kind, h.tpl = t; pend.remove(h); prog = True
        if not prog:
            if permuted(s, pend, norm, k, N): prog = True; pend = [h for h in H if h.tpl is None]
        if not prog:
            if fold(s, pend, norm, nb, k, N, base, inrange): prog = True; pend = [h for h in H if h.tpl is None]
        if not prog:
            # no closed form: keep the location's value at iteration k as an unknown function of k
            J = [h for h in pend if isinstance(h.h, T)]
            if not J or not any(not isinstance(h.h, T) for h in pend) and not s.cfg.get('havoc_ok', True): break
            for h in J:
                nm = 'at!%s' % s.loopuid(); ctx = tuple(s.loopctx)
                h.kind = 'unknown'; h.tpl = (lambda kk, h=h, nm=nm, ctx=ctx: h.v0 if isnum(kk) and nv(kk) == 0 else app(nm, ctx + (kk,), h.h.sort))
            pend = [h for h in pend if h.tpl is None]
    if pend and s.discovering:
        # only which locations change matters: any value will do
        for h in pend:
            x = havoc(h.v0)
            if isinstance(x, Vec): x = Vec(x.et, ('hav', x.kind[1], h.v0.len, x.kind[3]))
            if h.kept: x = keep_rows(x, h.v0)
            h.kind = 'unknown'; h.tpl = (lambda kk, x=x: x)
        pend = []
    if pend and DBG:
        for h in pend:
            print('PEND', h.cell, h.path, h.key, h.kind)
            for st, _ in norm:
                x = get(st.mem[h.cell], h.path); print('   under', [show(c)[:200] for c in st.pc[nb:]], '->', show(x)[:300] if isinstance(x, T) else (x.kind[0] if hasattr(x, 'kind') else x))
    if pend:
        raise U('no closed form for %s (line %s)' % (', '.join(sorted({locname(s, base, h) for h in pend})), ln))
    # ---------------- C. preservation: k -> k+1
    k1 = add(k, I(1))
    defs = []
    for h in H:
        if h.kind == 'fold' and getattr(h, 'defn', None): defs += h.defn(k)
    outs = iteration(tprep, False, extra=inrange + defs)
    inrange = inrange + defs
    nb = len(base.pc)
    brk = []
    for st, kind, v in outs:
        pcs = [c for c in st.pc[nb:] if c not in inrange]
        for cell, v0 in base.mem.items():     # nothing else changes
            if st.mem.get(cell) is v0 or cell not in st.mem: continue
            mine = [h.path for h in H if h.cell == cell]
            l0 = dict(leaves(v0)); l1 = dict(leaves(st.mem[cell]))
            for p in l0.keys() | l1.keys():
                if any(p[:len(q)] == q for q in mine): continue
                idx = [q[len(p)][1] for q in mine if len(q) > len(p) and q[:len(p)] == p and isinstance(q[len(p)], tuple)]
                if p not in l0 or p not in l1 or not unchanged(strip_at(l0[p], idx), strip_at(l1[p], idx)): raise U('a further location changes (line %s)' % ln)
        if kind == 'normal':
            for h in H:
                if h.kind in ('unknown', 'perm', 'scatter'): continue
                if h.kind == 'sum' and getattr(h, 'delta', None) is not None and same_step(s, h, get(st.mem[h.cell], h.path), k): continue
                if h.kind == 'first' and same_first(s, h, get(st.mem[h.cell], h.path), k, st.pc): continue
                if h.kind == 'fold' and same_fold(s, h, get(st.mem[h.cell], h.path), k, st.pc): continue
                if h.kind == 'rows' and same_rows(s, h, get(st.mem[h.cell], h.path), k, st.pc): continue
                want = h.tpl(k1); have = get(st.mem[h.cell], h.path)
                ok = bool(s.discovering) or equalv(s, want, have, st.pc)
                if not ok and DBG:
                    j = fresh('j', 'I')
                    print('  not preserved', want.kind[0] if isinstance(want, Vec) else show(want), have.kind[0] if isinstance(have, Vec) else show(have))
                    if isinstance(want, Vec): print('     ', show(want.len), show(have.len), want.get(j), have.get(j)); x = want.get(j); y = have.get(j); isinstance(x, Vec) and print('    ', show(x.len), show(y.len), show(x.get(k)), '|', show(y.get(k)))
                if not ok: raise U('closed form of %s is not preserved (line %s)' % (locname(s, base, h), ln))
        else: brk.append((and_(*pcs), st, kind, v))
    s.loops.append({'line': ln, 'file': s.frames[-1].f['file'] if s.frames else '', 'invariants': len(H), 'kinds': sorted(h.kind for h in H)})
    if not s.quiet:
        f = s.frames[-1].f if s.frames else None
        from .interp import Obl
        import os
        for h in H:
            if h.kind == 'unknown': continue
            o = Obl('invariant@%s:%s %s closed form (%s) holds initially and is preserved' % (os.path.basename(f['file']) if f else '?', ln, locname(s, base, h), h.kind), (), TRUE, 'invariant', str(ln)); o.res = 'proved'; o.how = 'loop invariant preservation'
            if o.name not in s._oblkeys: s._oblkeys.add(o.name); s.obls.append(o)
    # ---------------- outcome
    conds = [c for c, _, _, _ in brk]
    anyb = or_(*conds) if conds else FALSE
    which = 0
    if brk:
        kk = fresh('kexit', 'I')
        none = forall(k, implies(and_(*inrange), not_(anyb)))
        alts = [none]
        for c, _, _, _ in brk: alts.append(and_(le(I(0), kk), lt(kk, N), tm.subst(c, {k: kk}), forall(k, implies(and_(le(I(0), k), lt(k, kk)), not_(anyb)))))
        which = s.choose(alts)
    if which == 0:
        for h in H:
            x = h.tpl(N)
            if s.red is not None and isinstance(x, T) and x.sort == 'R' and x.args: x = s.red(x)
            s.st.mem[h.cell] = put(s.st.mem[h.cell], h.path, x)
        for h in H:
            if h.kind == 'fold':
                for fct in h.facts(N): s.assume(fct)
        return
    c, st, kind, v = brk[which - 1]
    m = {k: kk}
    for cell in list(base.mem):
        if cell in st.mem and st.mem[cell] is not base.mem[cell]: s.st.mem[cell] = sv(st.mem[cell], m)
    for cell in st.mem:
        if cell not in s.st.mem: s.st.mem[cell] = sv(st.mem[cell], m)
    s.st.next = max(s.st.next, st.next)
    if kind == 'return':
        if v is not None: v = ('v', sv(v[1], m)) if v[0] == 'v' else ('lv', (v[1][0], spath(v[1][1], m)))
        raise Ret(v)
    return

def once(s, base, n, cond, inc, body):
    from .interp import Cont, Brk
    if not s.decide(s.loopcond(cond)): return
    try: s.run(body)
    except Cont: pass
    except Brk: return
    s.run(inc)
    if s.feasible(s.loopcond(cond)): raise U('single-iteration loop (line %s)' % n.get('ln'))

def locname(s, st, h):
    for fr in reversed(s.frames):
        for vid, lv in fr.env.items():
            if lv[0] == h.cell: return str(vid).split(':')[0] + ('/' + '.'.join(str(p) for p in h.path) if h.path else '')
    return 'location %s%s' % (h.cell, '/' + '.'.join(str(p) for p in h.path) if h.path else '')

def merged(outs):
    """one value from the values of the paths: paths with the same value are joined"""
    groups = []
    for c, x in outs:
        cs = frozenset(c.args) if c.op == 'and' else frozenset((c,)) if c is not TRUE else frozenset()
        for g in groups:
            if (g[1] is x or (not isinstance(x, T) and same(g[1], x))): g[0].append(cs); break
        else: groups.append(([cs], x))
    if len(groups) == 1: return groups[0][1]
    if len(groups) < len(outs):
        ps = []
        for css, x in groups:
            again = True
            while again:
                again = False
                for i in range(len(css)):
                    for j in range(i):
                        d = css[i] ^ css[j]
                        if len(d) == 2 and len(css[i] - css[j]) == 1 and len(css[i]) == len(css[j]):
                            u, w = d
                            if not_(u) is w or not_(w) is u:
                                css = [c for q, c in enumerate(css) if q not in (i, j)] + [css[i] & css[j]]; again = True; break
                    if again: break
            ps.append((css, x))
        # paths of several groups in one: each contributes its conditions
        ps.sort(key=lambda p: len(p[0]))
        outs = [(or_(*[and_(*c) for c in css]), x) for css, x in ps]
    v = outs[-1][1]
    for c, x in reversed(outs[:-1]): v = v_ite(c, x, v) if not (x is v) else v
    return v

def unroll_sums(t, ok):
    """sum up to m+1 -> sum up to m plus the last summand, where ok(m) shows m >= 0"""
    if t.sort not in 'RI': return t
    p = tm.poly(t); m = {}
    for mono in p:
        for a, e in mono:
            x = tm.ATOM[a]
            if x.op == 'toreal' and x.args[0].op == 'sum': x = x.args[0]
            if x.op == 'sum' and x not in m and not isnum(x.args[2]):
                n0 = sub(x.args[2], I(1))
                if tm.poly(x.args[2]).get((), 0) > 0 and ok(n0):
                    m[x] = add(mksum(x.args[0], x.args[1], n0), tm.subst(x.args[1], {x.args[0]: n0}))
    if not m: return t
    return tm.from_poly(tm.poly(tm.subst(tm.from_poly(p, t.sort), m)), t.sort)

def equalv(s, a, b, pc):
    """values equal under pc"""
    if a is b: return True
    if isinstance(a, T) and isinstance(b, T):
        if a.sort in 'RI' and a.sort == b.sort:
            d = unroll_sums(sub(a, b), lambda m: le(I(0), m) is TRUE or le(I(0), m) in pc)
            if not tm.poly(d): return True
            if any(x.op == 'ite' for x in tm.atoms_of(d)) and not tm.poly(resolve(s, d, pc)): return True
        if a.sort == 'R':
            if not tm.poly(sub(a, b)): return True
        if a.sort == 'B' or a.sort == 'I' or True:
            g = eq(a, b)
            if g is TRUE: return True
            a2, b2 = resolve(s, a, pc), resolve(s, b, pc)
            if a2 is not a or b2 is not b: return equalv(s, a2, b2, pc)
            if s.concats and any(x.op == 'app' and x.args[0].startswith(('block#', 'within#')) for x in tm.atoms_of(a) | tm.atoms_of(b)):
                for x in tm.atoms_of(b) | tm.atoms_of(a):
                    if x.op == 'ite' and not x.fv and intcond(x.args[0]):
                        c = x.args[0]
                        return equalv(s, tm.subst(a, {c: TRUE}), tm.subst(b, {c: TRUE}), list(pc) + [c]) and equalv(s, tm.subst(a, {c: FALSE}), tm.subst(b, {c: FALSE}), list(pc) + [not_(c)])
            if s.solver.check(list(pc) + [not_(g)], timeout=2000, lin=True) == 'unsat': return True
            from .prove import Prover
            return Prover(s.solver).prove(g, pc)[0] == 'proved'
    if isinstance(a, Cx) and isinstance(b, Cx): return equalv(s, a.re, b.re, pc) and equalv(s, a.im, b.im, pc)
    if isinstance(a, Mat) and isinstance(b, Mat): return (a.r, a.c) == (b.r, b.c) and all(equalv(s, x, y, pc) for x, y in zip(a.d, b.d))
    if isinstance(a, Struct) and isinstance(b, Struct): return all(equalv(s, a.f[x], b.f[x], pc) for x in a.f if isinstance(a.f[x], (T, Mat, Vec, Cx, Struct, SMat)))
    if isinstance(a, SMat) and isinstance(b, SMat):
        i = fresh('i', 'I'); j = fresh('j', 'I')
        cs = range(nv(a.c)) if isnum(a.c) else [None]
        for jj in cs:
            J = I(jj) if jj is not None else j
            p2 = list(pc) + [le(I(0), i), lt(i, a.r)] + ([le(I(0), j), lt(j, a.c)] if jj is None else [])
            if not equalv(s, a.get(i, J), b.get(i, J), p2): return False
        return True
    if isinstance(a, Vec) and isinstance(b, Vec):
        while a.kind[0] == 'ite':
            c = decided(s, a.kind[1], pc)
            if c is None: break
            a = a.kind[2] if c else a.kind[3]
        while b.kind[0] == 'ite':
            c = decided(s, b.kind[1], pc)
            if c is None: break
            b = b.kind[2] if c else b.kind[3]
        if b.kind[0] == 'compact' and a.kind[0] != 'compact': a, b = b, a
        if a.kind[0] == 'compact':
            if b.kind[0] == 'compact' and equalv(s, a.kind[1], b.kind[1], pc): return equalv(s, a.kind[2], b.kind[2], pc)
            d = a.kind[1].kind[3]; n0 = sub(d['n'], I(1))
            f0 = mkfilter(a.et, d['base'], n0, d['c'], d['g'], d['id'], d['ctx'])
            if b.kind[0] == 'compact': return equalv(s, d['c'](n0), FALSE, pc) and equalv(s, f0, b.kind[1], pc) and equalv(s, a.kind[2], b.kind[2], pc)
            if b.kind[0] == 'store' and b.kind[1].kind[0] == 'compact':
                w = b.kind[1]
                return equalv(s, d['c'](n0), TRUE, pc) and equalv(s, b.kind[2], f0.len, pc) and equalv(s, b.kind[3], d['g'](n0), pc) and equalv(s, f0, w.kind[1], pc) and equalv(s, a.kind[2], w.kind[2], pc)
            return False
        if b.kind[0] == 'filter' and a.kind[0] != 'filter': a, b = b, a
        if a.kind[0] == 'filter' and b.kind[0] != 'filter':
            # filter over k+1 versus conditional append to the filter over k: by definition of the filter
            d = a.kind[3]
            n0 = sub(d['n'], I(1))
            f0 = mkfilter(a.et, d['base'], n0, d['c'], d['g'], d['id'], d['ctx'])
            return cond_append(s, b, f0, d['c'](n0), d['g'](n0), pc)
        if a.kind[0] == 'filter' and b.kind[0] == 'filter':
            d = a.kind[3]; e = b.kind[3]
            j = fresh('j', 'I'); p2 = list(pc) + [le(I(0), j), lt(j, d['n'])]
            if equalv(s, d['n'], e['n'], pc): return equalv(s, d['base'], e['base'], pc) and equalv(s, d['c'](j), e['c'](j), p2) and equalv(s, d['g'](j), e['g'](j), p2 + [d['c'](j)])
            n0 = sub(d['n'], I(1))
            f0 = mkfilter(a.et, d['base'], n0, d['c'], d['g'], d['id'], d['ctx'])
            return cond_append(s, b, f0, d['c'](n0), d['g'](n0), pc)
        if not equalv(s, a.len, b.len, pc): return False
        if b.kind[0] == 'store' and a.kind[0] in ('fn', 'hav'):
            idx = []; g = b
            while g.kind[0] == 'store': idx.append((g.kind[2], g.kind[3])); g = g.kind[1]
            p2 = list(pc)
            for j, x in idx:
                if not equalv(s, a.get(j), x, p2 + [le(I(0), j), lt(j, a.len)]): return False
                p2 = [c for c in p2]
                break
            if len(idx) == 1:
                i = fresh('i', 'I')
                try: x = a.get(i); y = g.get(i)
                except OutOfBounds: return True
                return equalv(s, x, y, list(pc) + [le(I(0), i), lt(i, a.len), not_(eq(i, idx[0][0]))])
        if b.kind[0] == 'push' and a.kind[0] != 'push':
            c = b.kind[1]; m = c.len
            try:
                if not equalv(s, a.get(m), b.kind[2], pc): return False
            except OutOfBounds: return False
            i = fresh('i', 'I'); p2 = list(pc) + [le(I(0), i), lt(i, m)]
            if isnum(m) and nv(m) == 0: return True
            return equalv(s, a.get(i), c.get(i), p2)
        i = fresh('i', 'I')
        p2 = list(pc) + [le(I(0), i), lt(i, a.len)] + ([lt(i, b.len)] if s.concats and b.len is not a.len else [])
        if isnum(a.len) and a.kind[0] == 'c' and b.kind[0] == 'c': return all(equalv(s, x, y, pc) for x, y in zip(a.kind[1], b.kind[1]))
        try: x = a.get(i); y = b.get(i)
        except OutOfBounds: return True     # empty
        return equalv(s, x, y, p2)
    if type(a) is type(b) and isinstance(a, (Ptr, Iter, Opaque, Fn)): return same(a, b) or isinstance(a, (Opaque, Fn))
    return False
def decided(s, c, pc):
    if c in pc: return True
    if not_(c) in pc: return False
    if s.solver.check(list(pc) + [not_(c)], timeout=500, lin=True) == 'unsat': return True
    if s.solver.check(list(pc) + [c], timeout=500, lin=True) == 'unsat': return False
    return None
def resolve(s, t, pc):
    """remove integer case distinctions decided by pc"""
    for _ in range(12):
        hit = None
        seen = set()
        for x in tm.atoms_of(t):
            if x.op == 'app' and x.args[0].startswith(('block#', 'within#')) and not x.fv and s.concats:
                b = block_of(s, x.args[0].split('#', 1)[1], x.args[-1], pc)
                if b: hit = (x, b[0] if x.args[0][0] == 'b' else b[1]); break
            if x.op == 'ite' and not x.fv and x.args[0] not in seen:
                c = x.args[0]; seen.add(c)
                if c in pc: hit = (c, TRUE)
                elif not_(c) in pc: hit = (c, FALSE)
                elif c.op in ('<', '<=', '=') and c.args[0].sort == 'I' or c.op in ('and', 'or', 'not') and intcond(c):
                    if c in pc: hit = (c, TRUE)
                    elif not_(c) in pc: hit = (c, FALSE)
                    elif s.solver.check(list(pc) + [not_(c)], timeout=500, lin=True) == 'unsat': hit = (c, TRUE)
                    elif s.solver.check(list(pc) + [c], timeout=500, lin=True) == 'unsat': hit = (c, FALSE)
                    if hit: break
        if not hit: return t
        t = tm.subst(t, {hit[0]: hit[1]})
    return t
def resolve_v(s, v, pc):
    if isinstance(v, T): return resolve(s, v, pc)
    if isinstance(v, Mat): return Mat(v.r, v.c, [resolve_v(s, x, pc) for x in v.d])
    if isinstance(v, Cx): return Cx(resolve(s, v.re, pc), resolve(s, v.im, pc))
    return v
def block_of(s, idn, q, pc):
    """the block and the place in it that the serialized place q falls into (the decomposition is unique: block lengths are non-negative)"""
    k, n = s.concats[idn]
    cands = [I(0)]
    ref = mksum(k, n, fresh('m', 'I'))
    for t in [q] + list(pc):
        for x in tm.atoms_of(t):
            if x.op == 'sum' and x.args[1] is ref.args[1] and x.args[2] not in cands: cands.append(x.args[2])
    for F in list(cands):
        for G in (add(F, I(-1)), add(F, I(1))):
            if G not in cands: cands.append(G)
    for F in cands:
        K = unroll_sums(sub(q, mksum(k, n, F)), lambda m: le(I(0), m) is TRUE or le(I(0), m) in pc)
        nF = tm.subst(n, {k: F})
        if s.solver.check(list(pc) + [not_(and_(le(I(0), F), le(I(0), K), lt(K, nF)))], timeout=500, lin=True) == 'unsat': return F, K
    return None
def intcond(c):
    if c.op in ('and', 'or', 'not'): return all(intcond(x) for x in c.args)
    return c.op in ('<', '<=', '=') and c.args[0].sort == 'I'
def cond_append(s, v, base, c, x, pc):
    """v == (c ? base+[x] : base)"""
    if v.kind[0] == 'ite':
        cc, a, b = v.kind[1:4]
        return cond_append(s, a, base, c, x, list(pc) + [cc]) and cond_append(s, b, base, c, x, list(pc) + [not_(cc)])
    if v.kind[0] == 'push':
        return equalv(s, c, TRUE, pc) and same_filter(s, v.kind[1], base, pc) and equalv(s, v.kind[2], x, pc)
    return equalv(s, c, FALSE, pc) and same_filter(s, v, base, pc)
def same_filter(s, a, b, pc):
    if a is b: return True
    if a.kind[0] == 'filter' and b.kind[0] == 'filter':
        return equalv(s, a, b, pc)
    return False

# -------------------------------------------------------------------- templates
def after(kk, k):
    """kk = k + c with c > 0, where k is the (non-negative) iteration number"""
    p = tm.poly(kk)
    return len(p) == 2 and p.get(((k.id, 1),)) == 1 and p.get((), 0) > 0
def template(s, h, f, k, pk, N):
    """closed form of the location given its value f after one iteration started from h.h"""
    own = {h.key} | lens([h])
    v0 = h.v0
    if isinstance(h.h, T):
        if f.sort != h.h.sort:
            if {f.sort, h.h.sort} == {'I', 'R'}: f = toreal(f) if h.h.sort == 'R' else f
        if not free(f, pk):            # overwritten every time
            return 'last', lambda kk: v0 if (isnum(kk) and nv(kk) == 0) else tm.subst(f, {k: sub(kk, I(1))}) if after(kk, k) else ite(eq(kk, I(0)), v0, tm.subst(f, {k: sub(kk, I(1))}))
        if f.op == 'ite':              # overwritten under a condition
            ws = []; c0 = []
            def walk(t, cs):
                if t.op == 'ite': walk(t.args[1], cs + [t.args[0]]); walk(t.args[2], cs + [not_(t.args[0])])
                elif t is h.h: pass
                else: ws.append((and_(*cs), t))
            walk(f, [])
            if ws and all(not free(c, pk) and not free(x, pk) for c, x in ws):
                c = or_(*[c for c, _ in ws]); x = ws[-1][1]
                for d, y in reversed(ws[:-1]): x = ite(d, y, x)
                idn = s.loopuid(); ctx = tuple(s.loopctx)
                def held(kk):
                    if isnum(kk) and nv(kk) == 0: return v0
                    if after(kk, k):       # by definition of the sequence
                        j = sub(kk, I(1)); m = {k: j}; return ite(tm.subst(c, m), tm.subst(x, m), held(j))
                    if not free(x, {k}): return ite(forall(k, implies(and_(le(I(0), k), lt(k, kk)), not_(c))), v0, x)
                    return ite(forall(k, implies(and_(le(I(0), k), lt(k, kk)), not_(c))), v0, tm.subst(x, {k: app('latest#%s' % idn, ctx + (kk,), 'I')}))
                return 'held', held
        if h.h.sort == 'R' and f.op == '+' and s.red is not None and f.args.count(h.h) == 1:      # a summand per iteration, large ones by name
            d = s.red(add(*[x for x in f.args if x is not h.h]))
            if not free(d, pk): h.delta = d; return 'sum', lambda kk: add(v0, mksum(k, d, kk))
        if h.h.sort in 'RI':
            d = ite_map(lambda x: tm.from_poly(tm.poly(sub(x, h.h)), x.sort), f)
            if not free(d, pk): return 'sum', lambda kk: add(v0, mksum(k, d, kk))
        if h.h.sort == 'B':
            # sticky flags: b or c / b and c
            for cval, rest in ((TRUE, tm.subst(f, {h.h: TRUE})), (FALSE, tm.subst(f, {h.h: FALSE}))):
                pass
            t1 = tm.subst(f, {h.h: TRUE}); t0 = tm.subst(f, {h.h: FALSE})
            if t1 is TRUE and not free(t0, pk): return 'some', lambda kk: or_(v0, not_(forall(k, implies(and_(le(I(0), k), lt(k, kk)), not_(t0)))))
            if t0 is FALSE and not free(t1, pk): return 'all', lambda kk: and_(v0, forall(k, implies(and_(le(I(0), k), lt(k, kk)), t1)))
        return None
    if isinstance(h.h, Vec):
        if f.kind[0] == 'fn' and free(f, own) and not free(f.len, pk):
            # every element is overwritten: what lies outside does not matter
            j = fresh('j', 'I')
            try: x = f.get(j)
            except OutOfBounds: x = None
            if isinstance(x, T):
                y = resolve(s, x, [le(I(0), j), lt(j, f.len), le(I(0), k)])
                if not free(y, own): f = Vec(f.et, ('fn', f.len, lambda i, j=j, y=y: tm.subst(y, {j: i})))
        if not free(f, pk): return 'last', lambda kk: v0 if (isnum(kk) and nv(kk) == 0) else sv(f, {k: sub(kk, I(1))}) if after(kk, k) else v_ite(eq(kk, I(0)), v0, sv(f, {k: sub(kk, I(1))}))
        # chain of pushes
        xs = []; g = f
        while isinstance(g, Vec) and g.kind[0] == 'push': xs.append(g.kind[2]); g = g.kind[1]
        if xs and g.kind[0] == 'hav' and g.kind[1] == h.key and not any(free(x, pk) for x in xs):
            xs.reverse(); b = len(xs); l0 = v0.len
            def tpl(kk):
                def at(i):
                    r = sub(i, l0)
                    if b == 1: e = sv(xs[0], {k: r})
                    else:
                        it_ = app('idiv', (r, I(b)), 'I'); e = sv(xs[-1], {k: it_})
                        if isnum(r): it_ = I(nv(r) // b); e = sv(xs[nv(r) % b], {k: it_})
                        else:
                            for j in range(b - 2, -1, -1): e = v_ite(eq(app('imod', (r, I(b)), 'I'), I(j)), sv(xs[j], {k: it_}), e)
                    if isnum(l0) and nv(l0) == 0: return e
                    try: return v_ite(lt(i, l0), v0.get(i), e)
                    except OutOfBounds: return e
                return Vec(v0.et, ('fn', add(l0, mul(I(b), kk)), at))
            return 'append', tpl
        # a whole block of elements appended per iteration
        if f.kind[0] == 'fn' and h.h.len.op in ('var', 'app') and h.h.kind[0] == 'hav':
            L = h.h.len; n = sub(f.len, L); r = fresh('r', 'I')
            if not free(n, pk) and not isnum(n):
                try: e = f.get(add(L, r))
                except OutOfBounds: e = None
                if e is not None:
                    e = resolve_v(s, e, [le(I(0), r), lt(r, n), le(I(0), k), le(I(0), L)])
                    i = fresh('i', 'I')
                    if not free(e, pk) and equalv(s, f.get(i), h.h.get(i), [le(I(0), i), lt(i, L), le(I(0), n)]):
                        idn = s.loopuid(); ctx = tuple(s.loopctx); l0 = v0.len
                        s.concats[idn] = (k, n)
                        def cat(kk):
                            def at(i):
                                q = sub(i, l0)
                                x = sv(e, {k: app('block#%s' % idn, ctx + (q,), 'I'), r: app('within#%s' % idn, ctx + (q,), 'I')})
                                if isnum(l0) and nv(l0) == 0: return x
                                try: return v_ite(lt(i, l0), v0.get(i), x)
                                except OutOfBounds: return x
                            return Vec(v0.et, ('fn', add(l0, mksum(k, n, kk)), at))
                        return 'concat', cat
        # conditional push
        def paths(v, cs):
            if v.kind[0] == 'ite': return paths(v.kind[2], cs + [v.kind[1]]) + paths(v.kind[3], cs + [not_(v.kind[1])])
            return [(and_(*cs), v)]
        ps = paths(f, [])
        push = [(c, v) for c, v in ps if v.kind[0] == 'push' and v.kind[1].kind[0] == 'hav' and v.kind[1].kind[1] == h.key]
        keep = [(c, v) for c, v in ps if v.kind[0] == 'hav' and v.kind[1] == h.key]
        if len(push) == 1 and len(ps) == 2 and keep and push[0][0] is eq(h.h.len, I(0)) and v0.kind[0] == 'c' and not v0.kind[1] and not free(push[0][1].kind[2], pk):
            # only the first iteration finds it empty
            x = push[0][1].kind[2]; h.first = x
            return 'first', lambda kk: v0 if isnum(kk) and nv(kk) == 0 else Vec(v0.et, ('c', [sv(x, {k: I(0)})])) if (isnum(kk) or after(kk, k)) else v_ite(eq(kk, I(0)), v0, Vec(v0.et, ('c', [sv(x, {k: I(0)})])))
        if push and len(push) + len(keep) == len(ps) and not any(free(c, pk) for c, _ in ps) and not any(free(v.kind[2], pk) for _, v in push):
            pc_ = or_(*[c for c, _ in push])
            val = push[-1][1].kind[2]
            for c, v in reversed(push[:-1]): val = v_ite(c, v.kind[2], val)
            idn = s.loopuid(); ctx = tuple(x for x in s.loopctx)
            s.filters[idn] = (N, lambda j: tm.subst(pc_, {k: j}))
            return 'filter', lambda kk: mkfilter(v0.et, v0, kk, lambda j: tm.subst(pc_, {k: j}), lambda j: sv(val, {k: j}), idn, ctx)
        # conditional store at a running count: the kept elements, moved to the front
        put_ = [(c, v) for c, v in ps if v.kind[0] == 'store' and v.kind[1].kind[0] == 'hav' and v.kind[1].kind[1] == h.key]
        if put_ and keep and len(put_) + len(keep) == len(ps) and not any(free(c, pk) for c, _ in ps) and not any(free(v.kind[3], pk) or free(v.kind[2], pk) for _, v in put_):
            pc_ = or_(*[c for c, _ in put_])
            j = fresh('j', 'I'); cnt = mksum(j, ite(tm.subst(pc_, {k: j}), I(1), I(0)), k)
            if all(same_count(s, v.kind[2], cnt, k) for _, v in put_):
                val = put_[-1][1].kind[3]
                for c, v in reversed(put_[:-1]): val = v_ite(c, v.kind[3], val)
                idn = s.loopuid(); ctx = tuple(x for x in s.loopctx)
                return 'compact', lambda kk: Vec(v0.et, ('compact', mkfilter(v0.et, Vec(v0.et, ('c', [])), kk, lambda j: tm.subst(pc_, {k: j}), lambda j: sv(val, {k: j}), idn, ctx), v0))
        f = ite_store(f)
        # every selected position is overwritten once, with a value depending on the old content of that position only
        if f.kind[0] == 'store' and f.kind[1].kind[0] == 'hav' and f.kind[1].kind[1] == h.key and not free(f.kind[2], pk):
            i, x = f.kind[2], f.kind[3]
            sel = [y for y in tm.atoms_of(i) if y.op == 'app' and y.args[0].startswith('sel!') and y.args[-1] is k]
            if len(sel) == 1 and sel[0].args[0][4:] in s.filters:
                sl = sel[0]; n, cnd = s.filters[sl.args[0][4:]]
                j = fresh('j', 'I'); i1 = tm.subst(i, {sl: j}); li = linear_in(i1, j) if k not in tm.atoms_of(i1) else None
                old = h.h.get(i); o = fresh('old', 'R') if isinstance(old, T) and old.sort == 'R' else None
                if li and li[0] == 1 and sl.args[-2] is n and o is not None and isinstance(x, T):
                    y = tm.subst(x, {old: o}); y = tm.subst(y, {sl: j})
                    if not free(y, pk) and k not in tm.atoms_of(y):
                        cj = lambda q: cnd(q)
                        def scat(kk):
                            ph = fresh('j', 'I'); tot = mksum(ph, ite(cnd(ph), I(1), I(0)), n)
                            def at(c):
                                q = sub(c, li[1]); hit = and_(le(I(0), q), lt(q, n), cnd(q))
                                if kk is not tot: hit = and_(hit, lt(mksum(ph, ite(cnd(ph), I(1), I(0)), q), kk))
                                b = v0.get(c)
                                return v_ite(hit, tm.subst(y, {o: b, j: q}), b)
                            return Vec(v0.et, ('fn', v0.len, at))
                        return 'scatter', scat
        # stores at linear indices
        st = []; g = f
        while g.kind[0] == 'store': st.append((g.kind[2], g.kind[3])); g = g.kind[1]
        if st and g.kind[0] == 'hav' and g.kind[1] == h.key:
            st.reverse()
            ok = all(not free(i, pk) for i, _ in st)
            lin = [linear_in(i, k) for i, _ in st] if ok else [None]
            if all(l is not None and l[0] != 0 for l in lin):
                a = lin[0][0]
                if all(l[0] == a for l in lin):
                    vals = []
                    for (i, x) in st:
                        vals.append(x)
                    if any(isinstance(x, Vec) and free(x, pk) for x in vals) and h.pre is None:
                        # read-modify-write of a vector element: retry with the old content of that very element
                        h.pre = row_pre(h, lin, k)
                        return 'again'
                    if any(free(x, pk) for x in vals):
                        # element update (a[i] += ...): old content of that very element
                        vals2 = []
                        for (i, x) in st:
                            old = h.h.get(i); new = v0.get(i)
                            m = lmap(old, new)
                            y = sv(x, m)
                            if free(y, pk): return None
                            vals2.append(y)
                        if len(st) != 1: return None
                        vals = vals2
                    return 'store', lambda kk: store_tpl(v0, [l[1] for l in lin], a, vals, k, kk)
            # same constant cell every time
            if all(l is not None and l[0] == 0 for l in lin) and len(st) == 1:
                i, x = st[0]
                if not free(x, pk): return 'last', lambda kk: v_ite(eq(kk, I(0)), v0, v0.store(i, sv(x, {k: sub(kk, I(1))})))
                if isinstance(x, T) and x.sort in 'RI':
                    old = h.h.get(i); d = ite_map(lambda y: tm.from_poly(tm.poly(sub(y, old)), y.sort), x)
                    if not free(d, pk): return 'cellsum', lambda kk: v0.store(i, add(v0.get(i), mksum(k, d, kk)))
        return None
    if isinstance(h.h, SMat):
        st = []; g = f
        while g.kind[0] == 'store': st.append(g.kind[1:]); g = g.kind[1] if isinstance(g.kind[1], SMat) else g.kind[0]
        if g.kind[0] != 'hav' or g.kind[1] != h.key or not st: return None
        ents = []
        for (b_, i, j, x) in reversed(st):
            if free(i, pk) or free(j, pk) or free(x, pk): return None
            li = linear_in(i, k); lj = linear_in(j, k)
            if li is None or lj is None: return None
            ents.append((li, lj, x))
        if all(not free(x, pk) for _, _, x in ents):
            def tpl(kk):
                def at(i, j):
                    r = v0.get(i, j)
                    for (ai, bi), (aj, bj), x in ents:
                        if ai == 0 and aj == 0: cc = and_(eq(i, bi), eq(j, bj), lt(I(0), kk)); idx = sub(kk, I(1))
                        elif ai != 0:
                            idx, c1 = solve_lin(i, ai, bi, kk); cc = and_(c1, eq(j, bj if aj == 0 else add(mul(I(aj), idx), bj)))
                        else:
                            idx, c1 = solve_lin(j, aj, bj, kk); cc = and_(c1, eq(i, bi))
                        if cc is FALSE: continue
                        r = v_ite(cc, sv(x, {k: idx}), r)
                    return r
                return SMat(v0.r, v0.c, ('fn', at, kk))
            if h.kind is None: h.ents = ents if disjoint(ents) else None
            return 'rows', tpl
        return None
    return None
def disjoint(ents):
    """no two entries address the same cell in different iterations"""
    for x in range(len(ents)):
        for y in range(x):
            (a, b), (c, d), _ = ents[x]; (a2, b2), (c2, d2), _ = ents[y]
            if c == c2 == 0 and isnum(d) and isnum(d2) and d is not d2: continue
            if a == a2 == 0 and isnum(b) and isnum(b2) and b is not b2: continue
            ok = False
            for (p, q), (p2, q2) in (((a, b), (a2, b2)), ((c, d), (c2, d2))):
                if p == p2 and p != 0:
                    z = sub(q, q2)
                    if isnum(z) and (nv(z) == 0 or nv(z) % abs(p)): ok = True
            if not ok: return False
    return True
def same_step(s, h, have, k):
    """preservation of a sum: the iteration adds the summand of the template"""
    cur = h.tpl(k); ca = list(cur.args) if cur.op == '+' else [cur]
    if have.op != '+': return False
    r = list(have.args)
    for x in ca:
        if x not in r: return False
        r.remove(x)
    return bool(r) and s.red(add(*r)) is h.delta
def same_first(s, h, have, k, pc):
    """preservation of 'filled by the first iteration': an empty list gets the element, another one stays"""
    cur = h.tpl(k)
    if same(have, cur): return s.solver.check(list(pc) + [eq(k, I(0))], timeout=2000, lin=True) == 'unsat'
    return have.kind[0] == 'push' and same(have.kind[1], cur) and same(have.kind[2], h.first) and s.solver.check(list(pc) + [lt(I(0), k)], timeout=2000, lin=True) == 'unsat'
def same_fold(s, g, have, k, pc):
    """preservation of a running minimum: a better candidate replaces it, any other leaves it"""
    x, G, val, better, h = g.upd
    b = better(val, h.tpl(k))
    if same(have, g.tpl(k)) if not isinstance(have, T) else have is g.tpl(k):
        return not_(b) in pc or (G is not TRUE and not_(G) in pc)
    return (have is x if isinstance(have, T) else same(have, x)) and b in pc and (G is TRUE or all(c in pc for c in (G.args if G.op == 'and' else (G,))))
def same_rows(s, h, have, k, pc):
    """preservation of a table filled cell by cell: the iteration stores the entries of the template and nothing else"""
    if not getattr(h, 'ents', None): return False
    st = []; g = have
    while g.kind[0] == 'store': st.append(g.kind[1:]); g = g.kind[1]
    if g.kind[0] != 'fn' or len(g.kind) < 3 or g.kind[2] is not k or len(st) != len(h.ents): return False
    for (b_, i, j, x), ((ai, bi), (aj, bj), y) in zip(reversed(st), h.ents):
        if i is not add(mul(I(ai), k), bi) or j is not add(mul(I(aj), k), bj): return False
        if x is not y and not equalv(s, x, y, pc): return False
    return True
def same_count(s, a, b, k):
    return a is b or not tm.poly(sub(a, b)) or equalv(s, a, b, [le(I(0), k)])
def row_pre(h, lin, k):
    """elements not yet visited still have their initial content"""
    hv = h.h; v0 = h.v0
    def g(i):
        c = or_(*[solve_lin(i, a, b, k)[1] for a, b in lin])
        return v0.get(i) if c is FALSE else v_ite(c, hv.get(i), v0.get(i))
    return Vec(hv.et, ('hav', hv.kind[1], hv.len, g))
def ite_store(f):
    """ite of stores into the same cell -> store of an ite"""
    if f.kind[0] != 'ite': return f
    a = ite_store(f.kind[2]); b = ite_store(f.kind[3])
    for u, w, c in ((a, b, f.kind[1]), (b, a, not_(f.kind[1]))):
        if u.kind[0] == 'store' and w.kind[0] == 'hav' and u.kind[1].kind[0] == 'hav' and u.kind[1].kind[1] == w.kind[1]:
            try: return Vec(f.et, ('store', w, u.kind[2], v_ite(c, u.kind[3], w.get(u.kind[2]))))
            except Unsupported: pass
    if a.kind[0] == b.kind[0] == 'store' and a.kind[2] is b.kind[2] and (a.kind[1] is b.kind[1] or a.kind[1].kind is b.kind[1].kind):
        try: return Vec(f.et, ('store', a.kind[1], a.kind[2], v_ite(f.kind[1], a.kind[3], b.kind[3])))
        except Unsupported: pass
    return f
def lmap(old, new):
    if isinstance(old, T): return {old: new}
    m = {}
    if isinstance(old, Cx): m.update({old.re: new.re, old.im: new.im})
    elif isinstance(old, Mat):
        for a, b in zip(old.d, new.d): m.update(lmap(a, b))
    elif isinstance(old, Struct):
        for x in old.f: m.update(lmap(old.f[x], new.f[x]))
    return m
def solve_lin(i, a, b, kk):
    """iteration idx with a*idx+b = i and 0<=idx<kk: (idx, condition)"""
    d = sub(i, b)
    if a == 1: return d, and_(le(I(0), d), lt(d, kk))
    if a == -1: d = neg(d); return d, and_(le(I(0), d), lt(d, kk))
    if a < 0: d = neg(d); a = -a
    # write d = a*q + r syntactically when possible
    p = tm.poly(d)
    qq = {m: c // a for m, c in p.items() if c % a == 0}; rr = {m: c for m, c in p.items() if c % a != 0}
    if not rr:
        x = tm.from_poly(qq, 'I'); return x, and_(le(I(0), x), lt(x, kk))
    if set(rr) == {()}:
        return I(0), FALSE
    x = app('idiv', (d, I(a)), 'I')
    return x, and_(eq(app('imod', (d, I(a)), 'I'), I(0)), le(I(0), d), lt(x, kk))
def store_tpl(v0, offs, a, vals, k, kk):
    if len(vals) == 1 and a == 1 and kk is v0.len and isnum(offs[0]) and nv(offs[0]) == 0: return Vec(v0.et, ('fn', v0.len, lambda i: sv(vals[0], {k: i})))     # every position
    def at(i):
        r = None
        for b, x in zip(offs, vals):
            idx, c = solve_lin(i, a, b, kk)
            if c is FALSE: continue
            r = v_ite(c, sv(x, {k: idx}), r if r is not None else v0.get(i))
        return r if r is not None else v0.get(i)
    return Vec(v0.et, ('fn', v0.len, at))

def nested_perm(s, h, norm):
    """every row is permuted"""
    j = fresh('j', 'I'); i = fresh('i', 'I'); L = h.v0.len
    for st, _ in norm:
        f = get(st.mem[h.cell], h.path)
        if f is h.h or f.kind is h.h.kind: continue
        if f.kind[0] != 'fn' or f.len is not L: return False
        pc = list(st.pc) + [le(I(0), j), lt(j, L)]
        row = f.get(j); old = h.h.get(j)
        if not isinstance(row, Vec) or not equalv(s, row.len, old.len, pc): return False
        x = resolve(s, row.get(i), pc + [le(I(0), i), lt(i, row.len)])
        p = x.args[-1] if x.op == 'app' and x.args[0].startswith(h.key) and x.args[-2] is j else None
        while p is not None and p.op == 'app' and p.args[0].startswith('perm#') and equalv(s, p.args[-2], row.len, pc): p = p.args[-1]
        if p is not i: return False
    nm = 'perm#%s' % s.loopuid(); ctx = tuple(s.loopctx); v0 = h.v0
    def rowof(kk, j):
        r = v0.get(j)
        return Vec(r.et, ('fn', r.len, lambda i: r.get(app(nm, ctx + (kk, j, r.len, i), 'I'))))
    h.kind = 'perm'; h.tpl = (lambda kk: v0 if isnum(kk) and nv(kk) == 0 else Vec(v0.et, ('fn', L, lambda j: rowof(kk, j))))
    return True
def permuted(s, pend, norm, k, N):
    """vectors in which every iteration only exchanges two elements: a permutation of the initial content"""
    hit = False
    for h in pend:
        if not (isinstance(h.h, Vec) and h.h.len is h.v0.len): continue
        good = True; ex = []
        if h.v0.et.startswith('std::vector'):
            if nested_perm(s, h, norm): hit = True
            continue
        for st, _ in norm:
            f = get(st.mem[h.cell], h.path)
            if f is h.h or f.kind is h.h.kind: continue
            at = []; g = f
            j = fresh('j', 'I'); L = h.h.len
            if f.kind[0] == 'fn' and f.len is L:      # the body permutes (an inner loop of this kind)
                x = resolve(s, f.get(j), list(st.pc) + [le(I(0), j), lt(j, L)])
                p = x.args[-1] if x.op == 'app' and x.args[0].startswith(h.key) else None
                while p is not None and p.op == 'app' and p.args[0].startswith('perm#') and p.args[-2] is L: p = p.args[-1]
                if p is j: continue
                good = False; break
            while g.kind[0] == 'store':
                if not any(g.kind[2] is a for a in at): at.append(g.kind[2])
                g = g.kind[1]
            if not (g.kind[0] == 'hav' and g.kind[1] == h.key and 1 <= len(at) <= 2 and f.len is h.h.len): good = False; break
            a = at[-1]; b = at[0]; L = h.h.len; j = fresh('j', 'I'); rng = [le(I(0), j), lt(j, L)]
            if not all(s.solver.check(list(st.pc) + [not_(and_(le(I(0), x), lt(x, L)))], timeout=2000, lin=True) == 'unsat' for x in at): good = False; break
            want = v_ite(eq(j, a), h.h.get(b), v_ite(eq(j, b), h.h.get(a), h.h.get(j)))
            if not equalv(s, want, f.get(j), list(st.pc) + rng): good = False; break
            ex.append((a, b, list(st.pc)))
        if not good:
            if DBG: print("  not permuted:", f.kind[0], show(f.len), show(h.v0.len), show(f.get(fresh("j", "I")))[:600])
            continue
        nm = 'perm#%s' % s.loopuid(); ctx = tuple(s.loopctx); L = h.v0.len
        h.kind = 'perm'; h.exch = (ex, k, N, L)
        h.tpl = (lambda kk, h=h, nm=nm, ctx=ctx, L=L: h.v0 if isnum(kk) and nv(kk) == 0 else Vec(h.v0.et, ('fn', L, lambda j: h.v0.get(app(nm, ctx + (kk, L, j), 'I')))))
        s.perms.append(h.exch); hit = True
    return hit

def fold(s, pend, norm, nb, k, N, base, inrange):
    """running minimum: one location best with value ite(val<best, val, best), companions updated with it"""
    pk = {h.key for h in pend} | lens(pend)
    for h in pend:
        if not (isinstance(h.h, T) and h.h.sort in 'RI'): continue
        # the two kinds of paths: improved (value independent of pending) and kept
        imp = []; kept = []; ok = True
        for st, _ in norm:
            v = get(st.mem[h.cell], h.path)
            cs = [c for c in st.pc[nb:] if c not in inrange]
            if v is h.h: kept.append((cs, st))
            elif not free(v, pk): imp.append((cs, v, st))
            else: ok = False
        if not ok or not imp or not kept: continue
        # val: common value; the condition must be equivalent to val < best
        def split(cs): return [c for c in cs if free(c, {h.key})], [c for c in cs if not free(c, {h.key})]
        vals = None
        guard = FALSE; good = True; strict = None
        parts = []
        for cs, v, st in imp:
            dep, ind = split(cs)
            if len(dep) != 1 or free(and_(*ind), pk): good = False; break
            d = dep[0]
            if d is lt(v, h.h): sdir = '<'
            elif d is le(v, h.h): sdir = '<='
            elif d is lt(h.h, v): sdir = '>'
            elif d is le(h.h, v): sdir = '>='
            else: good = False; break
            if strict is None: strict = sdir
            if strict != sdir: good = False; break
            parts.append((and_(*ind), v, st))
        if not good:
            continue
        G = or_(*[c for c, _, _ in parts])       # candidate considered in this iteration
        val = merged([(c, v) for c, v, _ in parts])
        # kept paths: either not considered, or not better
        for cs, st in kept:
            better = {'<': lt(val, h.h), '<=': le(val, h.h), '>': lt(h.h, val), '>=': le(h.h, val)}[strict]
            if s.solver.check(list(base.pc) + inrange + cs + [G, better], timeout=2000, lin=True) != 'unsat': good = False
        if not good:
            if DBG: print("  not permuted:", f.kind[0], show(f.len), show(h.v0.len), show(f.get(fresh("j", "I")))[:600])
            continue
        uid = s.loopuid(); ctx = tuple(s.loopctx)
        def m_(kk): return app('arg!%s' % uid, ctx + (kk,), 'I')
        def better_(x, y): return {'<': lt, '<=': le, '>': lambda a, b: lt(b, a), '>=': lambda a, b: le(b, a)}[strict](x, y)
        comp = []
        for g in pend:
            if g is h: comp.append((g, val)); continue
            fs = []; okc = True
            for c, v, st in parts:
                x = get(st.mem[g.cell], g.path)
                if x is g.h or free(x, pk): okc = False; break
                fs.append((c, x))
            if not okc: continue
            if any(not unchanged(get(st.mem[g.cell], g.path), g.h) for cs, st in kept): continue
            comp.append((g, merged(fs)))
        v0 = h.v0
        def at(x, j): return sv(x, {k: j})
        def facts(n):
            m = m_(n); j = fresh('j', 'I')
            out = [le(I(-1), m), lt(m, n)]
            gj = at(G, j); vj = at(val, j)
            first = and_(le(I(1), n), at(G, I(0)), better_(at(val, I(0)), v0))
            if s.solver.check(list(base.pc) + [not_(first)], timeout=1500) == 'unsat': out.append(le(I(0), m))   # the first candidate already improves
            # nothing considered: no candidate better than the initial value
            out.append(implies(eq(m, I(-1)), forall(j, implies(and_(le(I(0), j), lt(j, n), gj), not_(better_(vj, v0))))))
            vm = at(val, m)
            j2 = fresh('j', 'I')
            out.append(implies(le(I(0), m), and_(at(G, m), better_(vm, v0),
                       forall(j2, implies(and_(le(I(0), j2), lt(j2, n), at(G, j2)), not_(strictly(strict, at(val, j2), vm)))))))
            j3 = fresh('j', 'I')
            out.append(implies(le(I(0), m), forall(j3, implies(and_(le(I(0), j3), lt(j3, n), at(G, j3), (lt(j3, m) if strict in '<>' else lt(m, j3))), not_(better_(at(val, j3), vm)) if strict not in '<>' else strictly(strict, vm, at(val, j3))))))
            return out
        for g, x in comp:
            g.kind = 'fold'
            def tpl(kk, g=g, x=x):
                m = m_(kk)
                return FoldVal.make(g.v0, x, k, m, kk, s, (lambda j, x=x: at(x, j)), G, val, better_, h, comp)
            g.tpl = tpl; g.upd = (x, G, val, better_, h)
            g.facts = (facts if g is h else (lambda n: []))
            if g is h:
                def defn(kx):
                    mk = m_(kx); bk = h.tpl(kx)
                    return [le(I(-1), mk), lt(mk, kx) if not (isnum(kx)) else TRUE,
                            eq(m_(add(kx, I(1))), ite(and_(G, better_(val, bk)), kx, mk))]
                h.defn = defn
        s.folds[uid] = dict(G=G, val=val, k=k, strict=strict, h=h, m=m_, at=at, v0=v0)
        return True
    return False
def strictly(op, a, b): return lt(a, b) if op[0] == '<' else lt(b, a)
class FoldVal:
    @staticmethod
    def make(v0, x, k, m, kk, s, at, G, val, better, h, comp):
        if isnum(kk) and nv(kk) == 0: return v0
        return v_ite(lt(m, I(0)), v0, at(m))
