"""C06 Index lists: a method given a list behaves as without one on the listed correspondences.

Every method is executed twice over the real code: once with an arbitrary index list over an arbitrary data set, once
without a list on the data set that holds exactly the listed correspondences (correspondence e of the second is
correspondence idx[e] of the first). Results, outputs and path conditions have to coincide. Sub-solvers that receive
plain values are arbitrary functions of these values."""
from .lib import *
from dv import loops as lp
from dv import terms as tm
from dv import interp as ip
AP = 'opengv::absolute_pose::'; RP = 'opengv::relative_pose::'; PC = 'opengv::point_cloud::'
SRC = ['src/absolute_pose/methods.cpp', 'src/relative_pose/methods.cpp', 'src/point_cloud/methods.cpp', 'src/triangulation/methods.cpp']
N_ = var('n', 'I')
_d = [0]
def exposed(it, v, d=0):
    """the content of a value as terms; elements of sequences as functions of their position"""
    if isinstance(v, T): return [naming(v) if v.sort == 'R' else v]
    if isinstance(v, Cx): return [v.re, v.im]
    if isinstance(v, Mat): return [y for x in v.d for y in exposed(it, x, d)]
    if isinstance(v, Struct): return [y for k in v.f if not k.startswith('#') for y in exposed(it, v.f[k], d)]
    if isinstance(v, Ptr): return exposed(it, it.read(v.lv), d) if v.lv else []
    if isinstance(v, Vec):
        if isnum(v.len) and v.kind[0] == 'c': return [v.len] + [y for x in v.kind[1] for y in exposed(it, x, d)]
        p = var('$%d' % d, 'I')
        return [v.len] + exposed(it, v.get(p), d + 1)
    if isinstance(v, SMat):
        p, q = var('$%d' % d, 'I'), var('$%d' % (d + 1), 'I')
        return [v.r, v.c, v.get(p, q)]
    if isinstance(v, Opaque): return []
    raise Unsupported('argument %r' % (v,))
def signature(it, f, e):
    """parameter types, result type, whether the object is const"""
    if f is not None: return [p['t'] for p in f['params']], f['ret'], f['fid'].endswith(' const'), f['q']
    fid = e['fid']; sig = fid[fid.index('|') + 1:]
    a = sig.index('('); d = 0; ps = ['']
    body = sig[a + 1:sig.rindex(')')]
    for ch in body:
        if ch in '<(': d += 1
        elif ch in '>)': d -= 1
        if ch == ',' and d == 0: ps.append('')
        else: ps[-1] += ch
    return [p.strip() for p in ps if p.strip()], e['t'], sig.endswith('const'), e['q']
def opaque(it, f, this, args):
    """any function of the values it is given"""
    pts, ret, const, q = signature(it, f, it.callexpr)
    ins = []
    if this is not None: ins += exposed(it, it.read(this))
    for p, a in zip(pts, args): ins += exposed(it, it.rv(a))
    ins = tuple(ins)
    it.trusted.add('sub-solver as an arbitrary function of its arguments: ' + q)
    for i, (p, a) in enumerate(zip(pts, args)):
        t = p.strip()
        if t.startswith('const ') or ' const &' in t: continue
        nm = '%s.out%d' % (q, i)
        if t.endswith('&') and a[0] == 'lv': it.write(a[1], it.symval(noref(t), nm, ins))
        elif t.endswith('*') or t.endswith(']'):
            v = it.rv(a)
            l = v.lv if isinstance(v, (Ptr, Iter)) else a[1]
            while l[1] and l[1][-1][0] in 'ei' and isinstance(l[1][-1], tuple) and isinstance(it.read((l[0], l[1][:-1])), Vec): l = (l[0], l[1][:-1])
            it.write(l, refill(it.read(l), nm, ins))
    if this is not None and not const and not it.read_struct(this).cls.startswith('#'):
        it.write(this, it.symval(it.read_struct(this).cls, q + '.this', ins))
    if ret == 'void': return None
    return ('v', it.symval(ret, q, ins))
def refill(v, nm, ins):
    if isinstance(v, T): return app(nm, ins, v.sort)
    if isinstance(v, Vec) and v.kind[0] == 'c': return Vec(v.et, ('c', [refill(x, '%s.%d' % (nm, i), ins) for i, x in enumerate(v.kind[1])]))
    if isinstance(v, Vec) and isnum(v.len): return Vec(v.et, ('c', [refill(v.get(I(i)), '%s.%d' % (nm, i), ins) for i in range(nv(v.len))]))
    raise Unsupported('output array')
class Subsolvers(dict):
    def get(s, k, d=None):
        if isinstance(k, str):
            q = k.split('(')[0].split('|')[0]
            if '::modules::Epnp::' in q: return EPNP.get(q.split('::')[-1])
            if '::modules::' in q or q.startswith('opengv::math::'): return opaque
        return dict.get(s, k, d)
# the control-point solver as a container of correspondences and a function of them
def _new(it, f, this, args): it.trusted.add('assumed contract: Epnp keeps the added correspondences in order'); return ('v', Struct('#epnp', {'pts': Vec('Eigen::Matrix<double, 6, 1, 0, 6, 1>', ('c', []))}))
def _reset(it, f, this, args): it.write(this, Struct('#epnp', {'pts': Vec('Eigen::Matrix<double, 6, 1, 0, 6, 1>', ('c', []))}))
def _add(it, f, this, args):
    p = it.read(this).f['pts']
    it.write((this[0], this[1] + (('f', 'pts'),)) , Vec(p.et, ('push', p, Mat(6, 1, [toreal(it.rv(a)) for a in args]))))
EPNP = {'Epnp': _new, '~Epnp': lambda *a: None, 'set_maximum_number_of_correspondences': lambda *a: None, 'reset_correspondences': _reset, 'add_correspondence': _add, 'compute_pose': opaque}
def decomp(it, base, A, args):
    ins = tuple(exposed(it, A)); nm = base.split('::')[1]
    def S(t, x): return it.symval(t, nm + x, ins)
    r, c = it.smat_dim(A); f = {'A': A}
    md = lambda a, b: 'Eigen::Matrix<double, %d, %d, 0,0,0>' % (a, b)
    sm = lambda x, a, b: SMat(a, b, ('fn', lambda i, j: app(nm + x, ins + (i, j), 'R')))
    m = lambda x, a, b: S(md(nv(a), nv(b)), x) if isnum(a) and isnum(b) else sm(x, a, b)
    if base == 'Eigen::JacobiSVD':
        k = c if isnum(c) and not (isnum(r) and nv(r) < nv(c)) else r
        f['U'] = m('.U', r, k if len(args) > 1 and not isnum(r) else r); f['V'] = m('.V', c, c if isnum(c) else k); f['S'] = m('.S', k, I(1))
    elif base == 'Eigen::EigenSolver':
        f['D'] = S('Eigen::Matrix<std::complex<double>, %d, 1,0,0,0>' % A.r, '.D'); f['V'] = S('Eigen::Matrix<std::complex<double>, %d, %d,0,0,0>' % (A.r, A.r), '.V')
    else: return None
    return Struct('#' + base, f, {'name': base})
class Data:
    """the correspondences: the e-th one used, whichever way it is addressed"""
    def __init__(s, listed): s.listed = listed; s.bad = []
    def pos(s, x):
        if not s.listed: return x
        if x.op == 'app' and x.args[0] == 'idx[]' and len(x.args) == 2: return x.args[1]
        s.bad.append(show(x)); return app('unlisted', (x,), 'I')
    def hook(s, it, base, st, e, f):
        name = e['name']; nm = (st.meta or {}).get('name', '')
        if nm != 'adapter': return NotImplemented
        args = [it.rv(it.arg_ref(x)) for x in e['args']]
        if name == 'getNumberCorrespondences': return ('v', var('data.size', 'I') if s.listed else s.n)
        if name.startswith(('set',)):
            g = dict(it.st.ghost.get('prior', {})); g[name[3:]] = args[0]; it.st.ghost['prior'] = g; return None
        if name.startswith('get') and not args:
            g = it.st.ghost.get('prior', {})
            if name[3:] in g: return ('v', copyv(g[name[3:]]))
            return ('v', it.symval(e['t'], 'data.' + name))
        it.trusted.add('assumed contract: ' + name + ' returns the stored correspondence data')
        return ('v', it.symval(e['t'], 'data.' + name, tuple(s.pos(a) if isinstance(a, T) else a for a in args)))
def inverse(it, A):
    """the inverse as a function of the matrix entries"""
    ins = tuple(exposed(it, A))
    return it.symval('Eigen::Matrix<double, %d, %d, 0,0,0>' % (A.r, A.r), 'matinv', ins)
_size = {}
def naming(t):
    """large values are named: the same value gets the same name, as a function of the loop counters in it"""
    r = _size.get(t)
    if r is None:
        at = tm.atoms_of(t)
        sums = [x for x in t.args if x.op == 'sum' and not isnum(x.args[2]) and any('!' in str(y.args[0]) for y in tm.atoms_of(x.args[2]) if y.op == 'var')] if t.op == '+' else []
        if sums and len(sums) < len(t.args):      # a sum that is being built: only the summand is named
            r = add(*sums, naming(add(*[x for x in t.args if x not in sums])))
        elif len(at) < 60 or any((x.op in ('var', 'app')) and x.args[0].startswith('hv!') for x in at): r = t
        else: r = app('val#%d' % t.id, sorted((x for x in at if x.op == 'var' and x.sort == 'I' and '!' in x.args[0]), key=lambda x: x.id), 'R')
        _size[t] = r
    return r
def minimizer(it, st, x):
    """the minimiser sees the residuals as a function of the parameters only"""
    p = it.symval('Eigen::Matrix<double,6,1,0,0,0>', '$par'); m = it.symval('Eigen::Matrix<double,-1,1,0,0,0>', '$res')
    fun = st.f['fun'].lv
    while True:
        o = it.read_struct(fun)
        if o.cls.startswith('#Eigen'): fun = o.f['fun'].lv
        else: break
    f = [g for g in it.prog.by_q.get(o.cls + '::operator()', [])]
    if not f: raise Unsupported('residual functor')
    N = o.f['m_values'] if 'm_values' in o.f else None
    keep = it.st.ghost.get('prior')
    pv_ = it.alloc(p); rv_ = it.alloc(SMat(N, I(1), m.kind))
    it.call(f[0], fun, [('lv', pv_), ('lv', rv_)])
    res = it.read(rv_)
    if keep is None: it.st.ghost.pop('prior', None)
    else: it.st.ghost['prior'] = keep
    old = it.to_mat(it.read(x))
    ins = tuple(exposed(it, old) + exposed(it, res) + [N])
    it.trusted.add('Eigen::LevenbergMarquardt: an arbitrary function of the starting value and the residual function')
    g = dict(it.st.ghost.get('prior', {}))
    for k in ('t12', 'R12'):
        if k in g: g[k] = it.symval('Eigen::Matrix<double,3,%d,0,0,0>' % (1 if k[0] == 't' else 3), 'prior after minimisation', ins)
    it.st.ghost['prior'] = g
    it.write(x, it.symval('Eigen::Matrix<double, 6, 1,0,0,0>', 'lm.x', ins))
def execute(ck, q, cls, listed, least, exact, sel):
    D = Data(listed); n = I(least) if exact else N_; D.n = n
    it = ck.interp(Subsolvers(), virtual_hook=D.hook, decomp=decomp, lm=minimizer, inverse=inverse, red=naming, merge_if=q.endswith(('gpnp', 'seventeenpt')), havoc_ok=True)
    f = sel(ck, q, listed)
    at = (lambda i: app('idx[]', (i,), 'I')) if listed else (lambda i: i)      # without an overload lacking the list: all correspondences in order
    iv = Vec('int', ('c', [at(I(i)) for i in range(least)]) if exact else ('fn', n, at))
    outs_ = []
    def th():
        it.assume(le(I(least), n))
        args = []
        for p in f['params']:
            t = noref(p['t'])
            if t.endswith(cls.split('::')[-1]): args.append(('lv', it.alloc(it.symval(cls, 'adapter'))))
            elif 'vector<int' in t and p['name'].startswith('ind'): args.append(('lv', it.alloc(iv)))
            elif t in INTS and p['name'].startswith('index'): args.append(('v', I(int(p['name'][5:]))))
            elif ip.is_ref(p['t']): args.append(('lv', it.alloc(it.symval(t, p['name']))))
            else: args.append(('v', it.symval(t, p['name'])))
        v = it.rv(it.call(f, None, args))
        return [v] + [it.read(a[1]) for a, p in zip(args, f['params']) if ip.is_ref(p['t']) and not p['t'].startswith('const ') and not noref(p['t']).endswith(cls.split('::')[-1])] + [Struct('prior', dict(it.st.ghost.get('prior', {})))]
    outs = [(st, v) for st, k, v in it.explore(th)]
    return it, outs, D
def decisions(it, st, least):
    """the path condition without what every list long enough satisfies"""
    def trivial(c): return c.sort == 'B' and all(x is N_ for x in tm.atoms_of(c) if x.op in ('var', 'app')) and it.solver.check([le(I(least), N_), not_(c)], timeout=500, lin=True) == 'unsat'
    return [c for c in st.pc if not trivial(c)]
def method(ck, q, cls, least, exact, sel):
    itA, A, DA = execute(ck, q, cls, True, least, exact, sel)
    itB, B, DB = execute(ck, q, cls, False, least, exact, sel)
    ck.cover(A)
    ck.record('%s: every access is to a listed correspondence' % ck.cur, 'proved' if not DA.bad else 'refuted', 'symbolic execution', 0, {'accesses': DA.bad[:5]} if DA.bad else None)
    ck.record('%s: both executions take the same decisions' % ck.cur, 'proved' if [decisions(itA, st, least) for st, _ in A] == [decisions(itB, st, least) for st, _ in B] else 'unknown', 'comparison of path conditions', 0,
              {'list': [[show(c)[:200] for c in st.pc] for st, _ in A][:3], 'no list': [[show(c)[:200] for c in st.pc] for st, _ in B][:3]})
    for (sa, va), (sb, vb) in zip(A, B):
        for j, (a, b) in enumerate(zip(va, vb)):
            ok = (a is None and b is None) or lp.equalv(itA, a, b, sa.pc)
            ck.record('%s: %s' % (ck.cur, 'result' if j == 0 else 'state left in the adapter' if j == len(va) - 1 else 'output %d' % j), 'proved' if ok else 'unknown', 'congruence', 0, None if ok else {'with list': str(a)[:1500], 'without': str(b)[:1500]})
    ck.used(itA); ck.obligations(itA); 
def pick(ck, q, listed):
    fs = [f for f in ck.prog.by_q.get(q, []) if not any('Indices' in p['t'] for p in f['params'])]
    ls = [f for f in fs if any('vector<int' in p['t'] for p in f['params'])]
    us = [f for f in fs if f not in ls]
    r = (ls if listed else us) or ls
    if not r: raise Unsupported('no overload of %s %s an index list' % (q, 'with' if listed else 'without'))
    return r[0]
def picker(outp):
    def sel(ck, q, listed):
        fs = [f for f in ck.prog.by_q.get(q, []) if any(('Output' in p['t']) for p in f['params']) == outp and not any('Indices' in p['t'] for p in f['params'])]
        r = [f for f in fs if any('vector<int' in p['t'] for p in f['params']) == listed]
        if not r: raise Unsupported('no overload of ' + q)
        return r[0]
    return sel
METHODS = [(AP + m, AP + 'AbsoluteAdapterBase', k) for m, k in (('p2p', 2), ('p3p_kneip', 3), ('p3p_gao', 3), ('gp3p', 3), ('epnp', 6), ('gpnp', 6), ('upnp', 3), ('optimize_nonlinear', 6))] + \
          [(RP + m, RP + 'RelativeAdapterBase', k) for m, k in (('twopt', 2), ('twopt_rotationOnly', 2), ('rotationOnly', 3), ('fivept_stewenius', 5), ('fivept_nister', 5), ('fivept_kneip', 5), ('sevenpt', 7), ('eightpt', 8), ('sixpt', 6), ('seventeenpt', 17), ('optimize_nonlinear', 6))] + \
          [(PC + m, PC + 'PointCloudAdapterBase', k) for m, k in (('threept_arun', 3), ('optimize_nonlinear', 3))]
def run(ck):
    ck.load(*SRC)
    import os
    only = os.environ.get('DV_ONLY', '')
    for q, cls, k in METHODS:
        if only in q: ck.contract(q.split('opengv::')[1], method, q, cls, k, q.endswith(('sixpt', 'fivept_kneip')), pick)
    for m, k in (('eigensolver', 5), ('ge', 6)):
        if only in m:
            ck.contract('relative_pose::%s with output' % m, method, RP + m, RP + 'RelativeAdapterBase', k, False, picker(True))
            ck.contract('relative_pose::%s' % m, method, RP + m, RP + 'RelativeAdapterBase', k, False, picker(False))
    ck.assume += ['the iterative and spectral back ends of a solver (Levenberg-Marquardt, SVD, eigenvalue solver, Groebner solvers, root finders) are arbitrary deterministic functions of what they are handed',
                  'the container of the epnp solver returns a function of the rows it was given, in the order it was given them (its arrays are modelled as a list)',
                  'sixpt and fivept_kneip are compared on exactly the number of correspondences they accept (six and five)']
    ck.native('c06.cpp')
