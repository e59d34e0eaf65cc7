"""Symbolic execution of exported C++ functions, generating proof obligations."""
import json, os
from .terms import *
from .values import *

class Infeasible(Exception): pass
class Ret(Exception):
    def __init__(s, v): s.v = v
class Brk(Exception): pass
class Cont(Exception): pass
class LoopExit(Exception): pass
class Refuted(Exception): pass

class Program:
    def __init__(s):
        s.fn = {}; s.rec = {}; s.over = {}; s.by_q = {}; s.ntu = 0; s.files = set(); s.enums = {}; s.enumtypes = set()
    def load(s, data, tag):
        s.enums.update(data['enums']); s.enumtypes |= set(data['enumtypes'])
        for r in data['records']: s.rec.setdefault(r['q'], r)
        for f in data['functions']:
            if f['body'] is None: continue
            f['tu'] = tag
            key = f['fid']
            if key in s.fn: continue
            s.fn[key] = f
            s.files.add(f['file'])
            for o in f.get('over', []): s.over.setdefault(o, []).append(f)
            s.by_q.setdefault(f['q'], []).append(f)
    def enum_value(s, q):
        if q not in s.enums: raise Unsupported('enumerator %s not found in the source' % q)
        return int(s.enums[q])
    def find(s, q, *contain):
        c = [f for f in s.by_q.get(q, []) if all(x in f['fid'] for x in contain)]
        if not c: raise Unsupported('function %s%s not found in the source' % (q, list(contain) or ''))
        return c[0]
    def bases(s, cls):
        out = [cls]; i = 0
        while i < len(out):
            r = s.rec.get(out[i]); i += 1
            if r: out.extend(b for b in r['bases'] if b not in out)
        return out
    def resolve(s, cls, fid):
        """final overrider of method fid for dynamic class cls"""
        fam = {fid}; ch = True
        cand = {}
        # family: everything that (transitively) overrides fid
        work = [fid]
        while work:
            x = work.pop()
            for f in s.over.get(x, []):
                if f['fid'] not in fam: fam.add(f['fid']); work.append(f['fid'])
        for c in s.bases(cls):
            for f in fam:
                d = s.fn.get(f)
                if d and d.get('cls') == c: return d
        return None

class Frame:
    __slots__ = ('env', 'this', 'f')
    def __init__(s, f, this): s.env = {}; s.this = this; s.f = f

class State:
    __slots__ = ('mem', 'pc', 'next', 'facts', 'ghost')
    def __init__(s): s.mem = {}; s.pc = []; s.next = 1; s.facts = []; s.ghost = {}
    def clone(s):
        n = State(); n.mem = {k: copyv(v) for k, v in s.mem.items()}; n.pc = list(s.pc); n.next = s.next
        n.facts = list(s.facts); n.ghost = {k: v if isinstance(v, (int, str, list, dict, tuple, frozenset)) else copyv(v) for k, v in s.ghost.items()}
        return n

class Oracle:
    __slots__ = ('pre', 'pos', 'taken', 'alts')
    def __init__(s, pre): s.pre = pre; s.pos = 0; s.taken = []; s.alts = []

class Obl:
    __slots__ = ('name', 'pc', 'goal', 'kind', 'loc', 'facts', 'res', 'how', 'time', 'model', 'hyp')
    def __init__(s, name, pc, goal, kind, loc, facts=()): s.name = name; s.pc = pc; s.goal = goal; s.kind = kind; s.loc = loc; s.facts = facts; s.res = None; s.how = ''; s.time = 0; s.model = None; s.hyp = ()

def empty(n):
    """a statement without effect"""
    if n is None: return True
    if isinstance(n, list): return all(empty(x) for x in n)
    return isinstance(n, dict) and (n.get('k') in ('null', 'empty', 'nop') or n.get('k') in ('block', 'compound') and all(empty(x) for x in n.get('b', n.get('s', [None, 1]))))
class Interp:
    def __init__(s, prog, solver, contracts=None, cfg=None):
        s.prog = prog; s.solver = solver; s.st = State(); s.orc = Oracle([]); s.frames = []
        s.obls = []; s._oblkeys = set()
        s.contracts = contracts if contracts is not None else {}     # fid or q -> callable(interp, fdef, this, args) -> value
        s.cfg = cfg or {}
        s.depth = 0
        s.called = set(); s.trusted = set(); s.inlined = set(); s.loops = []; s.perms = []; s.discovering = 0; s.uninit = 0
        s.loop_hook = s.cfg.get('loop_hook')
        s.virtual_hook = s.cfg.get('virtual_hook')
        s.quiet = 0
        s.loopctx = []; s._luid = 0; s.folds = {}; s.concats = {}; s.filters = {}
        s.nodef = s.cfg.get('nodef', True)
        s.red = s.cfg.get('red')     # rewriting of real values by the hypotheses of the contract (equivalence preserving)

    def loopuid(s): return s.newname('L')[0]
    def newname(s, kind):
        """name of a value returned by a modelled library routine: deterministic along a path,
        a function of the iteration number inside summarised loops"""
        key = '#' + kind + ''.join('@%s' % k.args[0] for k in s.loopctx)
        n = s.st.ghost.get(key, 0); s.st.ghost[key] = n + 1
        return kind + str(n) + ''.join('@%s' % k.args[0] for k in s.loopctx), tuple(s.loopctx)
    # ------------------------------------------------------------ obligations
    def oblige(s, kind, goal, what, ln=None):
        if s.quiet: return
        if goal is TRUE: 
            f = s.frames[-1].f if s.frames else None
            loc = '%s:%s' % (os.path.basename(f['file']) if f else '?', ln)
            key = (kind, what, loc, 'T')
            if key in s._oblkeys: return
            s._oblkeys.add(key)
            o = Obl('%s@%s %s' % (kind, loc, what), (), TRUE, kind, loc); o.res = 'proved'; o.how = 'simplifier'
            s.obls.append(o); return
        f = s.frames[-1].f if s.frames else None
        loc = '%s:%s' % (os.path.basename(f['file']) if f else '?', ln)
        key = (kind, loc, goal, tuple(s.st.pc))
        if key in s._oblkeys: return
        s._oblkeys.add(key)
        s.obls.append(Obl('%s@%s %s' % (kind, loc, what), tuple(s.st.pc), goal, kind, loc, tuple(s.st.facts)))

    def assume(s, c):
        if c is TRUE: return
        if c is FALSE: raise Infeasible()
        s.st.pc.append(c)

    # ------------------------------------------------------------ exploration
    def explore(s, thunk):
        base = s.st; saved = s.orc; nfr = len(s.frames); dep = s.depth
        work = [[]]; out = []
        n = 0
        while work:
            pre = work.pop(); n += 1
            if n > s.cfg.get('max_paths', 4000): raise Unsupported('too many paths')
            s.st = base.clone(); s.orc = Oracle(pre)
            try:
                try: v = thunk(); kind = 'normal'
                except Ret as r: kind = 'return'; v = r.v
                except Brk: kind = 'break'; v = None
                except Cont: kind = 'continue'; v = None
                except LoopExit: kind = 'exit'; v = None
                except Infeasible: kind = 'infeasible'; v = None
                o = s.orc
            finally:
                s.orc = saved; del s.frames[nfr:]; s.depth = dep
            if kind != 'infeasible': out.append((s.st, kind, v))
            for i in range(len(pre), len(o.taken)):
                for alt in o.alts[i]:
                    work.append(o.taken[:i] + [alt])
        s.st = base
        return out

    def choose(s, conds):
        """fork over a list of conditions (assumed exhaustive); returns index"""
        o = s.orc
        if o.pos < len(o.pre): k = o.pre[o.pos]; alts = []
        else:
            feas = [i for i, c in enumerate(conds) if c is not FALSE and (c is TRUE or s.feasible(c))]
            if not feas: raise Infeasible()
            k = feas[0]; alts = feas[1:]
        o.pos += 1; o.taken.append(k); o.alts.append(alts)
        s.assume(conds[k])
        return k

    def known(s, c):
        if c is TRUE: return True
        if c is FALSE: return False
        pc = s.st.pc
        if c in pc: return True
        n = not_(c)
        if n in pc: return False
        return None
    def feasible(s, c):
        k = s.known(c)
        if k is not None: return k
        return s.solver.feasible(s.st.pc, c)
    def valid(s, c):
        k = s.known(c)
        if k is not None: return k
        return not s.solver.feasible(s.st.pc, not_(c))
    def decide(s, c):
        simp = s.cfg.get('simp')
        if simp is not None and c.op not in ('true', 'false'): c = simp(c)
        k = s.known(c)
        if k is not None: return k
        return s.choose([c, not_(c)]) == 0

    # ---------------------------------------------------------------- memory
    def alloc(s, v):
        c = s.st.next; s.st.next += 1
        s.st.mem[c] = v
        return (c, ())
    def read(s, lv):
        v = s.st.mem[lv[0]]
        for p in lv[1]: v = s.step(v, p)
        return copyv(v)
    def step(s, v, p):
        k = p[0]
        if isinstance(v, Ptr) and k != 'p': v = s.read(v.lv)
        if k == 'f':
            if not isinstance(v, Struct) or p[1] not in v.f: raise Unsupported('field %s of %r' % (p[1], v))
            return v.f[p[1]]
        if k == 'i':
            if isinstance(v, Vec): return v.get(p[1])
            raise Unsupported('index into %r' % (v,))
        if k == 'e':
            return s.mat_get(v, p[1], p[2])
        if k == 'm':
            return Mat(p[1], p[2], [s.mat_get(v, i, j) for (i, j) in p[3]])
        raise Unsupported('path ' + k)
    def mat_get(s, v, i, j):
        if isinstance(v, SMat): return v.get(i if isinstance(i, T) else I(i), j if isinstance(j, T) else I(j))
        if isinstance(i, T) and isnum(i): i = nv(i)
        if isinstance(j, T) and isnum(j): j = nv(j)
        if not isinstance(v, Mat): raise Unsupported('matrix access on %r' % (v,))
        if isinstance(i, int) and isinstance(j, int):
            if not (0 <= i < v.r and 0 <= j < v.c): raise OutOfBounds('matrix entry (%d,%d) of %dx%d' % (i, j, v.r, v.c))
            return v[i, j]
        r = None
        for a in range(v.r):
            for b in range(v.c):
                c = and_(eq(i if isinstance(i, T) else I(i), I(a)), eq(j if isinstance(j, T) else I(j), I(b)))
                if c is FALSE: continue
                r = v[a, b] if r is None else v_ite(c, v[a, b], r)
        return r
    def write(s, lv, new):
        s.st.mem[lv[0]] = s.upd(s.st.mem[lv[0]], lv[1], new)
    def upd(s, v, path, new):
        if not path:
            return s.coerce(v, new)
        p = path[0]; k = p[0]
        if isinstance(v, Ptr):
            s.write((v.lv[0], v.lv[1] + path), new); return v
        if k == 'f':
            if not isinstance(v, Struct): raise Unsupported('field write %s' % p[1])
            v.f[p[1]] = s.upd(v.f.get(p[1]), path[1:], new); return v
        if k == 'i':
            if not isinstance(v, Vec): raise Unsupported('index write')
            sub = v.get(p[1]) if len(path) > 1 or True else None
            return v.store(p[1], s.upd(sub, path[1:], new))
        if k == 'e':
            return s.mat_set(v, p[1], p[2], new)
        if k == 'm':
            if isinstance(new, (T, Cx)) and p[1] == p[2] == 1: new = Mat(1, 1, [new])
            if not isinstance(new, Mat): raise Unsupported('view assignment of %r' % (new,))
            nd = new.d
            if (new.r, new.c) != (p[1], p[2]):
                if new.r * new.c == p[1] * p[2] and 1 in (new.r, new.c): pass   # vector transposition is implicit in Eigen
                else: raise Unsupported('view assignment %dx%d := %dx%d' % (p[1], p[2], new.r, new.c))
            for (i, j), x in zip(p[3], nd): v = s.mat_set(v, i, j, x)
            return v
        raise Unsupported('write path ' + k)
    def mat_set(s, v, i, j, x):
        if isinstance(v, SMat): return v.store(i if isinstance(i, T) else I(i), j if isinstance(j, T) else I(j), x)
        if isinstance(i, T) and isnum(i): i = nv(i)
        if isinstance(j, T) and isnum(j): j = nv(j)
        if isinstance(i, int) and isinstance(j, int):
            if not (0 <= i < v.r and 0 <= j < v.c): raise OutOfBounds('matrix entry (%d,%d) of %dx%d' % (i, j, v.r, v.c))
            if isinstance(x, T) and x.sort == 'I': x = toreal(x)
            v.d[i * v.c + j] = x; return v
        for a in range(v.r):
            for b in range(v.c):
                c = and_(eq(i if isinstance(i, T) else I(i), I(a)), eq(j if isinstance(j, T) else I(j), I(b)))
                if c is not FALSE: v.d[a * v.c + b] = v_ite(c, x, v.d[a * v.c + b])
        return v
    def coerce(s, old, new):
        """assignment conversion based on the old value's shape"""
        if isinstance(old, Mat) and isinstance(new, Mat):
            if (old.r, old.c) != (new.r, new.c) and old.r * old.c == new.r * new.c and 1 in (new.r, new.c) and 1 in (old.r, old.c):
                return Mat(old.r, old.c, list(new.d))
        if isinstance(new, T):
            if isinstance(old, T) and old.sort == 'R' and new.sort == 'I': return toreal(new)
            if isinstance(old, Cx): return cx(new)
        return copyv(new)

    # ------------------------------------------------------------ symbolic values
    def symval(s, t, name, idx=()):
        t = noref(t)
        def leaf(suf, sort): return app(name + suf, idx, sort) if idx else var(name + suf, sort)
        if t in FLTS: return leaf('', 'R')
        if t == 'bool': return leaf('', 'B')
        if t in INTS: return leaf('', 'I')
        md = mat_dims(t) if not t.endswith('*') else None
        if md:
            st, r, c = md
            if r < 0 or c < 0:
                rr = leaf('.rows', 'I') if r < 0 else I(r); cc = leaf('.cols', 'I') if c < 0 else I(c)
                return SMat(rr, cc, ('fn', lambda i, j: app(name, tuple(idx) + (i, j), 'R')))
            if 'complex' in st: return mat_fn(r, c, lambda i, j: Cx(leaf('.re%d_%d' % (i, j), 'R'), leaf('.im%d_%d' % (i, j), 'R')))
            return mat_fn(r, c, lambda i, j: leaf('.%d' % i if c == 1 else '.%d_%d' % (i, j), 'R'))
        if t.startswith('std::complex') and not t.endswith('*'): return Cx(leaf('.re', 'R'), leaf('.im', 'R'))
        if t.startswith('std::pair<') and not t.endswith('*'):
            a, b = targs(t)[:2]
            return Struct(t, {'first': s.symval(a, name + '.first', idx), 'second': s.symval(b, name + '.second', idx)})
        if t.startswith('std::vector<') and not t.endswith('*'):
            et = targs(t)[0]
            n = leaf('.len', 'I')
            return Vec(et, ('fn', n, lambda i: s.symval(et, name + '[]', tuple(idx) + (i,))))
        if t.endswith('*'):
            et = strip_t(t[:-1])
            if et in FLTS or et in INTS:
                return Ptr(s.alloc(Vec(et, ('fn', leaf('.len', 'I'), lambda i: s.symval(et, name + '[]', tuple(idx) + (i,))))) + (), None) if not idx else Vec(et, ('fn', leaf('.len', 'I'), lambda i: s.symval(et, name + '[]', tuple(idx) + (i,))))
            return Ptr(s.alloc(s.symval(et, name + '->', idx)))
        if (t.startswith('std::shared_ptr<') or t.startswith('std::unique_ptr<')) and not t.endswith('*'):
            et = targs(t)[0]
            if idx:   # pointee as value (unaliased, read-only use)
                v = s.symval(et, name + '->', idx)
                return Struct('#box', {'v': v})
            return Ptr(s.alloc(s.symval(et, name + '->', idx)))
        if t in s.prog.enumtypes: return leaf('', 'I')
        if t in s.prog.rec or t.startswith('opengv::') or t in ('myPair', 'myPair_ge'):
            f = {}
            for b in reversed(s.prog.bases(t)):
                r = s.prog.rec.get(b)
                if not r: continue
                for fl in r['fields']:
                    ft = fl['t']
                    if is_ref(ft): f[fl['name']] = Ptr(s.alloc(s.symval(ft, name + '.' + fl['name'], idx)))
                    else:
                        try: f[fl['name']] = s.symval(ft, name + '.' + fl['name'], idx)
                        except Unsupported: f[fl['name']] = Opaque(ft)
            return Struct(t, f, {'name': name, 'idx': idx})
        if t.startswith('enum') or '::' in t and not t.startswith('std::') and not t.startswith('Eigen'): return leaf('', 'I')
        if t.startswith('std::'): return Opaque(t)
        raise Unsupported('symbolic value of type ' + t)

    def undef(s, t):
        """uninitialised storage: arbitrary fresh content"""
        t = noref(t) if not is_ref(t) else t
        nm, ix = s.newname('undef!')
        md = mat_dims(t)
        if md:
            st, r, c = md
            if r < 0 or c < 0: return SMat(I(0) if r < 0 else I(r), I(0) if c < 0 else I(c), ('fn', lambda i, j: app(nm, ix + (i, j), 'R')))
            return s.symval(t, nm, ix)
        if t.startswith('std::vector<'): return Vec(targs(t)[0], ('c', []))
        if t.startswith('std::__cxx11::list<') or t.startswith('std::list<'): return Vec(targs(t)[0], ('c', []))
        if t.startswith('std::complex'): return Cx(R(0), R(0))
        if t.startswith('std::shared_ptr') : return Ptr(None)
        if t.endswith(']'):
            i = t.rindex('['); j = t.index('[')
            n = int(t[j + 1:t.index(']', j)]); et = t[:j].strip() + t[t.index(']', j) + 1:]
            return Vec(et, ('c', [s.undef(et) for _ in range(n)]))
        if t.endswith('*'): return Ptr(None)
        return s.symval(t, nm, ix) if not (t in s.prog.rec) else s.blankobj(t, nm)

    def blankobj(s, t, nm):
        """aggregate without constructor call: members default-initialised"""
        return s.blank(t)
    # -------------------------------------------------------------- functions
    def call(s, f, this, args):
        """inline call of exported function f; this: lvalue; args: list of ('lv',lv)|('v',value) by parameter"""
        s.called.add(f['fid']); s.inlined.add(f['fid'])
        if s.depth > 60: raise Unsupported('call depth in ' + f['q'])
        fr = Frame(f, this)
        for p, a in zip(f['params'], args):
            if is_ref(p['t']):
                if a[0] == 'lv': fr.env[p['id']] = a[1]
                else: fr.env[p['id']] = s.alloc(s.conv(p['t'], a[1]))
            else:
                v = s.read(a[1]) if a[0] == 'lv' else a[1]
                fr.env[p['id']] = s.alloc(s.conv(p['t'], v))
        s.frames.append(fr); s.depth += 1
        try:
            if f.get('ctor'): s.ctor_inits(f, this)
            try:
                s.exec(f['body'])
                rv = None
            except Ret as r: rv = r.v
        finally:
            s.frames.pop(); s.depth -= 1
        if rv is None and f['ret'] != 'void' and not f.get('ctor'):
            pass
        if rv is not None and not is_ref(f['ret']):
            rv = ('v', s.conv(f['ret'], s.rv(rv)))
        return rv
    def rv(s, a):
        if a is None: return None
        return s.read(a[1]) if a[0] == 'lv' else a[1]
    def conv(s, t, v):
        t = noref(t)
        if isinstance(v, Vec) and t.endswith('*') and t.startswith('std::vector'): raise Unsupported('copy of a pointer to an element')
        if isinstance(v, Ptr) and (t.endswith('*') or 'shared_ptr' in t): return v
        if t in FLTS:
            if isinstance(v, T):
                if v.sort == 'I': return toreal(v)
                if v.sort == 'B': return ite(v, R(1), R(0))
            if isinstance(v, Mat) and v.r == v.c == 1: return v.d[0]
            return v
        if t in INTS and isinstance(v, T) and v.sort == 'B': return ite(v, I(1), I(0))
        md = mat_dims(t)
        if md and isinstance(v, Mat):
            st, r, c = md
            if (r in (-1, v.r)) and (c in (-1, v.c)): return v
            if r * c == v.r * v.c and 1 in (v.r, v.c): return Mat(r, c, list(v.d))
            if r == -1 and c == 1 and v.r == 1: return Mat(v.c, 1, list(v.d))
            raise Unsupported('conversion of %dx%d to %s' % (v.r, v.c, t))
        if t.startswith('std::complex') and isinstance(v, T): return cx(v)
        return v
    def ctor_inits(s, f, this):
        for i in f.get('inits', []):
            if 'base' in i:
                e = i['e']
                if e and e.get('k') == 'ctor':
                    b = s.prog.fn.get(e['fid'])
                    if b is not None: s.call(b, this, s.args(b, e['args']))
                continue
            if i.get('deleg'):
                e = i['e']; b = s.prog.fn.get(e['fid'])
                if b is None: raise Unsupported('delegating constructor')
                s.call(b, this, s.args(b, e['args'])); continue
            name = i['field']
            st = s.read_struct(this)
            ft = s.field_type(f['cls'], name)
            if is_ref(ft):
                a = s.lvx(i['e'])
                st.f[name] = Ptr(a)
            else:
                if i['e'] is None: continue
                v = s.ev(i['e'])
                st = s.read_struct(this)
                st.f[name] = s.conv(ft, v)
    def field_type(s, cls, name):
        for b in s.prog.bases(cls):
            r = s.prog.rec.get(b)
            if r:
                for fl in r['fields']:
                    if fl['name'] == name: return fl['t']
        raise Unsupported('field %s of %s' % (name, cls))
    def read_struct(s, lv):
        v = s.st.mem[lv[0]]
        for p in lv[1]:
            v = s.step(v, p)
        if isinstance(v, Ptr): return s.read_struct(v.lv)
        if not isinstance(v, Struct): raise Unsupported('not an object: %r' % (v,))
        return v
    def args(s, f, es):
        r = []
        for p, e in zip(f['params'], es):
            if is_ref(p['t']):
                r.append(s.arg_ref(e))
            else: r.append(('v', s.ev(e)))
        return r
    def arg_ref(s, e):
        r = s.evx(e)
        if r is None: raise Unsupported('void argument')
        return r

    def construct(s, cls, f, es):
        lv = s.alloc(s.blank(cls))
        s.call(f, lv, s.args(f, es))
        return s.read(lv)
    def blank(s, cls):
        fl = {}
        for b in reversed(s.prog.bases(cls)):
            r = s.prog.rec.get(b)
            if r:
                for x in r['fields']:
                    try: fl[x['name']] = Ptr(None) if is_ref(x['t']) else s.undef(x['t'])
                    except Unsupported: fl[x['name']] = Opaque(x['t'])
        return Struct(cls, fl, {'name': cls.split('::')[-1]})

    # -------------------------------------------------------------- statements
    def exec(s, n):
        if n is None: return
        k = n['k']
        m = getattr(s, 'x_' + k, None)
        if m is None: raise Unsupported('statement %s line %s' % (n.get('what', k), n.get('ln')))
        m(n)
    def x_block(s, n):
        for b in n['b']: s.exec(b)
    def x_null(s, n): pass
    def x_expr(s, n):
        s.evx(n['e'])
    def x_decl(s, n):
        fr = s.frames[-1]
        for v in n['v']:
            if v.get('static'): raise Unsupported('static local ' + v['name'])
            t = v['t']
            if is_ref(t):
                fr.env[v['id']] = s.lvx(v['init'])
                continue
            init = v.get('init')
            if init is None:
                fr.env[v['id']] = s.alloc(s.undef(t))
            else:
                # auto x = view  -> keep as value
                val = s.conv(t, s.ev(init))
                fr.env[v['id']] = s.alloc(val)
    def x_ret(s, n):
        if n['e'] is None: raise Ret(None)
        f = s.frames[-1].f
        if is_ref(f['ret']): raise Ret(('lv', s.lv(n['e'])))
        raise Ret(('v', s.conv(f['ret'], s.ev(n['e']))))
    def x_break(s, n): raise Brk()
    def x_continue(s, n): raise Cont()
    def x_if(s, n):
        if n.get('unsup'): raise Unsupported('if with declaration')
        c = s.cond(n['c'])
        if empty(n['a']) and empty(n['e']): return
        if s.known(c) is None and s.mergeable(n):
            s.merge_if(n, c); return
        if s.decide(c): s.exec(n['a'])
        else: s.exec(n['e'])
    def mergeable(s, n):
        """two plain scalar-updating branches may be joined instead of forked"""
        return s.cfg.get('merge_if', False)
    def merge_if(s, n, c):
        base = s.st
        def br(cc, body):
            def th():
                s.assume(cc); s.exec(body)
            return s.explore(th)
        outs = br(c, n['a']) + br(not_(c), n['e'])
        if all(k == 'normal' for _, k, _ in outs) and outs:
            try:
                s.st = s.merge([o[0] for o in outs], base); return
            except Unsupported:
                s.st = base
        if s.decide(c): s.exec(n['a'])
        else: s.exec(n['e'])
    def merge(s, sts, base):
        nb = len(base.pc)
        if len(sts) == 1:
            r = sts[0]; return r
        r = sts[-1].clone()
        r.pc = list(base.pc)
        for st in reversed(sts[:-1]):
            c = and_(*st.pc[nb:])
            for cell in list(r.mem):
                if cell in st.mem:
                    if cell in base.mem: r.mem[cell] = v_ite(c, st.mem[cell], r.mem[cell])
            r.next = max(r.next, st.next)
        # facts common suffix: keep union guarded (facts are definitional)
        for st in sts:
            for f in st.facts:
                if f not in r.facts: r.facts.append(f)
        return r
    def x_switch(s, n):
        v = s.ev(n['c'])
        body = n['b']['b'] if n['b']['k'] == 'block' else [n['b']]
        # flatten labels
        flat = []
        for b in body:
            labels = []
            while b is not None and b['k'] in ('case', 'default'):
                labels.append(b); b = b['b']
            flat.append((labels, b))
        cases = []; default = None
        for i, (ls, b) in enumerate(flat):
            for l in ls:
                if l['k'] == 'case': cases.append((I(int(l['v'])), i))
                else: default = i
        conds = [eq(v, c) for c, _ in cases]
        conds.append(and_(*[ne(v, c) for c, _ in cases]))
        j = s.choose(conds) if not any(c is TRUE for c in conds) else [c is TRUE for c in conds].index(True)
        start = cases[j][1] if j < len(cases) else default
        if start is None: return
        try:
            for ls, b in flat[start:]: s.exec(b)
        except Brk: pass

    # loops ------------------------------------------------------------------
    def x_for(s, n):
        if n['init']: s.exec(n['init'])
        s.loop(n, n['c'], n['inc'], n['b'], False)
    def x_while(s, n): s.loop(n, n['c'], None, n['b'], False)
    def x_do(s, n): s.loop(n, n['c'], None, n['b'], True)
    def x_forrange(s, n):
        rl = s.arg_ref(n['range'])
        lv = rl[1] if rl[0] == 'lv' else s.alloc(rl[1])
        vec = s.read(lv)
        if isinstance(vec, Vec) and isnum(vec.len):
            for i in range(nv(vec.len)):
                if is_ref(n['v']['t']): s.frames[-1].env[n['v']['id']] = (lv[0], lv[1] + (('i', I(i)),))
                else: s.frames[-1].env[n['v']['id']] = s.alloc(s.read((lv[0], lv[1] + (('i', I(i)),))))
                try: s.exec(n['b'])
                except Cont: continue
                except Brk: break
            return
        # desugar into an indexed loop
        fr = s.frames[-1]; key = 'range%d' % n['ln']
        fr.env[key] = s.alloc(I(0))
        def cond(): return lt(s.read(fr.env[key]), s.read(lv).len)
        def body():
            i = s.read(fr.env[key])
            el = (lv[0], lv[1] + (('i', i),))
            s.frames[-1].env[n['v']['id']] = el if is_ref(n['v']['t']) else s.alloc(s.read(el))
            s.exec(n['b'])
        def inc(): s.write(s.frames[-1].env[key], add(s.read(s.frames[-1].env[key]), I(1)))
        s.loop(n, cond, inc, body, False)
    def run(s, x):
        if x is None: return None
        if callable(x): return x()
        if 'k' in x and x['k'] in ('block', 'expr', 'if', 'for', 'while', 'do', 'decl', 'ret', 'break', 'continue', 'null', 'switch', 'forrange', 'case', 'default', 'unsupported') and not ('t' in x): return s.exec(x)
        return s.evx(x)
    def loopcond(s, c):
        if c is None: return TRUE
        if callable(c): return c()
        return s.cond(c)

    def loop(s, n, cond, inc, body, do):
        maxit = s.cfg.get('max_unroll', 20000)
        if s.loop_hook:
            if s.loop_hook(s, n, cond, inc, body, do): return
        first = do
        for it in range(maxit):
            if not first:
                c = s.loopcond(cond)
                k = s.known(c)
                if k is None or (it == 0 and not do and c.op not in ('true', 'false')):
                    t = s.feasible(c) if k is None else k; f = s.feasible(not_(c)) if k is None else not k
                    if t and not f and it == 0 and not do:
                        r = s.try_summarise(n, cond, inc, body)
                        if r: return
                    if t and f:
                        if it == 0 or True:
                            return s.summarise(n, cond, inc, body)
                    k = t
                    if not t and not f: raise Infeasible()
                if not k: return
            first = False
            try: s.run(body)
            except Cont: pass
            except Brk: return
            s.run(inc)
        raise Unsupported('loop at line %s exceeds %d iterations' % (n.get('ln'), maxit))

    def try_summarise(s, n, cond, inc, body):
        """a symbolic loop entered for sure: summarise it from its first iteration, else peel"""
        st = s.st; keep = st.clone(); o = s.orc; mark = (o.pos, list(o.taken), list(o.alts)); no = len(s.obls); nl = len(s.loops); keys = set(s._oblkeys)
        try:
            s.summarise(n, cond, inc, body); return True
        except Unsupported:
            s.st = keep; s.orc = o; o.pos, o.taken, o.alts = mark[0], mark[1], mark[2]
            del s.obls[no:]; del s.loops[nl:]; s._oblkeys = keys
            return False
    def summarise(s, n, cond, inc, body):
        from .loops import summarise
        return summarise(s, n, cond, inc, body)


from . import exprs as _ex
for _n in _ex.__all__:
    if _n not in ('to_mat', 'smat_dim'): setattr(Interp, _n, getattr(_ex, _n))
_evx0 = Interp.evx
def _evx(s, e):
    r = _evx0(s, e)
    red = s.red
    if red is not None and r is not None and r[0] == 'v':
        v = r[1]
        if isinstance(v, Mat): return ('v', Mat(v.r, v.c, [red(x) if isinstance(x, T) and x.sort == 'R' else x for x in v.d]))
        if isinstance(v, T) and v.sort == 'R' and v.args: return ('v', red(v))
    return r
Interp.evx = _evx
Interp.to_mat = staticmethod(_ex.to_mat); Interp.smat_dim = staticmethod(_ex.smat_dim)
