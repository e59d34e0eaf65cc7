"""Running the contracts of one property, the native confirmation, evidence and verdict."""
import importlib, json, os, pickle, select, signal, subprocess, sys, threading, time, traceback
from . import build, terms as tm, prove as pv, interp as ip
from .terms import *
from .values import *
from .solver import Z3
sys.setrecursionlimit(20000)

TRUST = [
 'machine doubles treated as real numbers, double literals as exact rationals (rounding is only looked at by the bounded native runs)',
 'machine integers treated as mathematical integers, with an explicit obligation that no unsigned subtraction wraps',
 'clang 18 front end and the AST exporter (exporter/export.cpp); Eigen and libstdc++ operations are interpreted by their documented meaning (dv/exprs.py)',
 'the verification condition generator (dv/interp.py, dv/exprs.py, dv/loops.py), the polynomial normal form prover (dv/terms.py, dv/prove.py) and z3 %s' % __import__('z3').get_version_string(),
]

class Check:
    def __init__(s, pid, tier='quick', seed=1):
        s.pid = pid; s.tier = tier; s.seed = seed; s.t0 = time.time()
        s.z3 = Z3(); s.pr = pv.Prover(s.z3, seed)
        s.rec = []            # obligations: dict(name, status, how, time)
        s.failed = []
        s.unsup = []          # (contract, reason): not generated, bounded stand-in covers it
        s.fns = {}            # functions under contract / inlined
        s.assume = []         # assumptions of contracts (text)
        s.trusted = set()
        s.bounded = []        # native runs
        s.native_fail = []
        s.progs = {}
        s.notes = []
        s.prog = None
        s.cur = ''
        s.deadline = s.t0 + (600 if tier == 'quick' else 800)
        s.jobs = []; s.threads = []; s.slots = max(1, min(7, (os.cpu_count() or 2) - 1)); s.order = 0
        s.errors = []
        s.serial = bool(os.environ.get('DV_SERIAL'))
    # ------------------------------------------------------------- program
    def load(s, *srcs):
        s.prog = build.load_program(list(srcs), s.prog)
        return s.prog
    def interp(s, contracts=None, **cfg):
        it = ip.Interp(s.prog, s.z3, contracts, cfg)
        return it
    # ------------------------------------------------------------ contracts
    FIELDS = ('rec', 'failed', 'unsup', 'fns', 'assume', 'trusted', 'notes')
    def contract(s, name, fn, *a, **k):
        """verify one contract in a process of its own (contracts are independent of one another)"""
        if s.serial: return s.contract1(name, fn, *a, **k)
        while len(s.jobs) - sum(1 for j in s.jobs if j['done']) >= s.slots: s.poll(0.5)
        r, w = os.pipe(); sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r); signal.signal(signal.SIGINT, signal.SIG_DFL)
                base = {f: len(getattr(s, f)) for f in s.FIELDS if isinstance(getattr(s, f), list)}
                s.z3.calls = 0; s.z3.time = 0
                s.contract1(name, fn, *a, **k)
                d = {f: getattr(s, f)[base[f]:] if f in base else getattr(s, f) for f in s.FIELDS}
                d['z3'] = (s.z3.calls, s.z3.time)
                def clean(x):
                    if isinstance(x, dict): return {clean(i): clean(j) for i, j in x.items()}
                    if isinstance(x, (list, tuple)): return type(x)(clean(i) for i in x)
                    if isinstance(x, set): return {clean(i) for i in x}
                    return x if isinstance(x, (str, int, float, bool, type(None))) else str(x)
                with os.fdopen(w, 'wb') as f: pickle.dump(clean(d), f)
                sys.stdout.flush(); sys.stderr.flush()
            except BaseException:
                if os.environ.get('DV_DEBUG'): traceback.print_exc()
            finally: os._exit(0)
        os.close(w)
        s.jobs.append({'pid': pid, 'fd': r, 'buf': [], 'name': name, 'done': False, 't0': time.time(), 'order': s.order}); s.order += 1
    def poll(s, t):
        fds = [j['fd'] for j in s.jobs if not j['done']]
        if not fds: return
        rd, _, _ = select.select(fds, [], [], t)
        for j in s.jobs:
            if not j['done'] and j['fd'] in rd:
                b = os.read(j['fd'], 1 << 20)
                if b: j['buf'].append(b)
                else: os.close(j['fd']); os.waitpid(j['pid'], 0); j['done'] = True
        if time.time() > s.deadline:
            for j in s.jobs:
                if not j['done']:
                    os.kill(j['pid'], signal.SIGKILL); os.waitpid(j['pid'], 0); os.close(j['fd']); j['done'] = True; j['buf'] = []; j['late'] = True
    def join(s):
        while any(not j['done'] for j in s.jobs): s.poll(0.5)
        for j in s.jobs:
            if j.get('merged'): continue
            j['merged'] = True
            try: d = pickle.loads(b''.join(j['buf']))
            except Exception:
                s.unsup.append((j['name'], 'time limit' if j.get('late') else 'the verifier process ended early')); continue
            s.rec += d['rec']; s.failed += d['failed']; s.unsup += d['unsup']; s.notes += d['notes']
            s.assume += [x for x in d['assume'] if x not in s.assume]
            for q_, l in d['fns'].items(): s.fns.setdefault(q_, l)
            s.trusted |= d['trusted']; s.z3.calls += d['z3'][0]; s.z3.time += d['z3'][1]
        for t in s.threads: t.join()
        s.threads = []
        for e in s.errors: raise e
    def contract1(s, name, fn, *a, **k):
        """run one contract; anything outside the verifier's reach is recorded as not generated"""
        s.cur = name
        n0 = len(s.rec)
        t0 = time.time()
        try:
            fn(s, *a, **k)
            if len(s.rec) == n0: s.unsup.append((name, 'no obligation was generated'))
        except Unsupported as e: s.unsup.append((name, 'outside the verifier: %s' % e))
        except OutOfBounds as e:
            s.record('%s: no access out of bounds' % name, 'refuted', 'symbolic execution', 0, {'reason': str(e)})
        except (tm.TooBig, pv.GaveUp) as e: s.unsup.append((name, 'term too large: %s' % e))
        except RecursionError: s.unsup.append((name, 'recursion depth'))
        except Exception as e:
            s.unsup.append((name, 'internal error: %s' % ''.join(traceback.format_exception_only(type(e), e)).strip()))
            if os.environ.get('DV_DEBUG'): traceback.print_exc()
        if os.environ.get('DV_DEBUG'): print('%-60s %5.1fs %d obligations' % (name, time.time() - t0, len(s.rec) - n0), s.unsup[-1:] if s.unsup and s.unsup[-1][0] == name else '', file=sys.stderr)
        s.cur = ''
    def record(s, name, status, how, t, info=None):
        d = {'obligation': name, 'status': status, 'by': how, 'time_s': round(t, 3)}
        if info: d['info'] = info
        s.rec.append(d)
        if status != 'proved':
            s.failed.append(d)
            if os.environ.get('DV_DEBUG'):
                s.dbg = getattr(s, 'dbg', 0) + 1
                if s.dbg <= 12: print('   NOT PROVED', name, status, how, str(info)[:int(os.environ.get('DV_W', '160'))], file=sys.stderr)
    def require(s, what, goal, pc=(), rules=None, timeout=4000, prep=None, seed_extra=0, refute=True):
        name = '%s: %s' % (s.cur, what)
        t0 = time.time()
        st, how = s.pr.prove(goal, pc, rules, timeout)
        info = None
        if st != 'proved':
            w = pv.refute(goal, list(pc), rules or pv.Rules(), seed=s.seed + seed_extra, prep=prep) if refute else None
            if w: st = 'refuted'; info = {'witness': w}
            else: info = {'goal': show(goal)[:2000], 'hypotheses': [show(c)[:300] for c in list(pc)[:20]]}
        s.record(name, st, how, time.time() - t0, info)
        return st == 'proved'
    def require_mat(s, what, A, B, pc=(), rules=None, **k):
        if (A.r, A.c) != (B.r, B.c):
            s.record('%s: %s' % (s.cur, what), 'refuted', 'shape', 0, {'shape': [A.r, A.c, B.r, B.c]}); return False
        ok = True
        for i in range(A.r):
            for j in range(A.c):
                ok &= s.require('%s [%d,%d]' % (what, i, j) if A.r * A.c > 1 else what, eq(A[i, j], B[i, j]), pc, rules, **k)
        return ok
    def require_rotation(s, what, M, pc=(), rules=None, **k):
        P = mat_mul(M, mat_T(M))
        ok = True
        for i in range(3):
            for j in range(i, 3):
                ok &= s.require('%s: row %d . row %d = %d' % (what, i, j, i == j), eq(P[i, j], R(1 if i == j else 0)), pc, rules, **k)
        return ok & s.require('%s: determinant = 1' % what, eq(mat_det(M), R(1)), pc, rules, **k)
    def obligations(s, it, rules=None, kinds=None, prefix=''):
        """discharge the obligations the generator attached to the executed code"""
        for o in it.obls:
            if kinds and o.kind not in kinds: continue
            name = '%s: %s' % (s.cur, o.name)
            if o.res == 'proved': s.record(name, 'proved', o.how, 0); continue
            t0 = time.time()
            st, how = s.pr.prove(o.goal, o.pc, rules, 4000)
            info = None
            if st != 'proved':
                w = pv.refute(o.goal, list(o.pc), rules or pv.Rules(), seed=s.seed)
                if w: st = 'refuted'; info = {'witness': w}
                else: info = {'goal': show(o.goal)[:1500], 'hypotheses': [show(c)[:300] for c in o.pc[:20]]}
            s.record(name, st, how, time.time() - t0, info)
        s.used(it)
    def used(s, it):
        for f in it.called:
            d = s.prog.fn.get(f)
            if d: s.fns.setdefault(d['q'], os.path.relpath(d['file'], build.REPO) + ':%d' % d['ln'])
        s.trusted |= {x if isinstance(x, str) else str(x) for x in it.trusted}
    def cover(s, outs, n=1):
        """vacuity guard: at least n feasible paths reached the postcondition"""
        s.record('%s: the precondition is satisfiable and the end is reached' % s.cur, 'proved' if len(outs) >= n else 'refuted', 'path count %d' % len(outs), 0)
    # --------------------------------------------------------------- native
    def native(s, main, args=(), label='', srcs=None, timeout=240, extra=(), lazy=False):
        """bounded run of the real code; harness prints one JSON per line"""
        if not s.serial:
            def go():
                try: s.native1(main, args, label, srcs, timeout, extra, lazy)
                except Exception as e: s.errors.append(e)
            t = threading.Thread(target=go); s.threads.append(t); t.start(); return
        return s.native1(main, args, label, srcs, timeout, extra, lazy)
    def native1(s, main, args=(), label='', srcs=None, timeout=240, extra=(), lazy=False):
        t0 = time.time()
        exe = build.native(main, srcs, extra, lazy)
        tb = time.time() - t0
        env = dict(os.environ, VERIF_SEED=str(s.seed), VERIF_TIER=s.tier)
        cmd = [exe, str(s.seed), s.tier] + [str(a) for a in args]
        crashed = None
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=env, errors='replace')
            out = r.stdout; rc = r.returncode; err = r.stderr
        except subprocess.TimeoutExpired as e:
            out = (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''); rc = 'timeout'; err = ''
        fails = []; stat = {}; last = None
        for l in out.splitlines():
            if l.startswith('FAIL '): 
                try: fails.append(json.loads(l[5:]))
                except ValueError: fails.append({'what': l[5:]})
            elif l.startswith('STAT '): stat = json.loads(l[5:])
            elif l.startswith('CASE '): last = l[5:]
        if rc == 'timeout': fails.append({'what': 'run did not terminate within %d s' % timeout, 'case': last})
        elif rc not in (0, 1): fails.append({'what': 'the code under test died', 'rc': rc, 'stderr': err[-500:], 'case': last})
        for f in fails:
            f['harness'] = main; f['srcs'] = list(srcs) if srcs is not None else None; f['lazy'] = lazy; f['args'] = [str(a) for a in args]; f['seed'] = s.seed; f['tier'] = s.tier
        s.native_fail += fails
        s.bounded.append({'harness': main, 'args': list(args), 'label': label or 'bounded native run', 'build_s': round(tb, 1), 'wall_s': round(time.time() - t0, 1), **stat})
        return fails
    # --------------------------------------------------------------- verdict
    def finish(s, level='proof', explain=''):
        pid = s.pid
        known = load_known(pid)
        nf = []; kf = []
        for f in s.native_fail:
            k = match_known(known, f)
            (kf if k else nf).append(k or f)
        ob = []
        for d in s.failed:
            k = match_known(known, {'obligation': d['obligation'], 'what': d['obligation']})
            (kf if k else ob).append(k or d)
        for k in sorted({k['what'] for k in kf}): print('KNOWN-FINDING: property=%s %s' % (pid, k))
        byb = {}
        for d in s.rec:
            if d['status'] == 'proved': byb[d['by']] = byb.get(d['by'], 0) + 1
        disch = sum(1 for d in s.rec if d['status'] == 'proved')
        ev = {'property': pid, 'tier': s.tier, 'seed': s.seed, 'level': level, 'coverage': {
            'obligations': len(s.rec), 'discharged': disch, 'checker_cmd': 'python3-vt check.py %s' % pid,
            'trusted_base': TRUST + ['assumed contract or model: ' + t for t in sorted(s.trusted)],
            'functions_under_contract': s.fns, 'discharged_by': byb, 'solver_calls': s.z3.calls, 'solver_time_s': round(s.z3.time, 2),
            'not_discharged': [d['obligation'] for d in s.failed][:50],
            'outside_the_verifier': [{'contract': a, 'reason': b} for a, b in s.unsup],
            'bounded_stand_ins': s.bounded,
            'obligation_sample': [d['obligation'] for d in s.rec[:: max(1, len(s.rec) // 12)]][:12],
            'slowest': sorted(((d['time_s'], d['obligation']) for d in s.rec), reverse=True)[:5]},
            'assumptions': s.assume + s.notes, 'wall_s': round(time.time() - s.t0, 1), 'violations': len(nf) + len(ob)}
        c = ev['coverage']
        if level != 'proof':
            c['evaluations'] = sum(b.get('evaluations', 0) for b in s.bounded)
            c['distinct_nontrivial'] = sum(b.get('distinct_nontrivial', 0) for b in s.bounded)
            c['rule'] = explain or 'see bounded_stand_ins'
            c['samples'] = [x for b in s.bounded for x in b.get('samples', [])][:5]
            c['explanation'] = explain
        os.makedirs(os.path.join(build.ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(build.ROOT, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
        rp = os.path.join(build.ROOT, 'evidence', 'replay-%s.json' % pid)
        if nf or ob:
            with open(rp, 'w') as f:
                json.dump({'property': pid, 'failing_inputs': nf[:20], 'failed_obligations': ob[:40],
                           'replay': 'python3-vt check.py --replay %s' % rp}, f, indent=1, default=str)
            for x in nf[:3]: print('failing input: %s' % json.dumps(x, default=str)[:600])
            for x in ob[:5]: print('failed obligation: %s [%s, %s] %s' % (x['obligation'], x['status'], x['by'], json.dumps(x.get('info', ''), default=str)[:200]))
            print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if nf else ' no-failing-input-found'))
            return 1
        print('%s held: %d obligations discharged (%s), %d contracts outside the verifier, %d bounded runs, %.1f s' % (
            pid, disch, ', '.join('%s %d' % x for x in sorted(byb.items())), len(s.unsup), len(s.bounded), time.time() - s.t0))
        return 0

def load_known(pid):
    p = os.path.join(build.ROOT, 'known-findings.json')
    if not os.path.exists(p): return []
    with open(p) as f: return [k for k in json.load(f)['findings'] if k['property'] == pid and k.get('status') == 'known']
def match_known(known, f):
    for k in known:
        if 'match' in k and all(str(v) in str(f.get(kk, '')) for kk, v in k['match'].items()): return k
    return None

def main(argv):
    if argv and argv[0] == '--replay':
        with open(argv[1]) as f: d = json.load(f)
        rc = 0
        for x in d['failing_inputs'][:3]:
            exe = build.native(x['harness'], x.get('srcs'), (), x.get('lazy', False))
            r = subprocess.run([exe, str(x['seed']), x['tier']] + x['args'], stdout=subprocess.PIPE, text=True)
            print(x['harness'], 'fails again' if 'FAIL' in r.stdout else 'passes'); rc |= 'FAIL' in r.stdout
        for x in d['failed_obligations'][:10]: print('obligation:', x['obligation'])
        return int(rc)
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--thorough' in argv: tier = 'thorough'
    ck = Check(pid, tier, seed)
    m = importlib.import_module('contracts.' + pid.lower())
    try:
        m.run(ck); ck.join()
    except build.BuildError as e:
        print(str(e)[-3000:])
        print('the tree does not build: no verdict'); return 2
    return ck.finish(getattr(m, 'LEVEL', 'proof'), getattr(m, 'EXPLAIN', ''))
