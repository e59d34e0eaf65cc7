"""Building: AST exporter, per-file AST export, native objects. Everything is keyed
by content hashes of /repo's current files, so a changed tree is always rebuilt."""
import hashlib, json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('OPENGV_REPO', '/repo')
B = os.path.join(ROOT, 'build')
INC = ['-I%s/include' % REPO, '-isystem', '/usr/include/eigen3', '-isystem', '/usr/include/eigen3/unsupported']
LLVM = '/usr/lib/llvm-18'
def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else str(p).encode()); m.update(b'\0')
    return m.hexdigest()[:20]
def fbytes(p):
    with open(p, 'rb') as f: return f.read()
_hdr = None
def headers_hash():
    global _hdr
    if _hdr is None:
        m = []
        for top in ('include', 'src'):
            for d, ds, fs in os.walk(os.path.join(REPO, top)):
                ds.sort()
                for f in sorted(fs):
                    if f.endswith(('.hpp', '.h', '.hxx', '.inl', '.tpp')): p = os.path.join(d, f); m.append(p); m.append(fbytes(p))
        _hdr = h(*m)
    return _hdr
class BuildError(Exception): pass
def sh(cmd, what, timeout=800):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode: raise BuildError('%s failed:\n%s' % (what, r.stdout[-4000:]))
    return r.stdout
def place(tmp, out): os.replace(tmp, out)
def exporter():
    src = os.path.join(ROOT, 'exporter', 'export.cpp')
    out = os.path.join(B, 'export-' + h(fbytes(src)))
    if not os.path.exists(out):
        os.makedirs(B, exist_ok=True)
        tmp = out + '.%d' % os.getpid()
        sh(['clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++', '-std=c++17', '-O1', '-fno-rtti', '-I%s/include' % LLVM, '-D__STDC_CONSTANT_MACROS', '-D__STDC_LIMIT_MACROS',
            '-D__STDC_FORMAT_MACROS', '-D_GNU_SOURCE', src, '-o', tmp, LLVM + '/lib/libclang-cpp.so.18.1', LLVM + '/lib/libLLVM-18.so', '-Wl,-rpath,%s/lib' % LLVM], 'building the AST exporter')
        place(tmp, out)
    return out
def path(src):
    return src if src.startswith('/') else os.path.join(REPO, src)
def export_one(src):
    p = path(src)
    out = os.path.join(B, 'ast', h(headers_hash(), p, fbytes(p), fbytes(os.path.join(ROOT, 'exporter', 'export.cpp'))) + '.json')
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + '.%d.tmp' % os.getpid()
        sh([exporter(), REPO.rstrip('/') + '/', tmp, p, '-std=c++11'] + INC + ['-I' + os.path.join(ROOT, 'native'), '-resource-dir', LLVM + '/lib/clang/18', '-w'], 'AST export of ' + src)
        place(tmp, out)
    return out
def export(srcs, jobs=8):
    exporter()
    with ThreadPoolExecutor(jobs) as ex: return list(ex.map(export_one, srcs))
def load_program(srcs, prog=None):
    from .interp import Program
    prog = prog or Program()
    t0 = time.time()
    for s, o in zip(srcs, export(srcs)):
        with open(o) as f: prog.load(json.load(f), s)
    prog.load_time = time.time() - t0
    return prog

# ------------------------------------------------------------------ native
CXX = ['g++', '-std=c++11', '-O1', '-g0', '-march=x86-64', '-mtune=generic', '-w'] + INC
def lib_sources():
    out = []
    for d, ds, fs in os.walk(os.path.join(REPO, 'src')):
        for f in fs:
            if f.endswith('.cpp'): out.append(os.path.relpath(os.path.join(d, f), REPO))
    return sorted(out)
def obj_one(src, extra=()):
    p = path(src)
    deps = []
    if not p.startswith(REPO):
        nd = os.path.join(ROOT, 'native')
        deps = [fbytes(os.path.join(nd, f)) for f in sorted(os.listdir(nd)) if f.endswith('.hpp')]
    out = os.path.join(B, 'obj', h(headers_hash(), p, fbytes(p), ' '.join(CXX), ' '.join(extra), *deps) + '.o')
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + '.%d.tmp' % os.getpid()
        sh(CXX + list(extra) + ['-I' + os.path.join(ROOT, 'native'), '-c', p, '-o', tmp], 'compiling ' + src)
        place(tmp, out)
    return out
BIG = ['src/relative_pose/modules/fivept_kneip/code.cpp', 'src/absolute_pose/methods.cpp', 'src/relative_pose/methods.cpp']
def native(main, srcs=None, extra=(), lazy=False):
    """compile main (under /verif/native) with the library's sources and link"""
    srcs = list(srcs) if srcs is not None else lib_sources()
    order = sorted(srcs, key=lambda s: (s not in BIG, -os.path.getsize(path(s))))
    m = os.path.join(ROOT, 'native', main)
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda s: obj_one(s, extra), [m] + order))
    out = os.path.join(B, 'bin', h(*objs) + ('L' if lazy else '') + '-' + os.path.splitext(main)[0])
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + '.%d.tmp' % os.getpid()
        # archive so that only what is referenced gets linked
        ar = tmp + '.a'
        sh(['ar', 'crs', ar] + objs[1:], 'archiving') if objs[1:] else None
        sh(['g++'] + list(extra) + [objs[0]] + ([ar] if objs[1:] else []) + ['-o', tmp, '-lpthread'] + (['-no-pie', '-Wl,--unresolved-symbols=ignore-all'] if lazy else []), 'linking ' + main)
        if objs[1:]: os.unlink(ar)
        place(tmp, out)
    return out
