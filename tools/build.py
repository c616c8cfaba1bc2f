"""Builds everything the checks need from /repo's current working tree, with content-hash caches under /verif/build."""
import threading, os, sys, subprocess, hashlib, json, glob, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
B = os.path.join(V, 'build')
CLANG, CLANGXX = 'clang', 'clang++'
IL, ILU = REPO + '/DevIL/src-IL', REPO + '/DevIL/src-ILU'
NP = int(os.environ.get('VP_NP') or 0) or os.cpu_count() or 4
# external-library formats: their glue is FFI around libpng & co and stays out of the encoding
COMMON = ['-g1', '-w', '-fno-strict-aliasing', '-fwrapv', '-DNDEBUG', '-D_FORTIFY_SOURCE=0', '-fno-exceptions'][:6]
BCF = ['-O1', '-emit-llvm', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-fno-delete-null-pointer-checks', '-fno-builtin-printf', '-fno-unroll-loops', '-mllvm', '-disable-loop-idiom-all', '-D_GLIBCXX_ASSERTIONS', '-fno-math-errno', '-Xclang', '-no-opaque-pointers'][:-2]
NATF = ['-O1', '-fsanitize=address,bounds,null,integer-divide-by-zero', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-ffp-contract=off', '-fno-delete-null-pointer-checks', '-fPIC']

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
def sha(*xs):
    h = hashlib.sha256()
    for x in xs: h.update(x if isinstance(x, bytes) else x.encode()); h.update(b'\0')
    return h.hexdigest()[:24]

import itertools
_cnt = itertools.count()
def uniq(): return '.%d.%d.%d.tmp' % (os.getpid(), threading.get_ident(), next(_cnt))
_cfgl = threading.Lock(); _cfg = []
def config_h():
    with _cfgl:
        if not _cfg: _cfg.append(_config_h())
        return _cfg[0]
def _config_h():
    d = B + '/inc'; os.makedirs(d, exist_ok=True)
    src = open(IL + '/include/config.h.cmake.in').read().splitlines(); out = []
    on = {'IL_NO_EXR': '1', 'IL_NO_JP2': '1', 'LCMS_NODIRINCLUDE': 'ON'}
    for l in src:
        t = l.split()
        if t[:1] == ['#cmakedefine']:
            n = t[1]
            l = ('#define %s %s' % (n, on[n])) if n in on else '/* #undef %s */' % n
        out.append(l)
    text = '\n'.join(out) + '\n'
    p = d + '/config.h'
    if not os.path.exists(p) or open(p).read() != text:
        t = p + uniq(); open(t, 'w').write(text); os.rename(t, p)
    return d

def flags(unit):
    inc = config_h()
    if unit == 'IL': return ['-DIL_EXPORTS', '-I' + IL + '/include', '-I' + REPO + '/DevIL/include', '-I' + inc]
    if unit == 'ILU': return ['-DILU_EXPORTS', '-I' + ILU + '/include', '-I' + REPO + '/DevIL/include', '-I' + inc]
    return ['-I' + V + '/rt', '-I' + V + '/harness', '-I' + REPO + '/DevIL/include', '-I' + inc]

def compile_one(args):
    src, unit, mode, extra = args
    cxx = src.endswith('.cpp'); cc = [CLANGXX, '-std=gnu++14'] if cxx else [CLANG]
    f = COMMON + flags(unit) + (BCF if mode == 'bc' else NATF) + extra
    pre = sh(cc + [x for x in f if x not in ('-emit-llvm',)] + ['-E', '-o', '-', src])
    if pre.returncode: return None, src, pre.stderr.decode()
    key = sha(pre.stdout, ' '.join(f), unit)
    ext = 'bc' if mode == 'bc' else 'o'
    out = '%s/obj/%s-%s.%s' % (B, os.path.basename(src).rsplit('.', 1)[0], key, ext)
    if os.path.exists(out): os.utime(out); return out, src, ''
    tmp = out + uniq()
    r = sh(cc + f + ['-c', src, '-o', tmp])
    if r.returncode: return None, src, r.stderr.decode()
    os.rename(tmp, out); return out, src, ''

class BuildError(Exception): pass
def compile_all(jobs):
    os.makedirs(B + '/obj', exist_ok=True); os.makedirs(B + '/bin', exist_ok=True)
    with ThreadPoolExecutor(NP) as ex: rs = list(ex.map(compile_one, jobs))
    bad = [r for r in rs if r[0] is None]
    if bad: raise BuildError('%s\n%s' % (bad[0][1], bad[0][2]))
    return [r[0] for r in rs]

def lib_sources():
    il = sorted(glob.glob(IL + '/src/*.cpp')); ilu = sorted(glob.glob(ILU + '/src/*.cpp'))
    return [(s, 'IL') for s in il] + [(s, 'ILU') for s in ilu]

def engine():
    os.makedirs(B, exist_ok=True)
    r = sh([V + '/engine/build.sh', B + '/devsym'])
    if r.returncode: raise BuildError('engine: ' + r.stderr.decode()[-2000:])
    return B + '/devsym'

def lib_bc():
    objs = compile_all([(s, u, 'bc', []) for s, u in lib_sources()] + [(V + '/rt/vplibc.c', 'H', 'bc', ['-fno-builtin'])])
    out = B + '/bin/lib-%s.bc' % sha(*objs)
    if not os.path.exists(out):
        t = out + uniq()
        r = sh(['llvm-link-18', '-o', t, *objs])
        if r.returncode: raise BuildError(r.stderr.decode())
        os.rename(t, out)
    return out, objs

def harness_bc(h):
    """link harness h (harness/<h>.cpp) with the library, keep only what is reachable"""
    lib, _ = lib_bc()
    hb = compile_all([(V + '/harness/%s.cpp' % h, 'H', 'bc', [])])[0]
    out = B + '/bin/%s-%s.bc' % (h, sha(lib, hb))
    if not os.path.exists(out):
        t = out + uniq()
        r = sh(['llvm-link-18', '-o', t + '.l', lib, hb])
        if r.returncode: raise BuildError(r.stderr.decode())
        names = [l.split()[-1] for l in sh(['llvm-nm-18', '--defined-only', '--extern-only', hb]).stdout.decode().splitlines() if l.split()]
        r = sh(['opt-18', '-passes=internalize,globaldce', '-internalize-public-api-list=' + ','.join(n for n in names if n.startswith('h_')), t + '.l', '-o', t])
        if r.returncode: raise BuildError(r.stderr.decode())
        os.rename(t, out); os.remove(t + '.l')
    return out

def native_lib():
    objs = compile_all([(s, u, 'nat', []) for s, u in lib_sources()])
    out = B + '/bin/libdevil-%s.a' % sha(*objs)
    if not os.path.exists(out):
        t = out + uniq()
        if os.path.exists(t): os.remove(t)
        r = sh(['llvm-ar-18', 'rcs', t, *objs])
        if r.returncode: raise BuildError(r.stderr.decode())
        os.rename(t, out)
    return out

def native_bin(h, entry):
    lib = native_lib()
    jobs = [(V + '/harness/%s.cpp' % h, 'H', 'nat', []), (V + '/rt/vp_native.c', 'H', 'nat', ['-DVP_ENTRY=' + entry])]
    objs = compile_all(jobs)
    out = B + '/bin/%s-%s-%s' % (h, entry, sha(lib, *objs))
    if not os.path.exists(out):
        t = out + uniq()
        r = sh([CLANGXX, '-fsanitize=address,bounds,null,integer-divide-by-zero', '-o', t, *objs, lib, '-lpng', '-lz', '-ljpeg', '-ltiff', '-lmng', '-llcms2', '-lsquish', '-lm', '-lpthread'])
        if r.returncode: raise BuildError(r.stderr.decode()[-3000:])
        os.rename(t, out)
    return out

def prune(limit=3 << 30):
    fs = [(os.stat(p).st_mtime, os.stat(p).st_size, p) for d in ('obj', 'bin') for p in glob.glob('%s/%s/*' % (B, d))]
    tot = sum(f[1] for f in fs)
    for m, s, p in sorted(fs):
        if tot < limit: break
        try: os.remove(p); tot -= s
        except OSError: pass

if __name__ == '__main__':
    import time
    t = time.time(); engine(); print('engine %.1fs' % (time.time() - t)); t = time.time()
    print(lib_bc()[0], '%.1fs' % (time.time() - t)); t = time.time()
    print(native_lib(), '%.1fs' % (time.time() - t))
