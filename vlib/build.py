"""Compiles the current /repo working tree: to LLVM IR (for the verifier) and
natively (for constants, replays and bounded stand-ins).  Everything is rebuilt
whenever any source byte of /repo/libff or of /verif/native changes."""
import os, sys, hashlib, subprocess, shutil, tempfile, time, json
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
NATIVE = os.path.join(VERIF, 'native')
CACHE = os.path.join(VERIF, '.cache')

# the flags of /repo's own default build (CMake: RelWithDebInfo, ALT_BN128, USE_ASM)
DEFS = ['-DBINARY_OUTPUT', '-DCURVE_ALT_BN128', '-DMONTGOMERY_OUTPUT', '-DNO_PROCPS', '-DUSE_ASM', '-DNDEBUG']
ARCH = ['-mpclmul', '-msse4.1']
STD = ['-std=gnu++14', '-w']

def sources():
    """library translation units of the default configuration (bn128 needs the external ate-pairing library and is not built)"""
    r = []
    base = os.path.join(REPO, 'libff')
    for dp, dn, fn in os.walk(base):
        dn[:] = sorted(d for d in dn if d not in ('tests', 'test', 'examples', 'bn128', 'benchmarks'))
        r += [os.path.relpath(os.path.join(dp, f), base)[:-4] for f in sorted(fn) if f.endswith('.cpp') and 'profile' not in f]
    return r


class BuildError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, 'libff'), NATIVE):
        for dp, dn, fn in sorted(os.walk(root)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith(('.cpp', '.hpp', '.tcc', '.h')):
                    p = os.path.join(dp, f)
                    h.update(p.encode() + b'\0')
                    with open(p, 'rb') as fh:
                        h.update(fh.read())
    h.update(repr((DEFS, ARCH, STD)).encode())
    with open(os.path.abspath(__file__), 'rb') as fh:
        h.update(fh.read())
    return h.hexdigest()[:20]


_dir = None


def _age(e):
    try:
        return os.path.getmtime(e)
    except OSError:
        return 0


def workdir():
    global _dir
    if _dir is None:
        d = os.path.join(CACHE, tree_hash())
        os.makedirs(d, exist_ok=True)
        os.utime(d)
        _dir = d
        ents = sorted((os.path.join(CACHE, x) for x in os.listdir(CACHE)), key=_age)
        now = time.time()
        for e in ents[:-10]:
            try:
                if now - os.path.getmtime(e) > 3600:
                    shutil.rmtree(e, ignore_errors=True)
            except OSError:
                pass    # removed by a concurrent run
    return _dir


def _run(cmd, out):
    """run cmd producing file out atomically"""
    if os.path.exists(out):
        return
    import fcntl
    with open(out + '.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return
        _run_locked(cmd, out)


def _run_locked(cmd, out):
    tmp = '%s.tmp%d' % (out, os.getpid())
    cmd = [c if c != '@OUT@' else tmp for c in cmd]
    r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stderr[:1200]))
    os.replace(tmp, out)


def ir_of(src, defs=None, opt='-O0'):
    """src: absolute path or library-relative stem -> path of .ll"""
    path = src if os.path.isabs(src) else (os.path.join(REPO, 'libff', src + '.cpp') if '/' in src else os.path.join(NATIVE, src + '.cpp'))
    tag = os.path.basename(path)[:-4] + ('' if defs is None else '-' + hashlib.md5(repr(defs).encode()).hexdigest()[:6]) + opt
    out = os.path.join(workdir(), tag + '.ll')
    _run(['clang++', '-fclang-abi-compat=17'] + (DEFS if defs is None else defs) + ARCH + STD + ['-I' + REPO, '-I' + NATIVE, opt, '-Xclang', '-disable-O0-optnone',
          '-fno-discard-value-names', '-S', '-emit-llvm', path, '-o', '@OUT@'], out)
    return out


def ir_module(srcs, defs=None):
    from ir import Module
    with ThreadPoolExecutor(8) as ex:
        lls = list(ex.map(lambda s: ir_of(s, defs), srcs))
    if len(lls) == 1:
        p = lls[0]
    else:
        p = os.path.join(workdir(), 'link-' + hashlib.md5('|'.join(lls).encode()).hexdigest()[:10] + '.ll')
        _run(['llvm-link', '-S'] + lls + ['-o', '@OUT@'], p)
    m = Module()
    m.load(p)
    return m


# other encodings of the library: suffix of a driver name -> (flags left out, flags added)
VARIANTS = {
    '': ((), ()),
    'text': (('-DBINARY_OUTPUT',), ()),
    'textplain': (('-DBINARY_OUTPUT', '-DMONTGOMERY_OUTPUT'), ('-DNO_PT_COMPRESSION',)),
    'plain': (('-DMONTGOMERY_OUTPUT',), ()),
    'full': ((), ('-DNO_PT_COMPRESSION',)),
}


def variant_defs(v):
    out, add = VARIANTS[v]
    return [x for x in DEFS if x not in out] + list(add)


def native_lib(v=''):
    """static library of the real sources (g++, as in the repo's build)"""
    d = workdir()
    lib = os.path.join(d, 'libff%s.a' % v)
    if os.path.exists(lib):
        return lib

    def one(s):
        o = os.path.join(d, v + s.replace('/', '_') + '.o')
        _run(['g++'] + variant_defs(v) + ARCH + STD + ['-O2' if not v else '-O1', '-fno-pie', '-I' + REPO, '-c', os.path.join(REPO, 'libff', s + '.cpp'), '-o', '@OUT@'], o)
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, sources()))
    tmp = lib + '.tmp%d' % os.getpid()
    r = subprocess.run(['ar', 'rcs', tmp] + objs, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr)
    os.replace(tmp, lib)
    return lib


def native_prog(name, opt='-O1', extra=()):
    """name: driver, or driver@encoding"""
    out = os.path.join(workdir(), name + '.exe')
    if os.path.exists(out):
        return out
    drv, _, v = name.partition('@')
    with ThreadPoolExecutor(2) as ex:
        fl = ex.submit(native_lib, v)
        o = os.path.join(workdir(), name + '.drv.o')
        fo = ex.submit(_run, ['g++'] + variant_defs(v) + ARCH + STD + [opt, '-fno-pie', '-I' + REPO, '-I' + NATIVE] + list(extra) + ['-c', os.path.join(NATIVE, drv + '.cpp'), '-o', '@OUT@'], o)
        lib = fl.result()
        fo.result()
    _run(['g++', '-no-pie', o, lib, '-lgmp', '-lgmpxx', '-lsodium', '-lcrypto', '-o', '@OUT@'], out)
    return out


ORDER = 'abe46'


def image_file(order=ORDER):
    out = os.path.join(workdir(), 'image-%s.txt' % order)
    if not os.path.exists(out):
        exe = native_prog('dump')
        r = subprocess.run(['nm', '-S', exe], capture_output=True, text=True)
        inp = []
        for l in r.stdout.split('\n'):
            p = l.split()
            if len(p) == 4 and p[2] in 'BbDdVvuRr' and 'libff' in p[3]:
                inp.append('%s %s %s' % (p[0], p[1], p[3]))
        r = subprocess.run([exe, order], input='\n'.join(inp) + '\n', capture_output=True, text=True, timeout=120)
        if r.returncode:
            raise BuildError('parameter initialisation failed: exit %d %s' % (r.returncode, r.stderr[-500:]))
        tmp = out + '.tmp%d' % os.getpid()
        with open(tmp, 'w') as f:
            f.write(r.stdout)
        os.replace(tmp, out)
    return out


def image(order=ORDER):
    """(symbol -> bytes for every global object of the initialised real library, window tables)"""
    img = {}
    tabs = {}
    with open(image_file(order)) as f:
        for l in f:
            p = l.split()
            if p[0] == 'G':
                img[p[1]] = bytes.fromhex(p[2]) if len(p) > 2 else b''
            elif p[0] == 'T':
                tabs[(p[1], p[2])] = [int(x) for x in p[3:]]
    return img, tabs


def reported(order=ORDER):
    """name -> bytes returned by the static accessors (sizes, orders, identities)"""
    r = {}
    with open(image_file(order)) as f:
        for l in f:
            p = l.split()
            if p[0] == 'S':
                r[p[1]] = bytes.fromhex(p[2]) if len(p) > 2 else b''
    return r
