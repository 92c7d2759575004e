"""Builds IR modules (for the proof) and native binaries (for replay / bounded falsification) from /repo's current sources."""
import os, re, subprocess, hashlib, sys
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VC_REPO', '/repo')
SRC = REPO + '/Src/libCZI'
LLVM = '/usr/lib/llvm-18/bin/'
PASSES = 'function(sroa,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify,lcssa)'
SAN = ['-fsanitize=address,bounds,null,return,unreachable,integer-divide-by-zero', '-fno-sanitize-recover=all']

class BuildError(Exception): pass

CONFIG = {'libCZI_ISBIGENDIANHOST': '0', 'libCZI_HAVE_ENDIAN_H': '1', 'libCZI_CrashOnUnalignedIntegers': '0', 'libCZI_HAVE_ALIGNED_ALLOC': '1',
          'libCZI_HAVE__ALIGNED_MALLOC': '0', 'libCZI_UsePreadPwriteBasedStreamImplementation': '1', 'libCZI_Has_builtin_bswap32': '1'}
def config_header(d):
    """instantiates libCZI_Config.h.in for a little-endian POSIX host without AVX/NEON (the configuration the repository builds with here, minus curl)"""
    src = open(SRC + '/libCZI_Config.h.in').read()
    def sub(m):
        n = m.group(1)
        if n in CONFIG: return CONFIG[n]
        ln = src[src.rfind('\n', 0, m.start()) + 1:m.start()]
        if '"' in ln: return 'x'
        if 'VERSION' in n.upper(): return '0'
        return '0'
    out = re.sub(r'@(\w+)@', sub, src)
    os.makedirs(d, exist_ok=True)
    open(d + '/libCZI_Config.h', 'w').write(out)

def flags(inc):
    return ['-std=gnu++14', '-w', '-ffp-contract=off', '-DNDEBUG', '-D_LIBCZISTATICLIB', '-D_LIBCZIAPISTATICLIB=1', '-D_FILE_OFFSET_BITS=64', '-I' + inc, '-I' + SRC, '-I' + VERIF + '/harness', '-isystem', '/usr/include/eigen3']

def run(cmd, what):
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode: raise BuildError(what + ': ' + p.stderr[-3000:])
    return p.stdout

def tus(h):
    t = open('%s/harness/%s.cpp' % (VERIF, h)).read()
    out = []
    for m in re.finditer(r'^// TUS: (.*)$', t, re.M): out += m.group(1).split()
    return out
def libs(h):
    t = open('%s/harness/%s.cpp' % (VERIF, h)).read()
    out = []
    for m in re.finditer(r'^// LIBS: (.*)$', t, re.M): out += m.group(1).split()
    return out
def ntus(h):
    t = open('%s/harness/%s.cpp' % (VERIF, h)).read()
    out = []
    for m in re.finditer(r'^// NTUS: (.*)$', t, re.M): out += m.group(1).split()
    return out

def san(h):
    t = open('%s/harness/%s.cpp' % (VERIF, h)).read()
    m = re.search(r'^// SAN: (\w+)$', t, re.M)
    return ['-fsanitize=' + m.group(1)] if m else SAN
def all_lib(h):
    """every source of the library except those the harness includes itself and the Windows-only decoder"""
    inc = set(re.findall(r'^#include "([\w/]+\.cpp)"', open('%s/harness/%s.cpp' % (VERIF, h)).read(), re.M))
    out = sorted(f for f in os.listdir(SRC) if f.endswith('.cpp') and f not in inc and f not in ('decoder_wic.cpp', 'utilities_simd.cpp'))
    return out + ['StreamsLib/streamsFactory.cpp', 'StreamsLib/simplefileinputstream.cpp', 'StreamsLib/preadfileinputstream.cpp']
def src_path(t):
    if t.startswith('/'): return t
    if t.startswith('H:'): return VERIF + '/harness/' + t[2:]
    return SRC + '/' + t

def expand(h, ts):
    out = []
    for t in ts: out += all_lib(h) if t == '@lib' else [t]
    return list(dict.fromkeys(out))
class Builder:
    def __init__(self, d, jobs=8):
        self.d = d; self.inc = d + '/inc'
        config_header(self.inc)
        self.pool = ThreadPoolExecutor(jobs)
        self.cache = {}
    def fut(self, key, fn, *a):
        if key not in self.cache: self.cache[key] = self.pool.submit(fn, *a)
        return self.cache[key]
    def _ll(self, path, tag):
        o = '%s/%s.bc' % (self.d, tag)
        run(['clang++'] + flags(self.inc) + ['-O1', '-Xclang', '-disable-llvm-passes', '-DVC_PROOF', '-emit-llvm', '-fno-discard-value-names', '-c', path, '-o', o], 'compile (IR) ' + path)
        return o
    def _obj(self, path, tag, sn=SAN):
        o = '%s/%s.o' % (self.d, tag)
        run(['clang++'] + flags(self.inc) + ['-g1', '-O1'] + sn + ['-c', path, '-o', o], 'compile (native) ' + path)
        return o
    @staticmethod
    def tag(p): return os.path.basename(p).replace('.', '_') + hashlib.md5(p.encode()).hexdigest()[:6]
    def ir_parts(self, h):
        ps = ['%s/harness/%s.cpp' % (VERIF, h)] + [src_path(t) for t in tus(h)]
        return [self.fut(('ll', p), self._ll, p, self.tag(p)) for p in ps]
    def ir(self, h):
        parts = [f.result() for f in self.ir_parts(h)]
        out = '%s/%s.ll' % (self.d, h)
        if len(parts) > 1: run([LLVM + 'llvm-link'] + parts + ['-o', out + '.bc'], 'llvm-link'); src = out + '.bc'
        else: src = parts[0]
        run([LLVM + 'opt', '-S', '-passes=' + PASSES, src, '-o', out], 'opt')
        return out
    def native_parts(self, h):
        ps = ['%s/harness/%s.cpp' % (VERIF, h), VERIF + '/native/vc_native.cpp'] + [src_path(t) for t in expand(h, tus(h) + ntus(h))]
        sn = san(h)
        return [self.fut(('o', p) + tuple(sn), self._obj, p, self.tag(p) + ('' if sn is SAN else 'x'), sn) for p in ps]
    def native(self, h):
        parts = [f.result() for f in self.native_parts(h)]
        out = '%s/%s.exe' % (self.d, h)
        run(['clang++'] + san(h) + parts + ['-o', out, '-rdynamic', '-ldl', '-lpthread'] + libs(h) + ['-Wl,--unresolved-symbols=ignore-all'], 'link')
        return out
