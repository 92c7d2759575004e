"""Contracts for intrinsics, the C/C++ runtime and (assumed) library functions."""
import re
import z3
from irparse import *
from symex import *

class _NR: pass
NORET = _NR()
class Throw:
    def __init__(self, ti): self.ti = ti
class Outcomes:
    def __init__(self, nrm, ex): self.nrm = nrm; self.ex = ex

EXACT = {}
PREFIX = []
REGEX = []
def model(*names):
    def d(f):
        for n in names:
            if n.endswith('*'): PREFIX.append((n[:-1], f))
            else: EXACT[n] = f
        return f
    return d

def lookup(E, name):
    m = EXACT.get(name)
    if m: return m
    for p, f in PREFIX:
        if name.startswith(p): return f
    if E.opaque is not None:
        for rx in E.opaque:
            if rx.search(name):
                return opaque_call
    if name not in E.mod.fns:
        for rx in STD_OPAQUE:
            if rx.match(name): return opaque_call
    return None

# iostream / string / exception-message machinery: assumed to terminate without touching memory that
# the verified code can observe (they are used for messages only)
STD_OPAQUE = [re.compile(x) for x in (
    r'_ZNSt7__cxx11(18|19)basic_(string|ostring|istring)stream', r'_ZNSo', r'_ZNSolsE', r'_ZStlsI', r'_ZNSt8ios_base', r'_ZNKSt7__cxx11(18|19)basic_',
    r'_ZNSt(13runtime_error|11logic_error|16invalid_argument|12out_of_range|9exception|12length_error)[CD]', r'_ZNKSt.*4whatEv', r'_ZSt(4endl|5flush)',
    r'_ZNSt7__cxx1112basic_stringIcS', r'_ZNKSt7__cxx1112basic_stringIcS', r'_ZSt17current_exceptionv', r'_ZNSt15__exception_ptr')]
Engine.opaque = None

def opaque_call(E, s, a, ins, name):
    E.externs_assumed.add(name)
    t = ins.t if ins is not None else VOID
    t = E.mod.resolve(t)
    if t.k == 'void': return None
    if t.k == 'ptr':
        # stream operators return their first argument
        if a and isinstance(a[0], Ptr): return a[0]
        return P('opq', E.fresh('opq', 64))
    if t.k == 'int': return E.fresh('ext', t.n)
    if t.k in ('float', 'double'): return E.freshf('ext', t)
    raise Undecided('opaque call result ' + t.k)

@model('llvm.lifetime.*', 'llvm.dbg.*', 'llvm.experimental.noalias*', 'llvm.invariant*', 'llvm.var.annotation*', 'llvm.stackrestore*', 'llvm.donothing', 'llvm.prefetch*')
def nop(E, s, a, ins, name): return None
@model('llvm.assume')
def assume_(E, s, a, ins, name): return None
@model('llvm.stacksave*')
def ss(E, s, a, ins, name): return NULL
@model('llvm.expect*')
def expect(E, s, a, ins, name): return a[0]
@model('llvm.launder*', 'llvm.strip*')
def launder(E, s, a, ins, name): return a[0]
@model('llvm.objectsize*')
def objsz(E, s, a, ins, name): return M64
@model('llvm.is.constant*')
def isc(E, s, a, ins, name): return False
@model('llvm.trap', 'abort', '__clang_call_terminate', '_ZSt9terminatev', '__assert_fail')
def trap(E, s, a, ins, name):
    E.oblig(s, z3.BoolVal(False), 'abort/terminate reached', 'abort'); return NORET
@model('llvm.memcpy.*', 'llvm.memmove.*', 'memcpy', 'memmove')
def memcpy_(E, s, a, ins, name):
    E.memcpy(s, a[0], a[1], a[2])
    return a[0]
@model('llvm.memset.*', 'memset')
def memset_(E, s, a, ins, name):
    b = a[1]
    if name == 'memset':
        b = E.cast('trunc', INT(32), b, INT(8))
    E.memset(s, a[0], b, a[2]); return a[0]

def minmax(p):
    def f(E, s, a, ins, name):
        t = E.mod.resolve(ins.t)
        c = E.icmp(p, a[0], a[1], t)
        return E.ite(c, a[0], a[1], t.n)
    return f
for _n, _p in (('smax', 'sgt'), ('smin', 'slt'), ('umax', 'ugt'), ('umin', 'ult')):
    PREFIX.append(('llvm.%s.' % _n, minmax(_p)))
@model('llvm.abs.*', 'abs', 'labs', 'llabs')
def abs_(E, s, a, ins, name):
    t = E.mod.resolve(ins.t)
    c = E.icmp('slt', a[0], 0, t)
    return E.ite(c, E.binop('sub', 0, a[0], t, []), a[0], t.n)
@model('llvm.bswap.*')
def bswap(E, s, a, ins, name):
    w = ins.t.n; v = a[0]
    if isinstance(v, int): return int.from_bytes(v.to_bytes(w // 8, 'little'), 'big')
    return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v) for i in range(w // 8)])
@model('llvm.fshl.*')
def fshl(E, s, a, ins, name):
    w = ins.t.n
    if not isinstance(a[2], int): raise Undecided('fshl')
    k = a[2] % w
    if k == 0: return a[0]
    t = INT(w)
    return E.binop('or', E.binop('shl', a[0], k, t, []), E.binop('lshr', a[1], w - k, t, []), t, [])
@model('llvm.ctlz.*', 'llvm.cttz.*')
def clz(E, s, a, ins, name):
    w = ins.t.n; v = a[0]
    r = z3.BitVecVal(w, w)
    rng = range(w) if 'ctlz' in name else reversed(range(w))
    V = bv(v, w)
    for i in rng:
        r = z3.If(z3.Extract(i, i, V) == 1, z3.BitVecVal(w - 1 - i if 'ctlz' in name else i, w), r)
    return simp(r)
@model('llvm.ctpop.*')
def ctpop(E, s, a, ins, name):
    w = ins.t.n; V = bv(a[0], w)
    r = z3.BitVecVal(0, w)
    for i in range(w): r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, V))
    return simp(r)
@model('llvm.umul.with.overflow.*', 'llvm.smul.with.overflow.*', 'llvm.uadd.with.overflow.*', 'llvm.sadd.with.overflow.*', 'llvm.usub.with.overflow.*', 'llvm.ssub.with.overflow.*')
def ovf(E, s, a, ins, name):
    w = E.mod.resolve(ins.t).fields[0].n
    op = re.match(r'llvm\.(.)(mul|add|sub)', name)
    x = bv(a[0], w); y = bv(a[1], w)
    ext = z3.ZeroExt if op.group(1) == 'u' else z3.SignExt
    X = ext(w, x); Y = ext(w, y)
    R = {'mul': X * Y, 'add': X + Y, 'sub': X - Y}[op.group(2)]
    r = simp(z3.Extract(w - 1, 0, R))
    return [r, simp(ext(w, bv(r, w)) != R)]
@model('llvm.usub.sat.*')
def usubsat(E, s, a, ins, name):
    t = ins.t
    return E.ite(E.icmp('uge', a[0], a[1], t), E.binop('sub', a[0], a[1], t, []), 0, t.n)
@model('llvm.fabs.*', 'fabs', 'fabsf')
def fabs_(E, s, a, ins, name): return abs(a[0]) if isinstance(a[0], float) else E.fpuf('fabs', E.mod.resolve(ins.t), a[0]) if E.opts.get('fp_uf') == 2 else z3.fpAbs(a[0])
def rnd(mode, pf):
    def f(E, s, a, ins, name):
        if isinstance(a[0], float): return float(pf(a[0])) if a[0] == a[0] and not math.isinf(a[0]) else a[0]
        if E.opts.get('fp_uf'): return E.fpuf('rnd_%s' % mode, E.mod.resolve(ins.t), a[0])
        return z3.fpRoundToIntegral(mode, a[0])
    return f
for _n in ('floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint'):
    _f = rnd({'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'round': z3.RNA(), 'rint': z3.RNE(), 'nearbyint': z3.RNE()}[_n],
             {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'round': lambda x: math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1), 'rint': round, 'nearbyint': round}[_n])
    PREFIX.append(('llvm.%s.' % _n, _f)); EXACT[_n] = _f; EXACT[_n + 'f'] = _f
@model('lround', 'lroundf', 'llround', 'llroundf', 'llvm.lround.*')
def lround_(E, s, a, ins, name):
    v = a[0]
    if isinstance(v, float):
        if v != v or math.isinf(v): return 0
        return int(math.floor(abs(v) + 0.5) * (1 if v >= 0 else -1)) & M64
    if E.opts.get('fp_uf'): return z3.Function('uf_lround_%s' % v.sort(), v.sort(), z3.BitVecSort(64))(v)
    return z3.fpToSBV(z3.RNA(), v, z3.BitVecSort(64))
def _ct(f):
    def g(E, s, a, ins, name):
        c = a[0]
        if isinstance(c, int): return 1 if f(c, lambda x, l, h: l <= x <= h) else 0
        return z3.If(f(c, lambda x, l, h: z3.And(z3.UGE(x, l), z3.ULE(x, h))), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
    return g
EXACT['isupper'] = _ct(lambda c, r: r(c, 65, 90)); EXACT['islower'] = _ct(lambda c, r: r(c, 97, 122)); EXACT['isdigit'] = _ct(lambda c, r: r(c, 48, 57))
EXACT['isascii'] = _ct(lambda c, r: r(c, 0, 127))
@model('toupper', 'tolower')
def toupper_(E, s, a, ins, name):
    c = a[0]; lo, hi, d = (97, 122, -32) if name == 'toupper' else (65, 90, 32)
    if isinstance(c, int): return c + d if lo <= c <= hi else c
    return z3.If(z3.And(z3.UGE(c, lo), z3.ULE(c, hi)), c + d, c)
@model('llvm.maxnum.*', 'fmax')
def fmaxn(E, s, a, ins, name): return E.ite(E.fcmp('ogt', a[0], a[1], ins.t), a[0], a[1], 64)
@model('llvm.minnum.*', 'fmin')
def fminn(E, s, a, ins, name): return E.ite(E.fcmp('olt', a[0], a[1], ins.t), a[0], a[1], 64)
@model('llvm.eh.typeid.for*')
def typeidfor(E, s, a, ins, name):
    v = ins.a[1][0][1]
    return E.typeid(v[1])
@model('llvm.is.fpclass*')
def isfpclass(E, s, a, ins, name):
    m = a[1]
    x = a[0]
    if E.opts.get('fp_uf') == 2 and not isinstance(x, float):
        if m & 3 == 3 and m & ~3 == 0: return E.fpnan(x)
        return z3.Function('uf_class%x_%s' % (m, x.sort()), x.sort(), z3.BoolSort())(x)
    if isinstance(x, float): x = z3.FPVal(x, F64 if 'f64' in name else F32)
    tests = []
    if m & 3: tests.append(z3.fpIsNaN(x))
    if m & 0x4: tests.append(z3.And(z3.fpIsInf(x), z3.fpIsNegative(x)))
    if m & 0x200: tests.append(z3.And(z3.fpIsInf(x), z3.fpIsPositive(x)))
    if m & ~0x207: raise Undecided('fpclass')
    return simp(z3.Or(*tests))

@model('bcmp', 'memcmp')
def bcmp_(E, s, a, ins, name):
    n = simp(a[2])
    if isinstance(n, int):
        if n == 0: return 0
        if n > 128: raise Undecided('memcmp size')
        A = [E.load(s, E.padd(E.asptr(a[0]), i), INT(8)) for i in range(n)]
        B = [E.load(s, E.padd(E.asptr(a[1]), i), INT(8)) for i in range(n)]
        if all(isinstance(x, int) for x in A + B):
            return 0 if A == B else (1 if bytes(A) > bytes(B) else mask(32))
        r = z3.BitVecVal(0, 32)
        for x, y in reversed(list(zip(A, B))):
            x = bv(x, 8); y = bv(y, 8)
            r = z3.If(x == y, r, z3.If(z3.UGT(x, y), z3.BitVecVal(1, 32), z3.BitVecVal(mask(32), 32)))
        return r
    raise Undecided('memcmp with symbolic size')
@model('strlen')
def strlen_(E, s, a, ins, name):
    for i in range(0, 512):
        b = E.load(s, E.padd(E.asptr(a[0]), i), INT(8))
        if isinstance(b, int):
            if b == 0: return i
        else: raise Undecided('strlen of symbolic string')
    raise Undecided('strlen')
@model('strcmp', 'strncmp')
def strcmp_(E, s, a, ins, name):
    lim = simp(a[2]) if name == 'strncmp' else 256
    if not isinstance(lim, int): raise Undecided('strncmp')
    conds = []
    eq = True; res = None
    pairs = []
    for i in range(lim):
        x = E.load(s, E.padd(E.asptr(a[0]), i), INT(8)); y = E.load(s, E.padd(E.asptr(a[1]), i), INT(8))
        pairs.append((x, y))
        if (isinstance(x, int) and x == 0) or (isinstance(y, int) and y == 0): break
        if isinstance(x, int) and isinstance(y, int) and x != y: break
    r = 0
    for x, y in reversed(pairs):
        X = bv(x, 8); Y = bv(y, 8)
        d = E.ite(simp(z3.UGT(X, Y)), 1, mask(32), 32)
        r = E.ite(simp(X == Y), E.ite(simp(X == 0), 0, r, 32), d, 32)
    return r

@model('malloc', 'aligned_alloc')
def malloc_(E, s, a, ins, name):
    n = simp(a[-1])
    o = E.newobj(s, n, 'malloc', 'heap')
    if E.opts.get('malloc_may_fail', True):
        f = E.fresh('malloc_ok', 1)
        return Ptr([(f, o.id, 0), (z3.Not(f), None, 0)])
    return P(o.id, 0)
@model('calloc')
def calloc_(E, s, a, ins, name):
    n = simp(mul64(a[0], a[1]))
    o = E.newobj(s, n, 'calloc', 'heap', Base('zero'))
    return P(o.id, 0)
@model('_Znwm', '_Znam', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t')
def new_(E, s, a, ins, name):
    o = E.newobj(s, simp(a[0]), 'new', 'heap')
    return P(o.id, 0)
@model('free', '_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm')
def free_(E, s, a, ins, name): return None
@model('__cxa_allocate_exception')
def cxaalloc(E, s, a, ins, name):
    o = E.newobj(s, simp(a[0]), 'exc', 'heap'); return P(o.id, 0)
@model('__cxa_free_exception', '__cxa_end_catch', '__cxa_atexit', '__cxa_guard_release', '__cxa_guard_abort')
def nop2(E, s, a, ins, name): return None
@model('__cxa_begin_catch')
def begin_catch(E, s, a, ins, name):
    s.exc = None
    return P('opq', 0)
@model('__cxa_guard_acquire')
def guard(E, s, a, ins, name):
    v = E.load(s, a[0], INT(8))
    E.store(s, a[0], 1, INT(8))
    return E.ite(E.icmp('eq', v, 0, INT(8)), 1, 0, 32)
@model('__cxa_throw')
def cxathrow(E, s, a, ins, name):
    v = ins.a[1][1][1]
    return Throw(v[1] if v[0] == 'g' else '?')
@model('__cxa_rethrow')
def rethrow(E, s, a, ins, name): return Throw('?')
@model('__cxa_pure_virtual')
def pv(E, s, a, ins, name):
    raise Undecided('pure virtual call')
@model('_ZSt20__throw_length_errorPKc', '_ZSt20__throw_out_of_rangePKc', '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt25__throw_bad_function_callv', '_ZSt17__throw_bad_allocv',
       '_ZSt19__throw_logic_errorPKc', '_ZSt28__throw_bad_array_new_lengthv', '_ZSt24__throw_invalid_argumentPKc', '_ZSt16__throw_bad_castv')
def stdthrow(E, s, a, ins, name): return Throw(STDTHROW[name])
# reference counting of shared_ptr: not observable by the contracts (objects are never reclaimed in the model)
@model('_ZNSt16_Sp_counted_baseILN9__gnu_cxx12_Lock_policyE2EE10_M_releaseEv', '_ZNSt16_Sp_counted_baseILN9__gnu_cxx12_Lock_policyE2EE15_M_add_ref_copyEv', '_ZNSt14__shared_countILN9__gnu_cxx12_Lock_policyE2EED2Ev',
       '_ZNSt16_Sp_counted_baseILN9__gnu_cxx12_Lock_policyE2EE24_M_release_last_use_coldEv', '_ZNSt12__weak_countILN9__gnu_cxx12_Lock_policyE2EED2Ev')
def nop3(E, s, a, ins, name): return None
@model('pthread_mutex_lock', 'pthread_mutex_unlock', '__gthrw_pthread_mutex_lock', '__gthrw_pthread_mutex_unlock', 'pthread_mutex_trylock')
def lock_(E, s, a, ins, name): return 0
@model('_ZNSt5mutex4lockEv', '_ZNSt5mutex6unlockEv')
def lock2(E, s, a, ins, name): return None

# ---------------------------------------------------------------- harness API
def cstr(E, s, p):
    p = E.asptr(p)
    g, o, f = p.alts[0]
    out = bytearray()
    c = s.mem[o]
    while True:
        b = E.read_byte(c, f)
        if not isinstance(b, int): raise Undecided('symbolic string constant')
        if b == 0: break
        out.append(b); f += 1
    return out.decode()
def uniq(E, n):
    c = E.namecnt.get(n, 0); E.namecnt[n] = c + 1
    return n if c == 0 else '%s#%d' % (n, c)

def nondet(w):
    def f(E, s, a, ins, name):
        n = cstr(E, s, a[0])
        if E.quiet:
            v = E.fresh('q_' + n, w)
            return v if w != 1 else v
        n = uniq(E, n)
        v = z3.Bool(n) if w == 1 else z3.BitVec(n, w)
        E.inputs.append((n, v, w))
        return v
    return f
EXACT['vc_bool'] = nondet(1)
for _w in (8, 16, 32, 64):
    EXACT['vc_u%d' % _w] = nondet(_w); EXACT['vc_i%d' % _w] = nondet(_w)
@model('vc_f64', 'vc_f32')
def vcf(E, s, a, ins, name):
    n = uniq(E, cstr(E, s, a[0]))
    t = DOUBLE if name == 'vc_f64' else FLOAT
    v = z3.FP(n, fsort(t)); E.inputs.append((n, v, 'f'))
    return v
@model('vc_buf')
def vcbuf(E, s, a, ins, name):
    n = cstr(E, s, a[1])
    n = uniq(E, n)
    size = simp(a[0])
    uf = z3.Function('buf_' + n, z3.BitVecSort(64), z3.BitVecSort(8))
    o = E.newobj(s, size, n, 'heap', Base('uf', uf))
    E.bufs.append((n, o.id, size, uf))
    return P(o.id, 0)
@model('vc_initial')
def vcinit(E, s, a, ins, name):
    """byte of a buffer as it was when created: vc_initial(buf_base, off)"""
    p = E.asptr(a[0])
    g, o, f = p.alts[0]
    return E.read_byte(E.objs[o].initial, add64(f, a[1]))
@model('vc_assume')
def vcassume(E, s, a, ins, name):
    c = tobool(a[0])
    c = simp(c) if isz(c) else c
    if c is True: return None
    if c is False: return NORET
    s.pc = s.pc + [c]
    if not E.feasible(s.pc): return NORET
    return None
@model('vc_assert')
def vcassert(E, s, a, ins, name):
    n = cstr(E, s, a[1])
    c = tobool(a[0])
    if E.quiet: return None
    c = simp(c) if isz(c) else c
    E.asserts_seen[n] = E.asserts_seen.get(n, 0) + 1
    if c is True: E.ntrivial += 1; return None
    E.obligs.append(Oblig(list(s.pc), zb(c), n, 'assert', E.stack[-1]))
    if isz(c): s.pc = s.pc + [c]
    return None
Engine.asserts_seen = {}
@model('vc_cover')
def vccover(E, s, a, ins, name):
    if not E.quiet: E.covers.append((cstr(E, s, a[0]), list(s.pc)))
    return None
@model('vc_case')
def vccase(E, s, a, ins, name):
    """proof hint: split obligations on this condition (no effect on meaning)"""
    c = a[0]
    if not isinstance(c, bool):
        if z3.is_bv(c): c = c == 1
        c = z3.simplify(c)
        if not (z3.is_true(c) or z3.is_false(c)) and c.get_id() not in [x.get_id() for x in E.cases]: E.cases.append(c)
    return None
@model('vc_case_at')
def vccaseat(E, s, a, ins, name):
    """proof hint: split obligations on inner loop counter == a[0] and outer loop counter == a[1]"""
    for p in E.curphis[:2]:
        for q in (E.phistack[-1][:2] if E.phistack else [None]):
            try:
                cs = [p == bv(a[0] if p.size() == 32 else z3.SignExt(32, bv(a[0], 32)), p.size())]
                if q is not None: cs.append(q == bv(a[1] if q.size() == 32 else z3.SignExt(32, bv(a[1], 32)), q.size()))
            except z3.Z3Exception: continue
            c = z3.And(cs)
            if c.get_id() not in [x.get_id() for x in E.cases]: E.cases.append(c)
    return None
@model('vc_loop_inv')
def vcloopinv(E, s, a, ins, name):
    """vc_loop_inv(depth, fn, ctx, name)"""
    fnp = E.asptr(a[1]).alts[0][1]
    E.loopinvs.setdefault(a[0], []).append((fnp.name, a[2], cstr(E, s, a[3])))
    return None
@model('vc_loop_val')
def vcloopval(E, s, a, ins, name):
    """vc_loop_val(depth, fn, ctx): closed form (as a function of the iteration count) of a local variable of the loop"""
    E.loopvals.setdefault(a[0], []).append((E.asptr(a[1]).alts[0][1].name, a[2], 'value'))
    return None
@model('vc_assume_forall')
def vcassumeforall(E, s, a, ins, name):
    E.loopassume.setdefault(a[0], []).append((E.asptr(a[1]).alts[0][1].name, a[2], 'assumed'))
    return None
@model('vc_loop_clear')
def vcloopclr(E, s, a, ins, name):
    E.loopinvs.clear(); E.loopassume.clear(); E.loopvals.clear(); return None
@model('vc_replace')
def vcreplace(E, s, a, ins, name):
    x = E.asptr(a[0]).alts[0][1]; y = E.asptr(a[1]).alts[0][1]
    E.stubs[x.name] = y.name
    E.contracts_used.add((x.name, y.name))
    return None
Engine.contracts_used = set()
@model('vc_replace_name')
def vcreplacename(E, s, a, ins, name):
    n = cstr(E, s, a[0]); y = E.asptr(a[1]).alts[0][1]
    hits = [f for f in list(E.mod.fns) + list(E.mod.decls) if re.search(n, f)]
    for h in hits:
        E.stubs[h] = y.name; E.contracts_used.add((h, y.name))
    return None
@model('vc_replace_rec')
def vcreplacerec(E, s, a, ins, name):
    n = cstr(E, s, a[0]); y = E.asptr(a[1]).alts[0][1]
    for h in [f for f in list(E.mod.fns) if re.search(n, f)]:
        E.stubs[h] = y.name; E.rec_stubs.add(h); E.contracts_used.add((h, y.name))
    return None
@model('vc_havoc')
def vchavoc(E, s, a, ins, name):
    """vc_havoc(ptr, n): bytes become arbitrary"""
    n = simp(a[1])
    if isinstance(n, int) and n == 0: return None
    E.nfresh += 1
    src = Content(Base('uf', z3.Function('havoc_%d' % E.nfresh, z3.BitVecSort(64), z3.BitVecSort(8))))
    for g, o, f in E.live_alts(s, E.asptr(a[0]), n, 'havoc'):
        E.write_obj(s, o, f, n, lambda c: (lambda nc: nc if g is True else E.merge_content(g, nc, c))(E.ccopy(c, f, n, src, 0)))
    return None
@model('vc_abstract_mul')
def vcamul(E, s, a, ins, name):
    E.abstract_mul = a[0]; return None
@model('vc_is_proof')
def vcisproof(E, s, a, ins, name): return True
@model('vc_opt')
def vcopt(E, s, a, ins, name):
    E.opts[cstr(E, s, a[0])] = a[1]
    if cstr(E, s, a[0]) == 'unroll': E.limit_unroll = a[1]
    return None
@model('vc_writable')
def vcwritable(E, s, a, ins, name):
    """obligation: [p,p+n) lies inside one live object"""
    E.live_alts(s, E.asptr(a[0]), simp(a[1]), cstr(E, s, a[2])); return None
@model('vc_same_obj')
def vcsameobj(E, s, a, ins, name):
    x = E.asptr(a[0]); y = E.asptr(a[1])
    return len(x.alts) == 1 and len(y.alts) == 1 and x.alts[0][1] == y.alts[0][1]
@model('vc_path_end')
def vcpe(E, s, a, ins, name): return NORET
@model('vc_obj_size')
def vcobjsize(E, s, a, ins, name):
    x = E.asptr(a[0]); return E.objs[x.alts[0][1]].size
@model('vc_hint')
def vchint(E, s, a, ins, name): return None
