"""Deductive VC generation over LLVM IR: symbolic execution with state merging, loop cut points
(user invariants + Houdini-inferred ones), byte-accurate memory, C++ exceptions.
All obligations are collected; solving happens in prove.py."""
import os, struct, sys, time, math
import z3
from irparse import *

sys.setrecursionlimit(20000)
M64 = (1 << 64) - 1

class Undecided(Exception):
    """the engine cannot decide (unsupported construct, limit)."""

class RestartCut(Exception):
    def __init__(self, key): self.key = key

class PathEnd(Exception):
    pass

# ------------------------------------------------------------------ values
class Undef:
    def __repr__(self): return 'undef'
UNDEF = Undef()

class FuncRef:
    __slots__ = ('name',)
    def __init__(self, n): self.name = n
    def __repr__(self): return '@' + self.name
    def __eq__(self, o): return isinstance(o, FuncRef) and o.name == self.name
    def __hash__(self): return hash(self.name)

class Ptr:
    """alternatives: list of (guard z3 Bool or True, obj, off); obj: int id, FuncRef, None (=null/int address), 'opq'"""
    __slots__ = ('alts',)
    def __init__(self, alts): self.alts = alts
    def __repr__(self): return 'Ptr' + repr([(a[1], a[2]) for a in self.alts])

def P(obj, off=0): return Ptr([(True, obj, off)])
NULL = P(None, 0)

class PInt:
    """integer with pointer provenance (64 bit)"""
    __slots__ = ('p',)
    def __init__(self, p): self.p = p

def isz(x): return isinstance(x, z3.ExprRef)
def mask(w): return (1 << w) - 1
def bv(v, w):
    if isinstance(v, (int, bool)):
        return z3.BitVecVal(int(v) & mask(w), w)
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v
def tobool(v):
    if isinstance(v, (int, bool)): return bool(v)
    if v is UNDEF: return False
    if z3.is_bv(v): return v == z3.BitVecVal(1, v.size())
    return v
def zb(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v
def conc(v):
    """fold a z3 expr to python int if it simplifies to a constant"""
    if isz(v):
        if z3.is_bv_value(v): return v.as_long()
        if z3.is_true(v): return True
        if z3.is_false(v): return False
    return v
def simp(v):
    if isz(v):
        v = z3.simplify(v)
        return conc(v)
    return v
def add64(a, b):
    if isinstance(a, int) and isinstance(b, int): return (a + b) & M64
    if isinstance(a, int) and a == 0: return b
    if isinstance(b, int) and b == 0: return a
    return simp(bv(a, 64) + bv(b, 64))
def sub64(a, b):
    if isinstance(a, int) and isinstance(b, int): return (a - b) & M64
    if isinstance(b, int) and b == 0: return a
    if isz(a) and isz(b) and a.eq(b): return 0
    return simp(bv(a, 64) - bv(b, 64))
def mul64(a, b):
    if isinstance(a, int) and isinstance(b, int): return (a * b) & M64
    if isinstance(b, int) and not isinstance(a, int): a, b = b, a
    if isinstance(a, int):
        if a == 0: return 0
        if a == 1: return b
    return bv(a, 64) * bv(b, 64)
def same(a, b):
    if a is b: return True
    if isz(a) and isz(b): return a.eq(b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)): return type(a) == type(b) and (a == b or a != a and b != b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return len(a.alts) == len(b.alts) and all(x[1] == y[1] and same(x[2], y[2]) and same_g(x[0], y[0]) for x, y in zip(a.alts, b.alts))
    if isinstance(a, PInt) and isinstance(b, PInt): return same(a.p, b.p)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return False
def same_g(a, b):
    if a is True or b is True: return a is b
    return a.eq(b)
def AND(a, b):
    if a is True: return b
    if b is True: return a
    if a is False or b is False: return False
    return z3.And(a, b)
def OR(a, b):
    if a is False: return b
    if b is False: return a
    if a is True or b is True: return True
    return z3.Or(a, b)
def NOT(a):
    if isinstance(a, bool): return not a
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)
def conj(l):
    l = [x for x in l if x is not True]
    if not l: return True
    if len(l) == 1: return l[0]
    return z3.And(*l)

F32 = z3.Float32(); F64 = z3.Float64(); RNE = z3.RNE()
def fsort(t):
    if t.k == 'float': return F32
    if t.k == 'double': return F64
    raise Undecided('fp type ' + t.k)
def fpv(v, t):
    if isinstance(v, (int, float)): return z3.FPVal(float(v), fsort(t))
    return v
def fround(v, t):
    if t.k == 'float':
        try: return struct.unpack('<f', struct.pack('<f', v))[0]
        except OverflowError: return math.inf if v > 0 else -math.inf
    return v
def fbits(v, t):
    if isinstance(v, float):
        return struct.unpack('<I' if t.k == 'float' else '<Q', struct.pack('<f' if t.k == 'float' else '<d', v))[0]
    return z3.fpToIEEEBV(v)
def ffrom(bits, t):
    if isinstance(bits, int):
        return struct.unpack('<f' if t.k == 'float' else '<d', (bits & mask(32 if t.k == 'float' else 64)).to_bytes(4 if t.k == 'float' else 8, 'little'))[0]
    if z3.is_app(bits):
        b = z3.simplify(bits)
        if b.decl().kind() == z3.Z3_OP_FPA_TO_IEEE_BV and b.arg(0).sort() == fsort(t): return b.arg(0)
    return z3.fpBVToFP(bits, fsort(t))

# ------------------------------------------------------------------ memory
class Base:
    __slots__ = ('kind', 'x')
    def __init__(self, kind, x=None): self.kind = kind; self.x = x
class SymStore:
    __slots__ = ('prev', 'off', 'n', 'val')
    def __init__(self, prev, off, n, val): self.prev = prev; self.off = off; self.n = n; self.val = val
class CopyN:
    __slots__ = ('prev', 'd', 'n', 'src', 's')
    def __init__(self, prev, d, n, src, s): self.prev = prev; self.d = d; self.n = n; self.src = src; self.s = s
class FillN:
    __slots__ = ('prev', 'd', 'n', 'b')
    def __init__(self, prev, d, n, b): self.prev = prev; self.d = d; self.n = n; self.b = b
class IteN:
    __slots__ = ('g', 'a', 'b')
    def __init__(self, g, a, b): self.g = g; self.a = a; self.b = b
class Content:
    __slots__ = ('cells', 'parent')
    def __init__(self, parent, cells=None): self.parent = parent; self.cells = cells if cells is not None else {}

class Obj:
    __slots__ = ('id', 'size', 'name', 'kind', 'initial', 'align', 'ro')
    def __init__(self, id, size, name, kind):
        self.id = id; self.size = size; self.name = name; self.kind = kind; self.initial = None; self.align = 16; self.ro = False

class St:
    __slots__ = ('pc', 'mem', 'env', 'loops', 'exc')
    def __init__(self, pc, mem, env=None, loops=(), exc=None):
        self.pc = pc; self.mem = mem; self.env = env if env is not None else {}; self.loops = loops; self.exc = exc
    def fork(self):
        return St(list(self.pc), dict(self.mem), dict(self.env), self.loops, self.exc)

class Oblig:
    __slots__ = ('pc', 'cond', 'name', 'kind', 'fn')
    def __init__(self, pc, cond, name, kind, fn):
        self.pc = pc; self.cond = cond; self.name = name; self.kind = kind; self.fn = fn

STDEXC = {'_ZTISt9exception': [], '_ZTISt11logic_error': ['_ZTISt9exception'], '_ZTISt13runtime_error': ['_ZTISt9exception'],
          '_ZTISt16invalid_argument': ['_ZTISt11logic_error'], '_ZTISt12out_of_range': ['_ZTISt11logic_error'],
          '_ZTISt12length_error': ['_ZTISt11logic_error'], '_ZTISt12domain_error': ['_ZTISt11logic_error'],
          '_ZTISt11range_error': ['_ZTISt13runtime_error'], '_ZTISt14overflow_error': ['_ZTISt13runtime_error'],
          '_ZTISt9bad_alloc': ['_ZTISt9exception'], '_ZTISt17bad_function_call': ['_ZTISt9exception'], '_ZTISt8bad_cast': ['_ZTISt9exception'],
          '_ZTISt16nested_exception': []}
STDTHROW = {'_ZSt20__throw_length_errorPKc': '_ZTISt12length_error', '_ZSt20__throw_out_of_rangePKc': '_ZTISt12out_of_range',
            '_ZSt24__throw_out_of_range_fmtPKcz': '_ZTISt12out_of_range', '_ZSt25__throw_bad_function_callv': '_ZTISt17bad_function_call',
            '_ZSt17__throw_bad_allocv': '_ZTISt9bad_alloc', '_ZSt19__throw_logic_errorPKc': '_ZTISt11logic_error', '_ZSt28__throw_bad_array_new_lengthv': '_ZTISt9bad_alloc',
            '_ZSt24__throw_invalid_argumentPKc': '_ZTISt16invalid_argument', '_ZSt16__throw_bad_castv': '_ZTISt8bad_cast'}

class LoopInfo:
    __slots__ = ('header', 'blocks', 'parent', 'depth')

class FnInfo:
    pass

def term_succs(ins):
    if ins.op == 'br': return [ins.a]
    if ins.op == 'condbr': return list(ins.x)
    if ins.op == 'switch': return [ins.x[0]] + [c[1] for c in ins.x[1]]
    if ins.op == 'invoke': return [ins.x[0][0]]
    return []

def analyze(mod, f):
    if f.info: return f.info
    fi = FnInfo()
    succ = {}; usucc = {}
    for b in f.order:
        t = f.blocks[b][-1]
        succ[b] = list(dict.fromkeys(term_succs(t)))
        usucc[b] = succ[b] + ([t.x[0][1]] if t.op == 'invoke' else [])
    # rpo over all edges incl unwind
    seen = set(); post = []
    entry = f.order[0]
    stack = [(entry, iter(usucc[entry]))]; seen.add(entry)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s); stack.append((s, iter(usucc[s]))); break
        else:
            post.append(b); stack.pop()
    rpo = list(reversed(post))
    fi.rpo = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in usucc[b]: preds[s].append(b)
    # dominators
    idom = {entry: entry}
    changed = True
    while changed:
        changed = False
        for b in rpo[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None: new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while fi.rpo[x] > fi.rpo[y]: x = idom[x]
                            while fi.rpo[y] > fi.rpo[x]: y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new; changed = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == entry: return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in usucc[b]:
            if dom(s, b):
                L = loops.setdefault(s, set([s]))
                work = [b]
                while work:
                    x = work.pop()
                    if x not in L:
                        L.add(x); work.extend(preds[x])
            elif fi.rpo[s] <= fi.rpo[b]:
                raise Undecided('irreducible CFG in ' + f.name)
    fi.loops = {}
    for h, bl in loops.items():
        l = LoopInfo(); l.header = h; l.blocks = bl; fi.loops[h] = l
    fi.loopsof = {}
    for b in rpo:
        ls = [l for l in fi.loops.values() if b in l.blocks]
        ls.sort(key=lambda l: -len(l.blocks))
        fi.loopsof[b] = [l.header for l in ls]
    fi.succ = succ; fi.usucc = usucc
    # can reach ret
    rets = [b for b in rpo if f.blocks[b][-1].op == 'ret']
    canret = set(rets); work = list(rets)
    npreds = {b: [] for b in rpo}
    for b in rpo:
        for s in succ[b]: npreds[s].append(b)
    while work:
        x = work.pop()
        for p in npreds.get(x, []):
            if p not in canret: canret.add(p); work.append(p)
    fi.canret = canret
    # liveness
    use = {}; deff = {}
    fi.types = {}
    for t, n in f.params: fi.types[n] = t
    phiuse = {b: {} for b in f.order}
    for b in f.order:
        u = set(); d = set()
        for ins in f.blocks[b]:
            if ins.op == 'phi':
                d.add(ins.d); fi.types[ins.d] = ins.t
                for v, p in ins.a:
                    if v[0] == 'l': phiuse[p].setdefault(b, set()).add(v[1])
                continue
            for v in operands(ins):
                if v not in d: u.add(v)
            if ins.d is not None:
                d.add(ins.d); fi.types[ins.d] = result_type(ins)
        use[b] = u; deff[b] = d
    live = {b: set() for b in f.order}
    changed = True
    ro = list(reversed(rpo))
    while changed:
        changed = False
        for b in ro:
            out = set()
            for s in usucc[b]:
                phid = set(i.d for i in f.blocks[s] if i.op == 'phi')
                out |= (live[s] - phid)
                out |= phiuse[b].get(s, set())
            n = use[b] | (out - deff[b])
            if n != live[b]:
                live[b] = n; changed = True
    for b in f.order:
        live[b] |= set(i.d for i in f.blocks[b] if i.op == 'phi')
    fi.live = live
    f.info = fi
    return fi

def result_type(ins):
    if ins.op in ('icmp', 'fcmp'): return INT(1)
    if ins.op == 'alloca': return PTR
    return ins.t

def _vals(v, out):
    if v is None: return
    k = v[0]
    if k == 'l': out.append(v[1])
    elif k == 'agg':
        for t, e in v[1]: _vals(e, out)

def operands(ins):
    out = []
    op = ins.op
    if op in BINOPS or op in ('icmp', 'fcmp', 'fneg', 'freeze', 'load', 'store', 'select', 'atomicrmw') or op in CASTS:
        for v in ins.a: _vals(v, out)
    elif op == 'getelementptr':
        for t, v in ins.a: _vals(v, out)
    elif op == 'alloca':
        if ins.a: _vals(ins.a[1], out)
    elif op in ('condbr', 'switch', 'ret', 'resume'):
        _vals(ins.a, out)
    elif op in ('call', 'invoke'):
        _vals(ins.a[0], out)
        for t, v in ins.a[1]: _vals(v, out)
    elif op in ('extractvalue', 'insertvalue'):
        _vals(ins.a[0], out)
        if ins.a[1]: _vals(ins.a[1][1], out)
    return out

class Engine:
    def __init__(self, mod, opts=None):
        self.mod = mod
        self.opts = opts or {}
        self.objs = {}
        self.nobj = 0
        self.nfresh = 0
        self.gobj = {}
        self.obligs = []
        self.quiet = 0
        self.wlogs = []
        self.cmplogs = []
        self.stubs = {}
        self.loopinvs = {}; self.loopassume = {}; self.phistack = []; self.curphis = []
        self.autocut = self.opts.get('autocut', set())
        self.tainted = []
        self.notes = set()
        self.fns_executed = {}
        self.stack = []
        self.rec_stubs = set()
        self.covers = []
        self.cases = []
        self.inputs = []     # (name, z3 var or const, kind, width)
        self.bufs = []       # (name, obj id, size, uf)
        self.ntrivial = 0
        self.kstack = []
        self.nfeas = 0; self.tfeas = 0.0
        self.limit_unroll = self.opts.get('unroll', 40)
        self.deadline = self.opts.get('deadline')
        self._rc = {}
        self._rckeep = []
        self.typeids = {}
        self.base_consts = {}
        self.facts = []       # global facts (e.g. nonzero object addresses)
        self.namecnt = {}
        self.loop_depth = 0
        self.externs_assumed = set()
        self.loops_cut = []
        self.muls = []
        self.abstract_mul = False
        self.loopvals = {}
        self.mulf = {}

    # ------------------------------------------------ fresh symbols
    def fresh(self, hint, w):
        self.nfresh += 1
        n = '%s!%d' % (hint, self.nfresh)
        return z3.Bool(n) if w == 1 else z3.BitVec(n, w)
    def freshf(self, hint, t):
        self.nfresh += 1
        return z3.FP('%s!%d' % (hint, self.nfresh), fsort(t))
    def newobj(self, st, size, name, kind, base=None):
        self.nobj += 1
        o = Obj(self.nobj, size, name, kind)
        self.objs[o.id] = o
        if base is None:
            base = Base('uf', z3.Function('m_%s_%d' % (name, o.id), z3.BitVecSort(64), z3.BitVecSort(8)))
        o.initial = Content(base)
        st.mem[o.id] = o.initial
        return o

    # ------------------------------------------------ memory read
    def base_byte(self, b, off):
        if b.kind == 'zero': return 0
        if b.kind == 'uf': return b.x(bv(off, 64))
        if b.kind == 'const':
            if isinstance(off, int):
                return b.x[off] if off < len(b.x) else 0
            # symbolic index into constant table
            r = z3.BitVecVal(0, 8)
            data = b.x
            if len(data) > 4096: raise Undecided('symbolic index into large constant')
            o = bv(off, 64)
            arr = z3.K(z3.BitVecSort(64), z3.BitVecVal(0, 8))
            key = id(b)
            if key in self._rc and self._rc[key][0] is b:
                arr = self._rc[key][1]
            else:
                for i, x in enumerate(data):
                    if x: arr = z3.Store(arr, z3.BitVecVal(i, 64), z3.BitVecVal(x, 8))
                self._rc[key] = (b, arr)
            return z3.Select(arr, o)
        if b.kind == 'undef': return self.fresh('undef', 8)
        raise Undecided('base ' + b.kind)

    def val_byte(self, val, n, i):
        """byte i of an n-byte cell value"""
        if isinstance(val, Ptr): val = self.ptr_int(val)
        if isinstance(val, PInt): val = self.ptr_int(val.p)
        if isinstance(val, float):
            val = fbits(val, FLOAT if n == 4 else DOUBLE)
        if isz(val) and z3.is_fp(val): val = z3.fpToIEEEBV(val)
        if val is UNDEF: return self.fresh('undef', 8)
        if isinstance(val, int): return (val >> (8 * i)) & 255
        if z3.is_bool(val): val = bv(val, 8 * n)
        return conc(z3.simplify(z3.Extract(8 * i + 7, 8 * i, val)))

    def read_byte(self, c, off):
        key = (id(c), off if isinstance(off, int) else ('z', off.get_id()))
        r = self._rc.get(key)
        if r is not None: return r[1]
        v = self._read_byte(c, off)
        self._rc[key] = ((c, off), v)
        return v

    def _read_byte(self, c, off):
        if isinstance(off, int):
            cells = c.cells
            if cells:
                for k in range(16):
                    x = cells.get(off - k)
                    if x is not None and x[0] > k:
                        return self.val_byte(x[1], x[0], k)
        p = c.parent
        if isinstance(p, Base): r = self.base_byte(p, off)
        elif isinstance(p, SymStore):
            delta = sub64(off, p.off)
            if isinstance(delta, int):
                r = self.val_byte(p.val, p.n, delta) if delta < p.n else self.read_byte(p.prev, off)
            else:
                r = bv(self.read_byte(p.prev, off), 8)
                for j in range(p.n):
                    r = z3.If(delta == j, bv(self.val_byte(p.val, p.n, j), 8), r)
        elif isinstance(p, CopyN):
            delta = sub64(off, p.d)
            if isinstance(delta, int) and isinstance(p.n, int):
                r = self.read_byte(p.src, add64(delta, p.s)) if delta < p.n else self.read_byte(p.prev, off)
            else:
                g = simp(z3.ULT(bv(delta, 64), bv(p.n, 64)))
                if g is True: r = self.read_byte(p.src, add64(delta, p.s))
                elif g is False: r = self.read_byte(p.prev, off)
                else: r = z3.If(g, bv(self.read_byte(p.src, add64(delta, p.s)), 8), bv(self.read_byte(p.prev, off), 8))
        elif isinstance(p, FillN):
            delta = sub64(off, p.d)
            g = simp(z3.ULT(bv(delta, 64), bv(p.n, 64)))
            if g is True: r = p.b
            elif g is False: r = self.read_byte(p.prev, off)
            else: r = z3.If(g, bv(p.b, 8), bv(self.read_byte(p.prev, off), 8))
        elif isinstance(p, IteN):
            a = self.read_byte(p.a, off); b = self.read_byte(p.b, off)
            r = a if same(a, b) else z3.If(p.g, bv(a, 8), bv(b, 8))
        else:
            raise Undecided('node')
        if not isinstance(off, int) and c.cells:
            if len(c.cells) > 600: raise Undecided('symbolic read over many cells')
            o = bv(off, 64)
            r = bv(r, 8)
            for co, (n, v) in c.cells.items():
                for j in range(n):
                    r = z3.If(o == co + j, bv(self.val_byte(v, n, j), 8), r)
        return r

    def read(self, c, off, n):
        """n-byte value at off: returns cell value if structurally available, else assembled BV"""
        c0, off0 = c, off
        while True:
            if isinstance(off, int):
                x = c.cells.get(off)
                if x is not None and x[0] == n: return x[1]
                if c.cells:
                    hit = False
                    for k in range(-15, n):
                        y = c.cells.get(off + k)
                        if y is not None and (k >= 0 or y[0] > -k): hit = True; break
                    if hit: break
            elif c.cells: break
            p = c.parent
            if isinstance(p, Base): break
            if isinstance(p, SymStore):
                delta = sub64(off, p.off)
                if isinstance(delta, int):
                    if delta == 0 and p.n == n: return p.val
                    if delta >= p.n and ((-delta) & M64) >= n: c = p.prev; continue
                break
            if isinstance(p, CopyN):
                delta = sub64(off, p.d)
                if isinstance(delta, int) and isinstance(p.n, int):
                    if delta + n <= p.n: c = p.src; off = add64(delta, p.s); continue
                    if delta >= p.n and ((-delta) & M64) >= n: c = p.prev; continue
                break
            if isinstance(p, FillN):
                delta = sub64(off, p.d)
                if isinstance(delta, int) and isinstance(p.n, int):
                    if delta + n <= p.n and isinstance(p.b, int):
                        return int.from_bytes(bytes([p.b]) * n, 'little')
                    if delta >= p.n and ((-delta) & M64) >= n: c = p.prev; continue
                break
            if isinstance(p, IteN):
                return self.ite(p.g, self.read(p.a, off, n), self.read(p.b, off, n), 8 * n)
            break
        bs = [self.read_byte(c, add64(off, i)) for i in range(n)]
        if all(isinstance(b, int) for b in bs):
            return int.from_bytes(bytes(bs), 'little')
        if n == 1: return bs[0]
        return z3.Concat(*[bv(b, 8) for b in reversed(bs)])

    def cwrite(self, c, off, n, val):
        if isz(val) and z3.is_bool(val): val = bv(val, 8 * n)
        if isinstance(off, int):
            cells = dict(c.cells)
            for k in range(-15, n):
                o = off + k
                y = cells.get(o)
                if y is None: continue
                m, v = y
                if o + m <= off: continue
                if o == off and m == n: continue
                if o >= off and o + m <= off + n:
                    del cells[o]; continue
                # partial overlap -> split into bytes
                del cells[o]
                for j in range(m):
                    if not (off <= o + j < off + n):
                        cells[o + j] = (1, self.val_byte(v, m, j))
            cells[off] = (n, val)
            return Content(c.parent, cells)
        return Content(SymStore(c, off, n, val))

    def ccopy(self, cd, d, n, cs, s):
        if isinstance(n, int) and n == 0: return cd
        if isinstance(n, int) and isinstance(d, int) and isinstance(s, int) and n <= 128:
            # cell-wise copy (keeps pointers)
            c = cd; o = 0
            while o < n:
                # find widest cell fully inside range starting here
                step = None
                cc = cs
                x = self._cell_at(cs, s + o)
                if x is not None and x[0] <= n - o:
                    c = self.cwrite(c, d + o, x[0], x[1]); o += x[0]; continue
                # chunk of up to 8 bytes until next cell start
                step = 1
                while o + step < n and step < 8 and self._cell_at(cs, s + o + step) is None: step += 1
                while step & (step - 1): step -= 1
                c = self.cwrite(c, d + o, step, self.read(cs, s + o, step)); o += step
            return c
        return Content(CopyN(cd, d, n, cs, s))

    def _cell_at(self, c, off):
        while True:
            x = c.cells.get(off)
            if x is not None: return x
            for k in range(1, 16):
                y = c.cells.get(off - k)
                if y is not None and y[0] > k: return None
            p = c.parent
            if isinstance(p, SymStore): return None
            if isinstance(p, (CopyN, FillN)):
                delta = sub64(off, p.d)
                if isinstance(delta, int) and isinstance(p.n, int):
                    if delta >= p.n: c = p.prev; continue
                    if isinstance(p, CopyN) and isinstance(p.s, int): c = p.src; off = delta + p.s; continue
                return None
            if isinstance(p, IteN):
                a = self._cell_at(p.a, off); b = self._cell_at(p.b, off)
                if a and b and a[0] == b[0]: return (a[0], self.ite(p.g, a[1], b[1], 8 * a[0]))
                return None
            return None

    # ------------------------------------------------ ite / merging
    def ite(self, g, a, b, w=None):
        if g is True: return a
        if g is False: return b
        if same(a, b): return a
        if a is UNDEF: return b
        if b is UNDEF: return a
        if isinstance(a, (list, tuple)):
            return [self.ite(g, x, y, None) for x, y in zip(a, b)]
        if isinstance(a, PInt) or isinstance(b, PInt):
            a2 = a.p if isinstance(a, PInt) else (a if isinstance(a, Ptr) else self.int2ptr(a))
            b2 = b.p if isinstance(b, PInt) else (b if isinstance(b, Ptr) else self.int2ptr(b))
            return PInt(self.ite(g, a2, b2))
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not isinstance(a, Ptr): a = self.int2ptr(a)
            if not isinstance(b, Ptr): b = self.int2ptr(b)
            alts = []
            def addalt(gg, o, f):
                for i, (g0, o0, f0) in enumerate(alts):
                    if o0 == o and type(o0) == type(o):
                        if same(f0, f):
                            alts[i] = (OR(g0, gg), o0, f0); return
                        alts[i] = (OR(g0, gg), o0, z3.If(zb(gg), bv(f, 64), bv(f0, 64))); return
                alts.append((gg, o, f))
            for gg, o, f in a.alts: addalt(AND(g, gg), o, f)
            ng = NOT(g)
            for gg, o, f in b.alts: addalt(AND(ng, gg), o, f)
            if len(alts) == 1: alts = [(True, alts[0][1], alts[0][2])]
            if len(alts) > 24: raise Undecided('too many pointer alternatives')
            return Ptr(alts)
        if isinstance(a, float) or isinstance(b, float) or (isz(a) and z3.is_fp(a)) or (isz(b) and z3.is_fp(b)):
            def cv(x, other):
                if isinstance(x, float):
                    s = other.sort() if isz(other) and z3.is_fp(other) else (F32 if w == 32 else F64)
                    return z3.FPVal(x, s)
                if isz(x) and z3.is_fp(x): return x
                s = other.sort() if isz(other) and z3.is_fp(other) else (F32 if w == 32 else F64)
                return z3.fpBVToFP(bv(x, w or 64), s)
            return z3.If(g, cv(a, b), cv(b, a))
        if isz(a) and z3.is_bool(a) or isz(b) and z3.is_bool(b) or w == 1:
            if isz(a) and z3.is_bv(a) or isz(b) and z3.is_bv(b):
                w = a.size() if isz(a) and z3.is_bv(a) else b.size()
                return z3.If(g, bv(a, w), bv(b, w))
            return simp(z3.If(g, zb(tobool(a)), zb(tobool(b))))
        if w is None:
            w = a.size() if isz(a) else (b.size() if isz(b) else 64)
        return z3.If(g, bv(a, w), bv(b, w))

    def int2ptr(self, v):
        if isinstance(v, Ptr): return v
        if isinstance(v, PInt): return v.p
        if isinstance(v, (int, bool)): return P(None, int(v))
        if v is UNDEF: return P('opq', 0)
        v = simp(v)
        if isinstance(v, int): return P(None, v)
        return P('opq', v)

    def merge_content(self, g, a, b):
        if a is b: return a
        if a.parent is b.parent:
            ka = a.cells; kb = b.cells
            ok = True
            cells = {}
            for o, (n, v) in ka.items():
                y = kb.get(o)
                if y is not None and y[0] == n:
                    cells[o] = (n, v if same(v, y[1]) else self.ite(g, v, y[1], 8 * n))
                else:
                    v2 = self.read(b, o, n)
                    cells[o] = (n, self.ite(g, v, v2, 8 * n))
            cov = set()
            for o, (n, v) in cells.items():
                for j in range(n): cov.add(o + j)
            for o, (n, v) in kb.items():
                if o in cells and cells[o][0] == n: continue
                inn = [(o + j) in cov for j in range(n)]
                if all(inn): continue
                if any(inn): ok = False; break
                cells[o] = (n, self.ite(g, self.read(a, o, n), v, 8 * n))
            if ok: return Content(a.parent, cells)
        return Content(IteN(g, a, b))

    def merge(self, s1, s2, live, types):
        """merge two states at a join point"""
        i = 0
        p1, p2 = s1.pc, s2.pc
        while i < len(p1) and i < len(p2) and (p1[i] is p2[i] or p1[i].eq(p2[i])): i += 1
        r1 = p1[i:]; r2 = p2[i:]
        g1 = conj(r1); g2 = conj(r2)
        pc = list(p1[:i])
        if g1 is True or g2 is True:
            g = g1 if g1 is not True else NOT(g2)
            if g1 is True and g2 is True: g = True
        else:
            g = g1 if len(r1) <= len(r2) else NOT(g2)
            if not (NOT(g1).eq(g2) if isz(NOT(g1)) else False):
                d = simp(z3.Or(g1, g2))
                if d is not True:
                    pc.append(z3.Or(g1, g2))
        if g is True: return s1
        mem = {}
        m1, m2 = s1.mem, s2.mem
        for o, c in m1.items():
            c2 = m2.get(o)
            if c2 is None or c2 is c: mem[o] = c
            else: mem[o] = self.merge_content(g, c, c2)
        for o, c in m2.items():
            if o not in m1: mem[o] = c
        env = {}
        e1, e2 = s1.env, s2.env
        for k in live:
            if k in e1:
                if k in e2:
                    a, b = e1[k], e2[k]
                    if a is b: env[k] = a
                    else:
                        t = types.get(k)
                        env[k] = self.ite(g, a, b, t.n if t is not None and t.k == 'int' else (32 if t is not None and t.k == 'float' else None))
                else: env[k] = e1[k]
            elif k in e2: env[k] = e2[k]
        return St(pc, mem, env, s1.loops, s1.exc)

    # ------------------------------------------------ solver helpers
    def feasible(self, pc, extra=None):
        if extra is not None:
            e = simp(extra)
            if e is False: return False
            if e is True and not pc: return True
        t = time.time()
        if self.deadline and t > self.deadline: raise Undecided('time budget exhausted')
        s = z3.SimpleSolver()
        s.set('timeout', self.opts.get('feas_ms', 400))
        for f in self.facts: s.add(f)
        for p in pc: s.add(p)
        if extra is not None: s.add(extra)
        for l in self.mul_lemmas(): s.add(l)
        r = s.check()
        self.nfeas += 1; self.tfeas += time.time() - t
        return r != z3.unsat

    def mul_lemmas(self):
        return []

    def oblig(self, st, cond, name, kind):
        if self.quiet:
            if isz(cond): st.pc.append(cond)
            return
        cond = simp(cond) if isz(cond) else cond
        if cond is True:
            self.ntrivial += 1; return
        self.obligs.append(Oblig(list(st.pc), cond, name, kind, self.stack[-1] if self.stack else ''))
        if isz(cond): st.pc.append(cond)

    # ------------------------------------------------ pointers
    def objaddr(self, o):
        b = self.base_consts.get(o)
        if b is None:
            b = z3.BitVec('addr_%s' % (o if not isinstance(o, FuncRef) else o.name), 64)
            self.base_consts[o] = b
            self.facts.append(z3.ULT(b, z3.BitVecVal(1 << 47, 64)))
            self.facts.append(z3.UGT(b, z3.BitVecVal(4096, 64)))
            self.facts.append((b & 15) == 0)
        return b
    def ptr_int(self, p):
        r = None
        for g, o, f in reversed(p.alts):
            v = f if o is None or o == 'opq' else add64(self.objaddr(o), f)
            r = v if r is None else z3.If(g, bv(v, 64), bv(r, 64))
        return r
    def padd(self, p, d):
        if isinstance(d, int) and d == 0: return p
        return Ptr([(g, o, add64(f, d)) for g, o, f in p.alts])
    def asptr(self, v):
        if isinstance(v, Ptr): return v
        return self.int2ptr(v)
    def ptr_eq(self, a, b):
        a = self.asptr(a); b = self.asptr(b)
        r = False
        for g1, o1, f1 in a.alts:
            for g2, o2, f2 in b.alts:
                if o1 == 'opq' or o2 == 'opq':
                    # unknown integers vs objects
                    x = f1 if o1 in (None, 'opq') else self.ptr_int(P(o1, f1))
                    y = f2 if o2 in (None, 'opq') else self.ptr_int(P(o2, f2))
                    e = simp(bv(x, 64) == bv(y, 64))
                elif o1 == o2:
                    if isinstance(f1, int) and isinstance(f2, int): e = f1 == f2
                    else: e = simp(bv(f1, 64) == bv(f2, 64))
                else: e = False
                if e is False: continue
                r = OR(r, AND(AND(g1, g2), e))
        return r

    def live_alts(self, st, p, n, what):
        """check obligations for access of n bytes at p; returns list of (g, obj, off)"""
        out = []
        for g, o, f in p.alts:
            if self.spec and isinstance(o, int):
                # specification code: reads are total (no bounds conditions enter the formula)
                out.append((g, o, f)); continue
            if o is None or o == 'opq' or isinstance(o, FuncRef):
                if o == 'opq':
                    if g is not True and not self.feasible(st.pc, g): continue
                    raise Undecided('access through opaque pointer (%s)' % what)
                if isinstance(n, int) and n == 0: continue
                nz = True
                if isz(n): nz = n != 0
                self.oblig(st, NOT(AND(g, nz)), what + ' of null/invalid pointer', 'mem')
                if g is True and nz is True: raise PathEnd()
                continue
            ob = self.objs[o]
            sz = ob.size
            if isinstance(f, int) and isinstance(n, int) and isinstance(sz, int):
                ok = f + n <= sz
            else:
                F = bv(f, 64); N = bv(n, 64); S = bv(sz, 64)
                ok = simp(z3.And(z3.ULE(N, S), z3.ULE(F, S - N)))
                if isinstance(n, int) and n == 0: ok = True
                elif not isinstance(n, int): ok = simp(z3.Or(N == 0, ok))
            if ok is not True:
                c = ok if g is True else (z3.Implies(g, zb(ok)))
                self.oblig(st, c, what + ' out of bounds', 'mem')
                if ok is False and g is True: raise PathEnd()
            out.append((g, o, f))
        return out

    def enum_off(self, st, o, f, n):
        """possible concrete values of a symbolic offset into a small object that holds pointers (None: too many / not applicable)"""
        if isinstance(f, int): return None
        ob = self.objs[o]
        if not isinstance(ob.size, int) or ob.size > 512: return None
        c = st.mem.get(o)
        if c is None: return None
        hasptr = False; x = c
        for _ in range(64):
            if any(isinstance(v, (Ptr, PInt)) for _, v in x.cells.values()): hasptr = True; break
            q = x.parent
            if isinstance(q, (SymStore, CopyN, FillN)): x = q.prev
            elif isinstance(q, IteN): hasptr = True; break
            else: break
        if not hasptr: return None
        s = z3.SimpleSolver(); s.set('timeout', 2000)
        for z in self.facts: s.add(z)
        for z in st.pc: s.add(z)
        out = []
        while len(out) <= 40:
            r = s.check()
            if r == z3.unsat: return out
            if r != z3.sat: return None
            k = s.model().eval(f, model_completion=True).as_long()
            out.append(k); s.add(f != k)
        return None

    def load_raw(self, st, p, n):
        p = self.asptr(p)
        alts = self.live_alts(st, p, n, 'load')
        ex = []
        for g, o, f in alts:
            ks = self.enum_off(st, o, f, n)
            if ks: ex.extend((AND(g, f == k), o, k) for k in ks)
            else: ex.append((g, o, f))
        alts = ex
        r = None
        for g, o, f in reversed(alts):
            v = self.read(st.mem[o] if o in st.mem else self.dead(o), f, n)
            r = v if r is None else self.ite(g, v, r, 8 * n)
        if r is None: raise PathEnd()
        return r
    def dead(self, o):
        raise Undecided('access to dead object ' + self.objs[o].name)

    def load(self, st, p, t):
        t = self.mod.resolve(t)
        if t.k in ('struct', 'arr'):
            out = []
            if t.k == 'struct':
                offs = self.mod.offs(t)
                for i, ft in enumerate(t.fields): out.append(self.load(st, self.padd(p, offs[i]), ft))
            else:
                es = self.mod.sizeof(t.el)
                for i in range(t.n): out.append(self.load(st, self.padd(p, i * es), t.el))
            return out
        if t.k == 'vec':
            if t.el.n == 1: raise Undecided('vector of i1')
            es = self.mod.sizeof(t.el)
            return [self.load(st, self.padd(p, i * es), t.el) for i in range(t.n)]
        n = self.mod.sizeof(t)
        if t.k == 'int' and t.n % 8 and t.n != 1:
            n = (t.n + 7) // 8
        v = self.load_raw(st, p, n)
        return self.coerce(v, t, n)

    def coerce(self, v, t, n):
        if v is UNDEF: return UNDEF if t.k not in ('int',) else self.fresh('undef', t.n)
        if t.k == 'ptr': return self.asptr(v)
        if t.k in ('float', 'double'):
            if isinstance(v, float) or isz(v) and z3.is_fp(v): return v
            if isinstance(v, (Ptr, PInt)): raise Undecided('pointer as float')
            return ffrom(v, t)
        if t.k == 'int':
            if isinstance(v, Ptr): v = PInt(v)
            if isinstance(v, PInt):
                if t.n == 64: return v
                v = self.ptr_int(v.p)
            if isinstance(v, float): v = fbits(v, FLOAT if n == 4 else DOUBLE)
            if isz(v) and z3.is_fp(v): v = z3.fpToIEEEBV(v)
            if isinstance(v, int): v &= mask(t.n)
            elif z3.is_bv(v) and v.size() > t.n: v = simp(z3.Extract(t.n - 1, 0, v))
            if t.n == 1: return tobool(v)
            return v
        raise Undecided('load type ' + t.k)

    def write_obj(self, st, o, f, n, fn):
        if self.wlogs:
            for w in self.wlogs: w.append((o, f, n))
        if self.objs[o].ro: raise Undecided('write to constant ' + self.objs[o].name)
        st.mem[o] = fn(st.mem[o])

    def store(self, st, p, v, t):
        t = self.mod.resolve(t)
        p = self.asptr(p)
        if t.k in ('struct', 'arr', 'vec'):
            if v is UNDEF: return
            if t.k == 'struct':
                offs = self.mod.offs(t)
                for i, ft in enumerate(t.fields): self.store(st, self.padd(p, offs[i]), v[i], ft)
            else:
                es = self.mod.sizeof(t.el)
                for i in range(t.n): self.store(st, self.padd(p, i * es), v[i], t.el)
            return
        n = self.mod.sizeof(t)
        if t.k == 'int':
            n = (t.n + 7) // 8
            if v is UNDEF: v = self.fresh('undef', 8 * n)
            if t.n % 8:
                if isz(v):
                    v = bv(v, 8 * n) if z3.is_bool(v) else z3.ZeroExt(8 * n - t.n, v)
                else: v = int(v)
            elif isinstance(v, bool): v = int(v)
        if isinstance(v, PInt): v = v.p if n == 8 else self.ptr_int(v.p)
        alts = self.live_alts(st, p, n, 'store')
        ex = []
        for g, o, f in alts:
            ks = self.enum_off(st, o, f, n)
            if ks: ex.extend((AND(g, f == k), o, k) for k in ks)
            else: ex.append((g, o, f))
        alts = ex
        for g, o, f in alts:
            def doit(c, g=g, f=f):
                nc = self.cwrite(c, f, n, v)
                return nc if g is True else self.merge_content(g, nc, c)
            self.write_obj(st, o, f, n, doit)
        if not alts: raise PathEnd()

    def memcpy(self, st, d, s, n):
        n = simp(n)
        if isinstance(n, int) and n == 0: return
        d = self.asptr(d); s = self.asptr(s)
        sa = self.live_alts(st, s, n, 'memcpy source')
        da = self.live_alts(st, d, n, 'memcpy destination')
        srcs = [(g, st.mem[o], f) for g, o, f in sa]
        for g, o, f in da:
            def doit(c, g=g, f=f):
                nc = None
                for g2, cs, f2 in reversed(srcs):
                    x = self.ccopy(c, f, n, cs, f2)
                    nc = x if nc is None else self.merge_content(g2, x, nc)
                if nc is None: return c
                return nc if g is True else self.merge_content(g, nc, c)
            self.write_obj(st, o, f, n, doit)

    def memset(self, st, d, b, n):
        n = simp(n)
        if isinstance(n, int) and n == 0: return
        d = self.asptr(d)
        b = simp(b)
        for g, o, f in self.live_alts(st, d, n, 'memset'):
            def doit(c, g=g, f=f):
                if isinstance(n, int) and isinstance(f, int) and n <= 64 and isinstance(b, int):
                    nc = c; k = 0
                    while k < n:
                        stp = 8 if n - k >= 8 else (4 if n - k >= 4 else (2 if n - k >= 2 else 1))
                        nc = self.cwrite(nc, f + k, stp, int.from_bytes(bytes([b & 255]) * stp, 'little')); k += stp
                else: nc = Content(FillN(c, f, n, b))
                return nc if g is True else self.merge_content(g, nc, c)
            self.write_obj(st, o, f, n, doit)

    # ------------------------------------------------ globals / constants
    def global_ptr(self, st, name):
        if name in self.mod.fns or name in self.mod.decls and name not in self.mod.globals:
            return P(FuncRef(name))
        o = self.gobj.get(name)
        if o is None:
            if name not in self.mod.globals: raise Undecided('unknown global ' + name)
            t, init, const = self.mod.global_def(name)
            if isinstance(init, tuple) and init and init[0] == 'alias':
                v = self.constval(st, PTR, init[1]); return v
            size = self.mod.sizeof(t)
            if init is None: base = None   # external: unknown contents
            else: base = Base('zero')
            ob = self.newobj(st, size, 'g_' + name[:40], 'global', base)
            o = ob.id
            self.gobj[name] = o
            if init is not None:
                data = self.const_bytes(t, init)
                if data is not None: c = Content(Base('const', data))
                else:
                    c = Content(Base('zero'))
                    c = self.init_const(st, c, 0, t, init)
                ob.initial = c
                st.mem[o] = c
            else: c = ob.initial
            self.ginit = getattr(self, 'ginit', {})
            self.ginit[o] = c
            if const and init is not None: ob.ro = True
        if o not in st.mem: st.mem[o] = self.ginit[o]
        return P(o, 0)

    def const_bytes(self, t, init):
        t = self.mod.resolve(t)
        k = init[0]
        n = self.mod.sizeof(t)
        if k == 'zero' or k == 'null': return bytes(n)
        if k == 'undef': return bytes(n)
        if k == 'str': return init[1]
        if k == 'i': return (init[1] & mask(8 * n)).to_bytes(n, 'little')
        if k in ('f', 'fhex'):
            v = self.fconst(init, t)
            return struct.pack('<f' if t.k == 'float' else '<d', v)
        if k == 'agg':
            out = bytearray(n)
            if t.k == 'struct':
                for i, o in enumerate(self.mod.offs(t)):
                    b = self.const_bytes(init[1][i][0], init[1][i][1])
                    if b is None: return None
                    out[o:o + len(b)] = b
            else:
                es = self.mod.sizeof(t.el)
                for i, (et, ev) in enumerate(init[1]):
                    b = self.const_bytes(et, ev)
                    if b is None: return None
                    out[i * es:i * es + len(b)] = b
            return bytes(out)
        return None

    def init_const(self, st, c, off, t, init):
        t = self.mod.resolve(t)
        k = init[0]
        if k == 'agg':
            if t.k == 'struct':
                for i, o in enumerate(self.mod.offs(t)):
                    c = self.init_const(st, c, off + o, init[1][i][0], init[1][i][1])
            else:
                es = self.mod.sizeof(t.el)
                for i, (et, ev) in enumerate(init[1]): c = self.init_const(st, c, off + i * es, et, ev)
            return c
        if k in ('zero', 'undef'): return c
        if k == 'str':
            for i, b in enumerate(init[1]): c = self.cwrite(c, off + i, 1, b)
            return c
        v = self.constval(st, t, init)
        return self.cwrite(c, off, self.mod.sizeof(t), v)

    def fconst(self, v, t):
        if v[0] == 'f': return fround(v[1], t)
        h = v[1]
        if h[2] in 'KLMHR': raise Undecided('fp80 const')
        return fround(struct.unpack('<d', int(h, 16).to_bytes(8, 'little'))[0], t)

    def constval(self, st, t, v):
        k = v[0]
        t = self.mod.resolve(t)
        if k == 'i':
            return v[1] & mask(t.n) if t.k == 'int' else v[1]
        if k == 'g': return self.global_ptr(st, v[1])
        if k == 'null': return NULL
        if k == 'undef':
            if t.k == 'int': return 0
            if t.k in ('struct',): return [self.constval(st, f, ('undef', f)) for f in t.fields]
            if t.k in ('float', 'double'): return 0.0
            if t.k in ('vec', 'arr'): return [self.constval(st, t.el, ('undef', t.el)) for _ in range(t.n)]
            return UNDEF
        if k == 'zero':
            if t.k == 'int': return 0
            if t.k == 'ptr': return NULL
            if t.k in ('float', 'double'): return 0.0
            if t.k == 'struct': return [self.constval(st, f, ('zero', f)) for f in t.fields]
            if t.k in ('arr', 'vec'): return [self.constval(st, t.el, ('zero', t.el)) for _ in range(t.n)]
        if k in ('f', 'fhex'): return self.fconst(v, t)
        if k == 'agg': return [self.constval(st, et, ev) for et, ev in v[1]]
        if k == 'cgep':
            ops = [(ot, self.constval(st, ot, ov)) for ot, ov in v[2]]
            return self.gep(v[1], ops)
        if k == 'ccast':
            x = self.constval(st, v[2], v[3])
            return self.cast(v[1], v[2], x, v[4])
        if k == 'cbin':
            return self.binop(v[1], self.constval(st, v[2], v[3]), self.constval(st, v[2], v[4]), v[2], [])
        if k == 'ccmp':
            return self.icmp(v[1], self.constval(st, v[2], v[3]), self.constval(st, v[2], v[4]), v[2])
        if k == 'str': return list(v[1])
        raise Undecided('const ' + k)

    def val(self, st, t, v):
        if v[0] == 'l':
            try: return st.env[v[1]]
            except KeyError: raise Undecided('undefined local %' + v[1] + ' in ' + self.stack[-1])
        return self.constval(st, t, v)

    # ------------------------------------------------ ops
    def gep(self, bt, ops):
        p = self.asptr(ops[0][1])
        t = bt
        off = 0
        first = True
        for it, iv in ops[1:]:
            if isinstance(iv, list): raise Undecided('vector gep')
            if first:
                sz = self.mod.sizeof(t)
                off = add64(off, mul64(self.sext64(iv, it), sz)); first = False
                continue
            t = self.mod.resolve(t)
            if t.k == 'struct':
                if not isinstance(iv, int): raise Undecided('symbolic struct index')
                off = add64(off, self.mod.offs(t)[iv]); t = t.fields[iv]
            else:
                t = t.el
                off = add64(off, mul64(self.sext64(iv, it), self.mod.sizeof(t)))
        return self.padd(p, off)
    def sext64(self, v, t):
        if isinstance(v, PInt): v = self.ptr_int(v.p)
        if isinstance(v, bool): v = int(v)
        if isinstance(v, int):
            if t.n < 64 and v >> (t.n - 1): v -= 1 << t.n
            return v & M64
        if v.size() < 64: return z3.SignExt(64 - v.size(), v)
        return v

    def fpnan(self, x): return z3.Function('uf_nan_%s' % x.sort(), x.sort(), z3.BoolSort())(x)
    def fpuf(self, op, t, *a):
        """floating-point operation as an uninterpreted function (sound over-approximation: any deterministic function)"""
        so = fsort(t)
        return z3.Function('uf_%s_%s' % (op, so), *([so] * (len(a) + 1)))(*a)
    def binop(self, op, a, b, t, flags):
        t = self.mod.resolve(t)
        if t.k == 'vec':
            return [self.binop(op, x, y, t.el, flags) for x, y in zip(a, b)]
        if op[0] == 'f' and op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            if isinstance(a, float) and isinstance(b, float):
                if op == 'fadd': r = a + b
                elif op == 'fsub': r = a - b
                elif op == 'fmul': r = a * b
                elif op == 'fdiv':
                    if b == 0: r = math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b)
                    else: r = a / b
                else: raise Undecided('frem')
                return fround(r, t)
            a = fpv(a, t); b = fpv(b, t)
            if self.opts.get('fp_uf'): return self.fpuf(op, t, a, b)
            if op == 'fadd': return z3.fpAdd(RNE, a, b)
            if op == 'fsub': return z3.fpSub(RNE, a, b)
            if op == 'fmul': return z3.fpMul(RNE, a, b)
            if op == 'fdiv': return z3.fpDiv(RNE, a, b)
            raise Undecided('frem')
        w = t.n
        if a is UNDEF: a = self.fresh('undef', w)
        if b is UNDEF: b = self.fresh('undef', w)
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
                pa, pb = a.p, b.p
                r = None
                for g1, o1, f1 in reversed(pa.alts):
                    for g2, o2, f2 in reversed(pb.alts):
                        if o1 == o2: v = sub64(f1, f2)
                        elif isinstance(g1, bool) and isinstance(g2, bool) and len(pa.alts) == 1 and len(pb.alts) == 1:
                            v = sub64(self.ptr_int(pa), self.ptr_int(pb))
                        else:
                            v = sub64(self.ptr_int(P(o1, f1)), self.ptr_int(P(o2, f2)))
                        r = v if r is None else self.ite(AND(g1, g2), v, r, 64)
                return r
            if op in ('add', 'sub') and isinstance(a, PInt) and not isinstance(b, PInt):
                return PInt(self.padd(a.p, b if op == 'add' else sub64(0, b)))
            if op == 'add' and isinstance(b, PInt) and not isinstance(a, PInt): return PInt(self.padd(b.p, a))
            if op == 'and' and isinstance(b, int) and isinstance(a, PInt) and b < 16 and len(a.p.alts) == 1 and isinstance(a.p.alts[0][2], int):
                return a.p.alts[0][2] & b
            a = self.ptr_int(a.p) if isinstance(a, PInt) else a
            b = self.ptr_int(b.p) if isinstance(b, PInt) else b
        if w == 1:
            a = tobool(a); b = tobool(b)
            if op in ('xor', 'add', 'sub'):
                if isinstance(a, bool) and isinstance(b, bool): return a != b
                if isinstance(b, bool): return NOT(a) if b else a
                if isinstance(a, bool): return NOT(b) if a else b
                return simp(z3.Xor(a, b))
            if op in ('and', 'mul'): return simp(AND(a, b))
            if op == 'or': return simp(OR(a, b))
            raise Undecided('i1 ' + op)
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        m = mask(w)
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add': return (a + b) & m
            if op == 'sub': return (a - b) & m
            if op == 'mul': return (a * b) & m
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) & m if b < w else 0
            if op == 'lshr': return a >> b if b < w else 0
            sa = a - (1 << w) if a >> (w - 1) else a
            sb = b - (1 << w) if b >> (w - 1) else b
            if op == 'ashr': return (sa >> min(b, w)) & m
            if b == 0: return 0
            if op == 'udiv': return a // b
            if op == 'urem': return a % b
            q = abs(sa) // abs(sb)
            if (sa < 0) != (sb < 0): q = -q
            if op == 'sdiv': return q & m
            if op == 'srem': return (sa - q * sb) & m
        # identities
        if isinstance(b, int):
            if b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'): return a
            if b == 0 and op in ('mul', 'and'): return 0
            if b == 1 and op in ('mul', 'sdiv', 'udiv'): return a
            if op == 'and' and b == m: return a
        if isinstance(a, int):
            if a == 0 and op in ('add', 'or', 'xor'): return b
            if a == 0 and op in ('mul', 'and', 'shl', 'lshr', 'udiv', 'sdiv', 'urem', 'srem'): return 0
            if a == 1 and op == 'mul': return b
        A = bv(a, w); B = bv(b, w)
        if op == 'add': r = A + B
        elif op == 'sub':
            if isz(a) and isz(b) and a.eq(b): return 0
            r = A - B
        elif op == 'mul':
            if isz(a) and isz(b) and self.abstract_mul and w in (32, 64): r = self.amul(A, B, w)
            else: r = A * B
        elif op == 'and': r = A & B
        elif op == 'or': r = A | B
        elif op == 'xor': r = A ^ B
        elif op == 'shl': r = A * z3.BitVecVal(1 << b, w) if isinstance(b, int) and b < w else A << B
        elif op == 'lshr': r = z3.LShR(A, B)
        elif op == 'ashr': r = A >> B
        elif op == 'udiv': r = z3.UDiv(A, B)
        elif op == 'urem': r = z3.URem(A, B)
        elif op == 'sdiv': r = A / B
        elif op == 'srem': r = z3.SRem(A, B)
        else: raise Undecided(op)
        return conc(r)

    def amul(self, A, B, w):
        f = self.mulf.get(w)
        if f is None:
            f = self.mulf[w] = z3.Function('vcmul%d' % w, z3.BitVecSort(w), z3.BitVecSort(w), z3.BitVecSort(w))
        A = z3.simplify(A); B = z3.simplify(B)
        if z3.is_bv_value(A) or z3.is_bv_value(B): return A * B
        if self.abstract_mul == 2:      # commutative and zero-preserving, factors not taken apart
            z = z3.BitVecVal(0, w)
            return z3.If(z3.Or(A == z, B == z), z, z3.If(z3.ULE(A, B), f(A, B), f(B, A)))
        la = self.lin(A, w); lb = self.lin(B, w)
        if len(la) * len(lb) > 12: la = [(1, A)]; lb = [(1, B)]
        r = None
        for ca, a in la:
            for cb, b in lb:
                c = (ca * cb) & mask(w)
                if a is None and b is None: t = z3.BitVecVal(c, w)
                else:
                    if a is None: x = b
                    elif b is None: x = a
                    else:
                        if a.get_id() > b.get_id(): a_, b_ = b, a
                        else: a_, b_ = a, b
                        x = f(a_, b_)
                    t = x if c == 1 else z3.BitVecVal(c, w) * x
                r = t if r is None else r + t
        return r
    def lin(self, e, w):
        """linear decomposition [(coef, atom|None)] (ring identities modulo 2^w only)"""
        k = e.decl().kind()
        if z3.is_bv_value(e): return [(e.as_long(), None)]
        if k == z3.Z3_OP_BADD:
            out = []
            for c in e.children(): out.extend(self.lin(c, w))
            return out
        if k == z3.Z3_OP_BMUL and e.num_args() == 2 and z3.is_bv_value(e.arg(0)):
            return [((c * e.arg(0).as_long()) & mask(w), a) for c, a in self.lin(e.arg(1), w)]
        if k == z3.Z3_OP_BNEG: return [((-c) & mask(w), a) for c, a in self.lin(e.arg(0), w)]
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(e.arg(1)) and e.arg(1).as_long() < w:
            return [((c << e.arg(1).as_long()) & mask(w), a) for c, a in self.lin(e.arg(0), w)]
        if k == z3.Z3_OP_CONCAT and e.num_args() == 2 and z3.is_bv_value(e.arg(1)) and e.arg(1).as_long() == 0 and e.arg(0).decl().kind() == z3.Z3_OP_EXTRACT:
            # (x << n) as concat(extract(w-1-n..0, x), 0)
            ex = e.arg(0); n = e.arg(1).size()
            hi, lo = ex.params()
            if lo == 0 and ex.arg(0).size() == w and hi == w - 1 - n:
                return [((c << n) & mask(w), a) for c, a in self.lin(ex.arg(0), w)]
        return [(1, e)]

    def icmp(self, p, a, b, t):
        t = self.mod.resolve(t)
        if t.k == 'vec': return [self.icmp(p, x, y, t.el) for x, y in zip(a, b)]
        if t.k == 'ptr' or isinstance(a, (Ptr, PInt)) or isinstance(b, (Ptr, PInt)):
            if isinstance(a, PInt): a = a.p
            if isinstance(b, PInt): b = b.p
            if p in ('eq', 'ne'):
                e = self.ptr_eq(a, b)
                return e if p == 'eq' else NOT(e)
            a = self.asptr(a); b = self.asptr(b)
            if len(a.alts) == 1 and len(b.alts) == 1 and a.alts[0][1] == b.alts[0][1]:
                a = a.alts[0][2]; b = b.alts[0][2]
            else:
                a = self.ptr_int(a); b = self.ptr_int(b)
            w = 64
        else: w = t.n
        if a is UNDEF: a = self.fresh('undef', w)
        if b is UNDEF: b = self.fresh('undef', w)
        if w == 1:
            a = tobool(a); b = tobool(b)
            if p == 'eq':
                if isinstance(b, bool): return a if b else NOT(a)
                if isinstance(a, bool): return b if a else NOT(b)
                return simp(a == b)
            if p == 'ne': return NOT(self.icmp('eq', a, b, t))
            a = bv(a, 1); b = bv(b, 1)
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        if isinstance(a, int) and isinstance(b, int):
            if p[0] == 's':
                a = a - (1 << w) if a >> (w - 1) else a
                b = b - (1 << w) if b >> (w - 1) else b
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p if p in ('eq', 'ne') else p[1:]]
        A = bv(a, w); B = bv(b, w)
        if p == 'eq': r = A == B
        elif p == 'ne': r = A != B
        elif p == 'ult': r = z3.ULT(A, B)
        elif p == 'ule': r = z3.ULE(A, B)
        elif p == 'ugt': r = z3.UGT(A, B)
        elif p == 'uge': r = z3.UGE(A, B)
        elif p == 'slt': r = A < B
        elif p == 'sle': r = A <= B
        elif p == 'sgt': r = A > B
        else: r = A >= B
        return simp(r)

    def fcmp(self, p, a, b, t):
        if p == 'true': return True
        if p == 'false': return False
        if isinstance(a, float) and isinstance(b, float):
            un = a != a or b != b
            if p == 'ord': return not un
            if p == 'uno': return un
            base = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p[1:]]
            if p[0] == 'o': return base and not un
            return base or un
        A = fpv(a, t); B = fpv(b, t)
        if self.opts.get('fp_uf') == 2:
            # comparisons over two uninterpreted relations: "less" and "is not a number"
            def nan(x, X): return z3.BoolVal(x != x) if isinstance(x, float) else self.fpnan(X)
            un = simp(z3.Or(nan(a, A), nan(b, B))); f = z3.Function('uf_lt_%s' % A.sort(), A.sort(), A.sort(), z3.BoolSort())
            lt, gt = f(A, B), f(B, A)
            o = {'ord': True, 'uno': False, 'lt': lt, 'gt': gt, 'le': z3.Not(gt), 'ge': z3.Not(lt), 'eq': z3.Not(z3.Or(lt, gt)), 'ne': z3.Or(lt, gt)}[p if p in ('ord', 'uno') else p[1:]]
            return simp(z3.And(o, z3.Not(un)) if p[0] == 'o' else z3.Or(o, un))
        un = z3.Or(z3.fpIsNaN(A), z3.fpIsNaN(B))
        if p == 'ord': return z3.Not(un)
        if p == 'uno': return un
        f = {'eq': z3.fpEQ, 'ne': z3.fpNEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}[p[1:]]
        r = f(A, B)
        if p == 'one': return z3.And(r, z3.Not(un))
        if p == 'une': return r
        if p[0] == 'u': return z3.Or(r, un)
        return r

    def cast(self, op, t, v, t2):
        t = self.mod.resolve(t); t2 = self.mod.resolve(t2)
        if t2.k == 'vec' and op in ('trunc', 'zext', 'sext'): return [self.cast(op, t.el, x, t2.el) for x in v]
        if v is UNDEF:
            if t2.k == 'int': return self.fresh('undef', t2.n)
            return UNDEF
        if op == 'ptrtoint':
            if t2.n == 64: return PInt(self.asptr(v))
            return simp(z3.Extract(t2.n - 1, 0, bv(self.ptr_int(self.asptr(v)), 64)))
        if op == 'inttoptr': return self.int2ptr(v)
        if op == 'bitcast':
            if t.k == t2.k and t.k != 'int': return v
            if t.k in ('float', 'double') and t2.k == 'int': return fbits(v, t)
            if t.k == 'int' and t2.k in ('float', 'double'): return ffrom(v, t2)
            if t.k == t2.k: return v
            raise Undecided('bitcast')
        if op in ('trunc', 'zext', 'sext'):
            if isinstance(v, PInt): v = self.ptr_int(v.p)
            if t.n == 1:
                v = tobool(v)
                if isinstance(v, bool): return (mask(t2.n) if op == 'sext' else 1) if v else 0
                return z3.If(v, z3.BitVecVal(mask(t2.n) if op == 'sext' else 1, t2.n), z3.BitVecVal(0, t2.n))
            if isinstance(v, bool): v = int(v)
            if isinstance(v, int):
                if op == 'sext' and v >> (t.n - 1): v -= 1 << t.n
                v &= mask(t2.n)
                return bool(v) if t2.n == 1 else v
            if op == 'trunc':
                if t2.n == 1: return simp(z3.Extract(0, 0, v) == 1)
                return simp(z3.Extract(t2.n - 1, 0, v))
            if op == 'zext': return z3.ZeroExt(t2.n - t.n, v)
            return z3.SignExt(t2.n - t.n, v)
        if op in ('sitofp', 'uitofp'):
            if isinstance(v, bool): v = int(v)
            if isinstance(v, int):
                if op == 'sitofp' and v >> (t.n - 1): v -= 1 << t.n
                return fround(float(v), t2)
            v = bv(v, t.n)
            if self.opts.get('fp_uf'):
                if t.n < 64 or op == 'sitofp':       # the value as a 64-bit integer decides, whatever its type was
                    v64 = simp(v if t.n == 64 else z3.SignExt(64 - t.n, v) if op == 'sitofp' else z3.ZeroExt(64 - t.n, v))
                    return z3.Function('uf_itofp_64_%s' % t2, z3.BitVecSort(64), fsort(t2))(v64)
                return z3.Function('uf_%s_%d_%s' % (op, t.n, t2), z3.BitVecSort(t.n), fsort(t2))(v)
            return z3.fpSignedToFP(RNE, v, fsort(t2)) if op == 'sitofp' else z3.fpUnsignedToFP(RNE, v, fsort(t2))
        if op in ('fptosi', 'fptoui'):
            if isinstance(v, float):
                if v != v or math.isinf(v): return 0
                return int(v) & mask(t2.n)
            if self.opts.get('fp_uf'): return z3.Function('uf_%s_%s_%d' % (op, v.sort(), t2.n), v.sort(), z3.BitVecSort(t2.n))(v)
            return z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(t2.n)) if op == 'fptosi' else z3.fpToUBV(z3.RTZ(), v, z3.BitVecSort(t2.n))
        if op in ('fpext', 'fptrunc'):
            if isinstance(v, float): return fround(v, t2)
            return z3.fpFPToFP(RNE, v, fsort(t2))
        raise Undecided('cast ' + op)

    # ------------------------------------------------ exceptions
    def type_bases(self, ti):
        out = set([ti]); work = [ti]
        while work:
            x = work.pop()
            bs = STDEXC.get(x)
            if bs is None and x in self.mod.globals:
                t, init, c = self.mod.global_def(x)
                bs = []
                def coll(v):
                    if v[0] == 'g' and v[1].startswith('_ZTI'): bs.append(v[1])
                    elif v[0] == 'agg':
                        for et, ev in v[1]: coll(ev)
                if init: coll(init)
            for b in bs or []:
                if b not in out: out.add(b); work.append(b)
        return out

    def doom_throws(self, fn, block, depth=0):
        """throw sites reachable by normal edges from a block that cannot return: list of (typeinfo|None|'resume'|'abort', unwind)"""
        fi = analyze(self.mod, fn)
        seen = set([block]); work = [block]; out = []
        while work:
            b = work.pop()
            t = fn.blocks[b][-1]
            for ins in fn.blocks[b]:
                if ins.op in ('call', 'invoke'):
                    cal = ins.a[0]
                    nm = cal[1] if cal[0] == 'g' else None
                    uw = ins.x[0][1] if ins.op == 'invoke' else None
                    if nm == '__cxa_throw':
                        ti = ins.a[1][1][1]
                        out.append((ti[1] if ti[0] == 'g' else None, uw))
                    elif nm == '__cxa_rethrow': out.append(('rethrow', uw))
                    elif nm in STDTHROW: out.append((STDTHROW[nm], uw))
                    elif nm in ('abort', '_ZSt9terminatev', '__clang_call_terminate', 'vc_path_end'): out.append(('abort', None))
                    elif ins.x[1] and nm and depth < 4:
                        f2 = self.mod.fn(nm)
                        if f2 is not None:
                            for ti, _ in self.doom_throws(f2, f2.order[0], depth + 1): out.append((ti, uw))
                        else: out.append((None, uw))
            if t.op == 'resume': out.append(('resume', None))
            for s in fi.succ[b]:
                if s not in seen: seen.add(s); work.append(s)
        return list(dict.fromkeys(out))

    # ------------------------------------------------ execution
    def call_fn(self, name, args, st):
        """execute function body. returns (normal (St,val)|None, [exc St])"""
        fn = self.mod.fn(name)
        if fn is None: raise Undecided('no body for ' + name)
        if self.deadline and time.time() > self.deadline: raise Undecided('time budget exhausted')
        if len(self.stack) > 60: raise Undecided('call depth')
        self.fns_executed[name] = self.fns_executed.get(name, 0) + 1
        env = {}
        for (t, n), a in zip(fn.params, args): env[n] = a
        s2 = St(st.pc, st.mem, env, (), st.exc)
        self.stack.append(name)
        pre = set(st.mem)
        try:
            rets, excs, _, _ = self.run_region(fn, fn.order[0], s2, None)
        finally:
            self.stack.pop()
        res = None
        fi = analyze(self.mod, fn)
        for s, v in rets:
            s.env = {'$r': v}
            if res is None: res = s
            else: res = self.merge(res, s, ['$r'], {'$r': fn.ret})
        out = None
        if res is not None:
            out = (res, res.env.get('$r'))
            res.env = {}
            for o in [o for o in res.mem if o not in pre and self.objs[o].kind == 'stack']: del res.mem[o]
        byt = {}
        for s in excs:
            s.env = {}; s.loops = ()
            if s.exc in byt: byt[s.exc] = self.merge(byt[s.exc], s, [], {})
            else: byt[s.exc] = s
        return out, list(byt.values())

    def key(self, fi, loops, block):
        k = []
        d = dict(loops)
        for h in fi.loopsof[block]:
            k.append(fi.rpo[h]); k.append(d.get(h, 0))
        k.append(fi.rpo[block])
        return tuple(k)

    def run_region(self, fn, start, st, loop, phis_done=False):
        fi = analyze(self.mod, fn)
        pending = {}
        rets = []; excs = []; backs = []; exits = []
        def push(s, pred, succ, entering=False):
            # phis
            newv = []
            for ins in fn.blocks[succ]:
                if ins.op != 'phi': break
                for v, p in ins.a:
                    if p == pred:
                        newv.append((ins.d, self.val(s, ins.t, v))); break
            for d, v in newv: s.env[d] = v
            if loop is not None and not entering:
                if succ == loop.header: backs.append(s); return
                if succ not in loop.blocks: exits.append((s, pred, succ)); return
            # loop counters
            inl = fi.loopsof[succ]
            d = dict(s.loops)
            nl = []
            for h in inl:
                if h == succ:
                    if h in d and pred in fi.loops[h].blocks:
                        nl.append((h, d[h] + 1))
                    else: nl.append((h, 0))
                else: nl.append((h, d.get(h, 0)))
            s.loops = tuple(nl)
            addp(s, succ)
        def addp(s, block):
            k = self.key(fi, s.loops, block)
            if k in pending:
                b, s0 = pending[k]
                if s0.exc != s.exc:
                    # keep separately: exceptions in flight in catch handlers
                    kk = k + (str(s.exc),)
                    if kk in pending:
                        m = self.merge(pending[kk][1], s, fi.live[block], fi.types); m.loops = s.loops
                        pending[kk] = (block, m)
                    else: pending[kk] = (block, s)
                    return
                m = self.merge(s0, s, fi.live[block], fi.types)
                m.loops = s.loops
                pending[k] = (block, m)
            else: pending[k] = (block, s)
        if loop is None:
            st.loops = tuple((h, 0) for h in fi.loopsof[start])
        else:
            st.loops = tuple((h, 0) for h in fi.loopsof[start])
        addp(st, start)
        first = True
        nsteps = 0
        while pending:
            k = min(pending)
            block, s = pending.pop(k)
            nsteps += 1
            if nsteps > 40000: raise Undecided('step limit in ' + fn.name)
            # loop entry?
            if block in fi.loops and not (loop is not None and block == loop.header):
                it = dict(s.loops)[block]
                if it == 0 and self.want_cut(fn, fi, block, s):
                    ex, ec, rt = self.cut_loop(fn, fi, block, s)
                    for s2, pred, succ in ex: push(s2, pred, succ)
                    excs.extend(ec); rets.extend(rt)
                    continue
                if self.opts.get('bmc') and it > self.opts['bmc']:
                    if not (self.concrete_loop(s, fn, block) and it <= 5000): continue
                elif it > self.limit_unroll:
                    if it > self.opts.get('unroll_hard', 300) or True:
                        # symbolic loop that does not terminate within the bound -> cut on restart
                        if s.pc and not self.feasible(s.pc): continue
                        if self.concrete_loop(s, fn, block) and it <= 5000: pass
                        else: raise RestartCut((fn.name, block))
            if block not in fi.canret and fn.name not in self.nodoom:
                self.doom(fn, block, s, push, excs)
                continue
            try:
                self.exec_block(fn, fi, block, s, push, rets, excs)
            except PathEnd:
                pass
        return rets, excs, backs, exits

    nodoom = ()
    spec = 0

    def concrete_loop(self, s, fn, block):
        """last exit decision of this loop was concrete"""
        return self.last_exit_concrete.get((fn.name, block), False)
    last_exit_concrete = {}

    def want_cut(self, fn, fi, block, s):
        if self.opts.get('bmc'): return False
        if (fn.name, block) in self.autocut: return True
        invs = self.loopinvs.get(self.loop_depth)
        if invs:
            # only if the loop is not concretely bounded: probe first exit condition
            return not self.probe_concrete(fn, fi, block, s)
        return False

    def probe_concrete(self, fn, fi, block, s):
        """True if loop's exit decision on entry is concrete *and* the loop looks constant-bounded"""
        l = fi.loops[block]
        b = block; st = s.fork(); steps = 0
        self.quiet += 1
        try:
            while steps < 20:
                steps += 1
                ok = True
                for ins in fn.blocks[b]:
                    if ins.op == 'phi': continue
                    if ins.op in ('br', 'condbr', 'switch', 'ret', 'invoke', 'unreachable', 'resume'): break
                    if ins.op in ('call', 'store', 'alloca'):
                        if ins.op == 'call':
                            nm = ins.a[0][1] if ins.a[0][0] == 'g' else ''
                            if nm.startswith('llvm.lifetime') or nm.startswith('llvm.dbg'): continue
                            ok = False; break
                        if ins.op == 'store': ok = False; break
                    try: self.exec_simple(ins, st)
                    except (Undecided, PathEnd): ok = False; break
                if not ok: return self.bottom_concrete(fn, fi, block, s)
                t = fn.blocks[b][-1]
                if t.op == 'br':
                    b = t.a
                    if b == block or b not in l.blocks: return False
                    continue
                if t.op == 'condbr':
                    if all(x in l.blocks for x in t.x): return self.bottom_concrete(fn, fi, block, s)
                    c = self.val(st, t.t, t.a)
                    return isinstance(c, (bool, int))
                return False
            return False
        finally:
            self.quiet -= 1

    def bottom_concrete(self, fn, fi, block, s):
        """bottom-tested loops: exit compare against a constant with constant initial phi"""
        l = fi.loops[block]
        for b in l.blocks:
            t = fn.blocks[b][-1]
            if t.op == 'condbr' and any(x not in l.blocks and x in fi.canret for x in t.x):
                c = t.a
                if c[0] != 'l': continue
                for ins in fn.blocks[b]:
                    if ins.d == c[1] and ins.op == 'icmp':
                        if ins.a[1][0] in ('i', 'null'):
                            phis = {i.d for i in fn.blocks[block] if i.op == 'phi'}
                            v = ins.a[0]
                            for _ in range(6):
                                if not (isinstance(v, tuple) and v[0] == 'l'): break
                                if v[1] in phis:
                                    if isinstance(s.env.get(v[1]), int): return True
                                    break
                                df = [i for bb in l.blocks for i in fn.blocks[bb] if i.d == v[1]]
                                if len(df) != 1 or df[0].op in ('phi', 'load', 'call', 'invoke'): break
                                ops = operands(df[0])
                                if len(ops) != 1: break
                                v = ('l', ops[0])
                        elif ins.a[1][0] == 'l' and isinstance(s.env.get(ins.a[1][1]), Ptr): return False
        return False

    def doom(self, fn, block, s, push, excs):
        sites = self.doom_throws(fn, block)
        # landing pads reached while an exception is in flight end in resume
        done = False
        for ti, uw in sites:
            if ti == 'abort':
                continue
            s2 = s.fork()
            if ti in ('resume', 'rethrow'):
                if s.exc is None: continue
            else: s2.exc = ti or '?'
            done = True
            if uw is not None: self.unwind(fn, s2, block, uw, push, excs)
            else: excs.append(s2)
            if len(sites) > 1 and all(u is None for _, u in sites): break
        if not done:
            # no throw site: must be unreachable / abort
            if any(ti == 'abort' for ti, _ in sites):
                self.oblig(s, False if not s.pc else z3.BoolVal(False), 'abort/terminate reached in ' + fn.name, 'abort')
            else:
                # plain unreachable
                if any(i.op == 'call' and i.a[0] == ('g', 'vc_path_end') for i in fn.blocks[block]): return
                self.oblig(s, z3.BoolVal(False), 'unreachable code reached in ' + fn.name, 'abort')

    def unwind(self, fn, s, pred, lpad, push, excs):
        ins = None
        for i in fn.blocks[lpad]:
            if i.op == 'landingpad': ins = i; break
        if ins is None: raise Undecided('no landingpad')
        bases = self.type_bases(s.exc) if s.exc and s.exc != '?' else None
        sel = None
        for kind, v in ins.a:
            if kind == 'filter': raise Undecided('exception filter')
            if v[0] == 'null': sel = 0x7fff0000; break
            ti = v[1]
            if bases is None:
                if ti in ('_ZTISt9exception',): sel = self.typeid(ti); break
                raise Undecided('catch of unknown exception type by ' + ti)
            if ti in bases: sel = self.typeid(ti); break
        if sel is None:
            excs.append(s); return
        s.env['$lp'] = [P('opq', 0), sel]
        push(s, pred, lpad)

    def typeid(self, ti):
        return self.typeids.setdefault(ti, len(self.typeids) + 1)

    def exec_block(self, fn, fi, block, s, push, rets, excs):
        ins_list = fn.blocks[block]
        i = 0
        for ins in ins_list:
            op = ins.op
            if op == 'phi': continue
            if op == 'call':
                r = self.do_call(ins, s)
                nrm, ex = r
                for e in ex:
                    e.env = s.env; e.loops = s.loops
                    excs.append(e)
                if nrm is None: return
                s2, v = nrm
                if s2 is not s:
                    s.pc = s2.pc; s.mem = s2.mem
                if ins.d is not None: s.env[ins.d] = v
                continue
            if op == 'br':
                push(s, block, ins.a); return
            if op == 'condbr':
                c = self.val(s, ins.t, ins.a)
                c = tobool(c)
                if isz(c): c = simp(c)
                a, b = ins.x
                fname = fn.name
                for h in fi.loopsof[block]:
                    l = fi.loops[h]
                    if (a not in l.blocks) != (b not in l.blocks): self.last_exit_concrete[(fname, h)] = isinstance(c, bool)
                if isinstance(c, bool):
                    push(s, block, a if c else b); return
                if a == b: push(s, block, a); return
                fa = self.feasible(s.pc, c)
                fb = self.feasible(s.pc, NOT(c)) if fa else True
                if fa and fb:
                    s2 = s.fork()
                    s.pc = s.pc + [c]; s2.pc = s2.pc + [NOT(c)]
                    push(s, block, a); push(s2, block, b)
                elif fa: push(s, block, a)
                else: push(s, block, b)
                return
            if op == 'switch':
                v = self.val(s, ins.t, ins.a)
                dflt, cases = ins.x
                w = ins.t.n
                if isinstance(v, int):
                    for cv, tgt in cases:
                        if (cv & mask(w)) == v: push(s, block, tgt); return
                    push(s, block, dflt); return
                if z3.is_bool(v): v = bv(v, w)
                rest = []
                bytgt = {}
                for cv, tgt in cases: bytgt.setdefault(tgt, []).append(cv)
                for tgt, cvs in bytgt.items():
                    c = z3.Or(*[v == z3.BitVecVal(cv & mask(w), w) for cv in cvs]) if len(cvs) > 1 else v == z3.BitVecVal(cvs[0] & mask(w), w)
                    rest.append(z3.Not(c))
                    if tgt == dflt: rest.pop(); continue
                    if self.feasible(s.pc, c):
                        s2 = s.fork(); s2.pc = s2.pc + [c]
                        push(s2, block, tgt)
                c = z3.And(*rest) if rest else z3.BoolVal(True)
                if dflt in fi.canret or dflt in bytgt or fn.blocks[dflt][0].op != 'unreachable':
                    if self.feasible(s.pc, c):
                        s2 = s.fork(); s2.pc = s2.pc + [c]
                        push(s2, block, dflt)
                return
            if op == 'ret':
                v = None if ins.a is None else self.val(s, ins.t, ins.a)
                rets.append((s, v)); return
            if op == 'invoke':
                nrm, ex = self.do_call(ins, s)
                env0 = s.env; loops0 = s.loops
                for e in ex:
                    e.env = dict(env0); e.loops = loops0
                    self.unwind(fn, e, block, ins.x[0][1], push, excs)
                if nrm is None: return
                s2, v = nrm
                s2.env = env0; s2.loops = loops0
                if ins.d is not None: s2.env[ins.d] = v
                push(s2, block, ins.x[0][0]); return
            if op == 'unreachable':
                self.oblig(s, z3.BoolVal(False), 'unreachable reached in ' + fn.name, 'abort'); return
            if op == 'resume':
                excs.append(s); return
            if op == 'landingpad':
                s.env[ins.d] = s.env.get('$lp'); continue
            self.exec_simple(ins, s)
        raise Undecided('block without terminator')

    def exec_simple(self, ins, s):
        op = ins.op
        if op == 'load':
            s.env[ins.d] = self.load(s, self.val(s, PTR, ins.a[0]), ins.t)
        elif op == 'store':
            self.store(s, self.val(s, PTR, ins.a[1]), self.val(s, ins.t, ins.a[0]), ins.t)
        elif op == 'getelementptr':
            s.env[ins.d] = self.gep(ins.x, [(t, self.val(s, t, v)) for t, v in ins.a])
        elif op in BINOPS:
            s.env[ins.d] = self.binop(op, self.val(s, ins.t, ins.a[0]), self.val(s, ins.t, ins.a[1]), ins.t, ins.x)
        elif op == 'icmp':
            a = self.val(s, ins.t, ins.a[0]); b = self.val(s, ins.t, ins.a[1])
            if self.cmplogs and ins.t.k in ('int', 'ptr'):
                for c in self.cmplogs: c.append((a, b, ins.t.n if ins.t.k == 'int' else 64))
            s.env[ins.d] = self.icmp(ins.x, a, b, ins.t)
        elif op == 'fcmp':
            s.env[ins.d] = self.fcmp(ins.x, self.val(s, ins.t, ins.a[0]), self.val(s, ins.t, ins.a[1]), ins.t)
        elif op in CASTS:
            s.env[ins.d] = self.cast(op, ins.x, self.val(s, ins.x, ins.a[0]), ins.t)
        elif op == 'select':
            ct = self.mod.resolve(ins.x)
            c = self.val(s, ct, ins.a[0])
            a = self.val(s, ins.t, ins.a[1]); b = self.val(s, ins.t, ins.a[2])
            if ct.k == 'vec':
                s.env[ins.d] = [self.ite(tobool(ci), x, y, ins.t.el.n) for ci, x, y in zip(c, a, b)]
            else:
                s.env[ins.d] = self.ite(tobool(c), a, b, ins.t.n if ins.t.k == 'int' else (32 if ins.t.k == 'float' else None))
        elif op == 'alloca':
            n = self.mod.sizeof(ins.t)
            if ins.a:
                c = self.val(s, ins.a[0], ins.a[1])
                n = mul64(self.cast('zext', ins.a[0], c, INT(64)) if ins.a[0].n < 64 else c, n)
            o = self.newobj(s, n, 'stk_' + (ins.d or ''), 'stack')
            s.env[ins.d] = P(o.id, 0)
        elif op == 'extractvalue':
            v = self.val(s, ins.t, ins.a[0])
            for k in ins.x: v = v[k]
            s.env[ins.d] = v
        elif op == 'insertvalue':
            v = self.val(s, ins.t, ins.a[0]); e = self.val(s, ins.a[1][0], ins.a[1][1])
            def setp(v, path):
                v = list(v)
                if len(path) == 1: v[path[0]] = e
                else: v[path[0]] = setp(v[path[0]], path[1:])
                return v
            s.env[ins.d] = setp(v, ins.x)
        elif op == 'freeze': s.env[ins.d] = self.val(s, ins.t, ins.a[0])
        elif op == 'fneg':
            v = self.val(s, ins.t, ins.a[0])
            s.env[ins.d] = -v if isinstance(v, float) else z3.fpNeg(v)
        elif op == 'atomicrmw':
            p = self.val(s, PTR, ins.a[0]); v = self.val(s, ins.t, ins.a[1])
            old = self.load(s, p, ins.t)
            new = v if ins.x == 'xchg' else self.binop(ins.x, old, v, ins.t, [])
            self.store(s, p, new, ins.t)
            s.env[ins.d] = old
        elif op == 'landingpad': s.env[ins.d] = s.env.get('$lp')
        else: raise Undecided('instruction %s: %s' % (op, ins.a))

    # ------------------------------------------------ calls
    def do_call(self, ins, s):
        cal, args = ins.a
        if cal[0] == 'g': name = cal[1]
        else:
            p = self.asptr(self.val(s, PTR, cal))
            fa = []
            for g, o, f in p.alts:
                if isinstance(o, FuncRef): fa.append((g, o.name))
                else:
                    self.oblig(s, NOT(g) if g is not True else z3.BoolVal(False), 'call through invalid function pointer', 'mem')
                    if o == 'opq': raise Undecided('call through opaque function pointer in ' + self.stack[-1])
            if not fa: return None, []
            if len(fa) > 1:
                av = [self.val(s, t, v) if t.k != 'metadata' else None for t, v in args]
                outs = None; exs = []
                for g, nm in fa:
                    if not self.feasible(s.pc, g): continue
                    s2 = s.fork(); s2.pc = s2.pc + [g]
                    nrm, ex = self.call_named(nm, av, s2, ins)
                    exs.extend(ex)
                    if nrm is None: continue
                    x, v = nrm; x.env = {'$r': v}
                    outs = x if outs is None else self.merge(outs, x, ['$r'], {'$r': ins.t})
                if outs is None: return None, exs
                return (outs, outs.env.get('$r')), exs
            name = fa[0][1]
        av = [self.val(s, t, v) if t.k != 'metadata' else None for t, v in args]
        return self.call_named(name, av, s, ins)

    def call_named(self, name, av, s, ins):
        st = self.stubs.get(name)
        if st is not None and not (self.stack and st in self.stack) and (name not in self.rec_stubs or name in self.stack):
            s2 = St(s.pc, s.mem, {}, (), s.exc)
            return self.call_fn(st, av, s2)
        import models
        m = models.lookup(self, name)
        if m is not None:
            r = m(self, s, av, ins, name)
            if isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], list) and r[0] is not None and isinstance(r[0], tuple): return r
            if r is models.NORET: return None, []
            if isinstance(r, models.Throw):
                s2 = s.fork(); s2.exc = r.ti
                return None, [s2]
            if isinstance(r, models.Outcomes): return r.nrm, r.ex
            return (s, r), []
        if name in self.mod.fns:
            s2 = St(s.pc, s.mem, {}, (), s.exc)
            return self.call_fn(name, av, s2)
        if name in self.mod.globals:
            g = self.mod.global_def(name)
            if isinstance(g[1], tuple) and g[1] and g[1][0] == 'alias':
                v = self.constval(s, PTR, g[1][1]); tgt = v.alts[0][1].name
                if tgt != name: return self.call_named(tgt, av, s, ins)
        raise Undecided('external function without contract: ' + name)

    # ------------------------------------------------ loop cutting
    def havoc_like(self, v, t, hint):
        if isinstance(v, Ptr) or t is not None and t.k == 'ptr':
            if isinstance(v, Ptr) and len(v.alts) == 1 and isinstance(v.alts[0][1], int):
                return P(v.alts[0][1], self.fresh(hint, 64))
            return P('opq', self.fresh(hint, 64))
        if isinstance(v, PInt):
            return PInt(self.havoc_like(v.p, PTR, hint))
        if t is not None and t.k in ('float', 'double'): return self.freshf(hint, t)
        if isinstance(v, (list, tuple)):
            return [self.havoc_like(x, t.fields[i] if t is not None and t.k == 'struct' else None, hint) for i, x in enumerate(v)]
        if t is not None and t.k == 'int': return self.fresh(hint, t.n)
        raise Undecided('havoc')

    def cut_loop(self, fn, fi, header, s0):
        l = fi.loops[header]
        depth = self.loop_depth
        phis = [i for i in fn.blocks[header] if i.op == 'phi']
        live = fi.live[header]
        init = {p.d: s0.env[p.d] for p in phis}
        invs = list(self.loopinvs.get(depth, []))
        self.loop_depth += 1
        pre_objs = set(s0.mem)
        try:
            n0 = self.nfresh
            k = self.fresh('k', 64)
            # ---- dry runs: find write set and affine phis
            written = {}   # obj -> None (whole) or dict of cells {(off,n)}
            phisym = {p.d: self.havoc_like(init[p.d], self.mod.resolve(p.t), 'phi_' + p.d) for p in phis}
            havobj = {}
            cells = {}
            backs = None
            frozen = set()     # objects written only on paths which leave the loop: unchanged at every back edge
            for rnd in range(8):
                s = s0.fork()
                for p in phis: s.env[p.d] = phisym[p.d]
                self.apply_havoc(s, s0, written, havobj, cells)
                self.quiet += 1
                wl = []; cl = []
                self.wlogs.append(wl); self.cmplogs.append(cl)
                depth_save = self.loop_depth
                nob = self.nobj
                try:
                    rets, excs, backs, exits = self.run_region(fn, header, s, l)
                finally:
                    self.quiet -= 1
                    self.wlogs.pop(); self.cmplogs.pop()
                changed = False
                for o, f, n in wl:
                    if o not in pre_objs or o in frozen: continue
                    cur = written.get(o, {})
                    if cur is None: continue
                    if isinstance(f, int) and isinstance(n, int) and n <= 16 and isinstance(self.objs[o].size, int):
                        if (f, n) not in cur:
                            cur = dict(cur); cur[(f, n)] = True; written[o] = cur; changed = True
                    else:
                        written[o] = None; changed = True
                if not changed:
                    fr = [o for o, w in written.items() if w is None and o in havobj and backs and all(b.mem.get(o) is havobj[o] for b in backs)]
                    if not fr: break
                    for o in fr: frozen.add(o); del written[o]
            else:
                raise Undecided('loop write set does not stabilise')
            if not backs:
                # body never loops back; treat as straight line
                pass
            # affine phis
            affine = {}
            for p in phis:
                t = self.mod.resolve(p.t)
                step = None; ok = True
                for b in backs:
                    nv = b.env[p.d]; ov = phisym[p.d]
                    if t.k == 'int' and t.n > 1 and isz(ov) and not isinstance(nv, (PInt, Ptr)):
                        d = simp(bv(nv, t.n) - ov)
                    elif isinstance(ov, Ptr) and isinstance(nv, Ptr) and len(nv.alts) == 1 and len(ov.alts) == 1 and nv.alts[0][1] == ov.alts[0][1]:
                        d = sub64(nv.alts[0][2], ov.alts[0][2])
                    else: ok = False; break
                    if isz(d):
                        # loop-invariant step?
                        if self.mentions(d, phisym, havobj, cells, n0): ok = False; break
                    if step is None: step = d
                    elif not same(step, d): ok = False; break
                if ok and step is not None: affine[p.d] = step
            # ---- candidate invariants (Houdini)
            subs = []
            headvals = {}
            for p in phis:
                t = self.mod.resolve(p.t)
                if p.d in affine:
                    st_ = affine[p.d]
                    if t.k == 'int':
                        kk = k if t.n == 64 else (z3.Extract(t.n - 1, 0, k) if t.n < 64 else z3.ZeroExt(t.n - 64, k))
                        hv = simp(bv(init[p.d], t.n) + (self.amul(kk, bv(st_, t.n), t.n) if isz(st_) and self.abstract_mul and t.n in (32, 64) else kk * bv(st_, t.n)))
                        subs.append((phisym[p.d], bv(hv, t.n)))
                        headvals[p.d] = hv
                    else:
                        o = init[p.d].alts[0][1]
                        f0 = init[p.d].alts[0][2]
                        if isz(st_) and self.abstract_mul: hv = simp(bv(f0, 64) + self.amul(k, bv(st_, 64), 64))
                        else: hv = simp(bv(f0, 64) + k * bv(st_, 64))
                        subs.append((phisym[p.d].alts[0][2], bv(hv, 64)))
                        headvals[p.d] = P(o, hv)
                else: headvals[p.d] = phisym[p.d]
            # affine memory cells (iterators kept in memory)
            caff = {}
            for (o, f, n), h in cells.items():
                if o not in s0.mem or o not in pre_objs or written.get(o) is None: continue
                ini = self.read(s0.mem[o], f, n); step = None; ok = bool(backs)
                if isinstance(h, Ptr):
                    if not (isinstance(ini, Ptr) and len(ini.alts) == 1 and len(h.alts) == 1 and isz(h.alts[0][2])): continue
                elif not (isz(h) and z3.is_bv(h)) or ini is UNDEF or isinstance(ini, (Ptr, PInt)) or (isz(ini) and not z3.is_bv(ini)): continue
                for b in backs:
                    if o not in b.mem: ok = False; break
                    nv = self.read(b.mem[o], f, n)
                    if isinstance(h, Ptr):
                        if not (isinstance(nv, Ptr) and len(nv.alts) == 1 and nv.alts[0][1] == h.alts[0][1] == ini.alts[0][1]): ok = False; break
                        d = sub64(nv.alts[0][2], h.alts[0][2])
                    else:
                        if isinstance(nv, (Ptr, PInt)) or nv is UNDEF or (isz(nv) and not z3.is_bv(nv)): ok = False; break
                        d = simp(bv(nv, 8 * n) - h)
                    if isz(d) or (step is not None and step != d): ok = False; break
                    step = d
                if not ok or step is None: continue
                if isinstance(h, Ptr):
                    hv = simp(bv(ini.alts[0][2], 64) + k * bv(step, 64)); subs.append((h.alts[0][2], bv(hv, 64))); caff[(o, f, n)] = (P(ini.alts[0][1], hv), step)
                else:
                    kk = k if n == 8 else z3.Extract(8 * n - 1, 0, k)
                    hv = simp(bv(ini, 8 * n) + kk * bv(step, 8 * n)); subs.append((h, bv(hv, 8 * n))); caff[(o, f, n)] = (hv, step)
            if os.environ.get("VC_LOOP"): print("LOOP", fn.name[:60], header, depth, "written", {self.objs[o].name: (None if w is None else list(w)) for o, w in written.items()}, "frozen", [self.objs[o].name for o in frozen], "caff", [(self.objs[o].name, f, v[1]) for (o, f, n), v in caff.items()], "aff", affine, file=sys.stderr)
            cands = self.candidates(phis, init, phisym, cl, cells, backs, s0)
            bounds = self.kbounds(k, affine, init, phisym, cl, phis)
            allc = []
            for (hsym, ini, mk, desc) in cands: allc.append((mk, ini, hsym, desc))
            inv_ok = self.houdini(s0, backs, allc, bounds, k, subs, phisym, phis, cells, affine, init)
            # ---- real run
            s = s0.fork()
            for p in phis: s.env[p.d] = headvals[p.d]
            self.apply_havoc(s, s0, written, havobj, cells)
            for (o, f, n), (hv, _) in caff.items(): s.mem[o] = self.cwrite(s.mem[o], f, n, hv)
            s.pc = list(s.pc)
            s.pc.append(z3.ULT(k, z3.BitVecVal(1 << 62, 64)))
            for f in inv_ok: s.pc.append(z3.substitute(f, *subs) if subs else f)
            key = '%s:loop@depth%d' % (fn.name, depth)
            if invs and not self.quiet:
                for iv in invs:
                    s00 = s0.fork()
                    c = self.eval_inv(iv, s00, 0)
                    self.oblig(s00, c, 'loop invariant %s holds on entry' % iv[2], 'inv')
            myphis = [headvals[p.d] for p in phis if p.d in affine and self.mod.resolve(p.t).k == 'int' and isz(headvals[p.d])]
            self.curphis = myphis
            for iv in invs + self.loopassume.get(depth, []):
                q = self.quiet; self.quiet += 1
                try: c = self.eval_inv(iv, s, k)
                finally: self.quiet = q
                if c is False: c = z3.BoolVal(False)
                if c is not True: s.pc.append(c)
            # ---- closed forms of local variables given by the harness
            closed = {}
            for iv in self.loopvals.get(depth, []) * 2:
                vars_ = []
                for p in phis:
                    t = self.mod.resolve(p.t)
                    if p.d in affine or t.k != 'int' or t.n not in (1, 8, 16, 32, 64) or not isz(phisym[p.d]): continue
                    vars_.append((p.d, phisym[p.d], init[p.d], [b.env[p.d] for b in backs], t.n))
                for (o, f, n), h in cells.items():
                    if n == 8 and (o, f, n) not in caff and isz(h) and z3.is_bv(h) and o in s0.mem: vars_.append(((o, f), h, self.read(s0.mem[o], f, n), [self.read(b.mem[o], f, n) for b in backs], 64))
                if not vars_: continue
                v0 = self.eval_inv(iv, s0, 0, True); vk = self.eval_inv(iv, s, k, True); vns = [self.eval_inv(iv, b, add64(k, 1), True) for b in backs]
                for key_, h, ini, nvs, wd in vars_:
                    def low(v):
                        v = bv(v, 64)
                        return v if wd == 64 else z3.Extract(wd - 1, 0, v)
                    def asbv(v): return z3.If(v, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) if isz(v) and z3.is_bool(v) else bv(v, wd)
                    rep = (low(vk) == 1) if z3.is_bool(h) else low(vk)
                    if key_ in closed or any(isinstance(x, (Ptr, PInt)) or x is UNDEF for x in [ini] + nvs): continue
                    if not self.implied(s0.pc, asbv(ini) == low(v0)): continue
                    su = subs + [(h, rep)]
                    if all(self.implied(s.pc + [z3.substitute(f, *su) if isz(f) else f for f in b.pc], z3.substitute(asbv(nv), *su) == z3.substitute(low(vn), *su)) for b, nv, vn in zip(backs, nvs, vns)):
                        closed[key_] = iv; subs.append((h, rep))
                        if isinstance(key_, tuple): s.mem[key_[0]] = self.cwrite(s.mem[key_[0]], key_[1], 8, vk)
                        else: headvals[key_] = rep; s.env[key_] = rep
            if self.loopvals.get(depth) and not closed and not self.quiet: self.tainted.append('closed form of a loop variable not established in %s' % fn.name)
            if closed: s.pc = [z3.substitute(f, *subs) if isz(f) else f for f in s.pc]
            if not invs and any(w is None for w in written.values()) or (not invs and any(not isinstance(x, dict) for x in written.values())):
                if not self.quiet: self.tainted.append('loop without invariant in %s' % fn.name)
            elif not invs and not self.quiet:
                self.tainted.append('loop with inferred invariants only in %s' % fn.name)
            if not self.feasible(s.pc): return [], [], []
            self.kstack.append(k); self.phistack.append(myphis)
            try:
                rets, excs, backs2, exits = self.run_region(fn, header, s, l)
            finally: self.kstack.pop(); self.phistack.pop()
            self.curphis = myphis
            exits = [(self.close_exit(x, k, affine, init, phisym, subs, cl, phis, n0), p_, s_) for x, p_, s_ in exits]
            if not self.quiet:
                self.loops_cut.append((key, len(invs), len(inv_ok), len(affine), len(phis)))
            for b in backs2:
                # affine consistency
                for p in phis:
                    if p.d in affine:
                        t = self.mod.resolve(p.t)
                        if t.k == 'int':
                            c = simp(bv(b.env[p.d], t.n) == bv(headvals[p.d], t.n) + bv(affine[p.d], t.n))
                        else:
                            nv = b.env[p.d]
                            c = simp(bv(nv.alts[0][2], 64) == bv(headvals[p.d].alts[0][2], 64) + bv(affine[p.d], 64)) if isinstance(nv, Ptr) and len(nv.alts) == 1 and nv.alts[0][1] == headvals[p.d].alts[0][1] else False
                        if c is not True:
                            if self.quiet: pass
                            else: self.oblig(b, c if isz(c) else z3.BoolVal(bool(c)), 'induction variable step', 'inv')
                for (o, f, n), (hv, step) in caff.items():
                    if self.quiet: continue
                    nv = self.read(b.mem[o], f, n) if o in b.mem else UNDEF
                    if isinstance(hv, Ptr): c = simp(bv(nv.alts[0][2], 64) == bv(hv.alts[0][2], 64) + bv(step, 64)) if isinstance(nv, Ptr) and len(nv.alts) == 1 and nv.alts[0][1] == hv.alts[0][1] else False
                    else: c = simp(bv(nv, 8 * n) == bv(hv, 8 * n) + bv(step, 8 * n)) if not isinstance(nv, (Ptr, PInt)) and nv is not UNDEF else False
                    if c is not True: self.oblig(b, c if isz(c) else z3.BoolVal(bool(c)), 'induction variable step', 'inv')
                for d_, iv in closed.items():
                    if self.quiet: continue
                    b2 = b.fork(); cv_ = self.read(b.mem[d_[0]], d_[1], 8) if isinstance(d_, tuple) else b.env[d_]; ev_ = bv(self.eval_inv(iv, b2, add64(k, 1), True), 64)
                    if isz(cv_) and z3.is_bool(cv_): cv_ = bv(cv_, 1)
                    wd_ = cv_.size() if isz(cv_) else 64 if isinstance(d_, tuple) else next((self.mod.resolve(p.t).n for p in phis if p.d == d_), 64)
                    self.oblig(b2, bv(cv_, wd_) == (ev_ if wd_ == 64 else z3.Extract(wd_ - 1, 0, ev_)), 'closed form of a loop variable is preserved', 'inv')
                if not self.quiet:
                    for iv in invs:
                        b2 = b.fork()
                        c = self.eval_inv(iv, b2, add64(k, 1))
                        self.oblig(b2, c, 'loop invariant %s is preserved' % iv[2], 'inv')
            return exits, excs, rets
        finally:
            self.loop_depth -= 1

    def mentions(self, e, phisym, havobj, cells, n0=None):
        ids = set()
        for v in phisym.values(): self._syms(v, ids)
        for v in cells.values(): self._syms(v, ids)
        seen = set()
        work = [e]
        while work:
            x = work.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if x.get_id() in ids: return True
                if n0 is not None:
                    nm = x.decl().name(); i = nm.rfind('!')
                    if i >= 0 and nm[i + 1:].isdigit() and int(nm[i + 1:]) > n0: return True
            if z3.is_app(x) and x.num_args() > 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith('hv_'): return True
            work.extend(x.children())
        return False
    def _syms(self, v, ids):
        if isz(v): ids.add(v.get_id())
        elif isinstance(v, Ptr):
            for a in v.alts:
                if isz(a[2]): ids.add(a[2].get_id())
        elif isinstance(v, PInt): self._syms(v.p, ids)
        elif isinstance(v, (list, tuple)):
            for x in v: self._syms(x, ids)

    def apply_havoc(self, s, s0, written, havobj, cells):
        for o, w in written.items():
            if o not in s.mem: continue
            if w is None:
                if o not in havobj:
                    self.nfresh += 1
                    havobj[o] = Content(Base('uf', z3.Function('hv_%s_%d' % (self.objs[o].name, self.nfresh), z3.BitVecSort(64), z3.BitVecSort(8))))
                s.mem[o] = havobj[o]
            else:
                c = s.mem[o]
                for (f, n) in w:
                    key = (o, f, n)
                    if key not in cells:
                        old = self.read(c, f, n)
                        if isinstance(old, (Ptr, PInt)):
                            cells[key] = self.havoc_like(old, PTR, 'cell')
                        elif isinstance(old, float) or isz(old) and z3.is_fp(old):
                            cells[key] = self.freshf('cell', FLOAT if n == 4 else DOUBLE)
                        else: cells[key] = self.fresh('cell', 8 * n) if n * 8 != 1 else None
                    c = self.cwrite(c, f, n, cells[key])
                s.mem[o] = c

    def implied(self, pc, c):
        import prove
        fs = [f for f in self.facts + pc if isz(f)] + [z3.Not(c)]
        try:
            fs = prove.simplify_goal(fs)
            return prove.solve(fs + prove.mul_instances(fs), 8000, want_model=False)[0] == 'unsat'
        except z3.Z3Exception: return False
    def close_exit(self, s, k, affine, init, phisym, subs, cl, phis, n0):
        """if the exit condition determines the iteration count, replace k by that closed form in the exit state's registers"""
        if not any(self.contains_val(v, k) for v in s.env.values()): return s
        cands = []
        for p in phis:
            if p.d not in affine: continue
            st_ = affine[p.d]
            if not isinstance(st_, int): continue
            t = self.mod.resolve(p.t); w = t.n if t.k == 'int' else 64
            sg = st_ - (1 << w) if st_ >> (w - 1) else st_
            h = phisym[p.d]; ini = init[p.d]
            if isinstance(h, Ptr): h = h.alts[0][2]; ini = ini.alts[0][2]
            for a, b, cw in cl:
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, PInt): x = x.p
                    if isinstance(y, PInt): y = y.p
                    if isinstance(x, Ptr) and isinstance(y, Ptr) and len(x.alts) == 1 and len(y.alts) == 1 and x.alts[0][1] == y.alts[0][1]:
                        x = x.alts[0][2]; y = y.alts[0][2]
                    if isinstance(x, (Ptr, PInt)) or isinstance(y, (Ptr, PInt)) or not isz(x) or z3.is_bool(x) or y is UNDEF: continue
                    if not self.contains(x, h): continue
                    Y = bv(y, x.size())
                    if z3.is_bool(Y): continue
                    if isz(y) and self.mentions(Y, phisym, {}, {}, n0): continue
                    W = x.size()
                    I = bv(ini, w)
                    if W < w: Y = z3.ZeroExt(w - W, Y)
                    elif W > w:
                        Y = z3.Extract(w - 1, 0, Y)
                    for c0 in (0, 1):
                        d = (Y - I) if sg > 0 else (I - Y)
                        if c0: d = d + 1
                        if abs(sg) != 1: d = z3.UDiv(d + (abs(sg) - 1), z3.BitVecVal(abs(sg), w))
                        K = d if w == 64 else z3.ZeroExt(64 - w, d)
                        K = z3.simplify(K)
                        if not any(K.eq(z) for z in cands): cands.append(K)
        cands = cands[:10]
        if not cands: return s
        so = z3.SimpleSolver(); so.set('timeout', 1500)
        for f in self.facts: so.add(f)
        for p in s.pc: so.add(p)
        for K in cands:
            so.push(); so.add(k != K); r = so.check(); so.pop()
            if r == z3.unsat:
                s.pc = s.pc + [k == K]
                s.env = {n: self.subst_val(v, k, K) for n, v in s.env.items()}
                return s
        return s
    def contains_val(self, v, h):
        if isz(v): return self.contains(v, h)
        if isinstance(v, Ptr): return any(isz(f) and self.contains(f, h) for g, o, f in v.alts)
        if isinstance(v, PInt): return self.contains_val(v.p, h)
        if isinstance(v, (list, tuple)): return any(self.contains_val(x, h) for x in v)
        return False
    def subst_val(self, v, k, K):
        if isz(v): return simp(z3.substitute(v, (k, K))) if self.contains(v, k) else v
        if isinstance(v, Ptr): return Ptr([(g, o, simp(z3.substitute(f, (k, K))) if isz(f) and self.contains(f, k) else f) for g, o, f in v.alts])
        if isinstance(v, PInt): return PInt(self.subst_val(v.p, k, K))
        if isinstance(v, (list, tuple)): return [self.subst_val(x, k, K) for x in v]
        return v

    def kbounds(self, k, affine, init, phisym, cl, phis):
        """candidate upper bounds for the iteration counter from comparisons of affine phis with loop-invariant bounds"""
        return []

    def candidates(self, phis, init, phisym, cl, cells, backs, s0):
        """candidate invariants over havocked ints: (sym, init, maker(sym)->Bool, desc)"""
        items = []
        for p in phis:
            t = self.mod.resolve(p.t)
            h = phisym[p.d]
            if t.k == 'int' and t.n > 1 and isz(h): items.append((h, init[p.d], t.n))
            elif isinstance(h, Ptr) and len(h.alts) == 1 and isz(h.alts[0][2]) and isinstance(h.alts[0][1], int):
                items.append((h.alts[0][2], init[p.d].alts[0][2], 64))
        for (o, f, n), h in cells.items():
            if isz(h) and z3.is_bv(h):
                items.append((h, self.read(s0.mem[o], f, n), h.size()))
            elif isinstance(h, Ptr) and len(h.alts) == 1 and isz(h.alts[0][2]) and isinstance(h.alts[0][1], int):
                old = self.read(s0.mem[o], f, n)
                if isinstance(old, Ptr): items.append((h.alts[0][2], old.alts[0][2], 64))
        hs = [h for h, _, _ in items]
        out = []
        for h, ini, w in items:
            if isinstance(ini, (Ptr, PInt)) or ini is UNDEF: continue
            I = bv(ini, w)
            bs = []
            for a, b, cw in cl:
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, (Ptr, PInt)) or isinstance(y, (Ptr, PInt)):
                        if isinstance(x, PInt): x = x.p
                        if isinstance(y, PInt): y = y.p
                        if isinstance(x, Ptr) and isinstance(y, Ptr) and len(x.alts) == 1 and len(y.alts) == 1 and x.alts[0][1] == y.alts[0][1]:
                            x = x.alts[0][2]; y = y.alts[0][2]
                        else: continue
                    if not isz(x) or not self.contains(x, h): continue
                    if isz(y) and any(self.contains(y, hh) for hh in hs): continue
                    if x is UNDEF or y is UNDEF: continue
                    if z3.is_bool(x) or (isz(y) and z3.is_bool(y)): continue
                    yw = bv(y, x.size())
                    if yw.size() != w:
                        if yw.size() > w:
                            # compare in the wider type through the expression's own extension
                            for ext in (z3.SignExt, z3.ZeroExt):
                                out.append((h, I, (lambda q, ext=ext, yw=yw, w=w: z3.ULE(ext(yw.size() - w, q), yw)), 'wide<='))
                                out.append((h, I, (lambda q, ext=ext, yw=yw, w=w: ext(yw.size() - w, q) <= yw), 'wide s<='))
                        continue
                    if not any(yw.eq(z) for z in bs): bs.append(yw)
            bs = bs[:8]
            for B in [I] + bs:
                out.append((h, I, (lambda q, B=B: q >= B), '>=s'))
                out.append((h, I, (lambda q, B=B: z3.UGE(q, B)), '>=u'))
                out.append((h, I, (lambda q, B=B: q <= B), '<=s'))
                out.append((h, I, (lambda q, B=B: z3.ULE(q, B)), '<=u'))
            for B in bs:
                out.append((h, I, (lambda q, B=B: q != B + 0), '!='))
                out.append((h, I, (lambda q, B=B, I=I: z3.Or(q <= B, q == I)), '<=s or init'))
                out.append((h, I, (lambda q, B=B, I=I: z3.Or(z3.ULE(q, B), q == I)), '<=u or init'))
        # equal differences of 64-bit cells (two counters that advance together)
        c64 = [(h, self.read(s0.mem[o], f, n)) for (o, f, n), h in cells.items() if isz(h) and z3.is_bv(h) and h.size() == 64]
        c64 += [(phisym[p.d], init[p.d]) for p in phis if isz(phisym[p.d]) and z3.is_bv(phisym[p.d]) and phisym[p.d].size() == 64]
        self.pairs = {}
        if len(c64) <= 8:
            for i in range(len(c64)):
                for j in range(i):
                    (h1, i1), (h2, i2) = c64[i], c64[j]
                    if isinstance(i1, (Ptr, PInt)) or isinstance(i2, (Ptr, PInt)) or i1 is UNDEF or i2 is UNDEF: continue
                    d = h1 - h2; D = z3.simplify(bv(i1, 64) - bv(i2, 64)); self.pairs[d.get_id()] = (d, h1, h2)
                    out.append((d, D, (lambda q, D=D: q == D), 'diff'))
        return out

    def contains(self, e, h):
        if not isz(e): return False
        if e.eq(h): return True
        key = ('ct', e.get_id(), h.get_id())
        r = self._rc.get(key)
        if r is not None: return r[1]
        seen = set(); work = [e]; res = False; hid = h.get_id()
        while work:
            x = work.pop()
            i = x.get_id()
            if i == hid: res = True; break
            if i in seen: continue
            seen.add(i)
            work.extend(x.children())
        self._rc[key] = ((e, h), res)
        return res

    def houdini(self, s0, backs, cands, bounds, k, subs, phisym, phis, cells, affine, init):
        """returns list of invariant formulas over head symbols (before substitution)"""
        if not cands: return []
        # map head symbol -> next value per back edge
        def nextval(b, h):
            pr = getattr(self, 'pairs', {}).get(h.get_id())
            if pr:
                x, y = nextval(b, pr[1]), nextval(b, pr[2])
                return None if x is None or y is None else bv(x, 64) - bv(y, 64)
            for p in phis:
                v = phisym[p.d]
                if isz(v) and v.eq(h): return b.env[p.d]
                if isinstance(v, Ptr) and len(v.alts) == 1 and isz(v.alts[0][2]) and v.alts[0][2].eq(h):
                    nv = b.env[p.d]
                    if isinstance(nv, Ptr) and len(nv.alts) == 1 and nv.alts[0][1] == v.alts[0][1]: return nv.alts[0][2]
                    return None
            for (o, f, n), v in cells.items():
                if isz(v) and v.eq(h):
                    nv = self.read(b.mem[o], f, n)
                    if isinstance(nv, (Ptr, PInt)) or nv is UNDEF: return None
                    return nv
                if isinstance(v, Ptr) and len(v.alts) == 1 and isz(v.alts[0][2]) and v.alts[0][2].eq(h):
                    nv = self.read(b.mem[o], f, n)
                    if isinstance(nv, Ptr) and len(nv.alts) == 1 and nv.alts[0][1] == v.alts[0][1]: return nv.alts[0][2]
                    return None
            return None
        act = []
        for mk, ini, h, desc in cands:
            nv = []
            ok = True
            for b in backs:
                x = nextval(b, h)
                if x is None: ok = False; break
                nv.append(bv(x, h.size()))
            if ok: act.append((mk, ini, h, nv, mk(h)))
        # initial check
        keep = []
        s = z3.SimpleSolver(); s.set('timeout', 1500)
        for f in self.facts: s.add(f)
        for p in s0.pc: s.add(p)
        for c in act:
            e = simp(c[0](c[1]))
            if e is True: keep.append(c); continue
            if e is False: continue
            s.push(); s.add(z3.Not(e)); r = s.check(); s.pop()
            if r == z3.unsat: keep.append(c)
        act = keep
        # extra: affine equalities strengthen the induction hypothesis
        aff = []
        for a, b in subs: aff.append(a == b)
        for bi, b in enumerate(backs):
            pass
        changed = True
        rounds = 0
        while changed and act and rounds < 12:
            rounds += 1
            changed = False
            for bi, b in enumerate(backs):
                s = z3.SimpleSolver(); s.set('timeout', 2000)
                for f in self.facts: s.add(f)
                for p in b.pc: s.add(p)
                for c in act: s.add(c[4])
                for a in aff: s.add(a)
                nk = []
                for c in act:
                    e = c[0](c[3][bi])
                    s.push(); s.add(z3.Not(e)); r = s.check(); s.pop()
                    if r == z3.unsat: nk.append(c)
                    else: changed = True
                act = nk
        return [c[4] for c in act]

    def eval_inv(self, iv, s, k, value=False):
        fname, ctx, nm = iv
        q = self.quiet; self.quiet += 1
        save = self.loop_depth; self.loop_depth = 100
        self.spec += 1
        try:
            ks = list(reversed(self.kstack))
            args = [ctx, k] + [ks[0] if ks else 0]
            fn = self.mod.fn(fname)
            args = args[:len(fn.params)]
            s2 = St(list(s.pc), s.mem, {}, (), None)
            nrm, ex = self.call_fn(fname, args, s2)
        finally:
            self.quiet = q; self.loop_depth = save; self.spec -= 1
        if nrm is None: raise Undecided('invariant function does not return')
        r = nrm[1]
        if value: return r
        r = tobool(r)
        return simp(r) if isz(r) else r
