"""Integer-arithmetic view of a bit-vector query.  Every bit-vector term t becomes an integer expression equal to its unsigned value; terms whose
range shows that they cannot wrap are translated without modulus, everything unknown becomes a fresh integer in range (over-approximation).
Only an 'unsat' answer is used."""
import z3, time
K = z3
def sgn(c, w): return c - (1 << w) if c >> (w - 1) else c
class Tr:
    def __init__(self, forms):
        self.c = {}; self.b = {}; self.rng = {}; self.side = []; self.n = 0; self.uf = {}; self.keep = []; self.fconst = {}
        for rounds in range(2):
            for f in forms: self.hyp(f, True)
    # ---- ranges of leaves from simple hypotheses
    def hyp(self, f, pos):
        k = f.decl().kind()
        if k == z3.Z3_OP_AND and pos:
            for x in f.children(): self.hyp(x, True)
            return
        if k == z3.Z3_OP_OR and not pos:
            for x in f.children(): self.hyp(x, False)
            return
        if k == z3.Z3_OP_NOT: return self.hyp(f.arg(0), not pos)
        M = {z3.Z3_OP_ULEQ: ('u', 'le'), z3.Z3_OP_ULT: ('u', 'lt'), z3.Z3_OP_UGEQ: ('u', 'ge'), z3.Z3_OP_UGT: ('u', 'gt'),
             z3.Z3_OP_SLEQ: ('s', 'le'), z3.Z3_OP_SLT: ('s', 'lt'), z3.Z3_OP_SGEQ: ('s', 'ge'), z3.Z3_OP_SGT: ('s', 'gt')}
        if k in M:
            sg, op = M[k]; a, b = f.arg(0), f.arg(1)
            if not pos: op = {'le': 'gt', 'lt': 'ge', 'ge': 'lt', 'gt': 'le'}[op]
            if op in ('ge', 'gt'): a, b = b, a; op = 'le' if op == 'ge' else 'lt'
            d = 1 if op == 'lt' else 0
            w = a.size()
            if sg == 'u':
                ra, rb = self.r(a), self.r(b)
                self.cut(a, 0, rb[1] - d); self.cut(b, ra[0] + d, (1 << w) - 1)
            else:
                h = 1 << (w - 1)
                # a <=s b - d: with a known non-negative => b non-negative
                ra, rb = self.r(a), self.r(b)
                if z3.is_bv_value(a) and sgn(a.as_long(), w) < 0:
                    if sgn(a.as_long(), w) + d >= 0: self.cut(b, 0, h - 1)
                elif ra[1] < h:   # a >= 0
                    self.cut(b, ra[0] + d, h - 1)
                    if rb[1] < h or True: self.cut(a, ra[0], min(rb[1] if rb[1] < h else h - 1, h - 1) - d)
            return
        if k == z3.Z3_OP_EQ and pos and z3.is_bv(f.arg(0)):
            a, b = f.arg(0), f.arg(1)
            if z3.is_bv_value(b): self.cut(a, b.as_long(), b.as_long())
            elif z3.is_bv_value(a): self.cut(b, a.as_long(), a.as_long())
            else:
                ra, rb = self.r(a), self.r(b); self.cut(a, *rb); self.cut(b, *ra)
        if k == z3.Z3_OP_EQ and pos and z3.is_bv(f.arg(0)):
            # extract(msb..)==0
            for a, b in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
                if z3.is_bv_value(b) and b.as_long() == 0 and a.decl().kind() == z3.Z3_OP_EXTRACT:
                    hi, lo = a.params()
                    if hi == a.arg(0).size() - 1: self.cut(a.arg(0), 0, (1 << lo) - 1)
    def cut(self, t, lo, hi):
        if hi < lo or z3.is_bv_value(t): return
        k = t.decl().kind()
        if k == z3.Z3_OP_ZERO_EXT: return self.cut(t.arg(0), lo, min(hi, (1 << t.arg(0).size()) - 1))
        if k == z3.Z3_OP_SIGN_EXT:
            h = 1 << (t.arg(0).size() - 1)
            if hi < h: return self.cut(t.arg(0), lo, hi)
            return
        if k == z3.Z3_OP_CONCAT and t.num_args() == 2 and z3.is_bv_value(t.arg(0)) and t.arg(0).as_long() == 0:
            return self.cut(t.arg(1), lo, min(hi, (1 << t.arg(1).size()) - 1))
        o = self.rng.get(t.get_id())
        if o: lo = max(lo, o[0]); hi = min(hi, o[1])
        if hi < lo: return
        self.keep.append(t); self.rng[t.get_id()] = (lo, hi)
    def r(self, t):
        """cheap range before translation"""
        w = t.size()
        if z3.is_bv_value(t): v = t.as_long(); return (v, v)
        k = t.decl().kind()
        if k == z3.Z3_OP_ZERO_EXT: return self.r(t.arg(0))
        if k == z3.Z3_OP_CONCAT and t.num_args() == 2 and z3.is_bv_value(t.arg(0)) and t.arg(0).as_long() == 0: return self.r(t.arg(1))
        if k == z3.Z3_OP_SIGN_EXT:
            a = self.r(t.arg(0))
            if a[1] < 1 << (t.arg(0).size() - 1): return a
        return self.rng.get(t.get_id(), (0, (1 << w) - 1))
    # ---- terms
    def fresh(self, w, lo=0, hi=None):
        self.n += 1
        v = z3.Int('lia!%d' % self.n)
        if hi is None: hi = (1 << w) - 1
        self.side.append(v >= lo); self.side.append(v <= hi)
        return (v, lo, hi)
    def clip(self, t, x):
        o = self.rng.get(t.get_id())
        if o: return (x[0], max(x[1], o[0]), min(x[2], o[1])) if max(x[1], o[0]) <= min(x[2], o[1]) else x
        return x
    def lin(self, t, w, acc, coef):
        """t as sum coef_i * atom_i with signed coefficients, modulo 2^w"""
        k = t.decl().kind()
        if z3.is_bv_value(t): acc[None] = acc.get(None, 0) + coef * sgn(t.as_long(), w); return
        if t.get_id() in self.rng and k != z3.Z3_OP_UNINTERPRETED and coef != 0 and acc is not None and getattr(self, 'top', None) is not t:
            pass
        if k == z3.Z3_OP_BADD:
            for c in t.children(): self.lin(c, w, acc, coef)
            return
        if k == z3.Z3_OP_BSUB:
            self.lin(t.arg(0), w, acc, coef)
            for c in t.children()[1:]: self.lin(c, w, acc, -coef)
            return
        if k == z3.Z3_OP_BNEG: return self.lin(t.arg(0), w, acc, -coef)
        if k == z3.Z3_OP_BMUL and t.num_args() == 2:
            a, b = t.arg(0), t.arg(1)
            if z3.is_bv_value(b): a, b = b, a
            if z3.is_bv_value(a): return self.lin(b, w, acc, coef * sgn(a.as_long(), w))
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(t.arg(1)) and t.arg(1).as_long() < w:
            return self.lin(t.arg(0), w, acc, coef << t.arg(1).as_long())
        if k == z3.Z3_OP_CONCAT and t.num_args() == 2 and z3.is_bv_value(t.arg(1)) and t.arg(1).as_long() == 0 and t.arg(0).decl().kind() == z3.Z3_OP_EXTRACT:
            ex = t.arg(0); n = t.arg(1).size(); hi, lo = ex.params()
            if lo == 0 and ex.arg(0).size() == w and hi == w - 1 - n: return self.lin(ex.arg(0), w, acc, coef << n)
        acc.setdefault(t.get_id(), [t, 0]); acc[t.get_id()][1] += coef
    def num(self, t):
        i = t.get_id()
        x = self.c.get(i)
        if x is None:
            x = self.clip(t, self.num_(t)); self.c[i] = x; self.keep.append(t)
        return x
    def num_(self, t):
        w = t.size(); k = t.decl().kind(); m = 1 << w
        if z3.is_bv_value(t): v = t.as_long(); return (z3.IntVal(v), v, v)
        if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG, z3.Z3_OP_BMUL, z3.Z3_OP_BSHL) or (k == z3.Z3_OP_CONCAT and z3.is_bv_value(t.arg(t.num_args() - 1))):
            acc = {}
            self.lin(t, w, acc, 1)
            if not (len(acc) == 1 and t.get_id() in acc):
                cst = acc.pop(None, 0)
                s = z3.IntVal(cst); lo = hi = cst; es = []
                for a, c in acc.values():
                    c = sgn(c % m, w)
                    if c == 0: continue
                    x, l, h = self.num(a)
                    es.append(x if c == 1 else c * x)
                    lo += c * l if c > 0 else c * h; hi += c * h if c > 0 else c * l
                s = z3.Sum([s] + es) if es else s
                if lo >= 0 and hi < m: return (s, lo, hi)
                kl, kh = lo // m, hi // m
                if kl == kh:
                    return (s - m * kl, lo - m * kl, hi - m * kl)
                o = self.rng.get(t.get_id(), (0, m - 1))
                r = self.fresh(w, 0, m - 1)
                if kh - kl == 1:
                    self.side.append(r[0] == s - m * kl - z3.If(s >= m * kh, m, 0))
                else:
                    q = self.fresh(w, kl, kh); self.side.append(r[0] == s - m * q[0])
                return r
        if k == z3.Z3_OP_ITE:
            c = self.boo(t.arg(0)); a = self.num(t.arg(1)); b = self.num(t.arg(2))
            v, lo, hi = self.fresh(w, min(a[1], b[1]), max(a[2], b[2]))
            self.side.append(v == z3.If(c, a[0], b[0]))
            return (v, lo, hi)
        if k == z3.Z3_OP_ZERO_EXT: return self.num(t.arg(0))
        if k == z3.Z3_OP_SIGN_EXT:
            x, lo, hi = self.num(t.arg(0)); w0 = t.arg(0).size(); h = 1 << (w0 - 1)
            if hi < h: return (x, lo, hi)
            if lo >= h: return (x + (m - (1 << w0)), lo + m - (1 << w0), hi + m - (1 << w0))
            return (z3.If(x >= h, x + (m - (1 << w0)), x), 0, m - 1)
        if k == z3.Z3_OP_CONCAT:
            v = None; lo = hi = 0
            for a in t.children():
                x, l, h = self.num(a); n = 1 << a.size()
                v = x if v is None else v * n + x; lo = lo * n + l; hi = hi * n + h
            return (v, lo, hi)
        if k == z3.Z3_OP_EXTRACT:
            hi_, lo_ = t.params(); x, lo, hi = self.num(t.arg(0))
            n = 1 << lo_
            if lo_: v = self.fresh(64, lo // n, hi // n); rem = self.fresh(64, 0, n - 1); self.side.append(x == v[0] * n + rem[0]); x, lo, hi = v
            if hi < m: return (x, lo, hi)
            q = self.fresh(64, lo // m, hi // m); r = self.fresh(w); self.side.append(x == q[0] * m + r[0])
            return r
        if k == z3.Z3_OP_BLSHR and z3.is_bv_value(t.arg(1)):
            n = 1 << t.arg(1).as_long(); x, lo, hi = self.num(t.arg(0))
            v = self.fresh(w, lo // n, hi // n); rem = self.fresh(w, 0, n - 1); self.side.append(x == v[0] * n + rem[0]); return v
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) and z3.is_bv_value(t.arg(1)) and t.arg(1).as_long() > 0:
            n = t.arg(1).as_long(); x, lo, hi = self.num(t.arg(0))
            v = self.fresh(w, lo // n, hi // n); rem = self.fresh(w, 0, n - 1); self.side.append(x == v[0] * n + rem[0]); return v
        if k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) and z3.is_bv_value(t.arg(1)) and t.arg(1).as_long() > 0:
            n = t.arg(1).as_long(); x, lo, hi = self.num(t.arg(0))
            v = self.fresh(w, lo // n, hi // n); rem = self.fresh(w, 0, n - 1); self.side.append(x == v[0] * n + rem[0]); return rem
        if k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I) and z3.is_bv_value(t.arg(1)) and 0 < t.arg(1).as_long() < m // 2:
            n = t.arg(1).as_long(); x, lo, hi = self.num(t.arg(0))
            if hi < m // 2:
                v = self.fresh(w, lo // n, hi // n); rem = self.fresh(w, 0, n - 1); self.side.append(x == v[0] * n + rem[0])
                return v if k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I) else rem
        if k == z3.Z3_OP_FPA_TO_IEEE_BV:
            v = self.fresh(w); self.side.append(v[0] == self.fun('fbits%d' % w, 1)(self.fpnum(t.arg(0)))); return v
        if k == z3.Z3_OP_UNINTERPRETED and t.num_args() and any(z3.is_fp(a) for a in t.children()):
            v = self.fresh(w); self.side.append(v[0] == self.fun(t.decl().name(), t.num_args())(*[self.fpnum(a) if z3.is_fp(a) else self.num(a)[0] for a in t.children()])); return v
        if k == z3.Z3_OP_UNINTERPRETED and t.num_args() and all(z3.is_bv(a) for a in t.children()) and not t.decl().name().startswith('vcmul'):
            d = t.decl(); f = self.uf.get(d.name())
            if f is None: f = self.uf[d.name()] = z3.Function('lia_' + d.name(), *([z3.IntSort()] * (d.arity() + 1)))
            v = self.fresh(w); self.side.append(v[0] == f(*[self.num(a)[0] for a in t.children()]))
            return v
        if k == z3.Z3_OP_UNINTERPRETED and t.num_args() and t.decl().name().startswith('vcmul'):
            for a in t.children(): self.num(a)
            al, ah = self.num(t.arg(0))[1:]; bl, bh = self.num(t.arg(1))[1:]
            if ah * bh < m:
                self.cut(t, al * bl, ah * bh)
                return self.fresh(w, al * bl, ah * bh)
        lo, hi = self.rng.get(t.get_id(), (0, m - 1))
        return self.fresh(w, lo, hi)
    def fun(self, name, n):
        f = self.uf.get(name)
        if f is None: f = self.uf[name] = z3.Function('lia_' + name, *([z3.IntSort()] * (n + 1)))
        return f
    def fpnum(self, t):
        """an integer standing for a floating-point term (congruence only)"""
        i = t.get_id(); x = self.c.get(i)
        if x is not None: return x
        k = t.decl().kind(); self.keep.append(t)
        if k == z3.Z3_OP_UNINTERPRETED and t.num_args() and all(z3.is_bv(a) or z3.is_fp(a) for a in t.children()):
            x = self.fun(t.decl().name(), t.num_args())(*[self.fpnum(a) if z3.is_fp(a) else self.num(a)[0] for a in t.children()])
        elif k == z3.Z3_OP_FPA_TO_FP and t.num_args() == 1 and z3.is_bv(t.arg(0)):
            x = self.fun('tofp%s' % t.sort(), 1)(self.num(t.arg(0))[0])
        elif k == z3.Z3_OP_ITE: x = z3.If(self.boo(t.arg(0)), self.fpnum(t.arg(1)), self.fpnum(t.arg(2)))
        elif k in (z3.Z3_OP_FPA_NUM, z3.Z3_OP_FPA_PLUS_ZERO, z3.Z3_OP_FPA_PLUS_INF, z3.Z3_OP_FPA_FP) and t.sexpr() in self.fconst: x = self.fconst[t.sexpr()]
        else:
            self.n += 1; x = z3.Int('lia!%d' % self.n)
            if z3.is_fp_value(t): self.fconst[t.sexpr()] = x
        self.c[i] = x
        return x
    def signed(self, t):
        x, lo, hi = self.num(t); w = t.size(); h = 1 << (w - 1)
        if hi < h: return x
        if lo >= h: return x - (1 << w)
        return z3.If(x >= h, x - (1 << w), x)
    def boo(self, f):
        i = f.get_id()
        r = self.b.get(i)
        if r is None: r = self.boo_(f); self.b[i] = r; self.keep.append(f)
        return r
    def boo_(self, f):
        k = f.decl().kind()
        if k in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE): return f
        if k == z3.Z3_OP_AND: return z3.And([self.boo(c) for c in f.children()])
        if k == z3.Z3_OP_OR: return z3.Or([self.boo(c) for c in f.children()])
        if k == z3.Z3_OP_NOT: return z3.Not(self.boo(f.arg(0)))
        if k == z3.Z3_OP_IMPLIES: return z3.Implies(self.boo(f.arg(0)), self.boo(f.arg(1)))
        if k == z3.Z3_OP_XOR: return z3.Xor(self.boo(f.arg(0)), self.boo(f.arg(1)))
        if k == z3.Z3_OP_ITE: return z3.If(self.boo(f.arg(0)), self.boo(f.arg(1)), self.boo(f.arg(2)))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF):
            a, b = f.arg(0), f.arg(1)
            if z3.is_bool(a): return self.boo(a) == self.boo(b)
            if z3.is_bv(a):
                x, y = self.num(a), self.num(b)
                if x[2] < y[1] or y[2] < x[1]: return z3.BoolVal(False)
                return x[0] == y[0]
            if z3.is_fp(a): return self.fpnum(a) == self.fpnum(b)
        if k == z3.Z3_OP_UNINTERPRETED and f.num_args() and all(z3.is_bv(a) or z3.is_fp(a) for a in f.children()):
            g = self.uf.get('?' + f.decl().name())
            if g is None: g = self.uf['?' + f.decl().name()] = z3.Function('liap_' + f.decl().name(), *([z3.IntSort()] * f.num_args() + [z3.BoolSort()]))
            return g(*[self.fpnum(a) if z3.is_fp(a) else self.num(a)[0] for a in f.children()])
        if k == z3.Z3_OP_DISTINCT and f.num_args() == 2 and z3.is_bv(f.arg(0)): return self.num(f.arg(0))[0] != self.num(f.arg(1))[0]
        if k == z3.Z3_OP_ULEQ: return self.num(f.arg(0))[0] <= self.num(f.arg(1))[0]
        if k == z3.Z3_OP_ULT: return self.num(f.arg(0))[0] < self.num(f.arg(1))[0]
        if k == z3.Z3_OP_UGEQ: return self.num(f.arg(0))[0] >= self.num(f.arg(1))[0]
        if k == z3.Z3_OP_UGT: return self.num(f.arg(0))[0] > self.num(f.arg(1))[0]
        if k == z3.Z3_OP_SLEQ: return self.signed(f.arg(0)) <= self.signed(f.arg(1))
        if k == z3.Z3_OP_SLT: return self.signed(f.arg(0)) < self.signed(f.arg(1))
        if k == z3.Z3_OP_SGEQ: return self.signed(f.arg(0)) >= self.signed(f.arg(1))
        if k == z3.Z3_OP_SGT: return self.signed(f.arg(0)) > self.signed(f.arg(1))
        if k == z3.Z3_OP_UNINTERPRETED and f.num_args() == 0: return f
        self.n += 1
        return z3.Bool('liab!%d' % self.n)

def lia_unsat(forms, ms):
    """True if the integer over-approximation is unsatisfiable"""
    fs = []
    for f in forms: 
        g = z3.simplify(f)
        fs.append(g)
    T = Tr(fs)
    out = [T.boo(f) for f in fs]
    s = z3.Solver(); s.set('timeout', ms)
    for f in out: s.add(f)
    for f in T.side: s.add(f)
    return s.check() == z3.unsat
