#!/usr/bin/env python3-vt
"""Runs one harness entry: generates obligations from the IR and discharges them.  Usage: prove.py mod.ll ENTRY out.json [opts-json]"""
import sys, os, json, time, re, subprocess, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
import irparse, symex, models, lia
from symex import *

USED_MUL = [True]
def narrowed(a):
    """(k, c) if a is k*c that went through a narrower type (zero-extension of the low bits of k*c)"""
    w = a.size(); sh = 0
    while z3.is_app(a):
        k = a.decl().kind()
        if k == z3.Z3_OP_ZERO_EXT: a = a.arg(0)
        elif k == z3.Z3_OP_CONCAT and a.num_args() == 2 and z3.is_bv_value(a.arg(0)) and a.arg(0).as_long() == 0: a = a.arg(1)
        elif k == z3.Z3_OP_EXTRACT: sh += a.params()[1]; a = a.arg(0)
        else: break
    if a.size() > w: return None
    kc = narrowed_core(a)
    if not kc: return None
    k = kc[0].as_long()
    if k == 0 or k % (1 << sh): return None
    return z3.BitVecVal(k >> sh, w), z3.simplify(z3.ZeroExt(w - a.size(), kc[1])), k
def narrowed_core(a):
    w = a.size()
    if not z3.is_app(a): return None
    if a.decl().kind() == z3.Z3_OP_BMUL and a.num_args() == 2 and z3.is_bv_value(a.arg(0)): return a.arg(0), a.arg(1)
    if a.decl().kind() == z3.Z3_OP_CONCAT and a.num_args() == 2 and z3.is_bv_value(a.arg(1)) and a.arg(1).as_long() == 0 and a.arg(0).decl().kind() == z3.Z3_OP_EXTRACT:
        ex = a.arg(0); n = a.arg(1).size(); hi, lo = ex.params()
        if lo == 0 and ex.arg(0).size() == w and hi == w - 1 - n: return z3.BitVecVal(1 << n, w), ex.arg(0)
    return None
def mul_instances(forms):
    """guarded facts about the abstracted product for the terms occurring in a query"""
    comm = commute(forms)
    if not USED_MUL[0]: return comm
    return mul_inst(forms) + comm
def commute(forms):
    """floating-point sums and products (kept uninterpreted) commute"""
    out = []; seen = set(); work = list(forms)
    while work:
        x = work.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 2 and x.decl().name().startswith(('uf_fadd', 'uf_fmul')) and not x.arg(0).eq(x.arg(1)):
            out.append(x == x.decl()(x.arg(1), x.arg(0)))
        work.extend(x.children())
    return out
def mul_inst(forms):
    apps = {}; coefs = {}
    seen = set(); work = list(forms)
    while work:
        x = work.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith('vcmul'):
            apps[x.get_id()] = x
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_BMUL and x.num_args() == 2 and z3.is_bv_value(x.arg(0)) and 1 < x.arg(0).as_long() <= 16:
            y = x.arg(1)
            if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED and y.decl().name() == 'vcmul64': coefs.setdefault(y.get_id(), set()).add(x.arg(0).as_long())
        work.extend(x.children())
    L = list(apps.values())
    out = []
    for y in L:                # a scaled product k*(c*b) against a product a*b
        for k in coefs.get(y.get_id(), ()):
            for c, b in ((y.arg(0), y.arg(1)), (y.arg(1), y.arg(0))):
                for x in L:
                    if x is y or x.size() != 64: continue
                    for a, b2 in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
                        if not b2.eq(b) or a.eq(c): continue
                        K = z3.BitVecVal(k, 64); M = z3.BitVecVal(0xffffffff, 64)
                        ok = z3.And(z3.ULE(a, M), z3.ULE(b, M), z3.ULE(c, z3.BitVecVal(0xffffffff // k, 64)))
                        out.append(z3.Implies(a == K * c, x == K * y))
                        out.append(z3.Implies(z3.And(ok, z3.ULT(a, K * c)), z3.ULE(x + b, K * y)))
                        out.append(z3.Implies(z3.And(ok, z3.UGT(a, K * c)), z3.ULE(K * y + b, x)))
    for x in list(L):          # ring identity: a == k*c  =>  a*b == k*(c*b)
        for a, b in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
            kc = narrowed(a)
            if kc is None or z3.is_bv_value(kc[1]): continue
            ys = [y for y in L if y.size() == x.size() and ((y.arg(0).eq(kc[1]) and y.arg(1).eq(b)) or (y.arg(1).eq(kc[1]) and y.arg(0).eq(b)))]
            if not ys:
                p, q = (kc[1], b) if kc[1].sexpr() <= b.sexpr() else (b, kc[1])
                ys = [x.decl()(p, q)]; L.append(ys[0])
            lim = 0xffffffff // kc[2]
            for y in ys:
                out.append(z3.Implies(a == kc[0] * kc[1], x == kc[0] * y))
                if x.size() == 64 and lim > 0: out.append(z3.Implies(z3.And(z3.ULE(kc[1], z3.BitVecVal(lim, 64)), z3.ULE(b, z3.BitVecVal(0xffffffff, 64))), z3.ULE(y, z3.BitVecVal(lim * 0xffffffff, 64))))
    for x in L:
        w = x.size(); a, b = x.arg(0), x.arg(1)
        half = z3.BitVecVal(1 << (w // 2), w)
        zero = z3.BitVecVal(0, w); one = z3.BitVecVal(1, w)
        out.append(z3.Implies(z3.Or(a == zero, b == zero), x == zero))
        out.append(z3.Implies(a == one, x == b)); out.append(z3.Implies(b == one, x == a))
        ok = z3.And(z3.ULT(a, half), z3.ULT(b, half))
        out.append(z3.Implies(z3.And(ok, a != zero), z3.UGE(x, b)))
        out.append(z3.Implies(z3.And(ok, b != zero), z3.UGE(x, a)))
        if w == 64:
            for bits in (31, 32):
                h = z3.BitVecVal(1 << bits, 64)
                out.append(z3.Implies(z3.And(z3.ULT(a, h), z3.ULT(b, h)), z3.ULE(x, z3.BitVecVal(((1 << bits) - 1) ** 2, 64))))
    for i in range(len(L)):
        for j in range(i + 1, len(L)):
            x, y = L[i], L[j]
            if x.size() != y.size(): continue
            w = x.size(); half = z3.BitVecVal(1 << (w // 2), w)
            for (a, b) in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
                for (c, d) in ((y.arg(0), y.arg(1)), (y.arg(1), y.arg(0))):
                    if b.eq(d):
                        ok = z3.And(z3.ULT(a, half), z3.ULT(b, half), z3.ULT(c, half))
                        out.append(z3.Implies(a == c, x == y))
                        out.append(z3.Implies(z3.And(ok, z3.ULT(a, c)), z3.ULE(x + b, y)))
                        out.append(z3.Implies(z3.And(ok, z3.ULT(c, a)), z3.ULE(y + b, x)))
                        out.append(z3.Implies(z3.And(ok, c == a + 1), y == x + b))
                        out.append(z3.Implies(z3.And(ok, a == c + 1), x == y + b))
    return out

def abstractions(forms):
    """names of the abstracting function symbols (products, floating point) occurring in the query"""
    out = {}; seen = set(); work = list(forms)
    while work:
        x = work.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args():
            n = x.decl().name()
            if n.startswith('vcmul') or n.startswith('uf_'): out[n] = x.decl()
        work.extend(x.children())
    return out
SOLVE_EQS = None
def simplify_goal(forms):
    g = z3.Goal(); 
    for f in forms: g.add(f)
    r = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'simplify')(g)
    return norm_mul([list(x) for x in r][0])
def norm_mul(fs):
    """one argument order for the abstracted product"""
    for _ in range(2):
        seen = set(); work = list(fs); sub = []
        while work:
            x = work.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith('vcmul') and x.arg(0).sexpr() > x.arg(1).sexpr(): sub.append((x, x.decl()(x.arg(1), x.arg(0))))
            work.extend(x.children())
        if not sub: break
        fs = [z3.substitute(f, *sub) for f in fs]
    return fs
def vars_of(forms):
    out = set(); seen = set(); work = list(forms)
    while work:
        x = work.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
        work.extend(x.children())
    return out
def solve_cases(forms, cases, ms):
    """case analysis on the hinted conditions; only an unsat answer in every case counts"""
    t = time.time()
    vs = vars_of(forms)
    for c in cases:
        if not vars_of([c]) <= vs: continue
        ok = True
        for k in (c, z3.Not(c)):
            try:
                fs = simplify_goal(forms + [k])
                fs = fs + mul_instances(fs)
            except z3.Z3Exception: ok = False; break
            s = z3.Solver(); s.set('timeout', 2000)
            for f in fs: s.add(f)
            if s.check() == z3.unsat: continue
            if not lia.lia_unsat(fs, min(ms, 6000)): ok = False; break
        if ok: return 'unsat', None, 'z3-lia(cases)', time.time() - t
    return None
def split(c, pos=True, depth=0):
    """conditions whose conjunction is equivalent to c (or to not c)"""
    k = c.decl().kind() if z3.is_app(c) else None
    if depth < 12:
        if k == z3.Z3_OP_NOT: return split(c.arg(0), not pos, depth + 1)
        if (k == z3.Z3_OP_AND and pos) or (k == z3.Z3_OP_OR and not pos):
            return [x for a in c.children() for x in split(a, pos, depth + 1)]
        if (k == z3.Z3_OP_OR and pos) or (k == z3.Z3_OP_AND and not pos):
            ps = [split(a, pos, depth + 1) for a in c.children()]
            n = 1
            for q in ps: n *= len(q)
            if n <= 16:
                out = [[]]
                for q in ps: out = [o + [x] for o in out for x in q]
                return [z3.Or(o) for o in out]
        if k == z3.Z3_OP_IMPLIES and pos: return [z3.Implies(c.arg(0), x) for x in split(c.arg(1), True, depth + 1)]
        if k == z3.Z3_OP_ITE:
            return [z3.Implies(c.arg(0), x) for x in split(c.arg(1), pos, depth + 1)] + [z3.Implies(z3.Not(c.arg(0)), x) for x in split(c.arg(2), pos, depth + 1)]
    return [c if pos else z3.Not(c)]
def solve_exact(forms, ms, cases=()):
    """a 'sat' over abstracted products / floating point is re-examined with the exact operations"""
    r = solve(forms, ms, cases=cases)
    if r[0] != 'sat': return r + (forms,)
    ab = abstractions(forms)
    if not ab: return r + (forms,)
    t = time.time()
    if any(n.startswith('uf_') for n in ab): return 'unknown', None, r[2] + '(abstract)', r[3], forms
    sub = [(d, z3.Var(0, d.domain(0)) * z3.Var(1, d.domain(1))) for d in ab.values()]
    f2 = [z3.substitute_funs(f, *sub) for f in forms]
    r2 = solve(f2, ms)
    return r2[0], r2[1], r2[2] + '-exact', r[3] + r2[3], f2

def solve(forms, ms, want_model=True, backup=True, seed=0, cases=()):
    """returns ('unsat'|'sat'|'unknown', model, backend, secs).  z3 first, then a race of cvc5 (integer encoding), cvc5 and z3-new."""
    t = time.time()
    s = z3.Solver()
    for f in forms: s.add(f)
    r = z3.unknown; T = None
    for zt, lt in ((300, 1500), (1500, 5000)):
        s.set('timeout', min(ms, zt))
        r = s.check()
        if r == z3.unsat: return 'unsat', None, 'z3', time.time() - t
        if r == z3.sat: return 'sat', s.model(), 'z3', time.time() - t
        if not backup: continue
        try:
            if lia.lia_unsat(forms, min(ms, lt)): return 'unsat', None, 'z3-lia', time.time() - t
        except (z3.Z3Exception, RecursionError): pass
    if not backup: return 'unknown', None, 'z3', time.time() - t
    if cases:
        x = solve_cases(forms, cases, ms)
        if x: return x
    s3 = z3.Solver()
    for f in forms: s3.add(z3.simplify(f))
    smt = '(set-logic ALL)\n' + s3.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(smt); fn = f.name
    sec = max(2, ms // 1000)
    cmds = [(['cvc5', '--tlimit=%d' % ms, '--solve-bv-as-int=sum', fn], 'cvc5-int'), (['cvc5', '--tlimit=%d' % ms, fn], 'cvc5'),
            (['z3-new', '-T:%d' % sec, fn], 'z3-new'), (['z3', '-T:%d' % sec, fn], 'z3-cli')]
    ps = []
    try:
        for c, nm in cmds:
            of = tempfile.TemporaryFile('w+')
            try: ps.append((subprocess.Popen(c, stdout=of, stderr=subprocess.DEVNULL, start_new_session=True), of, nm))
            except OSError: of.close()
        ans = None
        end = time.time() + sec + 5
        live = list(ps)
        while live and ans is None and time.time() < end:
            for x in list(live):
                if x[0].poll() is not None:
                    live.remove(x)
                    x[1].seek(0); o = x[1].read().strip().split('\n')[0]
                    if o in ('sat', 'unsat'): ans = (o, x[2]); break
            else: time.sleep(0.02)
    finally:
        for p, of, nm in ps:
            if p.poll() is None:
                try: os.killpg(p.pid, 9)
                except OSError: pass
                p.wait()
            of.close()
        os.unlink(fn)
    if ans is None: return 'unknown', None, 'all', time.time() - t
    if ans[0] == 'unsat': return 'unsat', None, ans[1], time.time() - t
    m = None
    if want_model:
        s.set('timeout', ms)
        if s.check() == z3.sat: m = s.model()
    return 'sat', m, ans[1], time.time() - t

def model_inputs(E, m, forms_small=None):
    vals = {}
    for n, v, w in E.inputs:
        x = m.eval(v, model_completion=True)
        if w == 1: vals[n] = 1 if z3.is_true(x) else 0
        elif w == 'f':
            try: vals[n] = float(eval(str(z3.simplify(z3.fpToReal(x))).replace('?', ''))) if not z3.is_true(z3.simplify(z3.fpIsNaN(x))) else 'nan'
            except Exception: vals[n] = str(x)
        else: vals[n] = x.as_long()
    bufs = {}
    for n, oid, size, uf in E.bufs:
        sz = size if isinstance(size, int) else m.eval(bv(size, 64), model_completion=True).as_long()
        e = {'size': sz, 'bytes': {}}
        if sz <= 1 << 16:
            for i in range(sz):
                b = m.eval(uf(z3.BitVecVal(i, 64)), model_completion=True)
                b = b.as_long() if z3.is_bv_value(b) else 0
                if b: e['bytes'][str(i)] = b
        bufs[n] = e
    return {'inputs': vals, 'bufs': bufs}

def run(llpath, entry, opts):
    t0 = time.time()
    mod = irparse.Module(open(llpath).read())
    autocut = set()
    res = {'entry': entry, 'status': 'ok', 'obligations': [], 'reason': None}
    E = None
    budget = opts.get('budget', 150)
    models_opaque = opts.get('opaque')
    try:
        for attempt in range(8):
            o = dict(opts); o['autocut'] = autocut; o['deadline'] = t0 + budget
            E = symex.Engine(mod, o)
            E.asserts_seen = {}; E.contracts_used = set()
            E.opaque = [re.compile(x) for x in models_opaque] if models_opaque else None
            st = St([], {}, {}, (), None)
            try:
                nrm, ex = E.call_fn(entry, [], st)
                break
            except RestartCut as e:
                autocut.add(e.key)
        else: raise Undecided('loop cutting did not converge')
        if ex:
            for e in ex:
                E.obligs.append(Oblig(list(e.pc), z3.BoolVal(False), 'no exception escapes the harness (%s)' % e.exc, 'assert', entry))
    except (Undecided, irparse.Unsupported) as e:
        res['status'] = 'undecided'; res['reason'] = str(e)
        if E is not None: res['stack'] = E.stack[-6:]
    except (z3.Z3Exception, RecursionError, KeyError, AttributeError, TypeError, ValueError, IndexError) as e:
        import traceback
        res['status'] = 'undecided'; res['reason'] = 'engine error: %r' % e; res['trace'] = traceback.format_exc()[-1500:]
    if E is None: return res
    USED_MUL[0] = bool(E.mulf)
    res['t_exec'] = round(time.time() - t0, 2)
    res['tainted'] = E.tainted
    res['functions'] = sorted(E.fns_executed)
    res['contracts'] = sorted(['%s -> %s' % c for c in E.contracts_used])
    res['assumed_externals'] = sorted(E.externs_assumed)
    res['loops_cut'] = E.loops_cut
    res['trivial'] = E.ntrivial
    res['asserts'] = E.asserts_seen
    if res['status'] == 'ok':
        ms = opts.get('ob_ms', 15000)
        stime = 0.0
        backends = {}
        def one(ob):
            if time.time() - t0 > budget:
                return {'name': ob.name, 'kind': ob.kind, 'fn': ob.fn, 'result': 'unknown', 't': 0, 'why': 'budget', 'backend': 'none'}
            base = E.facts + ob.pc
            parts = [p for p in split(z3.simplify(ob.cond)) if not z3.is_true(z3.simplify(p))] if z3.is_bool(ob.cond) else [ob.cond]
            if len(parts) > 24: parts = [ob.cond]
            r, m, be, dt = 'unsat', None, 'z3', 0.0
            forms = None
            for p in parts:
                fs = base + [z3.Not(p)]
                fs = fs + mul_instances(fs)
                r_, m_, be_, dt_, fs = solve_exact(fs, ms, E.cases)
                dt += dt_
                if be_ != 'z3': be = be_
                if r_ == 'sat': r, m, forms = r_, m_, fs; break
                if r_ != 'unsat':
                    r = 'unknown'
                    if os.environ.get('VC_DUMP'):
                        with open('%s.%d.txt' % (os.environ['VC_DUMP'], int(time.time() * 1000) % 1000000), 'w') as df: df.write('GOAL %s backend %s t %s\n%s\n' % (ob.name, be_, dt_, p.sexpr())); df.write('\n---\n'.join(f.sexpr() for f in ob.pc)); df.write('\nCASES\n' + '\n'.join(c.sexpr() for c in E.cases))
            rec = {'name': ob.name, 'kind': ob.kind, 'fn': ob.fn, 'result': r, 't': round(dt, 3), 'backend': be}
            if r == 'sat' and m is not None:
                # prefer a small counterexample
                for lim in (8, 64, 4096):
                    small = []
                    for n, v, w in E.inputs:
                        if w in (16, 32, 64): small.append(z3.Or(z3.ULE(v, z3.BitVecVal(lim, w)), z3.UGE(v, z3.BitVecVal((1 << w) - lim, w))))
                    for n, oid, size, uf in E.bufs:
                        if not isinstance(size, int): small.append(z3.ULE(bv(size, 64), z3.BitVecVal(lim * 64, 64)))
                    r2, m2, _, _ = solve(forms + small, 4000, backup=False)
                    if r2 == 'sat': m = m2; break
                rec['model'] = model_inputs(E, m)
            return rec
        jobs = min(opts.get('jobs', 4), max(1, len(E.obligs) // 3))
        recs = [None] * len(E.obligs)
        if jobs <= 1:
            for i, ob in enumerate(E.obligs): recs[i] = one(ob)
        else:
            tmpd = tempfile.mkdtemp()
            pids = []
            sys.stdout.flush()
            for j in range(jobs):
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        out = [(i, one(E.obligs[i])) for i in range(j, len(E.obligs), jobs)]
                        json.dump(out, open(os.path.join(tmpd, str(j)), 'w')); code = 0
                    finally: os._exit(code)
                pids.append(pid)
            for p in pids: os.waitpid(p, 0)
            for j in range(jobs):
                try:
                    for i, r in json.load(open(os.path.join(tmpd, str(j)))): recs[i] = r
                except (OSError, ValueError): pass
            import shutil; shutil.rmtree(tmpd, ignore_errors=True)
            for i, r in enumerate(recs):
                if r is None: recs[i] = {'name': E.obligs[i].name, 'kind': E.obligs[i].kind, 'fn': E.obligs[i].fn, 'result': 'unknown', 't': 0, 'why': 'worker died', 'backend': 'none'}
        res['obligations'] = recs
        for r in recs:
            stime += r['t']; backends[r['backend']] = backends.get(r['backend'], 0) + 1
        res['solver_s'] = round(stime, 2); res['backends'] = backends
        # vacuity
        res['covers'] = {}
        for n, pc in E.covers:
            if res['covers'].get(n): continue
            s = z3.Solver(); s.set('timeout', 8000)
            for f in E.facts + pc: s.add(f)
            for f in mul_instances(E.facts + pc): s.add(f)
            r = s.check()
            res['covers'][n] = (r == z3.sat) or (None if r == z3.unknown else False)
    res['wall_s'] = round(time.time() - t0, 2)
    return res

if __name__ == '__main__':
    opts = json.loads(sys.argv[4]) if len(sys.argv) > 4 else {}
    r = run(sys.argv[1], sys.argv[2], opts)
    json.dump(r, open(sys.argv[3], 'w'), indent=1)
    if os.environ.get('VC_VERBOSE'):
        print(entry_summary(r) if False else json.dumps({k: v for k, v in r.items() if k not in ('functions',)}, indent=1)[:6000])
