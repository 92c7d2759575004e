#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's current working tree.
exit 0: held on everything explored.  exit 1 + 'VIOLATION property=.. replay=..' otherwise."""
import sys, os, json, time, subprocess, tempfile, shutil, re, traceback
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + '/engine')
import build
from plan import PLAN
T0 = time.time()
VT = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python'
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=1:max_allocation_size_mb=3000', UBSAN_OPTIONS='print_stacktrace=1', TSAN_OPTIONS='halt_on_error=1:exitcode=1')

def log(*a): print('[%6.1fs]' % (time.time() - T0), *a, flush=True)

class Entry:
    def __init__(self, d):
        self.h = d['h']; self.e = d['e']; self.d = d
        self.res = None; self.fuzz = None; self.confirmed = None; self.note = []
        self.kind = d.get('kind', 'proof')   # 'proof' or 'bounded'

def prove(en, ll, opts, out, limit):
    p = subprocess.Popen([VT, HERE + '/engine/prove.py', ll, en.e, out, json.dumps(opts)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try: _, err = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait()
        return {'status': 'undecided', 'reason': 'time limit', 'obligations': []}
    try: return json.load(open(out))
    except (OSError, ValueError): return {'status': 'undecided', 'reason': 'prover died: ' + (err or '')[-800:], 'obligations': []}

def native(exe, args, limit):
    try:
        p = subprocess.run([exe] + args, env=ENV, capture_output=True, text=True, errors='replace', timeout=limit, cwd=os.path.dirname(exe))
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return -99, '', 'timeout'

def write_model(path, model):
    with open(path, 'w') as f:
        for n, v in model['inputs'].items(): f.write('v %s %s\n' % (n, v))
        for n, b in model['bufs'].items(): f.write('b %s %d %s\n' % (n, b['size'], ' '.join('%s:%d' % kv for kv in b['bytes'].items())))

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    plan = PLAN[prop]
    entries = [Entry(d) for d in plan['entries'] if tier == 'thorough' or not d.get('thorough_only')]
    LIMIT = 620 if tier == 'quick' else 6000      # what is not decided by then is reported as undecided
    evd = HERE + '/evidence'; rpd = evd + '/replay'
    os.makedirs(rpd, exist_ok=True)
    for f in os.listdir(rpd):
        if f.startswith(prop + '-'): os.unlink(rpd + '/' + f)
    work = tempfile.mkdtemp(prefix='vc_%s_' % prop)
    violations = []
    try:
        B = build.Builder(work)
        hs = list(dict.fromkeys(e.h for e in entries))
        ph = [h for h in hs if any(e.h == h and e.kind == 'proof' for e in entries)]
        for h in ph: B.ir_parts(h)
        for h in hs: B.native_parts(h)
        pool = ThreadPoolExecutor(4); npool = ThreadPoolExecutor(3)
        irf = {h: pool.submit(B.ir, h) for h in ph}
        ntf = {h: npool.submit(B.native, h) for h in hs}
        def run_proof(en):
            try: ll = irf[en.h].result()
            except build.BuildError as e:
                en.res = {'status': 'undecided', 'reason': 'harness does not build against this tree: ' + str(e)[-600:], 'obligations': []}; return
            o = dict(ob_ms=40000, budget=300, jobs=2); o.update(en.d.get('opts', {}))
            if tier == 'thorough': o['ob_ms'] *= 4; o['budget'] *= 4
            out = '%s/%s.%s.json' % (work, en.h, en.e)
            rem = LIMIT - (time.time() - T0)
            if rem < 15:
                en.res = {'status': 'undecided', 'reason': 'time limit of the check', 'obligations': []}; return
            o['budget'] = min(o['budget'], rem)
            en.res = prove(en, ll, o, out, min(o['budget'] + 120, rem + 30))
            unk = [r for r in en.res['obligations'] if r['result'] == 'unknown']
            if unk and not any(r['result'] == 'sat' for r in en.res['obligations']) and time.time() - T0 < LIMIT * 0.4 and len(unk) <= 6:
                o2 = dict(o); o2['ob_ms'] = o['ob_ms'] * 2; o2['budget'] = min(o['budget'] * 1.5, LIMIT - (time.time() - T0) - 60)
                r2 = prove(en, ll, o2, out, o2['budget'] + 60)
                if len([r for r in r2['obligations'] if r['result'] == 'unknown']) < len(unk): en.res = r2
            log('proof', en.e, summary(en.res))
        def run_fuzz(en, secs, sd, tag=''):
            try: exe = ntf[en.h].result()
            except build.BuildError as e:
                return {'status': 'build', 'reason': str(e)[-800:]}
            out = '%s/%s.%s.fail%s' % (work, en.h, en.e, tag)
            rc, so, se = native(exe, [en.e, 'fuzz', str(sd), '1000000000', str(secs), out], secs * 4 + 120)
            if rc == 0 and 'VC_DONE' in so:
                m = re.search(r'VC_DONE runs=(\d+) discarded=(\d+)(.*)', so)
                return {'status': 'ok', 'runs': int(m.group(1)), 'discarded': int(m.group(2)), 'covers': dict((a, int(b)) for a, b in re.findall(r' cover:(.+?)=(\d+)', m.group(3)))}
            if 'VC_FAIL' in so and os.path.exists(out):
                # confirm that it fails again
                rc2, so2, se2 = native(exe, [en.e, 'replay', out], 300)
                w = re.search(r'VC_FAIL (.*)', so)
                if rc2 == 1 and 'VC_FAIL' in so2: return {'status': 'fail', 'what': w.group(1), 'file': out, 'stderr': se[-4000:]}
                return {'status': 'unconfirmed', 'what': w.group(1), 'stderr': se[-2000:], 'rc2': rc2}
            return {'status': 'error', 'rc': rc, 'stderr': se[-2000:], 'stdout': so[-500:]}
        def fz(en):
            secs = en.d.get('fuzz', 2 if en.kind == 'proof' else 8) * (1 if tier == 'quick' else 12)
            if secs <= 0: return
            en.fuzz = run_fuzz(en, secs, seed)
            log('falsifier', en.e, {k: v for k, v in en.fuzz.items() if k not in ('stderr',)})
        fs = [pool.submit(run_proof, e) for e in sorted([e for e in entries if e.kind == 'proof'], key=lambda e: -e.d.get('weight', 1))]
        f2 = [npool.submit(fz, e) for e in sorted(entries, key=lambda e: -e.d.get('fuzz', 2))]
        for f in fs + f2: f.result()

        def report(en, path_src, what, extra, confirmed):
            dst = '%s/%s-%s-%d.txt' % (rpd, prop, en.e, len(violations))
            with open(dst, 'w') as f:
                f.write('# property %s, harness %s.cpp entry %s\n# failed: %s\n' % (prop, en.h, en.e, what))
                if confirmed: f.write('# replay: build harness/%s.cpp natively (engine/build.py) and run: %s.exe %s replay THISFILE\n' % (en.h, en.h, en.e))
                for l in (extra or '').split('\n'): f.write('# ' + l + '\n')
                if path_src: f.write(open(path_src).read())
            violations.append((dst, confirmed, en, what))
        for en in entries:
            # 1. concrete failing input from the falsifier
            if en.fuzz and en.fuzz['status'] == 'fail':
                report(en, en.fuzz['file'], en.fuzz['what'], en.fuzz['stderr'], True); continue
            if en.res is None: continue
            # 2. failed obligations
            bad = [r for r in en.res['obligations'] if r['result'] == 'sat']
            if not bad: continue
            log('failed obligations in', en.e, [(r['kind'], r['fn'][:60], r['name']) for r in bad[:6]])
            done = False
            try: exe = ntf[en.h].result()
            except build.BuildError: exe = None
            if exe:
                for i, r in enumerate(sorted(bad, key=lambda r: r['kind'] == 'inv')[:12]):
                    if not r.get('model'): continue
                    mp = '%s/%s.%d.model' % (work, en.e, i); write_model(mp, r['model'])
                    rc, so, se = native(exe, [en.e, 'replay', mp], 120)
                    if rc == 1 and 'VC_FAIL' in so:
                        w = re.search(r'VC_FAIL (.*)', so)
                        report(en, mp, w.group(1), 'obligation: %s (%s) in %s, backend %s\n' % (r['name'], r['kind'], r['fn'], r['backend']) + se[-3000:], True); done = True; break
                if not done:
                    # search harder for a concrete input: bounded symbolic execution (unrolled loops), then random search
                    try:
                        out = '%s/%s.%s.bmc.json' % (work, en.h, en.e)
                        o = dict(en.d.get('opts', {})); o.update(dict(ob_ms=15000, budget=120, jobs=4, bmc=en.d.get('bmc', 3)))
                        r3 = prove(en, irf[en.h].result(), o, out, 240)
                        for i, r in enumerate([r for r in r3['obligations'] if r['result'] == 'sat' and r.get('model')][:10]):
                            mp = '%s/%s.b%d.model' % (work, en.e, i); write_model(mp, r['model'])
                            rc, so, se = native(exe, [en.e, 'replay', mp], 120)
                            if rc == 1 and 'VC_FAIL' in so:
                                w = re.search(r'VC_FAIL (.*)', so)
                                report(en, mp, w.group(1), 'obligation: %s (%s) in %s (unrolled search)\n' % (r['name'], r['kind'], r['fn']) + se[-3000:], True); done = True; break
                    except build.BuildError: pass
                if not done:
                    r = run_fuzz(en, min(45, max(5, LIMIT - (time.time() - T0) - 60)), seed + 1000, 'x')
                    if r['status'] == 'fail': report(en, r['file'], r['what'], r['stderr'], True); done = True
            if not done:
                if en.res.get('tainted'):
                    en.note.append('failed obligations after inferred loop invariants only: counted as undecided'); continue
                if en.d.get('advisory'): en.note.append('advisory entry, not reproduced'); continue
                report(en, None, bad[0]['name'], 'no failing input found; failed obligations:\n' + '\n'.join('%s [%s] in %s: %s by %s\n   solver model: %s' % (r['name'], r['kind'], r['fn'], r['result'], r['backend'], json.dumps(r.get('model'))[:1500]) for r in bad[:10]), False)
        # evidence
        cov = evidence(prop, plan, entries, tier)
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof' if any(e.kind == 'proof' for e in entries) else 'other', 'coverage': cov, 'wall_s': round(time.time() - T0, 1),
              'assumptions': plan.get('assumptions', []) + COMMON_ASSUMPTIONS, 'violations': len(violations)}
        json.dump(ev, open('%s/%s.json' % (evd, prop), 'w'), indent=1)
        for k in known_findings(prop): print('KNOWN-FINDING: property=%s %s' % (prop, k))
        log('obligations %d discharged %d; bounded runs %d; undecided %s' % (cov['obligations'], cov['discharged'], cov['bounded_runs'], [u['entry'] for u in cov['undecided']]))
        if violations:
            # confirmed ones first
            violations.sort(key=lambda v: not v[1])
            if violations[0][1]: violations = [v for v in violations if v[1]]
            for dst, conf, en, what in violations[:5]:
                print('VIOLATION property=%s replay=%s%s' % (prop, dst, '' if conf else ' no-failing-input-found'))
            return 1
        print('PASS property=%s' % prop)
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)

COMMON_ASSUMPTIONS = [
    'compiler front end (clang 18 -O1 IR before optimisation, then sroa/early-cse/instcombine/simplifycfg/loop-simplify/lcssa) and the VC generator engine/*.py are trusted',
    'heap and stack objects are disjoint and never reused (no use-after-free reasoning); operator new never fails',
    'iostream/std::string message construction has no effect on the verified state',
    'build configuration of this host: little endian, no AVX/NEON code paths',
    'loops are proved partially correct (termination is not an obligation)']

def summary(r):
    c = {}
    for o in r['obligations']: c[o['result']] = c.get(o['result'], 0) + 1
    return '%s %s trivial=%s t=%s solver=%s %s' % (r['status'], c, r.get('trivial'), r.get('wall_s'), r.get('solver_s'), (r.get('reason') or '')[:200])

def known_findings(prop):
    p = HERE + '/known_findings.txt'
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\w+) (.*)', l)
            if m and m.group(1) == prop: out.append(m.group(2))
    return out

def evidence(prop, plan, entries, tier):
    obl = disc = triv = 0; solver = 0.0; fns = set(); ext = set(); contracts = set(); backends = {}; und = []; pe = []; bounded = []; runs = 0; asserts = {}
    for en in entries:
        if en.fuzz and en.fuzz.get('runs'):
            runs += en.fuzz['runs']
        if en.kind == 'bounded':
            bounded.append({'entry': '%s:%s' % (en.h, en.e), 'bound': en.d.get('bound', ''), 'result': {k: v for k, v in (en.fuzz or {}).items() if k not in ('stderr', 'file')}})
            if en.fuzz and en.fuzz['status'] not in ('ok', 'fail'): und.append({'entry': en.e, 'reason': 'bounded stand-in did not run: %s' % str(en.fuzz)[:300]})
            continue
        r = en.res
        if r is None: continue
        o = len(r['obligations']); d = len([x for x in r['obligations'] if x['result'] == 'unsat'])
        complete = r['status'] == 'ok' and (o + (r.get('trivial') or 0)) > 0
        cv = r.get('covers', {})
        vac = [n for n, ok in cv.items() if ok is False]
        if r['status'] == 'ok':
            obl += o + r['trivial']; disc += d + r['trivial']; triv += r['trivial']
            solver += r.get('solver_s', 0)
            for b, n in r.get('backends', {}).items(): backends[b] = backends.get(b, 0) + n
            fns |= set(f for f in r.get('functions', []) if not f.startswith('H_'))
            ext |= set(r.get('assumed_externals', [])); contracts |= set(r.get('contracts', []))
        if r['status'] != 'ok' or o != d:
            und.append({'entry': en.e, 'reason': r.get('reason') or [(x['name'], x['result']) for x in r['obligations'] if x['result'] != 'unsat'][:5]})
        if vac: und.append({'entry': en.e, 'reason': 'cover not reachable: %s' % vac})
        if not complete and r['status'] == 'ok': und.append({'entry': en.e, 'reason': 'no obligations'})
        pe.append({'entry': '%s:%s' % (en.h, en.e), 'obligations': o, 'simplified': r.get('trivial'), 'discharged': d, 'asserted': sorted(r.get('asserts', {})), 'loops_under_invariant': r.get('loops_cut'),
                   'covers': cv, 'solver_s': r.get('solver_s'), 'falsifier': {k: v for k, v in (en.fuzz or {}).items() if k not in ('stderr', 'file')}, 'notes': en.note})
    return {'explanation': 'functions under contract with every obligation listed per entry; entries under bounded_stand_ins are randomised executions of the real code against an oracle, not proof', 'obligations': obl, 'discharged': disc, 'discharged_by_simplifier': triv, 'checker_cmd': 'python3 /verif/check.py %s %s' % (prop, tier),
            'trusted_base': sorted(set(['clang-18 front end', 'llvm opt (mem2reg-class passes)', 'engine/symex.py VC generator', 'z3 4.8.12 / z3-new / cvc5 1.1.2'] + plan.get('trusted', []))),
            'backends': backends, 'solver_s': round(solver, 1), 'functions_verified': sorted(f for f in fns if not f.startswith('_ZNSt') and not f.startswith('_ZNKSt') and not f.startswith('_ZSt') and not f.startswith('_ZN9__gnu'))[:400],
            'entries': pe, 'bounded': bounded, 'bounded_runs': runs, 'undecided': und, 'assumed_externals': sorted(ext), 'contracts_assumed_at_calls': sorted(contracts)}

if __name__ == '__main__':
    try: rc = main()
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); rc = 3
    sys.stdout.flush()
    os._exit(rc)
