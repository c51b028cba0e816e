"""Runs one property's check: Verus units + Kani harnesses + native executable contracts; writes evidence."""
import os, sys, re, json, resource, time, subprocess, shutil, hashlib, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(__file__))
import vgen
from rsx import LostAnchor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('VERIF_BUILD', os.path.join(V, '.build'))
REPLAYS = os.path.join(V, 'replays')
NATIVE_ENV = dict(os.environ, RUSTUP_TOOLCHAIN='nightly-x86_64-unknown-linux-gnu', RUSTC_WRAPPER='', CARGO_NET_OFFLINE='true',
                  CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0', RUSTFLAGS='-Awarnings --cfg axmos_verif', AXMOS_VERIF_FACADE=os.path.join(V, 'hooks', 'facade.rs'),
                  PATH='/root/.cargo/bin:' + os.environ.get('PATH', ''))
def log(*a):
    print(*a, flush=True)

def sh(cmd, env=None, timeout=None, cwd=None, mem_gb=None):
    t = time.time()
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd=cwd, start_new_session=True,
                             errors='replace', preexec_fn=(lambda: resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))) if mem_gb else None)
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e, time.time() - t
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return -9, o or '', (e or '') + '\nTIMEOUT', time.time() - t

# ---------------------------------------------------------------------------- known findings
def known_findings(prop):
    """key -> text for `finding:` lines of the committed file"""
    res = {}
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res

# ---------------------------------------------------------------------------- Verus
def load_shapes():
    p = os.path.join(V, 'units', 'shapes.json')
    return json.load(open(p)) if os.path.exists(p) else {}

def restructured(base, cur, known=frozenset()):
    """The function's loops differ, or it calls something that it did not call when the annotations were written and that has no
    contract in the unit."""
    if base is None or cur is None:
        return True
    return base['loops'] != cur['loops'] or bool(set(cur['callees']) - set(base['callees']) - known)

def failing(r):
    tm = r['json'].get('times-ms', {}).get('smt', {})
    return {(f['function'], f['mode:']) for m in tm.get('smt-run-module-times', []) for f in m.get('function-breakdown', []) if not f['success']}

def run_unit(unit, tier):
    """-> dict(status proved|failed|undecided, ...)"""
    tp = os.path.join(V, 'units', unit + '.rs')
    res = dict(unit=unit, status='undecided', failed=[], why='', functions=[], obligations=0, discharged=0, smt_ms=0, wall=0.0,
               trusted=[], dropped=[], shape_changed=[], vacuity='')
    d = tempfile.mkdtemp(prefix='verus-')
    try:
        try:
            g = vgen.Gen(unit, tp)
            text = g.generate()
        except LostAnchor as e:
            res['why'] = f'extraction: {e}'
            return res
        res['functions'] = [f'{f["file"]}:{f["line"]} {f["fn"]}' + (' (trusted)' if f['trusted'] else '') for f in g.fns]
        res['dropped'] = g.dropped
        res['trusted'] = vgen.trusted_scan(text)
        base = load_shapes().get(unit, {})
        known = frozenset(re.findall(r'\bfn (\w+)', text))
        res['shape_changed'] = sorted(k for k in set(base) | set(g.shape) if restructured(base.get(k), g.shape.get(k), known)) if base else []
        if g.lost:
            res['why'] = 'extraction lost: ' + '; '.join(g.lost)
            return res
        p = os.path.join(d, unit + '.rs')
        open(p, 'w').write(text)
        vac = {}
        jobs = []
        with ThreadPoolExecutor(3) as ex:
            main = ex.submit(vgen.run_verus, p, (), 420)
            for mode in ('fn', 'loop'):
                gv = vgen.Gen(unit, tp, vacuity=mode)
                tv = gv.generate()
                if not gv.vac_lines:
                    continue
                pv = os.path.join(d, f'{unit}_{mode}.rs')
                open(pv, 'w').write(tv)
                vac[mode] = (gv, ex.submit(vgen.run_verus, pv, ('--rlimit', '60'), 420))
            r = main.result()
            errs = vgen.parse_errors(r['stderr'])
            proof, limit, front = vgen.classify(errs, r['rc'])
            if limit and not proof and not front:
                r2 = vgen.run_verus(p, ('--rlimit', '60'), 600)
                errs = vgen.parse_errors(r2['stderr'])
                proof, limit, front = vgen.classify(errs, r2['rc'])
                r = r2
            if (proof or limit) and not front:
                # an obligation that any run discharges is proved: the solver's luck must not decide
                stuck = failing(r)
                futs = [ex.submit(vgen.run_verus, p, ('--smt-option', f'smt.random_seed={s}', '--rlimit', '30', '--num-threads', '3'), 300) for s in (7, 23)]
                for f in futs:
                    rr = f.result()
                    if rr['json'].get('verification-results', {}).get('verified', 0) > 0:
                        stuck = stuck & failing(rr)
                if not stuck and failing(r):
                    res['why_retry'] = f'{len(failing(r))} function(s) were discharged only under another solver seed'
                    tot = r['json']['verification-results']
                    tot['verified'] += tot['errors']; tot['errors'] = 0
                    proof, limit, r['rc'] = [], [], 0
        js = r['json'].get('verification-results', {})
        res['wall'] = r['wall']
        res['discharged'] = js.get('verified', 0)
        res['obligations'] = js.get('verified', 0) + js.get('errors', 0)
        tm = r['json'].get('times-ms', {}).get('smt', {})
        res['smt_ms'] = tm.get('smt-run', 0)
        fb = []
        for m in tm.get('smt-run-module-times', []):
            for f in m.get('function-breakdown', []):
                fb.append((f['function'].split('::', 1)[-1], f['mode:'], round(f['time-micros'] / 1000, 1), f['success']))
        res['per_function_ms'] = sorted(fb, key=lambda x: -x[2])
        res['cmd'] = r['cmd'].replace(d, '<generated>')
        vacbad, vacn = [], 0
        for mode, (gv, fut) in vac.items():
            rv = fut.result()
            lines = set()
            for e in vgen.parse_errors(rv['stderr']):
                if 'assertion failed' in e['msg']:
                    lines |= set(e['lines'])
            for l, n in gv.vac_lines.items():
                vacn += 1
                if l not in lines:
                    vacbad.append(n)
        res['vacuity'] = f'{vacn - len(vacbad)}/{vacn} entry points (function starts, loop bodies) shown reachable: an unconstrained assertion placed there is refuted'
        res['vacuous'] = vacbad
        if front or (r['rc'] != 0 and not proof and not limit):
            res['why'] = 'front end: ' + ('; '.join(e['msg'] for e in front)[:400] if front else r['stderr'][-400:])
            return res
        if proof:
            for e in proof:
                loc, fn = None, None
                for l in e['lines']:
                    if l in g.linemap:
                        loc = g.linemap[l]
                outl = e['lines'][0] if e['lines'] else 0
                for f in g.fns:
                    if loc and f['file'] == loc[0] and f['line'] <= loc[1] <= f['end']:
                        fn = f['fn']
                res['failed'].append(dict(obligation=e['msg'], function=fn, source=f'{loc[0]}:{loc[1]}' if loc else None,
                                          verifier='\n'.join(e['text'][:30])))
            res['status'] = 'failed'
            if limit:
                res['why'] = f'{len(limit)} more obligations exceeded the resource limit'
            return res
        if limit:
            res['why'] = 'resource limit: ' + '; '.join(e['msg'] for e in limit)
            return res
        if js.get('verified', 0) == 0:
            res['why'] = 'no obligations were generated'
            return res
        if vacbad and not res['shape_changed']:
            res['why'] = 'vacuous: ' + ', '.join(vacbad)
            return res
        res['status'] = 'proved'
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)

# ---------------------------------------------------------------------------- native executable contracts
def build_native():
    tgt = os.path.join(BUILD, 'native')
    rc, o, e, w = sh(['cargo', 'build', '--offline', '--target-dir', tgt], NATIVE_ENV, 800, os.path.join(V, 'native'))
    return rc, e, os.path.join(tgt, 'debug', 'vnative'), w

def run_native(binary, prop, tier, seed, timeout, extra=()):
    scratch = tempfile.mkdtemp(prefix=f'vnative-{prop}-')
    try:
        env = dict(os.environ, RUST_BACKTRACE='0', VSCRATCH=scratch, TMPDIR=scratch)
        rc, o, e, w = sh([binary, prop, '--tier', tier, '--seed', str(seed), *extra], env, timeout, scratch, mem_gb=12)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    js = None
    for line in o.split('\n'):
        if line.startswith('RESULT '):
            js = json.loads(line[7:])
    viol = []
    for line in o.split('\n'):
        if line.startswith('FAIL '):
            try:
                viol.append(json.loads(line[5:]))
            except Exception:
                pass
    return dict(rc=rc, result=js, fails=viol, wall=w, tail=(o[-1500:] + e[-1500:]))

# ---------------------------------------------------------------------------- verdict
def replay_file(prop, content):
    os.makedirs(REPLAYS, exist_ok=True)
    h = hashlib.sha1(json.dumps(content, sort_keys=True, default=str).encode()).hexdigest()[:10]
    p = os.path.join(REPLAYS, f'{prop}-{h}.json')
    json.dump(content, open(p, 'w'), indent=1, default=str)
    return p

def check(prop, cfg, tier, seed):
    t0 = time.time()
    known = known_findings(prop)
    out = dict(violations=[], known=[])
    with ThreadPoolExecutor(4) as ex:
        units = cfg.get('units', [])
        if tier == 'thorough':
            units = units + cfg.get('units_thorough', [])
        ufs = [(u, ex.submit(run_unit, u, tier)) for u in units]
        nf = ex.submit(build_native) if cfg.get('native', True) else None
        kf = None
        if cfg.get('kani'):
            import kanirun
            kf = ex.submit(kanirun.run, cfg['kani'], tier, 700 if tier == 'quick' else 3000)
        nat = None
        if nf:
            rc, err, binary, bw = nf.result()
            if rc != 0:
                log('native harness does not build against the current tree:', err[-1500:])
                nat = dict(rc=rc, result=None, fails=[], wall=bw, tail=err[-1500:], nobuild=True)
            else:
                nat = run_native(binary, prop, tier, seed, cfg.get('native_timeout', 300) if tier == 'quick' else 3000)
        ures = [f.result() for _, f in ufs]
        kres = kf.result() if kf else []
    # --- native results
    if nat:
        for f in nat['fails']:
            k = f.get('key', '')
            if k in known:
                if k not in out['known']:
                    out['known'].append(k)
                    log(f'KNOWN-FINDING: property={prop} {k}: {known[k]}')
            else:
                out['violations'].append(dict(kind='input', where=f.get('fn'), detail=f))
        if nat['result'] is None and not nat.get('nobuild'):
            # the real code aborted, hung, or exhausted memory while a contract was executed
            if nat['rc'] == -9:
                last = re.findall(r'^AT (.*)$', nat['tail'], re.M)
                out['violations'].append(dict(kind='input', where='hang', detail=dict(fn='(watchdog)', contract='every call returns', input=last[-1] if last else '?', got='no answer within the time limit', key='hang')))
            else:
                last = re.findall(r'^AT (.*)$', nat['tail'], re.M)
                out['violations'].append(dict(kind='input', where='abort', detail=dict(fn='(process)', contract='no call aborts the process', input=last[-1] if last else '?', got=f'exit {nat["rc"]}: {nat["tail"][-600:]}', key='abort')))
    # --- Kani results
    for k in kres:
        log(f'  kani {k["harness"]}: {k["status"]} ({k.get("time", "?")}s) {k.get("why", "")}')
        if k['status'] == 'failed':
            key = 'kani:' + k['harness']
            if key in known:
                if key not in out['known']:
                    out['known'].append(key)
                    log(f'KNOWN-FINDING: property={prop} {key}: {known[key]}')
                continue
            if k.get('replayed'):
                out['violations'].append(dict(kind='input', where=k['harness'], detail=k))
            else:
                out['violations'].append(dict(kind='proof', where=k['harness'], detail=k))
    # --- Verus results
    undecided = []
    for u in ures:
        log(f'  verus {u["unit"]}: {u["status"]} {u["discharged"]}/{u["obligations"]} functions/lemmas, smt {u["smt_ms"]} ms, wall {u["wall"]:.1f}s {u["why"]}')
        if u['status'] == 'undecided':
            undecided.append(f'{u["unit"]}: {u["why"]}')
        if u['status'] == 'failed':
            for f in u['failed']:
                log(f'    obligation failed: {f["obligation"]} in {f["function"]} at {f["source"]}')
            touched = {f['function'] for f in u['failed']}
            if u['shape_changed'] and touched <= set(u['shape_changed']) | {None}:
                # the annotations were written for another loop/call structure: a failed proof is not a violation
                undecided.append(f'{u["unit"]}: obligations of restructured functions {sorted(map(str, touched))} not discharged')
            else:
                out['violations'].append(dict(kind='proof', where=u['unit'], detail=u['failed']))
    for k in kres:
        if k['status'] == 'undecided':
            undecided.append(f'kani {k["harness"]}: {k.get("why", "")}')
    for x in undecided:
        log('  UNDECIDED (no alarm; the bounded stand-in decides): ' + x)
    # --- report
    inputs = [v for v in out['violations'] if v['kind'] == 'input']
    proofs = [v for v in out['violations'] if v['kind'] == 'proof']
    rc = 0
    if inputs:
        p = replay_file(prop, dict(property=prop, violations=inputs[:20], failed_obligations=proofs,
                                   how='native executable contracts run on the real code: `%s/.build/native/debug/vnative %s --tier %s --seed %s`; Kani counterexamples: see the `replay` field' % (V, prop, tier, seed)))
        for v in inputs[:6]:
            log(f'  contract broken: {json.dumps(v["detail"], default=str)[:900]}')
        log(f'VIOLATION property={prop} replay={p}')
        rc = 1
    elif proofs:
        p = replay_file(prop, dict(property=prop, failed_obligations=proofs))
        log(f'VIOLATION property={prop} replay={p} no-failing-input-found')
        rc = 1
    write_evidence(prop, cfg, tier, seed, ures, kres, nat, undecided, out, time.time() - t0)
    if rc == 0:
        log(f'OK property={prop} wall={time.time() - t0:.1f}s')
    return rc

def write_evidence(prop, cfg, tier, seed, ures, kres, nat, undecided, out, wall):
    trusted = []
    for u in ures:
        trusted += [f'[verus {u["unit"]}] {t}' for t in u['trusted']]
        trusted += [f'[extraction {u["unit"]}] {t}' for t in u['dropped']]
    trusted += cfg.get('trusted', [])
    obligations = sum(u['obligations'] for u in ures) + sum(k.get('checks', 0) for k in kres if not k.get('bounded'))
    discharged = sum(u['discharged'] for u in ures) + sum(k.get('checks', 0) - k.get('failed_checks', 0) for k in kres if not k.get('bounded') and k['status'] == 'ok')
    cov = dict(
        obligations=obligations, discharged=discharged,
        checker_cmd=f'python3 /verif/check.py {prop} --tier {tier}',
        trusted_base=trusted,
        functions_under_contract=[f for u in ures for f in u['functions']],
        verus=[dict(unit=u['unit'], status=u['status'], verified=u['discharged'], of=u['obligations'], smt_ms=u['smt_ms'], wall_s=round(u['wall'], 1),
                    vacuity=u['vacuity'], why=u['why'], slowest_ms=u.get('per_function_ms', [])[:8]) for u in ures],
        kani=[{x: k.get(x) for x in ('harness', 'status', 'checks', 'time', 'bounded', 'why', 'functions')} for k in kres],
        kani_complete_harnesses=[k['harness'] for k in kres if not k.get('bounded')],
        kani_bounded_harnesses=[k['harness'] + ' (bounded, not counted as proved)' for k in kres if k.get('bounded')],
        bounded_standin=None if not nat else dict(
            label='BOUNDED: executable contracts run on the real code, never counted as proved',
            **({k: v for k, v in (nat['result'] or {}).items()}), wall_s=round(nat['wall'], 1)),
        undecided=undecided,
        solver_time_ms=sum(u['smt_ms'] for u in ures),
        back_ends='Verus 0.2026.09.13 (Z3)' + ('; Kani 0.68.0 (CBMC/CaDiCaL)' if kres else ''),
    )
    r = (nat or {}).get('result') or {}
    cov['explanation'] = cfg['note']
    cov['theorems'] = cfg.get('theorems', [])
    cov['evaluations'] = r.get('evaluated', 0)
    cov['distinct_nontrivial'] = r.get('distinct', 0)
    cov['rule'] = r.get('rule', 'one evaluation = one call of a real function under an executable contract')
    cov['samples'] = r.get('samples', [])
    cov['known_findings_seen'] = out['known']
    ev = dict(property=prop, tier=tier, seed=seed, level=cfg['level'], coverage=cov,
              assumptions=cfg.get('assumptions', []), wall_s=round(wall, 1), violations=len(out['violations']))
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
