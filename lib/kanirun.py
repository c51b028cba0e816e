"""Runs the Kani proof harnesses of /verif/kani against the crate in /repo (built afresh from its working tree)."""
import os, re, shutil, subprocess, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.path.join(V, '.build', 'kani')
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTFLAGS='-Awarnings --cfg axmos_verif', AXMOS_VERIF_FACADE=os.path.join(V, 'hooks', 'facade.rs'))
ENV.pop('RUSTUP_TOOLCHAIN', None)

def parse(text):
    cur, res, t = {}, {}, None
    for l in text.splitlines():
        m = re.match(r'Thread (\d+): Checking harness (\S+?)\.\.\.', l)
        if m:
            cur[m[1]] = m[2]
            continue
        m = re.match(r'Checking harness (\S+?)\.\.\.', l)
        if m:
            cur['-'] = m[1]; t = '-'
            res.setdefault(m[1], dict(failed=[], ok=None, checks=0, nfailed=0, time=None, unwind=False))
            continue
        m = re.match(r'Thread (\d+):\s*$', l)
        if m:
            t = m[1]
            res.setdefault(cur[t], dict(failed=[], ok=None, checks=0, nfailed=0, time=None, unwind=False))
            continue
        if t is None or t not in cur:
            continue
        r = res.get(cur[t])
        if r is None:
            continue
        m = re.match(r' \*\* (\d+) of (\d+) failed', l)
        if m:
            r['nfailed'], r['checks'] = int(m[1]), int(m[2])
        m = re.match(r'Failed Checks: (.*)', l)
        if m:
            r['failed'].append(m[1])
        m = re.match(r' File: (.*)', l)
        if m and r['failed']:
            r['failed'][-1] += ' at ' + m[1]
        m = re.match(r'VERIFICATION:- (\w+)', l)
        if m:
            r['ok'] = m[1] == 'SUCCESSFUL'
        m = re.match(r'Verification Time: ([\d.]+)', l)
        if m:
            r['time'] = float(m[1])
    return res

def go(args, timeout, cwd):
    t = time.time()
    try:
        p = subprocess.Popen(args, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out, time.time() - t
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return -9, out or '', time.time() - t

def playback(h, crate):
    """The counterexample of a failed harness, run natively against the real code."""
    rc, out, _ = go(['cargo', 'kani', '--target-dir', TARGET, '--harness', h, '-Z', 'concrete-playback', '--concrete-playback=print'], 400, crate)
    tests = re.findall(r'```\n(.*?)```', out, re.S)
    if not tests:
        return None, None
    d = os.path.join(V, '.build', 'kani-replay')
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(crate, d)
    p = os.path.join(d, 'src', 'lib.rs')
    s = open(p).read()
    i = s.rindex('}')
    open(p, 'w').write(s[:i] + '\n'.join(t for t in tests) + '\n}\n')
    rc, out, _ = go(['cargo', 'kani', 'playback', '-Z', 'concrete-playback', '--target-dir', os.path.join(V, '.build', 'kani-replay-target')], 300, d)
    failed = re.findall(r"panicked at (.*?)\n(.*)", out)
    return tests, failed

def run(harnesses, tier, timeout):
    """harnesses: {name: dict(functions=[..], bounded=None|text, thorough=bool)}"""
    crate = os.path.join(V, 'kani')
    names = [h for h, c in harnesses.items() if tier == 'thorough' or not c.get('thorough')]
    t0 = time.time()
    rc, out, _ = go(['cargo', 'kani', '--target-dir', TARGET, '-j', '7', '--output-format', 'terse', '--exact'] + [a for h in names for a in ('--harness', 'p::' + h)], timeout, crate)
    res = parse(out)
    ret = []
    for h in names:
        c = harnesses[h]
        r = res.get('p::' + h)
        d = dict(harness=h, functions=c.get('functions', []), bounded=c.get('bounded'), checks=0, failed_checks=0, time=None)
        if r is None or r['ok'] is None:
            d.update(status='undecided', why='no answer within the time limit' if rc == -9 else 'not built: ' + out[-400:])
        else:
            d.update(checks=r['checks'], failed_checks=r['nfailed'], time=r['time'])
            if r['ok']:
                d['status'] = 'ok'
            elif r['failed'] and all(x.startswith('unwinding assertion') or 'is not currently supported by Kani' in x for x in r['failed']):
                d.update(status='undecided', why='; '.join(r['failed'])[:400])
            else:
                d.update(status='failed', why='; '.join(r['failed'])[:800])
        ret.append(d)
    for d in [x for x in ret if x['status'] == 'failed'][:2]:
        try:
            tests, failed = playback('p::' + d['harness'], crate)
            if tests and failed:
                d.update(replayed=True, replay=tests, replay_failure=[' '.join(f) for f in failed][:4])
            elif tests:
                d['counterexample'] = tests
        except Exception as e:
            d['replay_error'] = str(e)
    return ret
