import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import props
NA = getattr(props, 'NOT_APPLICABLE', {})
hooks = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep=^verification hook'], capture_output=True, text=True).stdout.split()
m = dict(version=1, setup_cmd='bash /verif/setup.sh',
  hooks=dict(guard='axmos_verif', enable="RUSTFLAGS='--cfg axmos_verif' AXMOS_VERIF_FACADE=/verif/hooks/facade.rs (set by lib/runner.py)", source_commits=hooks),
  checks=[dict(property=p, quick_cmd=f'python3 /verif/check.py {p} --tier quick', thorough_cmd=f'python3 /verif/check.py {p} --tier thorough',
     technique=c['technique'], level=c['level'], level_note=c['note'], **({'theorems': c['theorems']} if c.get('theorems') else {})) for p, c in sorted(props.PROPS.items())],
  not_applicable=[dict(property=p, reason=r) for p, r in sorted(NA.items()) if p not in props.PROPS])
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'n/a')
