import sys; sys.path.insert(0,'/verif/lib')
import vgen
u=sys.argv[1]
vac='fn' if '--vac' in sys.argv else None
g=vgen.Gen(u,f'/verif/units/{u}.rs',vac)
t=g.generate()
p=f'/tmp/{u}{"_vac" if vac else ""}.rs'
open(p,'w').write(t)
if g.lost: print('LOST',g.lost)
extra=[a for a in sys.argv[2:] if a!='--vac']
r=vgen.run_verus(p,extra)
errs=vgen.parse_errors(r['stderr'])
pr,li,fr=vgen.classify(errs,r['rc'])
for n,l in(('PROOF',pr),('LIMIT',li),('FRONT',fr)):
    for e in l[:12]:
        print(n, '\n'.join([x for x in e['text'] if x.strip() and x.strip()!='|'][:9]))
print(r['json'].get('verification-results'), r['wall'], 'dropped', len(g.dropped))
if not r['json']: print(r['stderr'][-3000:])
