"""Records the loop/call structure the annotations were written for (run by hand when a unit is (re)written)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vgen
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {}
for f in sorted(os.listdir(os.path.join(V, 'units'))):
    if f.endswith('.rs'):
        g = vgen.Gen(f[:-3], os.path.join(V, 'units', f)); g.generate(); out[f[:-3]] = g.shape
json.dump(out, open(os.path.join(V, 'units', 'shapes.json'), 'w'), indent=1, sort_keys=True)
