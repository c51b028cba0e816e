#!/bin/bash
# Builds what the checks share (the native harness crate against /repo's current tree); every check can do without it.
cd "$(dirname "$0")" && python3 -c "
import sys; sys.path.insert(0,'lib'); import runner
rc, e, b, w = runner.build_native(); print('native harness', 'built' if rc == 0 else e[-2000:], round(w, 1), 's'); sys.exit(rc)"
