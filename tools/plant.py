#!/usr/bin/env python3
"""plant.py FILE...: writes the planted bugs of plan files into seeded/.
A plan file sets BUGS: id -> (property, needs, breaks, [(file, old, new)...], demo program)."""
import json
import os
import shutil
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for plan in sys.argv[1:]:
    ns = {}
    exec(open(plan).read(), ns)
    for bid, (prop, needs, breaks, edits, demo) in ns['BUGS'].items():
        w = '/tmp/seed-plan'
        shutil.rmtree(w, ignore_errors=True)
        subprocess.check_call(['git', 'clone', '-q', '/repo', w])
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                sys.exit('%s: %d matches in %s of: %s' % (bid, s.count(old), f, old))
            open(p, 'w').write(s.replace(old, new))
        d = os.path.join(V, 'seeded', bid)
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, 'patch.diff'), 'w') as f:
            subprocess.check_call(['git', '-C', w, 'diff'], stdout=f)
        shutil.rmtree(w, ignore_errors=True)
        shutil.copy(os.path.join(V, 'tools', 'demolib.py'), d)
        with open(os.path.join(d, 'demo.sh'), 'w') as f:
            f.write('#!/bin/bash\nexec python3 -B "$(dirname "$0")/demo.py"\n')
        with open(os.path.join(d, 'demo.py'), 'w') as f:
            f.write('from demolib import *\n' + demo.lstrip('\n'))
        with open(os.path.join(d, 'meta.json'), 'w') as f:
            json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, f, indent=1)
