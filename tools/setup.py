#!/usr/bin/env python3
import sys; sys.path.insert(0, '/verif/lib')
from vlib import *
build_harness(); build_clis()
for f in sorted(os.listdir(V + '/spec')):
    if f.endswith('.tla'):
        p = subprocess.run(['tla-sany', f], cwd=V + '/spec', capture_output=True, text=True)
        if p.returncode or 'rror' in p.stdout.replace('Semantic errors:\n\n', ''):
            print(f, p.stdout[-1500:])
            sys.exit(1)
print('setup ok')
