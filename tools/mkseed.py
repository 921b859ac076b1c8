#!/usr/bin/env python3
"""mkseed.py SPEC.py...: writes seeded/<id>/ from a spec that defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (body of demo.py)."""
import sys, os, json, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for spec in sys.argv[1:]:
    ns = {}; exec(open(spec).read(), ns)
    for s in ns.get('SEEDS') or [ns]:
        d = V + '/seeded/' + s['ID']; os.makedirs(d, exist_ok=True)
        t = tempfile.mkdtemp(prefix='mkseed.'); fs = []
        for f, old, new in s['EDITS']:
            p = t + '/new/' + f; q = t + '/old/' + f
            if not os.path.exists(p):
                for x in (p, q): os.makedirs(os.path.dirname(x), exist_ok=True); shutil.copy('/repo/' + f, x)
                fs.append(f)
            src = open(p, encoding='latin-1').read()
            if src.count(old) != 1: sys.exit('%s: %s: old text occurs %d times: %s' % (s['ID'], f, src.count(old), old[:60]))
            open(p, 'w', encoding='latin-1').write(src.replace(old, new))
        out = ''
        for f in fs:
            r = subprocess.run(['diff', '-u', '--label', 'a/' + f, '--label', 'b/' + f, t + '/old/' + f, t + '/new/' + f], capture_output=True, encoding='latin-1').stdout
            out += 'diff --git a/%s b/%s\n' % (f, f) + r
        open(d + '/patch.diff', 'w', encoding='latin-1').write(out); shutil.rmtree(t)
        shutil.copy(V + '/tools/demo_lib.py', d + '/demo_lib.py')
        open(d + '/demo.py', 'w').write('from demo_lib import *\n' + s['DEMO'].strip() + '\n')
        open(d + '/demo.sh', 'w').write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 exec python3 "$(dirname "$0")/demo.py"\n'); os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['PROP'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
        print('wrote', d)
