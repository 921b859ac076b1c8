#!/usr/bin/env python3
"""Regenerates the per-property part of DESIGN.md (between the markers) from props.def and the harness headers."""
import re, glob, os, json, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P_ = []; NA = {}
def P(*a): P_.append(a)
exec(open(V + '/props.def').read())
H = {}
for f in sorted(glob.glob(V + '/harness/*.c')):
    t = open(f).read(); m = re.search(r'@property (\w+)', t)
    if m: H.setdefault(m.group(1), []).append((os.path.basename(f), t))
out = []
for p in sorted(P_):
    pid = p[0]; out.append('### %s — %s\n' % (pid, p[1]))
    if pid in NA: out.append('Not applicable: %s\n' % NA[pid]); continue
    if pid not in H: out.append('Not claimed.\n'); continue
    for f, t in H[pid]:
        head = t[:t.index('*/')]; g = lambda k: ' '.join(re.findall(r'@%s (.*)' % k, head)).strip(' */')
        labels = re.findall(r'@quick.*?label=(\w+)', head)
        out.append('- `harness/%s`%s. Anchors: %s.\n- Bounds: %s.\n- Outside: %s.%s\n' % (f, ' (runs: %s)' % ', '.join(labels) if labels else '', ', '.join('`%s`' % a for _, a in p[6]), g('bounds').rstrip('.'), g('outside').rstrip('.') or 'what the statement does not mention', '\n- Assumes: ' + g('assume') + '.\n' if g('assume') else ''))
s = open(V + '/DESIGN.md').read(); a, b = '<!-- BEGIN PROPERTIES -->', '<!-- END PROPERTIES -->'
s = s[:s.index(a) + len(a)] + '\n' + '\n'.join(out) + '\n' + s[s.index(b):]
c, e = '<!-- BEGIN SEEDED -->', '<!-- END SEEDED -->'
rows = ['| planted bug | property | needs |', '|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['needs']))
s = s[:s.index(c) + len(c)] + '\n' + '\n'.join(rows) + '\n' + s[s.index(e):]
open(V + '/DESIGN.md', 'w').write(s)
