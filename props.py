#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: run ./props.py after editing."""
import json, os, re
ROOT = os.path.dirname(os.path.abspath(__file__)); PS = []; NA = {}
def P(id, title, statement, over, text, why, mech, state=None):
    files = sorted({m[1].split(':')[0] for m in mech}); assert len(title) <= 80, title
    PS.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over.split(), 'text': text}, 'why_tests_cant': why, 'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}})
exec(open(ROOT + '/props.def').read())
PS.sort(key=lambda p: p['id'])
def main():
    have = {}
    for f in sorted(os.listdir(ROOT + '/harness')):
        if f.endswith('.c'):
            for l in re.findall(r'^[ */]*@property\s+(.*)$', open(ROOT + '/harness/' + f).read(), re.M):
                for i in l.split(): have.setdefault(i, []).append(f)
    with open(ROOT + '/properties.jsonl', 'w') as o:
        for p in PS: o.write(json.dumps(p) + '\n')
    checks = [{'property': p['id'], 'quick_cmd': './vp.py check %s quick' % p['id'], 'thorough_cmd': './vp.py check %s thorough' % p['id'], 'technique': 'symbolic execution of the real code (LLVM IR) with Z3, native replay of counterexamples', 'level': 'model_checking',
        'level_note': 'Bounded: every input value within the bounds stated in the evidence file is decided by the solver on IR compiled from the current tree; trusts clang, the engine, Z3 and the in-memory operating system model; counterexamples are replayed natively before they are reported.'} for p in PS if p['id'] in have and p['id'] not in NA]
    na = [{'property': p['id'], 'reason': NA.get(p['id'], 'No check has been built for it yet; nothing is claimed.')} for p in PS if p['id'] not in have or p['id'] in NA]
    json.dump({'version': 1, 'setup_cmd': './vp.py setup', 'checks': checks, 'not_applicable': na}, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'not claimed', sorted(set(have) - {p['id'] for p in PS}))
main()
