#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below.

A property is claimed when harness/<id>_*.cc exists; the others must be in NA."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = 'cartographer/'
P = []
NA = {}
NOTES = {}


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {'files': [C + f for f in files], 'mechanism': [{'name': n, 'where': C + w} for n, w in mech]}
    if state: a['state'] = state
    if observe: a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})


exec(open(os.path.join(V, 'tools', 'table.py')).read())

TECH = 'bounded symbolic execution of the compiled code (LLVM IR of /repo) decided by SMT (Z3), counterexamples replayed natively'


def directives(pat, h):
    return [l[3:].strip() for l in open(h) if l.startswith(pat)]


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p in P:
        hs = sorted(glob.glob(os.path.join(V, 'harness', p['id'] + '_*.cc')))
        if not hs:
            if p['id'] not in NA: raise SystemExit('no harness and no reason for ' + p['id'])
            na.append({'property': p['id'], 'reason': NA[p['id']]}); continue
        bounds = ' | '.join(os.path.basename(h)[:-3] + ': ' + ' '.join(directives('//b', h)) for h in hs)
        stubs = ' | '.join(s for h in hs for s in directives('//s', h))
        checks.append({
            'property': p['id'],
            'quick_cmd': 'python3 /verif/vc.py check %s --tier quick' % p['id'],
            'thorough_cmd': 'python3 /verif/vc.py check %s --tier thorough' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': TECH, 'level': 'model_checking',
            'level_note': 'Holds for every value within the bounds; nothing is claimed outside them. Bounds: ' + bounds +
                          ('. Stubs/models: ' + stubs if stubs else '') +
                          '. Trusted: clang -O1 lowering of /repo, the executor in /verif/engine (cross-checked against native runs of the same harness on solver-generated inputs), Z3.'})
    m = {'version': 1, 'setup_cmd': 'python3 /verif/vc.py setup', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo. Properties and manifest are generated by tools/props.py from tools/table.py and the harness headers; known findings live in known_findings.json.'}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    d = open(os.path.join(V, 'DESIGN.md')).read().split('<!-- generated')[0] + '<!-- generated by tools/props.py below this line -->\n\n## Properties and how each is decided\n'
    for p in P:
        d += '\n### %s %s\n%s\n\n' % (p['id'], p['title'], p['statement'])
        hs = sorted(glob.glob(os.path.join(V, 'harness', p['id'] + '_*.cc')))
        if not hs: d += 'Not applicable: %s\n' % NA[p['id']]
        for h in hs:
            d += '* `%s`: %s\n  * bounds: %s\n' % (os.path.basename(h), ' '.join(directives('//#', h)), ' '.join(directives('//b', h)))
            for x in directives('//s', h): d += '  * model: %s\n' % x
        if hs: d += '* Why beyond tests: %s\n' % p['why_tests_cant']
        if p['id'] in NOTES: d += '* Note: %s\n' % NOTES[p['id']]
    d += '\n## Planted bugs and the checks that catch them\n\n| id | property | change | caught by quick check |\n|---|---|---|---|\n'
    res = {}
    rp = os.path.join(V, 'tools', 'seed_results.json')
    if os.path.exists(rp): res = json.load(open(rp))
    for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
        i = os.path.basename(os.path.dirname(m)); j = json.load(open(m))
        d += '| %s | %s | %s | %s |\n' % (i, j['property'], j['what_it_breaks'], res.get(i, 'not run'))
    open(os.path.join(V, 'DESIGN.md'), 'w').write(d)
    print(len(checks), 'claimed', len(na), 'not applicable')


main()
