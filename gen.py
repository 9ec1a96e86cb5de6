#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below (run after editing; both results are committed)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P, NA = [], []
def prop(pid, title, statement, over, text, why, files, mech, note):
    P.append(({'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
               'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}, note))
    assert len(title) <= 80, title
TECH = 'symbolic execution of the LLVM bitcode of the real code, assertions decided by Z3 for all inputs within the bounds, counterexamples replayed natively'
TRUST = ' Trusted: rustc 1.63, the bitcode interpreter (sampled paths are replayed natively on every run), Z3, the environment model of engine/libc.h.'

exec(open(os.path.join(V, 'proptexts.py')).read())

def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for d, _ in P: f.write(json.dumps(d) + '\n')
    na = {p for p, _ in NA}
    m = {'version': 1, 'setup_cmd': 'bash build.sh c01 build/c01',
         'hooks': {'guard': 'none', 'enable': 'no hooks: the harness uses the public API of the crate in /repo', 'source_commits': []},
         'checks': [{'property': d['id'], 'quick_cmd': 'python3 check.py %s quick' % d['id'], 'thorough_cmd': 'python3 check.py %s thorough' % d['id'],
                     'technique': TECH, 'level': 'model_checking', 'level_note': note + TRUST} for d, note in P if d['id'] not in na],
         'not_applicable': [{'property': p, 'reason': r} for p, r in NA],
         'notes': 'known-findings.txt lists repaired and known defects; DESIGN.md explains bounds and method.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')
main()
