#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist and properties.jsonl."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(os.path.join(V, 'tools', 'not_applicable.json')))
TECH = json.load(open(os.path.join(V, 'tools', 'techniques.json')))
NOTE = ('Sound with respect to the engine\'s model of the dependencies (curve25519-dalek, zkp/merlin, clear_on_drop, bincode, '
        'alloc), which is trusted: group and field operations are taken as algebra, hashes as injective records. '
        'All inputs, lengths and random draws are symbolic. Source outside what the analysis follows is reported, not skipped.')
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    if os.path.exists(os.path.join(V, 'checks', p.lower() + '.py')):
        t = TECH.get(p, {})
        checks.append({'property': p, 'quick_cmd': 'python3 check.py %s quick' % p,
                       'thorough_cmd': 'python3 check.py %s thorough' % p,
                       'evidence_file': 'evidence/%s.json' % p, 'level': 'other',
                       'technique': t.get('technique', 'static analysis: abstract interpretation of rustc MIR to algebraic normal forms'),
                       'level_note': t.get('note', '') + (' ' if t.get('note') else '') + (NOTE if not t.get('alone') else '')})
    else:
        na.append({'property': p, 'reason': NA.get(p, 'No check has been built for it yet.')})
json.dump({'version': 1, 'setup_cmd': 'python3 engine/extract.py', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: the compiler driver in /verif/driver reads the MIR of the unmodified source.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
