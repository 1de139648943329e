#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/suites.py's PLAN and the notes below."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import suites

GENERAL = ('Exhaustive TLC check of the specification within small constants, plus TLC trace validation of recorded '
           'executions of the real code for behaviours generated from the specification (covering tours of the '
           'reachable graph and seeded simulation). Trusts TLC, the Go toolchain, the driver\'s projections and '
           'the independent reference definitions (SHAKE128, ed25519) in harness/ref.go. ')
NOTES = getattr(suites, 'NOTES', {})
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1,
         setup_cmd='bin/setup',
         checks=[dict(property=p, quick_cmd='bin/check ' + p,
                      thorough_cmd='VERIF_TIER=thorough bin/check ' + p,
                      evidence_file='evidence/%s.json' % p,
                      technique='TLA+ specification checked with TLC, bound to the code by TLC trace validation',
                      level='model_checking', level_note=GENERAL + NOTES.get(p, ''))
                 for p in props if p in suites.PLAN],
         not_applicable=[dict(property=p, reason='check not built yet') for p in props if p not in suites.PLAN],
         notes='See DESIGN.md. No hooks in /repo: the driver uses the public API only.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks')
