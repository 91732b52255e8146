#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ps = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
REFLESS = {'C19': 'absence of undefined behaviour is asserted at every instruction (bounds, lifetime, arithmetic, stack), and, for texts of the language, agreement with the reference semantics',
           'C20': 'the real code is executed on both spellings of the same session and the two observable logs are asserted equal',
           'C17': 'the arrival of the signal is a symbolic choice at every read of the state written by the handler; the interrupted-and-continued log is asserted equal to the uninterrupted one of the reference'}
checks = []
for p in ps:
    i = p['id']
    checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i,
        evidence_file='evidence/%s.json' % i, technique='bounded symbolic execution of the LLVM IR of the real sources, decided by Z3',
        level='model_checking',
        level_note='Holds for all values of the symbolic holes of the listed bounded sessions (%s). Assumes the libc/terminal/file model and the stated bounds; sessions that were not exhausted are named in the evidence.' % REFLESS.get(i, 'the observable log of the real code is asserted equal to that of an independent reference interpreter run on the same symbolic session')))
m = dict(version=1, setup_cmd='make -s -C symx -j8', checks=checks, not_applicable=[],
         notes='One engine (symx) for all properties; the IR is regenerated from /repo on every run. No hooks in /repo are needed.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
