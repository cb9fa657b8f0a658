#!/usr/bin/env python3
"""Writes MANIFEST.json: every property that has a check is claimed."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import props

TECH = 'TLA+ specification %s checked with TLC; behaviours generated by TLC replayed into the real code; recorded traces validated against the specification by TLC'
checks, na = [], []
for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl')):
    p = json.loads(l)['id']
    if p in props.CHECKS:
        mods, note = props.NOTES[p]
        checks.append(dict(property=p, quick_cmd='python3 check.py %s quick' % p, thorough_cmd='python3 check.py %s thorough' % p,
                           evidence_file='evidence/%s.json' % p, technique=TECH % mods, level='model_checking', level_note=note))
    else:
        na.append(dict(property=p, reason='not claimed yet: its part of the specification and driver is under construction'))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the checks link the packages of /repo, or run the unchanged application built from it in a scratch user and mount namespace with a stand-in for the update server.')
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
