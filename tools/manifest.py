#!/usr/bin/env python3
"""writes MANIFEST.json from the list of checks"""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = dict(l.strip().split(None, 1) for l in open(os.path.join(HERE, 'tools/claimed.txt')) if l.strip())
NOTE = ('The LLVM IR of /repo (dev profile, unoptimised) is executed symbolically and Z3 decides every branch, loop induction step, '
        'memory bound and the final assertion for all values within the stated bounds; counterexamples are replayed natively (debug and release) before they count. '
        'Trusted: rustc up to LLVM IR, the engine\'s reading of LLVM IR, Z3, the RFC 7693 model (self-tested against hashlib). ')
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
out = dict(version=1, setup_cmd='bash setup.sh', checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in CHECKS:
        out['checks'].append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % i,
                                  technique='symbolic execution of the compiled LLVM IR with Z3; ' + CHECKS[i].split('|')[0].strip(), level='model_checking', level_note=NOTE + CHECKS[i].split('|')[1].strip()))
    else:
        out['not_applicable'].append(dict(property=i, reason='no check built yet'))
json.dump(out, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
