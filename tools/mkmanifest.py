"""Regenerates MANIFEST.json."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sim.check import CHECKS   # noqa: E402
NOTE = {
    'lib': 'Seeded search over ceremonies, hostile messages, storage faults, crashes, interrupts and thread schedules '
           'against an independent reference verifier. A clean batch is evidence, not proof. Trusts OpenSSL signature '
           'primitives, SHA-256 and the reference verifier in sim/truth.py; storage, clients and authenticators are '
           'simulated, threads switch at source-line granularity.',
    'codec': 'Seeded search over key encodings, storage corruption (torn, truncated, lost, bit-rotten writes), restarts '
             'and concurrent encoding, checked against an independent key model. Evidence, not proof.',
    'build': 'Seeded search over RP threads sharing builders, interleavings, interrupts and values, checked against an '
             'independent model of the options and of the wire format. Evidence, not proof.',
    'app': 'Seeded search over users, devices, network disorder, clock movement, crashes at every database step, '
           'database errors and request interleavings, running the real example server over simulated Flask and '
           'database layers (not the real Flask/SQLAlchemy). Evidence, not proof.',
}
NA = json.load(open(os.path.join(ROOT, 'tools', 'not_applicable.json')))
checks = []
for p, (gens, _) in sorted(CHECKS.items()):
    kinds = sorted({g.split(':')[0] for g, _ in gens})
    checks.append({
        'property': p, 'quick_cmd': 'bin/check ' + p, 'thorough_cmd': 'VERIF_TIER=thorough bin/check ' + p,
        'technique': 'deterministic simulation with fault injection', 'level': 'exploration',
        'level_note': ' '.join(NOTE[k] for k in kinds)})
doc = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks,
       'not_applicable': [x for x in NA if x['property'] not in CHECKS],
       'notes': 'No hooks in /repo: the seams used are the injected registrar, sys.settrace, threading locks, and stand-in '
                'flask modules. Replay a violation with bin/replay <file>.'}
json.dump(doc, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')
