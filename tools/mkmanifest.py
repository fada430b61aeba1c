"""writes MANIFEST.json"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
import models
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NOTE = ('TLC exhausts the small models named in tools/models.py:USES (invariants and temporal properties of spec/MC_*.tla); behaviours and cases it enumerates are replayed into '
        'the daemon built from /repo, and every recorded run (virtual /proc, files, clock, signals, faults) is checked by TLC to be a behaviour of spec/*.tla, step by step. '
        'Bounded by the model constants and the runs made. Trusts the harness (interposed C library) and the projection into the trace.')
checks = [dict(property=p, quick_cmd='python3 tools/check.py %s quick' % p, thorough_cmd='python3 tools/check.py %s thorough' % p,
               technique='TLA+ model checking with TLC (%s); replay of TLC-enumerated behaviours into, and trace validation of, the real daemon' % ', '.join(models.USES.get(p, [])),
               level='model_checking', level_note=NOTE) for p in ids]
json.dump(dict(version=1, setup_cmd='bash harness/build.sh build/hb && java -version', checks=checks, not_applicable=[],
               notes='No hooks in /repo: the harness links the daemon\'s own sources and interposes the C library (harness/harness.c).'),
          open(V + '/MANIFEST.json', 'w'), indent=1)
