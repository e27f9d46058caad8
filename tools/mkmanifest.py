"""Writes MANIFEST.json from the checks that exist."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
NOTES = {}
checks, na = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    cid = p['id']
    if not os.path.exists(os.path.join(ROOT, 'checks', cid.lower() + '.py')):
        na.append({'property': cid, 'reason': 'check not built yet'})
        continue
    c = importlib.import_module('checks.' + cid.lower()).CHECK
    checks.append({
        'property': cid,
        'quick_cmd': 'bin/check ' + cid,
        'thorough_cmd': 'bin/check %s --tier thorough' % cid,
        'evidence_file': 'evidence/%s.json' % cid,
        'technique': 'deterministic simulation with fault injection: ' +
                     c.technique,
        'level': c.level,
        'level_note': c.note})
json.dump({'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks,
           'not_applicable': na,
           'notes': 'No hooks in /repo: storage is interposed with LD_PRELOAD,'
                    ' scheduling and interrupts use sys.monitoring line '
                    'events. bin/check ID --replay FILE repeats a violation.'},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
