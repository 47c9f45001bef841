"""Writes MANIFEST.json for every property of properties.jsonl."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ('Every call of the scenario classes enumerated by TLC from Scenarios.tla is run on the library in /repo and the '
        'recorded behaviour is replayed by TLC against the specification (Trace.tla), which states the required result in '
        '176-bit real arithmetic. Bounded: the scenario classes are covered pairwise (quick) or completely (thorough) with '
        'numbers drawn from VERIF_SEED; trusts TLC, the Java overrides of BigInt/Real and the recorder.')
EXTRA = {
}
ps = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'sh setup.sh',
     'checks': [{'property': p['id'],
                 'quick_cmd': 'python3 harness/check.py %s --tier quick' % p['id'],
                 'thorough_cmd': 'python3 harness/check.py %s --tier thorough' % p['id'],
                 'technique': 'TLA+ specification checked with TLC: trace validation of the library against the spec '
                              'over spec-enumerated scenarios' + EXTRA.get(p['id'], ('', ''))[0],
                 'level': 'model_checking', 'level_note': NOTE + EXTRA.get(p['id'], ('', ''))[1]} for p in ps],
     'not_applicable': [],
     'notes': 'TLA+ with TLC (tla2tools); see DESIGN.md. No hooks in /repo; 17 fix: commits, listed in known_findings.txt.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
