"""Writes properties.jsonl and the checks of MANIFEST.json from one table (run by hand)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from props_table import PROPS, NOT_APPLICABLE
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'state': [], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                        'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
man = {'version': 1, 'setup_cmd': 'python3 -m mon.build driver apps',
       'hooks': {'guard': 'FLPR_MONITOR', 'enable': 'the monitored build passes -DFLPR_MONITOR (no source hook currently uses it: '
                 'all observation points are public API)', 'source_commits': []},
       'checks': [{'property': p['id'], 'quick_cmd': 'python3 -m mon.check ' + p['id'],
                   'thorough_cmd': 'env VERIF_TIER=thorough python3 -m mon.check ' + p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'],
                   'technique': p['tech'], 'level': 'exploration', 'level_note': p['note']}
                  for p in PROPS if p['id'] not in {n['property'] for n in NOT_APPLICABLE}],
       'not_applicable': NOT_APPLICABLE,
       'notes': 'All checks rebuild /repo with AddressSanitizer, UndefinedBehaviorSanitizer, assertions and libstdc++ '
                'assertions (mon/build.py) and judge observations with independent Python oracles.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
