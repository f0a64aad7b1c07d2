# writes MANIFEST.json; CLAIMED are the properties with a working check
import json
CLAIMED = open('tools/claimed.txt').read().split()
props = [json.loads(l) for l in open('properties.jsonl')]
TECH = 'TLA+ specification model-checked with TLC; TLC validates every recorded trace of the real code against it'
NOTE = json.load(open('tools/level_notes.json'))
DEF = ('The specification decides every recorded step of the implementation on TLC-enumerated scenarios, concretised with seeded values; '
       'assumes the drivers encode inputs and outputs faithfully and that the sampled values are representative of their scenario.')
m = {'version': 1, 'setup_cmd': 'python3 run.py --setup',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 run.py %s --tier quick' % p['id'],
                 'thorough_cmd': 'python3 run.py %s --tier thorough' % p['id'],
                 'technique': TECH, 'level': 'model_checking', 'level_note': NOTE.get(p['id'], DEF)}
                for p in props if p['id'] in CLAIMED],
     'not_applicable': [{'property': p['id'], 'reason': 'no check yet'} for p in props if p['id'] not in CLAIMED]}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
