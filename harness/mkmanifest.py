'writes MANIFEST.json from properties.jsonl and parts.PROPS'
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import parts

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in parts.PROPS:
        mods = sorted({x.module for x in parts.PROPS[i]})
        checks.append({'property': i, 'quick_cmd': f'python3 harness/check.py --prop {i} --tier quick',
                       'thorough_cmd': f'python3 harness/check.py --prop {i} --tier thorough',
                       'technique': 'TLA+ specification (' + ', '.join(m + '.tla' for m in mods) + '), TLC; ' +
                                    parts.TECH.get(i, 'recorded runs of the real code validated step by step against the specification'),
                       'level': 'model_checking',
                       'level_note': parts.NOTES.get(i, 'bounded: generated scenarios in an embedded plane, short time horizons; '
                                                     'the specification is executed by TLC on every recorded step')})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'python3 harness/check.py --setup', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
