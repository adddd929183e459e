"""Writes MANIFEST.json"""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NOTE = json.load(open(os.path.join(HERE, 'tools', 'levels.json')))
checks = []
for p in props:
    n = NOTE.get(p['id'], NOTE['default'])
    checks.append(dict(property=p['id'],
                       quick_cmd='python3 /verif/check.py %s quick' % p['id'],
                       thorough_cmd='python3 /verif/check.py %s thorough' % p['id'],
                       technique=n['technique'], level=n['level'], level_note=n['note']))
json.dump(dict(version=1, setup_cmd='python3 /verif/setup.py', checks=checks, not_applicable=[]),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
