"""Writes properties.jsonl and MANIFEST.json from meta.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
import meta

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for k in sorted(meta.P):
        p = meta.P[k]
        assert len(p['title']) <= 80, k
        f.write(json.dumps(dict(id=k, title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], mechanism=p['mech'], state=p['state'] or [],
                                             observe_at=p['observe'] or meta.PUB, hook_needed=None))) + '\n')
checks = []
for k in sorted(meta.P):
    p = meta.P[k]
    checks.append(dict(property=k, quick_cmd='python3-vt check.py %s quick' % k, thorough_cmd='python3-vt check.py %s thorough' % k,
                       technique='symbolic execution of the real Python code (AST-instrumented), z3', level=p['level'],
                       level_note='%s %s' % (p['note'], 'Trusts the executor and its models of library calls, and the class model in spec/cim.json.')))
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3, json; json.load(open(\'spec/cim.json\'))"', checks=checks, not_applicable=[],
               notes='Known findings and repaired defects: known_findings.json. Properties, bounds: meta.py (source of this file).'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
