#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from the table in tools/table.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from table import PROPS, NOT_APPLICABLE
root = os.path.dirname(here)
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NOT_APPLICABLE:
        assert len(p['title']) <= 80, p['id']
        for w in p['files'] + [w for _, w in p['mech']]:
            assert os.path.exists(os.path.join('/repo', w)), (p['id'], w)
        o = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p['over'], text=p['quant']),
                 why_tests_cant=p['why'],
                 anchors=dict(files=p['files'],
                              mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                              observe_at=p.get('observe', []), hook_needed=None))
        f.write(json.dumps(o, ensure_ascii=False) + '\n')
m = dict(version=1, setup_cmd='bash setup.sh',
         checks=[dict(property=p['id'], quick_cmd=f"bash run.sh {p['id']} quick",
                      thorough_cmd=f"bash run.sh {p['id']} thorough",
                      evidence_file=f"evidence/{p['id']}.json",
                      technique=p['technique'], level='model_checking', level_note=p['note']) for p in PROPS],
         not_applicable=[dict(property=p['id'], reason=p['reason']) for p in NOT_APPLICABLE],
         notes='No hooks are committed in /repo: the checks build copies of its sources through go build -overlay, '
               'with sync, math/rand, time.Now, go statements and sql.Open routed to the controlled runtime in mc/.')
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
print(len(PROPS), 'properties')
