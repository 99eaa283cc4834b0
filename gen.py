#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py."""
import json, os
from props import *
H = os.path.dirname(os.path.abspath(__file__))
PY = 'python3'
with open(H + '/properties.jsonl', 'w') as f:
    for p in list(PROPS.values()):
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mechanism']])
        if p['state']: a['state'] = [dict(name=n, meaning=m) for n, m in p['state']]
        if p['observe']: a['observe_at'] = p['observe']
        a['hook_needed'] = None
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'], anchors=a), ensure_ascii=False) + '\n')
m = dict(version=1, setup_cmd='bash setup.sh',
         hooks=dict(guard='none', enable='no hooks: /repo is built as it is, through a path dependency of /verif/harness', source_commits=[]),
         checks=[dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'], thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                      evidence_file='evidence/%s.json' % p['id'], technique=p.get('technique', TECHNIQUE), level='model_checking',
                      level_note=(NOTE + ' Bounds: ' + p['bounds'] + (' ' + p['note'] if p['note'] else ''))) for p in PROPS.values() if p['id'] not in NOT_APPLICABLE],
         not_applicable=[dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()])
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
for p in PROPS.values(): assert len(p['title']) <= 80, p['title']; assert p['statement'].count('. ') <= 2, p['id']
