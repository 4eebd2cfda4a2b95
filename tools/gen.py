"""writes properties.jsonl and MANIFEST.json from spec.py"""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import spec

VERIF = os.path.dirname(HERE)
with open(VERIF + '/properties.jsonl', 'w', encoding='utf-8') as f:
    for p in spec.PROPS:
        assert len(p['title']) <= 80, p['id']
        d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=p['mechanism']))
        if p['observe']:
            d['anchors']['observe_at'] = p['observe']
        f.write(json.dumps(d, ensure_ascii=False) + '\n')
checks, na = [], []
for p in spec.PROPS:
    i = p['id']
    if p['technique'] and os.path.exists('%s/tgsa/props/%s.py' % (VERIF, i.lower())):
        checks.append(dict(property=i, quick_cmd='python3 -m tgsa.check %s' % i,
                           thorough_cmd='python3 -m tgsa.check %s --tier thorough' % i,
                           technique=p['technique'], level='other', level_note=p['note']))
    else:
        na.append(dict(property=i, reason=spec.NOT_APPLICABLE.get(i, 'No check has been built yet.')))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na)
with open(VERIF + '/MANIFEST.json', 'w', encoding='utf-8') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
