import json, os
from catalog import P
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, V + '/sa')


def technique(id):
    for line in [open('%s/sa/props/%s.py' % (V, id.lower())).read()]:
        ns = {}
        i = line.index('TECHNIQUE')
        j = line.index('\n\n', i)
        exec(line[i:j], ns)
        return ns['TECHNIQUE']


with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(q['title']) <= 80, q['title']
        f.write(json.dumps(q) + '\n')
checks, na = [], []
for p in P:
    if p['na']:
        na.append(dict(property=p['id'], reason=p['na']))
    else:
        checks.append(dict(property=p['id'], quick_cmd='python3 sa/check.py ' + p['id'], thorough_cmd='python3 sa/check.py %s --thorough' % p['id'],
                           technique=technique(p['id']), level=p['level'], level_note=p['note']))
json.dump(dict(version=1, setup_cmd='python3 sa/extract.py', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
