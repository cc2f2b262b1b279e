"""Regenerates properties.jsonl and MANIFEST.json from the table below.  Run: python3 tools/gen.py"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=(), level='model_checking', note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  state=state, observe=observe, level=level, note=note))


exec(open(os.path.join(V, 'tools', 'props.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in p['state']],
                        'mechanism': [dict(zip(('name', 'where'), m)) for m in p['mech']],
                        'observe_at': list(p['observe']), 'hook_needed': None}}) + '\n')

checks = []
for p in P:
    src = open(os.path.join(V, 'mc', p['id'].lower() + '.py')).read()
    tech = re.search(r"technique = '([^']*)'", src) or re.search(r'technique = "([^"]*)"', src)
    checks.append({'property': p['id'], 'quick_cmd': './check ' + p['id'], 'thorough_cmd': './check {} thorough'.format(p['id']),
                   'evidence_file': 'evidence/{}.json'.format(p['id']),
                   'technique': 'model checking: ' + tech.group(1), 'level': p['level'], 'level_note': p['note']})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': [],
     'notes': 'No hooks: the checks copy /repo/simim into a scratch directory at the start of every run and drive the copy through its public interface; see DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(P), 'properties')
