"""Single source of properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, level='other', note='', na=None):
    P.append((id, title, statement, over, text, why, files, mech, technique, level, note))
    if na:
        NA.append({'property': id, 'reason': na})


AI = 'abstract interpretation of the bytecode (own dataflow engine)'
exec(open(os.path.join(HERE, 'tools', 'props_data.py')).read())

if __name__ == '__main__':
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for id, title, st, over, text, why, files, mech, tech, level, note in P:
            assert len(title) <= 80, title
            f.write(json.dumps({'id': id, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': text},
                                'why_tests_cant': why,
                                'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}}) + '\n')
    na = {n['property'] for n in NA}
    m = {'version': 1, 'setup_cmd': 'bash setup.sh',
         'checks': [{'property': p[0], 'quick_cmd': 'python3 check.py ' + p[0], 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p[0],
                     'technique': p[8], 'level': p[9], 'level_note': p[10]} for p in P if p[0] not in na],
         'not_applicable': NA}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
