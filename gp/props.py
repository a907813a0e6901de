"""Source of properties.jsonl and MANIFEST.json:  python3 gp/props.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, state=None, observe=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, state=state, observe=observe, na=na))

exec(open(os.path.join(V, 'gp', 'props_list.py')).read())

def main():
    P.sort(key=lambda p: p['id'])
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            assert len(set(x['id'] for x in P)) == len(P)
            a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
            for x in p['files']:
                assert os.path.exists('/repo/' + x), x
            if p['state']: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
            if p['observe']: a['observe_at'] = p['observe']
            a['hook_needed'] = None
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 gp/facts.py', 'checks': [], 'not_applicable': []}
    for p in P:
        if p['na']:
            m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
        else:
            c = 'python3 gp/check.py ' + p['id']
            m['checks'].append({'property': p['id'], 'quick_cmd': c, 'thorough_cmd': c, 'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
    m['notes'] = 'One fact base (tool/gpx.cpp, gp/facts.py) is extracted from /repo with the installed clang libraries and cached by content hash under /verif/.cache; every check re-hashes /repo and re-extracts what changed. Quick and thorough are the same exhaustive pass: the analyses enumerate every construct of their kind.'
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
main()
