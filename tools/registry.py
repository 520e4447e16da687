"""Single source of properties.jsonl and of the checks in MANIFEST.json (run: python3 tools/registry.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, technique='', note='', na=None):
    assert len(title) <= 80, title
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism]}
    if state:
        a['state'] = [{'name': n, 'meaning': m} for n, m in state]
    if observe:
        a['observe_at'] = observe
    PROPS.append({'rec': {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a},
                  'technique': technique, 'note': note, 'na': na})





def main():
    exec(compile(open(os.path.join(ROOT, 'tools', 'properties.py')).read(), 'properties.py', 'exec'), {'prop': prop})
    PROPS.sort(key=lambda p: p['rec']['id'])
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p['rec']) + '\n')
    checks, na = [], []
    for p in PROPS:
        i = p['rec']['id']
        if os.path.exists(os.path.join(ROOT, 'analysis', 'props', i.lower() + '.py')) and not p['na']:
            checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s' % i,
                           'evidence_file': 'evidence/%s.json' % i, 'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
        else:
            na.append({'property': i, 'reason': p['na'] or 'no static check built yet'})
    m = {'version': 1, 'setup_cmd': 'python3 check.py setup', 'checks': checks, 'not_applicable': na,
         'notes': 'All checks are static analyses of the MIR that a rustc driver (driver/) extracts from /repo\'s working tree; see DESIGN.md. known_findings.txt lists defects that were repaired or are known.'}
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'not applicable')


if __name__ == '__main__':
    main()
