"""DESIGN.md from tools/doc, the registry, the evidence of the last run and the planted bugs."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    m = json.load(open(V + '/MANIFEST.json'))
    props = {}
    for l in open(V + '/properties.jsonl'):
        d = json.loads(l)
        props[d['id']] = d
    out = [open(V + '/tools/doc/head.md').read()]
    for c in sorted(m['checks'], key=lambda c: c['property']):
        p = c['property']
        e = json.load(open('%s/evidence/%s.json' % (V, p)))
        cov = e['coverage']
        d = props[p]
        out.append('### %s %s\n\n' % (p, d['title']))
        out.append('- *Analysed:* %s; %d functions including inlined ones, %d obligations, %.1f s.\n' % ('; '.join('%s (`%s`)' % (x['name'], x['where']) for x in d['anchors']['mechanism']), cov['functions_analysed'], cov['obligations'], e['wall_s']))
        out.append('- *How:* %s.\n' % c['technique'])
        out.append('- *Rules:* ' + '; '.join(cov['rules'].values()) + '.\n')
        if c.get('level_note'):
            out.append('- *Bounds:* %s.\n' % c['level_note'].rstrip('.'))
        out.append('- *Beyond tests:* %s\n\n' % d['why_tests_cant'])
    for x in m['not_applicable']:
        out.append('### %s %s\n\nNot applicable: %s\n\n' % (x['property'], props[x['property']]['title'], x['reason']))
    out.append('## 5. Findings, fixes and planted bugs\n\nDefects found by the checks and fixed in `/repo`:\n\n')
    for l in open(V + '/known_findings.txt'):
        if l.strip() and not l.startswith('#'):
            out.append('- `%s`\n' % l.strip())
    out.append('\nPlanted bugs (`seeded/`), written from the property text, with a demonstration each:\n\n| bug | property | breaks | needs | result |\n|---|---|---|---|---|\n')
    res = {}
    f = V + '/tools/doc/seeded_results.json'
    if os.path.exists(f):
        res = json.load(open(f))
    for b in sorted(os.listdir(V + '/seeded')):
        s = json.load(open('%s/seeded/%s/meta.json' % (V, b)))
        n = s['needs'] if isinstance(s['needs'], str) else ', '.join(s['needs'])
        out.append('| %s | %s | %s | %s | %s |\n' % (b, s['property'], s['what_it_breaks'], n, res.get(b, 'not run')))
    out.append(open(V + '/tools/doc/tail.md').read())
    open(V + '/DESIGN.md', 'w').write(''.join(out))


if __name__ == '__main__':
    main()
