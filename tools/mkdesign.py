"""Writes DESIGN.md from tools/design_head.md, the rules of the checks, the
table of seeded changes (tools/caught.json) and tools/design_tail.md."""
import json
import os

import mkmanifest

HERE = mkmanifest.HERE


def facets(i):
    with open(os.path.join(HERE, 'pbt', 'checks', i.lower() + '.py')) as f:
        text = f.read()
    import re
    return re.findall(r"Facet\(\s*'([^']+)'", text), re.findall(r'quick=(\d+)', text), \
        re.findall(r'thorough=(\d+)', text)


def read(name):
    with open(os.path.join(HERE, 'tools', name)) as f:
        return f.read().rstrip()


def main():
    out = [read('design_head.md'), '', '## The properties', '']
    why = json.loads(read('why.json'))
    with open(os.path.join(HERE, 'properties.jsonl')) as f:
        for line in f:
            p = json.loads(line)
            i = p['id']
            t = mkmanifest.texts(os.path.join(HERE, 'pbt', 'checks', i.lower() + '.py'))
            names, quick, thorough = facets(i)
            out.append('### %s %s' % (i, p['title']))
            out.append('')
            out.append('Generated and compared: ' + ' '.join(t['RULE'].split()))
            out.append('')
            out.append('Cases per run: %s (quick), %s for each of 8 workers (thorough), in the '
                       'facets %s.' % (' + '.join(quick), ' + '.join(thorough),
                                       ', '.join(names)))
            if t.get('ASSUMPTIONS'):
                out.append('Bounds and assumptions: ' + '; '.join(t['ASSUMPTIONS']) + '.')
            out.append('What the tests cannot reach: ' + why[i])
            out.append('')
    path = os.path.join(HERE, 'tools', 'caught.json')
    if os.path.exists(path):
        out += ['## Seeded changes and the checks that catch them', '',
                '| change | breaks | needs | caught by |', '|---|---|---|---|']
        for name, by in sorted(json.loads(read('caught.json')).items()):
            meta = os.path.join(HERE, 'seeded', name, 'meta.json')
            if not os.path.exists(meta):
                continue
            with open(meta) as f:
                m = json.load(f)
            out.append('| %s | %s | %s | %s |' % (
                name, m['property'], ' '.join(m['needs'].split()), ', '.join(by) or 'none'))
        out.append('')
    out.append(read('design_tail.md'))
    with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out) + '\n')


if __name__ == '__main__':
    main()
