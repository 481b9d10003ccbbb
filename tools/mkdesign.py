"""Regenerates the lists of DESIGN.md between <!-- begin NAME --> and <!-- end NAME --> lines: properties, defects, seeds.

The table of planted changes takes what caught each from the output of tools/seeds.py, given as argument (without it the
table is left as it is)."""
import json
import os
import re
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import registry


def fill(text, name, body):
    a, b = '<!-- begin %s -->\n' % name, '<!-- end %s -->' % name
    i, j = text.index(a) + len(a), text.index(b)
    return text[:i] + body + text[j:]


def main():
    path = os.path.join(ROOT, 'DESIGN.md')
    text = open(path).read()
    titles = {}
    for l in open(os.path.join(ROOT, 'properties.jsonl')):
        d = json.loads(l)
        titles[d['id']] = d['title']
    text = fill(text, 'properties', ''.join(
        '- **%s %s.** %s (`spec/%s.py`%s)\n' % (p, titles[p], s['explanation'], s['specs'][0],
                                               ', `rules/portability.py`' if p == 'C38' else '')
        for p, s in sorted(registry.PROPS.items())))
    fixes = []
    for l in open(os.path.join(ROOT, 'known_findings.jsonl')):
        if l.startswith('{'):
            d = json.loads(l)
            if d['status'] == 'fixed':
                fixes.append((d['property'], d['commit'][:12], re.sub(r'^fixed: property=\S+ \S+ ', '', d['what'])))
    text = fill(text, 'defects', ''.join('- %s %s: %s\n' % f for f in sorted(fixes)))
    if len(sys.argv) > 1:
        rows = ''
        for l in open(sys.argv[1]):
            m = re.match(r'(\S+) (\S+) exit=(\S+)\s*(.*?)(?: \[(\w+)\].*)?$', l.rstrip())
            meta = json.load(open(os.path.join(ROOT, 'seeded', m.group(1), 'meta.json')))
            caught = 'caught: %s (`%s`)' % (m.group(4), m.group(5)) if m.group(3) == '1' else 'NOT caught'
            rows += '| %s | %s | %s | %s | %s |\n' % (m.group(1), m.group(2), meta['what_it_breaks'], meta['needs'], caught)
        text = fill(text, 'seeds', '| id | property | breaks | needs | check |\n|---|---|---|---|---|\n' + rows)
    open(path, 'w').write(text)


if __name__ == '__main__':
    main()
