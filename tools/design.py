"""Writes DESIGN.md from tools/design/*.md, the harness registry, known_findings.json and seeded/*/meta.json.
Costs are those of the evidence files present (quick tier)."""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from engine import registry                       # noqa: E402

D = os.path.join(HERE, 'tools', 'design')


def read(f):
    with open(os.path.join(D, f)) as h:
        return h.read()


def main():
    registry.load_all()
    with open(os.path.join(HERE, 'properties.jsonl')) as f:
        props = [json.loads(l) for l in f]
    notes, cur = {}, None
    for l in read('notes.md').splitlines(True):
        m = re.match(r'^## (C\d\d)', l)
        if m:
            cur = m.group(1)
            notes[cur] = ''
        elif cur:
            notes[cur] += l
    out = [read('head.md'), '''
## 3. Per property

Each entry: the oracle the code is compared with, the harnesses with their bounds (instances quick + thorough extra), the cost
of the quick check on 8 cores.  The instances are the parameter dicts in `harness/*.py`; the evidence file of a run lists
every one of them.
''']
    for p in props:
        i = p['id']
        out.append('\n### %s %s\n\n%s\n\n' % (i, p['title'], notes[i].strip()))
        for h in registry.REG[i]:
            out.append('- `%s` (%d + %d): %s\n' % (h.name, len(h.quick), len(h.thorough), ' '.join(h.bounds.split())))
        ev = os.path.join(HERE, 'evidence', i + '.json')
        if os.path.exists(ev):
            with open(ev) as f:
                e = json.load(f)
            c = e['coverage']
            if e['tier'] == 'quick':
                out.append('\nQuick: %d instances, %d assertions, about %d s.\n' %
                           (c['instances'], c['assertions_discharged'], max(1, round(e['wall_s']))))
    with open(os.path.join(HERE, 'known_findings.json')) as f:
        kf = json.load(f)
    out.append('\n## 4. Defects found in filterpy\n\nAll repaired by minimal `fix:` commits in /repo (the 74 stable tests pass); '
               'known findings left unrepaired: %d.\n\n' % len(kf['findings']))
    for k in kf['findings']:
        out.append('- finding %s: %s\n' % (k['property'], k['what']))
    for k in kf['fixed']:
        out.append('- %s\n' % k.replace('fixed: ', '', 1).replace('property=', ''))
    out.append('\n' + read('tail.md'))
    out.append('\n## 7. Planted bugs\n\nEach was written from a property\'s text and the code, verified to pass the 74 tests, and to fail '
               'its demonstration.  "caught" = the quick check of that property exits 1 with its VIOLATION line.\n\n'
               '| id | property | what it breaks | needs | caught |\n|---|---|---|---|---|\n')
    misses = json.loads(read('misses.json')) if os.path.exists(os.path.join(D, 'misses.json')) else {}
    S = os.path.join(HERE, 'seeded')
    for b in sorted(os.listdir(S)):
        with open(os.path.join(S, b, 'meta.json')) as f:
            m = json.load(f)
        out.append('| %s | %s | %s | %s | %s |\n' % (b, m['property'], m['what_it_breaks'], m['needs'],
                                                    misses.get(b, 'yes')))
    out.append('\n' + read('end.md'))
    with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
        f.write(''.join(out))


main()
