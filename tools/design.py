#!/usr/bin/env python3
"""writes DESIGN.md from design_head.md, props.py, the harness headers, seeded/ and known_findings.txt"""
import glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(HERE + '/tools/oracles.py').read())
props = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
out = [open(HERE + '/tools/design_head.md').read().rstrip(), '', '## Properties', '']
for d in props:
    i = d['id']
    f = HERE + '/harness/%s.cpp' % i
    out.append('### %s %s' % (i, d['title']))
    out.append('')
    out.append(d['statement'])
    out.append('')
    if not os.path.exists(f):
        continue
    t = open(f).read()
    h = t.split('\n', 3)[:3]
    b = next((m.group(1) for l in h for m in [re.search(r'bounds="([^"]*)"', l)] if m), '')
    a = next((m.group(1) for l in h for m in [re.search(r'assume="([^"]*)"', l)] if m), '')
    hs = re.findall(r'^H\((\w+)\)', t, flags=re.M)
    modes = len(re.findall(r'^//@ .*mode=fp', t, flags=re.M))
    out.append('- **Oracle.** ' + ORACLE[i])
    out.append('- **Bounds.** ' + b + '.')
    if a:
        out.append('- **Assumed, left open.** ' + a + '.')
    out.append('- **Harnesses.** %d (%d bit-exact, %d exact-real): %s.' % (len(hs), modes, len(hs) - modes, ', '.join(hs)))
    out.append('- **Beyond the tests.** ' + d['why_tests_cant'])
    out.append('')
out.append('## Genuine defects found and repaired')
out.append('')
for l in open(HERE + '/known_findings.txt'):
    m = re.match(r'fixed: property=(\w+) (\w+) (.*)', l)
    if m:
        out.append('- %s `%s`: %s' % m.groups())
out.append('')
out.append('Known findings left in the code: ' + (', '.join(l.strip() for l in open(HERE + '/known_findings.txt') if l.startswith('known:')) or 'none') + '.')
out += ['', '## Planted bugs', '', '| id | property | needs | caught by |', '|---|---|---|---|']
for m in sorted(glob.glob(HERE + '/seeded/*/meta.json')):
    d = json.load(open(m))
    out.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'], d['needs'], d.get('caught_by', d['property'])))
out.append('')
open(HERE + '/DESIGN.md', 'w').write('\n'.join(out))
