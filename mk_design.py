"""Regenerates section 2 (from the checks' own rules) and section 5 (from seeded/*/meta.json and a results file given as
argument: lines 'id property rc') of DESIGN.md.  Not used by any check."""
import importlib, json, os, re, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.environ.get('JAJAPY_REPO', '/repo'), H]
D = os.path.join(H, 'DESIGN.md')
t = open(D).read()
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
why = dict(re.findall(r"### (C\d\d) .*?\*Why enumeration\.\* (.*?)\n\n", t, re.S))
new = json.load(open(sys.argv[2])) if len(sys.argv) > 2 else {}
why.update(new)
up = lambda s: s[0].upper() + s[1:]
sec = '## 2. Properties: what is enumerated, against which oracle, within which bounds\n\n'
for p in props:
    c = importlib.import_module('checks.' + p['id']).CHECK
    sec += '### %s %s\n\n*Enumerated and compared.* %s\n\n*Assumptions.* %s.\n\n*Why enumeration.* %s\n\n' % (p['id'], p['title'], up(c.rule), '; '.join(c.assumptions) or 'none', why[p['id']])
a, b = t.index('## 2. '), t.find('## 3. ')
t = t[:a] + sec + (t[b:] if b > 0 else '')
if len(sys.argv) > 1 and os.path.exists(sys.argv[1]):
    res = {}
    for l in open(sys.argv[1]):
        w = l.split()
        if len(w) >= 4 and w[2] == 'rc':
            res[w[0]] = (w[1], w[3])
    rows = []
    for i in sorted(os.listdir(os.path.join(H, 'seeded'))):
        m = json.load(open(os.path.join(H, 'seeded', i, 'meta.json')))
        rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'], 'yes' if res.get(i, (0, 0))[1] == '1' else 'no'))
    k = t.find('## 5. ')
    t = (t[:k] if k > 0 else t.rstrip() + '\n\n') + '## 5. Planted bugs and the checks that catch them\n\nEach passes the stable tests; its demonstration passes on the tree and fails with it. "Caught" is the quick check of the property named.\n\n| bug | property | needs | caught |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n'
open(D, 'w').write(t)
