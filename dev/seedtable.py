"""Section 7 of DESIGN.md, from seeded/*/meta.json"""
import json, glob, collections, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = collections.defaultdict(list)
for f in glob.glob(here + '/seeded/*/meta.json'):
    by[json.load(open(f))['property']].append(f.split('/')[-2])
p = here + '/DESIGN.md'
s = open(p).read()
k = s.find('\n## 7. ')
if k >= 0:
    s = s[:k]
s = s.rstrip('\n') + '''

## 7. Planted bugs

Each was written from the text of its property, confirmed in a scratch copy (builds, the 68 tests pass, the demonstration fails with it and passes without),
and is kept in `seeded/<id>` (`dev/plant.py` makes and confirms them from `dev/seeds*.py`). Those that a check missed when first planted led to the
machinery of section 3 (directed sampling, sizes not reached, narrow types, tolerances, memoisation) and to further contracts; all of those
listed are caught now, by the quick command of the check named.

| check | catches |
|---|---|
'''
for c in sorted(by):
    s += '| %s | %s |\n' % (c, ', '.join('`%s`' % x for x in sorted(by[c])))
s += '\nBesides these, undoing each of the `fix:` commits is reported by the property that `known-findings.txt` names for it.\n'
open(p, 'w').write(s)
