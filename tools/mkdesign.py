"""Writes DESIGN.md from its hand-written parts, the known findings and the planted bugs."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(V, 'tools')
out = [open(os.path.join(T, 'DESIGN.head.md')).read().rstrip(), '',
       '## 3. Genuine defects found (all repaired, `known_findings.jsonl`)',
       'Every one was reported by the check named, confirmed on the real code, and repaired by one `fix:` commit.', '']
for l in open(os.path.join(V, 'known_findings.jsonl')):
    l = l.strip()
    if l.startswith('fixed: property='):
        p, c, what = l[len('fixed: property='):].split(' ', 2)
        out.append('* %s, %s: %s' % (p, c, what))
out += ['', '## 4. Planted bugs and the checks that catch them',
        'Each is in `seeded/<id>/`, written from the property text and the code, confirmed to build, to pass the stable '
        'tests and to fail its demonstration. "Caught by" is the property whose check reports it '
        '(others usually report it too).', '',
        '| id | property | needs | breaks | caught by |', '|---|---|---|---|---|']
missed = json.load(open(os.path.join(T, 'missed.json'))) if os.path.exists(os.path.join(T, 'missed.json')) else {}
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json')), key=lambda d: (json.load(open(d))['property'], d)):
    m = json.load(open(d))
    sid = os.path.basename(os.path.dirname(d))
    out.append('| %s | %s | %s | %s | %s |' % (sid, m['property'], m['needs'], m['what_it_breaks'], missed.get(sid, m['property'])))
out += ['', open(os.path.join(T, 'DESIGN.tail.md')).read().rstrip(), '']
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
