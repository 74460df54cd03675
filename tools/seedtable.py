"""Rewrites the list of planted bugs at the end of DESIGN.md (missed ones are named in tools/missed.txt)."""
import glob, json, os, textwrap
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = set()
p = os.path.join(here, 'tools', 'missed.txt')
if os.path.exists(p):
    missed = set(open(p).read().split())
by = {}
for m in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
    by.setdefault(json.load(open(m))['property'], []).append(os.path.basename(os.path.dirname(m)))
n = sum(map(len, by.values()))
out = ['## 6. Planted bugs', '', textwrap.fill('%d changes in seeded/, each with a demonstration. Listed under the property they break, whose quick check catches them, except %s.' % (n, ', '.join(sorted(missed)) or 'none'), 118), '']
for k in sorted(by):
    out.append(textwrap.fill('* %s: %s' % (k, ', '.join(x.split('-', 1)[1] for x in by[k])), 118, subsequent_indent='  '))
out += ['', 'About a quarter of each new batch was missed at first; what was added for them: templates 19 to 46, the recursive',
        'entry grammar, holes of several bytes, padding to 64 KiB, several files and modes, hidden and linked roots, wrapped',
        'read errors, names derived from the text in C32, long, wide and deep surroundings, every name of the tables, a formatting with other settings before the one under test.', '']
d = os.path.join(here, 'DESIGN.md')
s = open(d).read()
i = s.find('## 6. Planted bugs')
if i < 0:
    i = s.index('SEEDTABLE')
open(d, 'w').write(s[:i] + '\n'.join(out))
