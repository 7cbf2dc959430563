"""table of planted changes at the end of DESIGN.md"""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '## Planted changes\n'
LATE = set('''e01b e02a e03b e03c e09a e10b e15b e15c e19a e21c e21d f05a f12a
f12b f16a f21c g03 g06 g13 g19 g20b g22b g23c
h12b h12e h14a h14c h15a h15b h17a h17b h18c'''.split())
TEXT = '''
Each change below passes the stable tests and is caught by the quick check of
its property (exit 1, reproduced on the real code). Those marked * were missed
by the checks as they stood when the change was written, and led to the
harness or engine being extended (recorded from series e on; many of
the series c and d were missed at first as well). Changes that
break several properties are often caught by the checks of these as well;
only the check of the property they were written for is listed.

| change | caught by | needs |
|---|---|---|
'''

if __name__ == '__main__':
    p = os.path.join(HERE, 'DESIGN.md')
    s = open(p).read().split(MARK)[0].rstrip('\n') + '\n\n' + MARK + TEXT
    for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        i, m = os.path.basename(os.path.dirname(f)), json.load(open(f))
        s += '| %s%s | %s | %s |\n' % (
            i, '*' if i in LATE else '', m['property'],
            m['needs'].replace('|', '/'))
    open(p, 'w').write(s)
