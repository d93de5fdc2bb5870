"""Rewrites the table of planted bugs at the end of DESIGN.md.

tools/caught.txt: one line `id property rc seconds` per bug, the result of the quick check of its property against it."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def main():
    res = {}
    for line in open(os.path.join(HERE, 'caught.txt')):
        w = line.split()
        if len(w) >= 3:
            res[w[0]] = w[2]
    out = ['| bug | property | needs | breaks | caught by |', '| --- | --- | --- | --- | --- |']
    for i in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
        m = json.load(open(os.path.join(ROOT, 'seeded', i, 'meta.json')))
        out.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['needs'], m['what_it_breaks'], {'rc=1': m['property'], 'rc=0': 'missed'}.get(res.get(i), 'not run')))
    p = os.path.join(ROOT, 'DESIGN.md')
    s = open(p).read()
    s = s[:s.index('<!-- table -->')] + '<!-- table -->\n' + '\n'.join(out) + '\n'
    open(p, 'w').write(s)


main()
