"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '<!-- seedtable -->'


def main():
    rows = {}
    for p in sorted(glob.glob(HERE + '/seeded/*/meta.json')):
        with open(p) as f:
            m = json.load(f)
        rows.setdefault(m['property'], []).append(
            (os.path.basename(os.path.dirname(p)), m['needs']))
    n = sum(map(len, rows.values()))
    out = ['%s\n%d bugs are planted; each is caught by the quick check of '
           'the property named\n(`tools/plant.py verify`).\n\n'
           '| property | bug | needs |\n|----|----|----|\n' % (MARK, n)]
    for prop in sorted(rows):
        for bug, needs in rows[prop]:
            out.append('| %s | %s | %s |\n' % (
                prop, bug, needs.replace('|', '/').replace('\n', ' ')))
    path = HERE + '/DESIGN.md'
    with open(path) as f:
        text = f.read()
    with open(path, 'w') as f:
        f.write(text[:text.index(MARK)] + ''.join(out))


if __name__ == '__main__':
    main()
