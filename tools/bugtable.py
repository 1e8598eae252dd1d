"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALSO = {'C06-unstable': 'C06, C04', 'C29-oblique': 'C29, C22', 'C09-buffer': 'C09, C10'}


def main():
    path = os.path.join(HERE, 'DESIGN.md')
    with open(path) as f:
        text = f.read()
    head = text[:text.index('## Planted bugs')]
    rows = []
    for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*'))):
        with open(os.path.join(d, 'meta.json')) as f:
            meta = json.load(f)
        with open(os.path.join(d, 'patch.diff')) as f:
            files = [line[6:].strip() for line in f if line.startswith('+++ b/')]
        name = os.path.basename(d)
        rows.append('| %s | %s | %s | %s |' % (name, ', '.join(x.replace('spectralDNS/', '') for x in files), meta['needs'].replace('|', '/'),
                                               ALSO.get(name, meta['property'])))
    with open(path, 'w') as f:
        f.write(head + '## Planted bugs\n\nEvery one passes the stable tests, its demonstration fails with it and passes without, and the quick checks in the last column\n'
                'report it (`tools/bugtable.py` writes this table).\n\n| id | file | what it needs | caught by |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n')


if __name__ == '__main__':
    main()
