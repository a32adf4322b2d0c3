"""Writes the table of planted bugs into DESIGN.md."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    name = os.path.join(HERE, 'DESIGN.md')
    with open(name) as fh:
        text = fh.read()
    rows = ['| id | property, caught by | needs |', '|---|---|---|']
    for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        with open(os.path.join(HERE, 'seeded', d, 'meta.json')) as fh:
            m = json.load(fh)
        rows.append('| %s | %s | %s |' % (d, m['property'], m['needs']))
    text = text[:text.index('<!-- seeds -->')] + '<!-- seeds -->\n' + \
        '\n'.join(rows) + '\n'
    with open(name, 'w') as fh:
        fh.write(text)


if __name__ == '__main__':
    main()
