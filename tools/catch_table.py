"""Rewrites the table of planted bugs in DESIGN.md (from seeded/*/meta.json)."""
import json
import pathlib

home = pathlib.Path(__file__).resolve().parent.parent
rows = []
for d in sorted((home / 'seeded').iterdir()):
  m = json.loads((d / 'meta.json').read_text())
  rows.append((m['property'], d.name, m['needs']))
table = ['| property | planted bug | needs |', '|---|---|---|']
table += [f'| {p} | {name} | {needs} |' for p, name, needs in sorted(rows)]
design = home / 'DESIGN.md'
text = design.read_text()
begin, end = '<!-- planted bugs -->\n', '<!-- end of planted bugs -->\n'
head, rest = text.split(begin)
tail = rest.split(end)[1]
design.write_text(head + begin + '\n'.join(table) + '\n' + end + tail)
