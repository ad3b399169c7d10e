#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md."""
import json
import pathlib
import re

ROOT = pathlib.Path(__file__).resolve().parent.parent
MARK = '<!-- planted bugs -->\n'


def files_of(path):
    return sorted(set(re.findall(r'^\+\+\+ b/(\S+)', path.read_text(),
                                 re.M)))


rows = []

for meta in sorted(ROOT.glob('seeded/*/meta.json')):
    data = json.loads(meta.read_text())
    names = ', '.join(name.split('/')[-1]
                      for name in files_of(meta.parent / 'patch.diff'))
    rows.append(f'| {meta.parent.name} | {names} | {data["needs"]} '
                f'| {data["property"]} |')

design = ROOT / 'DESIGN.md'
text = design.read_text().split(MARK)[0].rstrip('\n')
text += '\n\n' + MARK + '\n'
text += '| Bug | Changes | Needs | Caught by |\n|---|---|---|---|\n'
text += '\n'.join(rows) + '\n'
design.write_text(text)
print(len(rows))
