#!/opt/venv/bin/python
"""seedtable.py: the table of planted bugs for DESIGN.md, from seeded/*/meta.json"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + '/harness')
from check import PARTS
print('| bug | caught by check | through | needs | breaks |\n|---|---|---|---|---|')
for i in sorted(os.listdir(ROOT + '/seeded')):
    m = json.load(open(f'{ROOT}/seeded/{i}/meta.json'))
    print(f'| {i} | {m["property"]} | {", ".join(x for x, _ in PARTS[m["property"]])} | {m["needs"]} | {m["what_it_breaks"]} |')
