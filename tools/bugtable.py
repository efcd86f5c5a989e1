#!/usr/bin/env python3
"""prints the rows of the table in DESIGN.md section 9 from seeded/*/meta.json"""
import json, glob, os, re
NOTES = {
 'b30': 'missed at first: texts of requests were too short; larger requests drawn',
 'b31': 'missed at first: a case in which everybody waits was not judged when one process was suspended',
 'b33': 'missed at first: files planted in the home directory were not seen (mapping of paths)',
 'b36': 'missed at first: a reference that waits for ever by itself was dropped; such calls are now "stuck" and still used',
 'b37': 'missed at first: no expansions with many terms; families 16 to 18 added',
 'b66': 'missed at first: variables asked for were discovered for libmgen only, not for the plot tests',
 'b71': 'missed at first (one run looked like a catch and was a false alarm); threads inside libmgen are now scheduled by the plan',
 'b74': 'strengthened before the first run: zero-length writes',
 'b78': 'strengthened before the first run: process ids that are in use again',
 'b90': 'strengthened before the first run: processes with one clock',
 'b96': 'strengthened before the first run: digits that differ by powers of two',
 'b98': 'strengthened before the first run: digits that differ by powers of two',
 'b101': 'strengthened before the first run: files that library calls ask for',
 'b137': 'strengthened before the first run: calls while thread data are destroyed',
 'b138': 'strengthened before the first run: calls while a panic unwinds',
 'b139': 'missed at first: `-f all` leaves sin_cos out',
 'b141': 'missed at first: no large arguments, watch of static data off, focus sets thinned out by variations',
 'b116': 'strengthened before the first run: several suspended threads',
}
here = os.path.dirname(os.path.abspath(__file__))
rows = []
for p in glob.glob(os.path.join(here, '..', 'seeded', '*', 'meta.json')):
    i = os.path.basename(os.path.dirname(p))
    m = json.load(open(p))
    rows.append((m['property'], int(re.sub(r'\D', '', i) or 0), i, m))
print('| bug | check | what it needs | note |')
print('|-----|-------|---------------|------|')
for prop, _, i, m in sorted(rows, key=lambda r: r[:3]):
    print('| %s | %s | %s | %s |' % (i, prop, ' '.join(m['needs'].split()).replace('|', '/'), m.get('note') or NOTES.get(i, '')))
