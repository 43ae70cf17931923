"""Prints the table of the seeded changes for DESIGN.md."""
import glob
import json
import os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')
print('| change | caught by | needs | breaks |')
print('|---|---|---|---|')
for f in sorted(glob.glob(os.path.join(here, '*', 'meta.json'))):
    d = json.load(open(f))
    print('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), d['property'], d['needs'], d['what_it_breaks']))
