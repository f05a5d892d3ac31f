#!/usr/bin/env python3
# prints the table of planted bugs for DESIGN.md from seeded/*/meta.json
import json, glob, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
print('| planted bug | property | what it breaks | needs |\n|---|---|---|---|')
for f in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(f)); print('| %s | %s | %s | %s |' % (f.split('/')[1], m['property'], m['what_it_breaks'].replace('|', '/').replace('\n', ' '), str(m['needs']).replace('|', '/').replace('\n', ' ')))
