#!/usr/bin/env python3
# Writes the table of planted bugs into DESIGN.md.
import json,glob,re,sys
rows=['| id | property | what it breaks | needs |','|---|---|---|---|']
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); rows.append('| %s | %s | %s | %s |'%(f.split('/')[-2],m['property'],m['what_it_breaks'],m['needs']))
s=open('/verif/DESIGN.md').read()
t='\n'.join(rows)
if 'SEEDTABLE' in s: s=s.replace('SEEDTABLE',t)
else: s=re.sub(r'\| id \| property \| what it breaks.*?\n\n',lambda m:t+'\n\n',s,flags=re.S)
open('/verif/DESIGN.md','w').write(s)
