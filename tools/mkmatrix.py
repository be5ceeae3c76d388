#!/usr/bin/env python3
"""mkmatrix.py < DESIGN template: replace the matrix between the markers with one made from seeded/*/meta.json."""
import glob,json,os,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=['<!-- matrix -->','| bug | caught by | what it breaks | needs |','|---|---|---|---|']
for f in sorted(glob.glob(root+'/seeded/*/meta.json')):
    d=json.load(open(f)); rows.append('| %s | %s | %s | %s |'%(f.split('/')[-2],d['property'],d['what_it_breaks'],d['needs']))
rows.append('<!-- /matrix -->')
p=root+'/DESIGN.md'; s=open(p).read(); t='\n'.join(rows)
if '@@MATRIX@@' in s: s=s.replace('@@MATRIX@@',t)
else: s=re.sub(r'<!-- matrix -->.*?<!-- /matrix -->',lambda m:t,s,flags=re.S)
open(p,'w').write(s)
