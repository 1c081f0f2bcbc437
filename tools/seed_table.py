# rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json
import json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res=json.load(open(V+'/tools/seed_results.json'))
rows=[]
for i in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(f'{V}/seeded/{i}/meta.json'))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {res.get(i,'?')} |")
d=open(V+'/DESIGN.md').read()
d=re.sub(r'\n## 6\. Planted changes.*','',d,flags=re.S).rstrip()+'\n'
d+='''
## 6. Planted changes
Each was written from the property and the code, builds, passes the stable tests and has a demonstration. The last column
tells which check (quick) reports it; "after ..." names what was strengthened because it was missed at first.

Besides, machine-made changes were used to find gaps: single operators, constants, conditions and assignments of the
keeper code changed one at a time, and every field of every announcement blanked. Those which no check reported were
read one by one; what was not equivalent led to `bundle-spread`, the announcements of lists with abstentions and of a
second team account, and the stronger genesis and announcement checks.

| change | property | what it breaks | caught by |
|---|---|---|---|
'''+'\n'.join(rows)+'\n'
open(V+'/DESIGN.md','w').write(d)
