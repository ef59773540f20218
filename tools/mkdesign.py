# fills the table of planted bugs in DESIGN.md
import json,os,re
d='/verif/seeded'; rows=['| change | property | needs |','|---|---|---|']
for i in sorted(os.listdir(d)):
    m=json.load(open(f'{d}/{i}/meta.json')); rows.append('| `%s` | %s | %s |'%(i,m['property'],m['needs'].replace('|','/')))
p='/verif/DESIGN.md'; s=open(p).read()
t='<!--seeds-->\n'+'\n'.join(rows)+'\n<!--/seeds-->'
s=re.sub(r'SEEDTABLE|<!--seeds-->.*?<!--/seeds-->',lambda m:t,s,flags=re.S)
open(p,'w').write(s)
