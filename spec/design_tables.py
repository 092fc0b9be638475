import json,os,glob
rows=['| seed | needs | breaks |','|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*')):
    m=json.load(open(d+'/meta.json'))
    rows.append('| %s (caught by %s) | %s | %s |'%(os.path.basename(d),m['property'],m['needs'].replace('|','/'),m['what_it_breaks'].replace('|','/')))
t=open('/verif/DESIGN.md').read()
import re
B='<!-- seeds -->\n'; E='<!-- /seeds -->'
body=B+'\n'.join(rows)+'\n'+E
if 'SEEDTABLE' in t: t=t.replace('SEEDTABLE',body)
else: t=re.sub(re.escape(B)+'.*?'+re.escape(E),lambda m:body,t,flags=re.S)
import sys
sys.path.insert(0,'/verif/spec'); import props
na=[p for p in props.PROPS if p['na']]
nb='<!-- na -->\n'+'\n'.join('* **%s %s.** %s'%(p['id'],p['title'],p['na']) for p in na)+'\n<!-- /na -->'
if 'NATABLE' in t: t=t.replace('NATABLE',nb)
else: t=re.sub('<!-- na -->\n.*?<!-- /na -->',lambda m:nb,t,flags=re.S)
open('/verif/DESIGN.md','w').write(t)
