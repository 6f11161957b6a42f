#!/usr/bin/env python3
# puts the tables of planted bugs and repaired defects into DESIGN.md, between their markers
import json,glob,os,re
V='/verif'
rows=[]
for d in sorted(glob.glob(V+'/seeded/*')):
    m=json.load(open(d+'/meta.json')); rows.append('| %s | %s | %s | %s |'%(os.path.basename(d),m['property'],m['needs'].replace('|','\\|').replace('\n',' '),m['what_it_breaks'].replace('|','\\|').replace('\n',' ')))
seeds='| planted bug | caught by | needs | breaks |\n|---|---|---|---|\n'+'\n'.join(rows)
fx={}
for l in open(V+'/known-findings.txt'):
    m=re.match(r'fixed: property=(\S+) (\S+) (.*)',l)
    if m: fx.setdefault(m[1],[]).append('%s (%s)'%(m[3].strip(),m[2]))
fixed='\n'.join('* **%s** — %s.'%(k,'; '.join(v)) for k,v in sorted(fx.items()))
p=V+'/DESIGN.md'; s=open(p).read()
for k,t in (('SEEDS',seeds),('FIXED',fixed)):
    s=re.sub(r'(<!-- %s -->\n).*?(<!-- /%s -->)'%(k,k),lambda m:m[1]+t+'\n'+m[2],s,flags=re.S)
open(p,'w').write(s)
