#!/usr/bin/env python3
"""mkcatch.py: rewrites the generated parts of DESIGN.md from seeded/, tools/missed.json and known-findings.txt"""
import json,os,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed=json.load(open(root+'/tools/missed.json'))
rows=['| planted bug | needs | caught by |','|---|---|---|']
n=0
for d in sorted(os.listdir(root+'/seeded')):
    m=json.load(open(root+'/seeded/%s/meta.json'%d)); n+=1
    r=missed.get(d,'')
    rows.append('| %s | %s | %s%s |'%(d,m['needs'].replace('|','\\|'),m['property'],' ('+r+')' if r else ''))
fixes=sum(1 for l in open(root+'/known-findings.txt') if l.startswith('fixed:'))
p=root+'/DESIGN.md'; s=open(p).read()
def put(tag,text):
    global s
    s=re.sub(r'(<!-- %s -->).*?(<!-- end -->)'%tag,lambda m:m.group(1)+text+m.group(2),s,flags=re.S)
put('catch','\n'+'\n'.join(rows)+'\n')
put('nfix',str(fixes)); put('nseed',str(n))
open(p,'w').write(s)
