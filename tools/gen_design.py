#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (between the headings 6 and 7); caught.json is kept by hand."""
import json,os,re
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t='Each is kept in `seeded/<id>` (patch, demonstration, description). "caught" is the quick check of its property.\n\n| planted bug | property | needs | breaks | caught by |\n|---|---|---|---|---|\n'
caught=json.load(open(here+'/tools/caught.json'))
for s in sorted(os.listdir(here+'/seeded')):
    m=json.load(open(here+'/seeded/'+s+'/meta.json'))
    t+='| %s | %s | %s | %s | %s |\n'%(s,m['property'],m['needs'].replace('|','\\|'),m['what_it_breaks'].replace('|','\\|'),caught.get(s,'(not run)'))
d=open(here+'/DESIGN.md').read()
d=re.sub(r'## 6 Planted bugs\n.*?## 7 ',lambda m:'## 6 Planted bugs\n\n'+t+'\n## 7 ',d,flags=re.S)
open(here+'/DESIGN.md','w').write(d)
