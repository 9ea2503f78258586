#!/usr/bin/env python3
"""writes DESIGN.md: tools/design_head.md, then what each check does, the findings and the planted bugs"""
import json,os,re,sys
R=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
sys.path.insert(0,os.path.join(R,'tools'))
import props
P=[json.loads(l) for l in open(R+'/properties.jsonl')]
seen={}
sd=R+'/seeded'
caught=json.load(open(R+'/tools/caught.json')) if os.path.exists(R+'/tools/caught.json') else {}
bugs=[]
for d in sorted(os.listdir(sd)):
    m=json.load(open(f'{sd}/{d}/meta.json')); bugs.append((d,m))
o=open(R+'/tools/design_head.md').read()
o+="## The properties\n\n"
for p in P:
    i=p['id']; c=props.PROPS[i]
    o+=f"### {i} {p['title']}\n\n{p['statement']}\n\n"
    o+=f"*Decided by* {c['rule']}.\n\n*Bounds* quick: {c['bounds']['quick']}. thorough: also {c['bounds']['thorough']}.\n\n"
    o+=f"*Limits* {c['note']}.\n\n*Why tests cannot settle it* "
    o+=p['why_tests_cant']
    b=[d for d,m in bugs if m['property']==i]
    if b: o+="\n\n*Planted bugs* "+", ".join(b)
    o+="\n\n"
o+="## Findings\n\nGenuine defects that the checks found in libxmq/xmq. `fixed` ones are repaired by the named commit and suppress nothing; `known` ones\nare recorded in known_findings.txt and recognised by exactly the input described.\n\n"
for l in open(R+'/known_findings.txt'):
    if l.startswith(('known:','fixed:')): o+="* "+l
o+="\n## Planted bugs\n\nEach breaks a property, passes the tests and was written from the statement and the code (`seeded/`). Those which the\nchecks missed at first led to the phase in the last column.\n\n| bug | property | needs | checks that report it |\n|---|---|---|---|\n"
for d,m in bugs:
    o+=f"| {d} | {m['property']} | {m['needs']} | {caught.get(d,m['property'])} |\n"
open(R+'/DESIGN.md','w').write(o)
