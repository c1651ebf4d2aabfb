import os,sys
d=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,d)
from table import PROPS, NOT_APPLICABLE
from oracles import ORACLE
out=[open(d+'/design_head.md').read()]
for p in sorted(PROPS,key=lambda p:p['id']):
    o=ORACLE[p['id']]
    out.append(f"### {p['id']} {p['title']}\n\n* Specified: {p['statement']}\n* Enumerated: {p['quant']}.\n* Oracle: {o[0]}\n* Method: {p['technique']}.\n* Cost: {o[1]}\n* Why tests do not reach it: {p['why']}\n* Limits: {p['note']}{(' '+o[2]) if len(o)>2 else ''}\n")
out.append(open(d+'/design_tail.md').read())
open(os.path.join(d,'..','DESIGN.md'),'w').write('\n'.join(out))
