#!/usr/bin/env python3
"""addfind.py fixed PROP COMMIT WHAT | known PROP MATCH WHAT: appends to known_findings.json (by hand only; no check runs it)."""
import json,sys,os
p=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'known_findings.json')
d=json.load(open(p)); k,prop,x,what=sys.argv[1:5]
if k=='fixed': e={"property":prop,"status":"fixed","match":"","commit":x,"what":f"fixed: property={prop} {x} {what}"}
else: e={"property":prop,"status":"known","match":x,"commit":"","what":what}
d["findings"].append(e)
open(p,'w').write('{\n  "findings": [\n'+',\n'.join('    '+json.dumps(e,ensure_ascii=False) for e in d["findings"])+'\n  ]\n}\n')
