#!/usr/bin/env python3
"""fixed.py PROP HASH TEXT: record a repair."""
import json,sys
p='/verif/known_findings.json'
k=json.load(open(p)); k['fixed'].append(f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}")
open(p,'w').write(json.dumps(k,indent=1,ensure_ascii=False)+"\n")
