#!/usr/bin/env python3
"""finding.py PROP WHAT INPUT MESSAGE: record a known finding (by hand, never from a check)."""
import json,sys
p='/verif/known_findings.json'
k=json.load(open(p)); k['findings'].append(dict(property=sys.argv[1],what=sys.argv[2],input=sys.argv[3],message=sys.argv[4]))
open(p,'w').write(json.dumps(k,indent=1,ensure_ascii=False)+"\n")
