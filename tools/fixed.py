#!/usr/bin/env python3
"""fixed.py PROP KEY 'what' COMMIT|HEAD : append a fixed entry to known_findings.json"""
import json,sys,subprocess,os
f=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'known_findings.json')
l=json.load(open(f)); p,k,w,c=sys.argv[1:]
c=subprocess.check_output(['git','-C','/repo','rev-parse',c],text=True).strip()
l.append({"record":"fixed: property=%s %s %s"%(p,c,w),"status":"fixed","property":p,"key":k,"commit":c,"what":w}); json.dump(l,open(f,'w'),indent=1); open(f,'a').write('\n')
