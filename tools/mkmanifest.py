#!/usr/bin/env python3
"""writes MANIFEST.json from the list of claimed checks below"""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SER="generated suites run with the real framework, every node body logged; event log and report compared with an independent reference model"
CH=[
("C01",SER,"exploration","serial runs of randomly generated suites (all node kinds, 4 nesting levels); order of every body compared"),
("C02",SER,"exploration","generated suites biased to failures in setup and to cleanups registered from everywhere"),
("C03",SER,"exploration","report conservation: one report per spec with the state the model derives, totals, exit status"),
("C04",SER,"exploration","every scripted failure must appear as failure or additional failure with message, location and kind"),
("C05",SER,"exploration","ordered containers with BeforeAll/AfterAll/OncePerOrdered, failures at every point"),
("C07",SER,"exploration","focus/pending/text/file/label filters in every combination, selection compared with the model"),
("C09",SER,"exploration","FlakeAttempts and MustPassRepeatedly in every nesting, attempts compared"),
("C16",SER,"exploration","AbortSuite and --fail-fast at every kind of node"),
("C33",SER,"exploration","Report* nodes: invocation, order, and the content of the report they receive"),
("C34",SER,"exploration","BeforeSuite/AfterSuite/Synchronized*Suite outcomes and what they gate"),
]
exec(open(os.path.join(V,"tools","more_checks.py")).read()) if os.path.exists(os.path.join(V,"tools","more_checks.py")) else None
NA=[]
m={"version":1,"setup_cmd":"./setup.sh",
 "checks":[{"property":p,"quick_cmd":f"./check.sh {p} quick","thorough_cmd":f"./check.sh {p} thorough","technique":"runtime monitoring: "+t,"level":l,"level_note":n} for p,t,l,n in sorted(CH)],
 "not_applicable":NA}
json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
