#!/usr/bin/env python3
"""tests.json vs the baseline list"""
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
base=b if isinstance(b,list) else b.get('passed') or b.get('stable') or b.get('tests')
m=set(base)-set(o['passed']); print(len(base),len(o['passed']),'missing',len(m),sorted(m)[:5])
sys.exit(bool(m))
