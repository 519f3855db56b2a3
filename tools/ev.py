#!/usr/bin/env python3
"""Prints a one-line summary per harness of an evidence file."""
import json,sys,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for p in sys.argv[1:]:
    d=json.load(open(f'{V}/evidence/{p}.json'));c=d['coverage']
    for k,v in c['harnesses'].items(): print(k,v['executions'],v['transitions'],f"{v['complete_shards']}/{v['shards']}")
    print(list(c['outcomes'].items())[:40], 'wall',d['wall_s'])
