#!/usr/bin/env python3
# Prints the table of planted changes for DESIGN.md from seeded/*/meta.json.
import json,glob,os,re
print("| planted change | property | what it breaks | needs |\n|---|---|---|---|")
for m in sorted(glob.glob(os.path.join(os.path.dirname(__file__),'..','seeded','*','meta.json'))):
    d=json.load(open(m)); n=os.path.basename(os.path.dirname(m))
    f=lambda s: re.sub(r'\s+',' ',str(s)).replace('|','/')
    print(f"| {n} | {d['property']} | {f(d['what_it_breaks'])} | {f(d['needs'])} |")
