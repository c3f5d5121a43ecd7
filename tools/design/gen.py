#!/usr/bin/env python3
"""Assembles DESIGN.md from head, the per-property methods, the last evidence files, tail and the planted bugs' meta.json"""
import json,os,re
D=os.path.dirname(os.path.abspath(__file__)); R=os.path.dirname(os.path.dirname(D))
import importlib.util
spec=importlib.util.spec_from_file_location('mech',D+'/mech.py'); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m); mech=m.m
text=open(D+'/design_head.md').read()
for l in open(R+'/properties.jsonl'):
    p=json.loads(l); f=f'{R}/evidence/{p["id"]}.json'
    text+=f'### {p["id"]} {p["title"]}\n\n{mech[p["id"]]}\n\n'
    if os.path.exists(f):
        ev=json.load(open(f)); c=ev['coverage']
        text+=f'Bound (quick): {c["bound"].replace(" (quick)","")}. {c["traces_validated_against_impl"]} executions, {c["transitions"]} steps, {c["states"]} observable states; {ev["wall_s"]-ev["build_s"]:.0f} s.\n\n'
tail=open(D+'/design_tail.md').read()
rows='| bug | caught by | needs |\n|---|---|---|\n'
for s in sorted(os.listdir(R+'/seeded')):
    j=json.load(open(f'{R}/seeded/{s}/meta.json')); rows+=f'| `{s}` | {j["property"]} | {j["needs"].replace("|","/")} |\n'
n=len([l for l in open(R+'/known_findings.txt') if l.startswith('fixed')])
tail=tail.replace('SEEDTABLE',rows.strip()).replace('NFIXED',str(n))
open(R+'/DESIGN.md','w').write(text+tail)
