#!/usr/bin/env python3
"""Rewrites the two tables of DESIGN.md (between <!--X--> and <!--/X-->) from known-findings.txt and seeded/*/meta.json."""
import json, glob, re, os
D='/verif/DESIGN.md'; s=open(D).read()
fx=[l[len('fixed: property='):].strip().split(' ',2) for l in open('/verif/known-findings.txt') if l.startswith('fixed:')]
kn=[re.match(r'known: property=(\S+) sig=<<(.*?)>> (.*)',l) for l in open('/verif/known-findings.txt') if l.startswith('known:')]
t='| property | commit | what failed |\n|---|---|---|\n'+''.join(f'| {a} | {b} | {c} |\n' for a,b,c in sorted(fx))
t+='\nRecorded rather than repaired (KNOWN-FINDING):\n\n'+''.join(f'* {m[1]}: {m[3]}\n' for m in kn)
u='| seed | property | needs | breaks | caught by |\n|---|---|---|---|---|\n'
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    j=json.load(open(m)); u+=f"| {os.path.basename(os.path.dirname(m))} | {j['property']} | {j['needs']} | {j['what_it_breaks']} | {j.get('caught_by','?')} |\n"
for k,v in (('DEFECTS',t),('SEEDS',u)):
    s=re.sub(rf'<!--{k}-->.*?<!--/{k}-->',lambda _:f'<!--{k}-->\n{v}<!--/{k}-->',s,flags=re.S)
open(D,'w').write(s)
