#!/usr/bin/env python3
# development aid: mkseed(name, prop, needs, breaks, edits, demo) writes seeded/NAME/{patch.diff,meta.json,demo.sh}
import subprocess, json, os
R="/repo"
DEMO_HEAD='''#!/bin/bash
# run in /repo after the build
B=$PWD/_build/lttoolbox
D=$(cd "$(dirname "$0")" && pwd)
export LC_ALL=C.UTF-8 LD_LIBRARY_PATH=$B
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cd "$T" || exit 2
'''
def mkseed(name, prop, needs, breaks, edits, demo, files={}):
    assert not subprocess.run(["git","-C",R,"status","--porcelain","--untracked-files=no"],capture_output=True,text=True).stdout.strip()
    try:
        for f,a,b in edits:
            p=os.path.join(R,"lttoolbox",f); s=open(p).read(); assert s.count(a)==1,(name,f,a,s.count(a)); open(p,"w").write(s.replace(a,b))
        d=subprocess.run(["git","-C",R,"diff"],capture_output=True,text=True).stdout
    finally:
        subprocess.run(["git","-C",R,"checkout","-q","--","."])
    o="/verif/seeded/"+name; os.makedirs(o,exist_ok=True)
    open(o+"/patch.diff","w").write(d)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(o+"/meta.json","w"),indent=1)
    open(o+"/demo.sh","w").write(DEMO_HEAD+demo.lstrip("\n"))
    for k,v in files.items(): open(o+"/"+k,"w").write(v)
