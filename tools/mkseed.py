#!/usr/bin/env python3
"""Developer tool: plant a bug and confirm it in a scratch copy.
usage: mkseed.py FILE...   each FILE is a python file defining S = dict(id=,property=,file=,edits=[(old,new),..],needs=,breaks=,demo=C++ source)
(or SS = list of these).  Writes /verif/seeded/<id>/ if: patch compiles, tests pass, demo passes without and fails with it."""
import sys, os, subprocess, shutil, json, tempfile
SW="/tmp/sw"
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def setup():
    if os.path.isdir(SW): shutil.rmtree(SW)
    os.makedirs(SW); sh("cp -a /repo %s/repo; cp -a /opt/vp %s/vp; cd %s/vp && sed -i 's#/opt/vp#%s/vp#g; s#/repo#%s/repo#g' *.sh *.py *.mk"%(SW,SW,SW,SW,SW))
DEMO='''#!/bin/bash
# exit 0 if the property holds on this input, nonzero otherwise
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=gnu++98 -O1 -g -w %s -I include -I "$d" "$d/demo.cpp" -o "$t/demo" || exit 3
cd "$t" && timeout 60 ./demo
'''
def demo(s,d): return sh("bash %s/demo.sh"%d,cwd=SW+"/repo")
def one(s):
    R=SW+"/repo"
    sh("git checkout -- .",cwd=R)
    d=tempfile.mkdtemp()
    open(d+"/demo.cpp","w").write(s['demo']); open(d+"/demo.sh","w").write(DEMO%s.get('flags',''))
    r=demo(s,d)
    if r.returncode!=0: print(s['id'],"FAIL demo on unchanged tree:",r.returncode,r.stdout[-600:],r.stderr[-1200:]); return
    for e in s['edits']:
        f,old,new=(e if len(e)==3 else (s['file'],)+tuple(e))
        p=R+"/include/textwolf/"+f; t=open(p).read()
        if t.count(old)!=1: print(s['id'],"FAIL edit matches",t.count(old),old[:60]); return
        open(p,"w").write(t.replace(old,new))
    diff=sh("git diff",cwd=R).stdout
    r=sh("bash %s/vp/test.sh %s/o.json"%(SW,SW))
    n=len(json.load(open(SW+"/o.json"))['passed'])
    if n!=12: print(s['id'],"FAIL tests pass:",n,r.stdout[-800:],r.stderr[-1500:]); sh("git checkout -- .",cwd=R); return
    r=demo(s,d)
    sh("git checkout -- .",cwd=R)
    if r.returncode in(0,3): print(s['id'],"FAIL demo with the patch:",r.returncode,r.stdout[-300:],r.stderr[-600:]); return
    o="/verif/seeded/"+s['id']; os.makedirs(o,exist_ok=True)
    open(o+"/patch.diff","w").write(diff)
    for x in("demo.cpp","demo.sh"): shutil.copy(d+"/"+x,o+"/"+x)
    json.dump(dict(property=s['property'],needs=s['needs'],what_it_breaks=s['breaks']),open(o+"/meta.json","w"),indent=1)
    shutil.rmtree(d)
    print(s['id'],"ok:",(r.stdout+r.stderr)[-150:].replace("\n"," "))
setup()
only=os.environ.get("ONLY","").split()
for f in sys.argv[1:]:
    g={}; exec(open(f).read(),g)
    for s in (g['SS'] if 'SS' in g else [g['S']]):
        if not only or s['id'] in only: one(s)
shutil.rmtree(SW)
