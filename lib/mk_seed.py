"""developer tool: helper to write /verif/seeded/<id>/ from textual edits of /repo (which is left as it was)"""
import json, os, subprocess
SRC=os.environ.get('SEED_SRC','/repo')
CPP='''#!/bin/bash
# run with cwd /repo after the build
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++20 -O1 -DNDEBUG -fopenmp -isystem /usr/include/eigen3 -isystem /usr/include/hdf5/serial -isystem /usr/include/opencascade \\
  -I/repo/_build/include -I/repo/_build/include/auto -I/repo/include "$here/demo.cpp" -o "$t/demo" -L/repo/_build -lhexed -Wl,-rpath,/repo/_build \\
  -L/usr/lib/x86_64-linux-gnu/hdf5/serial -Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5_cpp -lhdf5 || exit 3
cd "$t" && ./demo
'''
def mk(id, prop, edits, needs, breaks, demo_cpp=None, demo_sh=None):
    for file, old, new in edits:
        p=SRC+'/'+file; s=open(p).read()
        if s.count(old)!=1:
            subprocess.run(['git','-C',SRC,'checkout','-q','--','.']); raise SystemExit((id,file,s.count(old)))
        open(p,'w').write(s.replace(old,new))
    d=subprocess.run(['git','-C',SRC,'diff'],capture_output=True,text=True).stdout
    subprocess.run(['git','-C',SRC,'checkout','-q','--','.'])
    b='/verif/seeded/%s/'%id; os.makedirs(b,exist_ok=True)
    open(b+'patch.diff','w').write(d)
    if demo_cpp: open(b+'demo.cpp','w').write(demo_cpp)
    open(b+'demo.sh','w').write(demo_sh or CPP)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(b+'meta.json','w'),indent=1)
