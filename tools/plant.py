#!/usr/bin/env python3
"""plant.py SPEC.py: write /verif/seeded/<id>/ from a list BUGS of dicts(id, property, edits=[(file,old,new)], needs,
what, demo (C++ text), cmd (optional compile line)). Edits are made in a scratch copy; refuses lines added by our commits."""
import sys,os,subprocess,json,shutil,tempfile,runpy
DEF='''#!/bin/bash
# exit 0: the property holds on the demonstrated input; nonzero: it is broken
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
%s
'''
BASE='0a6e95d'
spec=runpy.run_path(sys.argv[1])['BUGS']; only=sys.argv[2:]
for b in spec:
    if only and b['id'] not in only: continue
    t=tempfile.mkdtemp(); r=t+'/r'
    subprocess.check_call(['git','clone','-q','/repo',r])
    for f,o,n in b['edits']:
        p=r+'/include/gcem_incl/'+f; s=open(p).read()
        if s.count(o)!=1: print(b['id'],f,'pattern count',s.count(o)); sys.exit(1)
        open(p,'w').write(s.replace(o,n))
    diff=subprocess.check_output(['git','-C',r,'diff'],text=True)
    base=subprocess.check_output(['git','-C',r,'diff','-R',BASE,'HEAD'],text=True) if False else ''
    bad=[]
    for f,_,_ in b['edits']:
        orig=subprocess.run(['git','-C',r,'show',BASE+':include/gcem_incl/'+f],capture_output=True,text=True).stdout.splitlines()
        for l in diff.splitlines():
            if l.startswith('-') and not l.startswith('---') and l[1:] not in orig and l[1:].strip(): bad.append(l)
    if bad: print(b['id'],'WARNING: removed lines not original:',bad[:2])
    d='/verif/seeded/'+b['id']; os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.cpp','w').write(b['demo'].lstrip('\n'))
    cmd=b.get('cmd','g++ -std=c++%s -O1 -Iinclude "$d/demo.cpp" -o "$t/demo" || exit 1\ntimeout 120 "$t/demo"'%b.get('std','17'))
    open(d+'/demo.sh','w').write(DEF%cmd); os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['what']},open(d+'/meta.json','w'),indent=1)
    shutil.rmtree(t)
    print('wrote',b['id'])
