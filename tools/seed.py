#!/usr/bin/env python3
"""Makes planted bugs (seeded/<id>) and tries the checks on them.

A set is a Python file that calls bug(id, property, edits, needs, breaks,
demo). A git worktree of /repo with a build in _build is expected in /tmp/wt.

  seed.py SET.py [ID...]
"""
import json
import os
import subprocess
import sys

WT='/tmp/wt'
PRE='''#include <Argos/Argos.hpp>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

using namespace argos;

#define EXPECT(cond) \\
    do { if (!(cond)) { std::cerr << "line " << __LINE__ << ": " #cond "\\n"; \\
                        return 1; } } while (false)

'''
SH='''#!/bin/bash
# Builds and runs demo.cpp against the library that has been built in the
# current directory. %s
set -u
dir=$(mktemp -d) || exit 2
trap 'rm -r -- "$dir"' EXIT
g++ -std=c++20 -Iinclude -I_build "$(dirname "$0")/demo.cpp" _build/libArgos.a \\
    -o "$dir/demo" || exit 2
cd "$dir" || exit 2
timeout 60 ./demo
'''
BUGS=[]
def bug(id, prop, edits, needs, breaks, demo, pre=PRE, sh=None):
    BUGS.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,pre=pre,sh=sh))
def sh(*a,**k):
    return subprocess.run(a,capture_output=True,text=True,errors="replace",**k)
def make(b, out='/verif/seeded'):
    sh('git','-C',WT,'checkout','--','.')
    for f,old,new in b['edits']:
        p=f'{WT}/{f}'; s=open(p).read()
        if s.count(old)!=1: return f'edit matches {s.count(old)} times in {f}: {old!r}'
        open(p,'w').write(s.replace(old,new))
    d=f'{out}/{b["id"]}'; os.makedirs(d,exist_ok=True)
    diff=sh('git','-C',WT,'diff').stdout
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.cpp','w').write(b['pre']+b['demo'].strip('\n')+'\n')
    open(d+'/demo.sh','w').write(b['sh'] or SH%'')
    os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=2); open(d+'/meta.json','a').write('\n')
    # original lines only
    for l in blame_removed():
        return 'touches a line that is not original: '+l
    r=sh('ninja','-C',WT+'/_build')
    if r.returncode: return 'does not build '+r.stdout[-2000:]
    r=sh(WT+'/_build/tests/ArgosTest/ArgosTest',cwd=WT)
    if r.returncode: return 'tests fail '+r.stdout[-600:]
    r=sh(d+'/demo.sh',cwd='/repo')
    if r.returncode: return f'demo fails on the unchanged tree: {r.returncode} {r.stdout} {r.stderr[-1500:]}'
    r=sh(d+'/demo.sh',cwd=WT)
    if not r.returncode: return 'demo passes with the patch'
    if r.returncode==2: return 'demo does not build with the patch '+r.stderr[-1000:]
    return None
def blame_removed():
    import re
    bad=[]
    diff=sh('git','-C',WT,'diff','-U0').stdout
    f=None
    for l in diff.split('\n'):
        if l.startswith('--- a/'): f=l[6:]
        m=re.match(r'@@ -(\d+)(?:,(\d+))? ',l)
        if m:
            a=int(m[1]); n=int(m[2] or 1)
            if n==0: continue
            r=sh('git','-C',WT,'blame','-s','--abbrev=7','-L',f'{a},+{n}','HEAD','--',f).stdout
            base=sh('git','-C',WT,'rev-list','--max-parents=0','HEAD').stdout[:7]
            for x in r.strip().split('\n'):
                if not x.lstrip('^').startswith(base[:6]): bad.append(x)
    return bad
def check(b):
    env=dict(os.environ,ARGOS_REPO=WT,VERIF_BUILD='/tmp/sb',VERIF_SEED='1',VERIF_TIER='quick')
    r=sh('python3','/verif/check.py',b['prop'],cwd='/verif',env=env)
    return r


def main():
    with open(sys.argv[1]) as f:
        exec(compile(f.read(), sys.argv[1], "exec"), dict(bug=bug, PRE=PRE, SH=SH, sh=sh))
    for b in BUGS:
        if sys.argv[2:] and b['id'] not in sys.argv[2:]: continue
        e = make(b)
        if e: print(b['id'], 'INVALID:', e, flush=True); continue
        r = check(b)
        print(b['id'], 'caught' if r.returncode == 1 else 'MISSED', r.returncode,
              [l for l in r.stdout.split('\n') if 'VIOLATION' in l], flush=True)
    sh('git', '-C', WT, 'checkout', '--', '.')


if __name__ == '__main__':
    main()
