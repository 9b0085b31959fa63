#!/usr/bin/env python3
"""Planted bugs: definitions (edits against /repo HEAD plus a demonstration), and a command to write and confirm them.
   tools/seeds.py write [ID...]     regenerate seeded/<id>/
   tools/seeds.py confirm [ID...]   build, stable tests, demo clean/patched   (applies to /repo and undoes it)
   tools/seeds.py catch [ID...]     run the check of the property on the patched tree"""
import sys, os, subprocess, json, shutil, tempfile
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R='/repo'; INC='include/boost/numeric/interval/'
sys.path.insert(0,V+'/tools')
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
DEMO='''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap '/bin/rm -rf "$t"' EXIT
g++ -O0 -w -std=c++17 -frounding-math -I"$PWD/include" "$d/demo.cpp" -o "$t/demo" || exit 2
timeout 60 "$t/demo"
'''
PRE='''#include <boost/numeric/interval.hpp>
#include <boost/numeric/interval/limits.hpp>
#include <boost/numeric/interval/ext/integer.hpp>
#include <boost/numeric/interval/io.hpp>
#include <boost/numeric/interval/compare/lexicographic.hpp>
#include <cmath>
#include <cfenv>
#include <climits>
#include <cstdlib>
#include <sstream>
#include <limits>
#include <cstdio>
using namespace boost::numeric;
using namespace boost::numeric::interval_lib;
typedef interval<double> ID;
typedef interval<double, policies<save_state<rounded_arith_opp<double> >, checking_base<double> > > IB;
typedef interval<double, policies<save_state<rounded_arith_std<double> >, checking_base<double> > > IS;
typedef interval<double, policies<save_state<rounded_transc_opp<double> >, checking_base<double> > > IT;
typedef interval<double, policies<save_state<rounded_transc_std<double> >, checking_base<double> > > ITS;
const double inf = std::numeric_limits<double>::infinity();
const double qnan = std::numeric_limits<double>::quiet_NaN();
#define CHECK(c) do { if (!(c)) { std::printf("wrong: %s\\n", #c); return 1; } } while (0)
'''
def load():
    from seeddefs import SEEDS
    return SEEDS
def apply_edits(root,s):
    for f,old,new in s['edits']:
        p=os.path.join(root,f if f.startswith('include') else INC+f); t=open(p).read()
        if t.count(old)!=1: raise SystemExit('%s: %d occurrences in %s of %r'%(s['id'],t.count(old),f,old[:60]))
        open(p,'w').write(t.replace(old,new))
def scratch():
    d=tempfile.mkdtemp(prefix='seed-'); sh('git clone -q %s %s/r'%(R,d)); return d
def write(s):
    d=V+'/seeded/'+s['id']; os.makedirs(d,exist_ok=True); t=scratch()
    try: apply_edits(t+'/r',s); p=sh('git -C %s/r diff'%t).stdout
    finally: shutil.rmtree(t)
    open(d+'/patch.diff','w').write(p); open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.cpp','w').write(s.get('pre',PRE)+s['demo'])
    json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['what']},open(d+'/meta.json','w'),indent=1)
def demo(s):
    """the demonstration alone, on scratch copies"""
    d=V+'/seeded/'+s['id']; t=scratch()
    try:
        a=sh('bash %s/demo.sh'%d,cwd=t+'/r'); sh('git -C %s/r apply %s/patch.diff'%(t,d)); c=sh('bash %s/demo.sh'%d,cwd=t+'/r')
    finally: shutil.rmtree(t)
    return '%s clean %d patched %d %s'%('ok ' if a.returncode==0 and c.returncode not in(0,2) else 'BAD',a.returncode,c.returncode,(a.stdout+a.stderr+c.stdout+c.stderr)[-500:])
def confirm(s):
    d=V+'/seeded/'+s['id']
    a=sh('bash %s/demo.sh'%d,cwd=R); out=tempfile.mktemp(suffix='.json')
    try:
        g=sh('git -C %s apply %s/patch.diff'%(R,d))
        if g.returncode: return 'patch does not apply: '+g.stderr
        b=sh('bash /opt/vp/build.sh'); 
        if b.returncode: return 'BUILD FAILS '+(b.stdout+b.stderr)[-600:]
        t=sh('bash /opt/vp/test.sh %s'%out); c=sh('bash %s/demo.sh'%d,cwd=R)
        fails=failing(out)
    finally:
        sh('git -C %s checkout -- .'%R)
        if os.path.exists(out): os.unlink(out)
    ok=a.returncode==0 and c.returncode not in(0,2) and not fails
    return '%s demo clean %d patched %d; failing tests %s  %s'%('ok ' if ok else 'BAD',a.returncode,c.returncode,fails[:3],(c.stdout+c.stderr).strip()[-150:] if ok else (a.stdout+a.stderr+c.stdout+c.stderr)[-600:])
def failing(out):
    b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(out))
    want=set(b['stable']); got=r['passed']
    return sorted(want-set(got))
def catch(s):
    t=scratch()
    try:
        sh('git -C %s/r apply %s/seeded/%s/patch.diff'%(t,V,s['id']))
        c=sh('cd %s && VERIF_FAST=1 VERIF_OUT=%s/ev VERIF_REPO=%s/r ./check %s quick'%(V,t,t,s['property']))
    finally: shutil.rmtree(t)
    ls=[l for l in c.stdout.split('\n') if 'VIOLATION' in l or 'counterexample' in l]
    return 'exit %d %s'%(c.returncode,(' | '.join(ls[:2]) or c.stdout[-300:]+c.stderr[-200:])[:420])
if __name__=='__main__':
    S=load(); cmd=sys.argv[1]; ids=sys.argv[2:]
    for s in S:
        if ids and s['id'] not in ids: continue
        if cmd=='write': write(s)
        elif cmd=='confirm': write(s); print(s['id'],confirm(s),flush=True)
        elif cmd=='demo': write(s); print(s['id'],demo(s),flush=True)
        elif cmd=='catch': print(s['id'],s['property'],catch(s),flush=True)
