#!/usr/bin/env python3
"""Development aid: apply one textual mutant at a time to a scratch copy of
/repo, check that it compiles, and report which property checks fire.
Usage: mut.py ANALYZER [name-prefix]"""
import sys, os, subprocess, shutil, json, glob
here = os.path.dirname(os.path.abspath(__file__))
an = sys.argv[1]; pref = sys.argv[2] if len(sys.argv) > 2 else ''
scratch = '/tmp/w/mutrepo'
env = dict(os.environ, GOFLAGS='-mod=readonly', GOPROXY='off')
def parse(path):
    """blocks: '== name expect=C01,C02|quiet ids=...' then FILE line, <<<< old ==== new >>>>"""
    out=[]; cur=None
    for line in open(path):
        if line.startswith('== '):
            f=line[3:].split(); cur={'name':f[0],'expect':f[1].split('=')[1],'edits':[]}; out.append(cur); mode=None
        elif cur is None: continue
        elif line.startswith('FILE '): file=line[5:].strip()
        elif line.startswith('<<<<'): mode='old'; old=''; new=''
        elif line.startswith('====') and mode=='old': mode='new'
        elif line.startswith('>>>>'): cur['edits'].append((file,old,new)); mode=None
        elif mode=='old': old+=line
        elif mode=='new': new+=line
    return out
muts=[]
for p in sorted(glob.glob(os.path.join(here,'*.mut'))): muts+=parse(p)
bad=0
for m in muts:
    if not m['name'].startswith(pref): continue
    shutil.rmtree(scratch, ignore_errors=True); os.makedirs(scratch)
    subprocess.check_call('git -C /repo archive HEAD | tar x -C '+scratch, shell=True)
    ok=True
    for f,o,n in m['edits']:
        p=os.path.join(scratch,f); s=open(p).read()
        if s.count(o)!=1: print('!!', m['name'], 'edit matches', s.count(o), 'in', f); ok=False; break
        open(p,'w').write(s.replace(o,n))
    if not ok: bad+=1; continue
    ids = 'all' if m['expect']=='quiet' else m['expect']
    r=subprocess.run([an,'-repo',scratch,'-noevidence']+ids.split(','),capture_output=True,text=True)
    viol=[l.split()[1].split('=')[1] for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    keys=[l.strip()[5:].strip() for l in r.stdout.splitlines() if l.strip().startswith('key:')]
    if any('load|' in k for k in keys):
        print('!!',m['name'],'does not compile'); print(r.stdout[:600]); bad+=1; continue
    want = [] if m['expect']=='quiet' else m['expect'].split(',')
    good = sorted(viol)==sorted(want)
    if not good: bad+=1
    print('ok ' if good else 'BAD', m['name'], 'fired', viol, keys[:3])
    if not good and m['expect']=='quiet': print(r.stdout[:1500])
print('bad', bad)
