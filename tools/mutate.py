#!/usr/bin/env python3
"""Tries source changes against the test suite and the checks, each in a private mount namespace.

mutate.py MUTANTS.py [--slots N] [--only ID[,ID]] [--notest] [--all]   results: one line per mutant
MUTANTS.py defines M = [(id, "C01,C02", [(file, old, new), ...]), ...]; old must occur exactly once
(or be given as (text, n) for its n-th occurrence).
Slots are copies of /repo and /verif under /tmp/slots (removed with: mutate.py --clean).
"""
import sys, os, subprocess, json, threading, queue, shutil, re, runpy
S='/tmp/slots'
def sh(cmd, **k): return subprocess.run(cmd, shell=True, text=True, capture_output=True, **k)
def ns(slot, cmd, timeout=900):
    d=f'{S}/{slot}'
    full=f"unshare -m bash -c 'mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && cd /verif && {cmd}'"
    try: return sh(full, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        class R: returncode=124; stdout=(e.stdout or b'').decode() if isinstance(e.stdout,bytes) else ''; stderr=''
        return R
def setup(n):
    for i in range(n):
        d=f'{S}/{i}'
        if not os.path.exists(d):
            os.makedirs(d); sh(f'cp -a /repo {d}/repo; mkdir {d}/verif')
        # bring code up to date, keep the build
        sh(f'rsync -a --delete --exclude target /repo/ {d}/repo/ 2>/dev/null || true')
        sh(f'mkdir -p {d}/verif; rsync -a --delete --exclude evidence --exclude replays --exclude seeded /verif/ {d}/verif/')
def make_patch(slot, edits):
    r=f'{S}/{slot}/repo'
    for f,old,new in edits:
        n=None
        if isinstance(old,tuple): old,n=old
        p=f'{r}/{f}'; s=open(p).read(); c=s.count(old)
        if n is None:
            if c!=1: return f'{f}: {c} occurrences of {old[:50]!r}'
            s=s.replace(old,new)
        else:
            parts=s.split(old)
            if len(parts)<=n: return f'{f}: only {c} occurrences'
            s=old.join(parts[:n])+new+old.join(parts[n:])
        open(p,'w').write(s)
def run_one(slot, m, test, allc):
    mid,props,edits=m[:3]
    r=f'{S}/{slot}/repo'
    sh(f'git -C {r} checkout -q -- .')
    try:
        e=make_patch(slot, edits)
        if e: return mid, 'BADSPEC '+e
        out=[]
        b=ns(slot,'bash build.sh')
        if b.returncode!=0: return mid,'NOBUILD '+b.stdout[-600:]
        if test:
            ns(slot,'bash /opt/vp/test.sh /verif/t.json >/dev/null 2>&1')
            try:
                t=json.load(open(f'{S}/{slot}/verif/t.json')); base=json.load(open('/opt/vp/BASELINE.json'))
                st=set(base.get('stable',base.get('passed',[]))); ps=set(t.get('passed',[]))
                miss=st-ps
                out.append('tests-ok' if not miss else f'TESTS-FAIL({len(miss)})')
            except Exception as ex: out.append(f'tests?{ex}')
        ids=props.split(',')
        if allc: ids+= [f'C{i:02}' for i in range(1,29) if f'C{i:02}' not in ids]
        for c in ids:
            x=ns(slot,f'VERIF_SEED=1 VERIF_TIER=quick bash check.sh {c} quick')
            v='CAUGHT' if x.returncode==1 and f'VIOLATION property={c}' in x.stdout else ('missed' if x.returncode==0 else f'RC{x.returncode}')
            if v!='missed' or c in props:
                why=re.findall(r'.*\[.*',x.stdout)
                out.append(f'{c}:{v}'+(' {'+x.stdout.strip()[:260].replace('\n',' | ')+'}' if v!='missed' else ''))
        return mid,' '.join(out)
    finally: sh(f'git -C {r} checkout -q -- .')
def main():
    a=sys.argv[1:]
    if a==['--clean']: shutil.rmtree(S,ignore_errors=True); return
    opt=lambda k,d: a[a.index(k)+1] if k in a else d
    n=int(opt('--slots','3')); only=opt('--only',''); only=set(only.split(',')) if only else None
    M=[m for m in runpy.run_path(a[0])['M'] if not only or m[0] in only]
    setup(n)
    q=queue.Queue()
    for m in M: q.put(m)
    lock=threading.Lock()
    def w(slot):
        while True:
            try: m=q.get_nowait()
            except queue.Empty: return
            try: r=run_one(slot,m,'--notest' not in a,'--all' in a)
            except Exception as ex: r=(m[0],f'ERR {ex}')
            with lock: print(f'{r[0]:<22} {r[1]}',flush=True)
    ts=[threading.Thread(target=w,args=(i,)) for i in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
