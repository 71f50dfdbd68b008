#!/usr/bin/env python3
"""Writes planted bugs to /verif/seeded and confirms them in a private copy (see mutate.py).

mkbug.py BUGS.py [--only ids] [--write]   (--write: only write the folders of bugs already there)
BUGS.py defines B = [dict(id, property, needs, breaks, edits, scenario)]; edits as in mutate.py.
Confirmed: the demonstration passes without the change; the change applies, builds and passes the
stable tests; the demonstration fails with it. Whether the check catches it is printed too.
"""
import sys, os, subprocess, json, shutil, runpy, importlib.util
sys.argv0=sys.argv[:]
a=sys.argv[1:]
src=open('/verif/tools/mutate.py').read().rsplit('\nmain()',1)[0]
exec(compile(src,'mutate.py','exec'))
SLOT='bug'
def main():
    only=set(a[a.index('--only')+1].split(',')) if '--only' in a else None
    B=[b for b in runpy.run_path(a[0])['B'] if not only or b['id'] in only]
    d=f'{S}/{SLOT}'
    if not os.path.exists(d): os.makedirs(d+'/verif'); sh(f'cp -a /repo {d}/repo')
    r=f'{d}/repo'
    sh(f'git -C {r} fetch -q /repo HEAD; git -C {r} reset -q --hard; rsync -a --delete --exclude target /repo/ {r}/')
    sh(f'rsync -a --delete --exclude evidence --exclude replays --exclude seeded /verif/ {d}/verif/')
    os.makedirs('/tmp/slots/demos',exist_ok=True)
    for b in B:
        out=f"/verif/seeded/{b['id']}"
        k='/verif/tools/demokit'
        tmp=f"/tmp/slots/demos/{b['id']}"
        shutil.rmtree(tmp,ignore_errors=True); shutil.copytree(k,tmp)
        open(tmp+'/src/scenario.rs','w').write(b['scenario'].lstrip('\n'))
        demo=lambda: sh(f"unshare -m bash -c 'mount --bind {r} /repo && cd /repo && DEMO_TARGET=/tmp/slots/demotarget bash {tmp}/demo.sh'",timeout=900)
        sh(f'git -C {r} checkout -q -- .')
        x=demo()
        if x.returncode!=0: print(b['id'],'CLEAN DEMO FAILS',x.returncode,x.stdout[-1500:],x.stderr[-800:],flush=True); continue
        e=make_patch(SLOT,b['edits'])
        if e: print(b['id'],'BADSPEC',e,flush=True); sh(f'git -C {r} checkout -q -- .'); continue
        patch=subprocess.run(f'git -C {r} diff',shell=True,capture_output=True,text=True).stdout
        x=ns(SLOT,'bash build.sh')
        if x.returncode!=0: print(b['id'],'NOBUILD',x.stdout[-800:],flush=True); sh(f'git -C {r} checkout -q -- .'); continue
        ns(SLOT,'bash /opt/vp/test.sh /verif/t.json >/dev/null 2>&1')
        t=json.load(open(f'{d}/verif/t.json')); base=json.load(open('/opt/vp/BASELINE.json'))
        miss=set(base.get('stable',base.get('passed',[])))-set(t.get('passed',[]))
        if miss: print(b['id'],'TESTS FAIL',miss,flush=True); sh(f'git -C {r} checkout -q -- .'); continue
        x=demo()
        if x.returncode!=1: print(b['id'],'DEMO WITH PATCH',x.returncode,x.stdout[-800:],x.stderr[-500:],flush=True); sh(f'git -C {r} checkout -q -- .'); continue
        c=b['property']
        y=ns(SLOT,f'VERIF_SEED=1 VERIF_TIER=quick bash check.sh {c} quick')
        v='CAUGHT' if y.returncode==1 and f'VIOLATION property={c}' in y.stdout else f'missed rc={y.returncode}'
        print(b['id'],c,'confirmed',v,y.stdout.strip()[:200].replace('\n',' | '),flush=True)
        sh(f'git -C {r} checkout -q -- .')
        shutil.rmtree(out,ignore_errors=True); shutil.copytree(tmp,out)
        open(out+'/patch.diff','w').write(patch)
        json.dump({'property':c,'needs':b['needs'],'what_it_breaks':b['breaks']},open(out+'/meta.json','w'),indent=1)
main()
