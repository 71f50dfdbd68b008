#!/usr/bin/env python3
"""Random small source changes, tried against the stable tests and then all scenarios (any monitor counts).

automut.py N SEED [--from I] [--slots K] [--files REGEX]     one line per change that builds and passes the tests
"""
import sys, os, re, glob, random, threading, queue, json
a=sys.argv[1:]
src=open('/verif/tools/mutate.py').read().rsplit('\nmain()',1)[0]
exec(compile(src,'mutate.py','exec'))
S='/tmp/slots_am'  # not shared with mutate.py
ORDER='C01 C22 C20 C18 C26 C21 C28 C23 C19 C25 C08 C15 C13 C10 C16 C07 C05'.split()
SUBS=[(r' == ',' != '),(r' != ',' == '),(r' >= ',' > '),(r' <= ',' < '),(r' > ',' >= '),(r' < ',' <= '),(r'\.is_some\(\)','.is_none()'),(r'\.is_none\(\)','.is_some()'),
 (r' && ',' || '),(r' \|\| ',' && '),(r'checked_add','checked_sub'),(r'checked_sub','checked_add'),(r' \+ ',' - '),(r' - ',' + '),(r'\btrue\b','false'),(r'\bfalse\b','true'),
 (r'Bound::exclusive','Bound::inclusive'),(r'Bound::inclusive','Bound::exclusive'),(r'\bAscending\b','Descending'),(r'\.min\(','.max('),(r'\+= ','-= '),(r'if ([a-z!][^{]*) \{$','if false && (\\1) {'),(r'if ([a-z!][^{]*) \{$','if true || (\\1) {'),
 (r'\.is_empty\(\)','.is_empty() == false'),(r'\.is_zero\(\)','.is_zero() == false'),(r'DEFAULT_QUERY_LIMIT','MAX_QUERY_LIMIT'),(r'Some\(([a-z_.()&]+)\)','None'),(r'\.unwrap_or_default\(\)','.unwrap()'),
 (r'floor','ceil'),(r'\.take\(limit as usize\)','.take(limit as usize + 1)'),(r'continue;',''),(r'break;',''),(r'(\d+)u(\d+)','1\\1u\\2')]
DEL=[r'^\s*[A-Za-z_.()]+\.save\(.*\)\?;\s*$',r'^\s*[A-Za-z_.()]+\.remove\(.*\)\??;\s*$',r'^\s*[a-z_:]+_only\(.*\)\?;\s*$',r'^\s*validate[a-z_]*\(.*\)\?;\s*$',r'^\s*[a-z_]+\.push\(.*\);\s*$',r'^\s*\.add_submessages?\([^()]*(\([^()]*\))?\)\s*$',r'^\s*[a-z_:]+\(.*\)\?;\s*$',r'^\s*[a-z_.]+ (\+|-)?= .*;\s*$']
def gen(files):
    out=[]
    for f in files:
        s=open('/repo/'+f).read()
        cut=s.find('#[cfg(test)]'); body=s if cut<0 else s[:cut]
        pos=0
        for line in body.split('\n'):
            p0=pos; pos+=len(line)+1
            t=line.strip()
            if not t or t.startswith('//') or t.startswith('use ') or t.startswith('#') or t.startswith('pub use'): continue
            for rx,to in SUBS:
                for m in re.finditer(rx,line):
                    if '->' in line[max(0,m.start()-1):m.end()+1] or '=>' in line[m.start()-1:m.end()+1] and rx in(r' > ',r' >= '): continue
                    if 'fn ' in line or 'Result<' in line or 'impl' in line: continue
                    new=line[:m.start()]+m.expand(to)+line[m.end():]
                    out.append((f,p0,line,new))
            for rx in DEL:
                if re.match(rx,line): 
                    tail=';' if line.rstrip().endswith(';') else ''
                    out.append((f,p0,line,''))
    return out
def run(slot,m):
    f,pos,old,new=m
    r=f'{S}/{slot}/repo'; p=f'{r}/{f}'
    sh(f'git -C {r} checkout -q -- .')
    s=open(p).read(); assert s[pos:pos+len(old)]==old
    open(p,'w').write(s[:pos]+new+s[pos+len(old):])
    try:
        b=ns(slot,'bash build.sh')
        if b.returncode!=0: return None
        ns(slot,'bash /opt/vp/test.sh /verif/t.json >/dev/null 2>&1')
        try:
            t=json.load(open(f'{S}/{slot}/verif/t.json')); base=json.load(open('/opt/vp/BASELINE.json'))
            if set(base['stable'])-set(t.get('passed',[])): return None
        except Exception as e: return None
        for c in ORDER:
            x=ns(slot,f'VERIF_SEED=1 VERIF_TIER=quick bash check.sh {c} quick')
            if x.returncode==1 and 'VIOLATION' in x.stdout: return f'CAUGHT {c} {x.stdout.strip()[:110]}'
            if 'note: monitors of' in x.stdout: return f'CAUGHT ({re.search("note: monitors of (C..)",x.stdout).group(1)} in {c})'
            if x.returncode not in (0,1): return f'RC{x.returncode} {c}'
        return 'MISSED'
    finally: sh(f'git -C {r} checkout -q -- .')
def main2():
    opt=lambda k,d: a[a.index(k)+1] if k in a else d
    n,seed=int(a[0]),int(a[1]); k=int(opt('--slots','3')); rx=opt('--files','.')
    fs=[x[6:] for x in glob.glob('/repo/contracts/*/src/*.rs')+glob.glob('/repo/packages/*-impl/src/*.rs')+glob.glob('/repo/packages/membership-common/src/*.rs')+glob.glob('/repo/packages/poll-engine/src/*.rs')+glob.glob('/repo/packages/common/src/*.rs')]
    fs=sorted(f for f in fs if 'v1_structs' not in f and 'test' not in f and 'multisig_mocks' not in f and re.search(rx,f))
    M=gen(fs); random.Random(seed).shuffle(M); print(len(M),'possible',flush=True)
    setup(k); q=queue.Queue(); [q.put(m) for m in M[int(opt('--from','0')):n]]
    lock=threading.Lock(); tot=[0,0,0]
    def w(slot):
        while True:
            try: m=q.get_nowait()
            except queue.Empty: return
            try: r=run(slot,m)
            except Exception as e: r=f'ERR {e}'
            with lock:
                tot[0]+=1
                if r:
                    tot[1]+=1; tot[2]+=r.startswith('CAUGHT')
                    ln=open('/repo/'+m[0]).read()[:m[1]].count('\n')+1
                    print(f'{tot} {m[0]}:{ln} {m[2].strip()[:90]!r} -> {m[3].strip()[:90]!r}: {r}',flush=True)
    ts=[threading.Thread(target=w,args=(i,)) for i in range(k)]
    [t.start() for t in ts]; [t.join() for t in ts]
main2()
