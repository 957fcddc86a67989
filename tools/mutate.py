#!/usr/bin/env python3
"""Development aid: mutation testing of the monitors (never run by a check).

mutate.py list FILE...                      show the mutants of the files
mutate.py run OUT.jsonl WORKERS SAMPLE FILE...   run (a sample of) them in scratch copies under /tmp/mut

Each mutant is a one-line change of the non-test part of a source file. The harness is rebuilt in
the scratch copy against it and the union of the component workloads is run.
"""
import json, os, random, re, subprocess, sys, threading, queue, shutil, time
REPO='/repo'; VERIF='/verif'; BASE='/tmp/mut'
ALLP=','.join('P%02d'%i for i in range(1,20))
ONLY={
 'src/wal/':'wal_,hist_crash', 'src/key/':'key_,mem_,row_,txn_', 'src/extractor/':'key_,row_,schema_,mem_,sst_,db_reject',
 'src/inmem/':'mem_,qry_,sst_ties', 'src/manifest/':'man_,plan_edits,wal_segments', 'src/compaction/':'plan_,sst_merge',
 'src/ondisk/':'sst_,dsk_,qry_', 'src/query/':'qry_,mem_merge,txn_,sst_scan,dsk_ranges,hist_query', 'src/mvcc/':'clock_,mem_,txn_',
 'src/transaction/':'txn_,hist_txn,db_reject,conc_memory', 'src/db/':'hist_,conc_,db_', 'src/schema.rs':'schema_,row_,key_', 'src/mode/':'schema_,row_,key_,mem_reject,db_defs,db_reject', 'src/mutation.rs':'txn_,qry_', 'src/id.rs':'',
}
OPS=[
 (r' < ',' <= '),(r' <= ',' < '),(r' > ',' >= '),(r' >= ',' > '),(r' == ',' != '),(r' != ',' == '),
 (r' && ',' || '),(r' \|\| ',' && '),(r'\bif !','if '),(r' \+ 1\b',''),(r' - 1\b',''),
 (r'saturating_add\(1\)','saturating_add(0)'),(r'saturating_sub\(1\)','saturating_sub(0)'),
 (r'wrapping_add\(1\)','wrapping_add(0)'),(r'checked_add\(1\)','checked_add(0)'),
 (r'\.min\(','.max('),(r'\.max\(','.min('),(r'\btrue\b','false'),(r'\bfalse\b','true'),
 (r'Bound::Included\(','Bound::Excluded('),(r'Bound::Excluded\(','Bound::Included('),
 (r'Included\(','Excluded('),(r'Excluded\(','Included('),
 (r'Ordering::Less\b','Ordering::Greater'),(r'Ordering::Greater\b','Ordering::Less'),(r'Ordering::Equal\b','Ordering::Less'),
 (r'\.rev\(\)',''),(r'\.is_some\(\)','.is_none()'),(r'\.is_none\(\)','.is_some()'),(r'\.is_empty\(\)','.is_empty() == false'),
 (r'\.any\(','.all('),(r'\.all\(','.any('),(r'\.first\(\)','.last()'),(r'\.last\(\)','.first()'),
 (r'\bcontinue;',''),(r'\bbreak;',''),(r'\+= ','-= '),(r' \+= 1;',' += 0;'),(r' \+ ',' - '),(r' - ',' + '),(r' \* ',' + '),
 (r'\.cmp\((.*?)\)',r'.cmp(\1).reverse()'),(r'is_some_and\(','is_none_or('),(r'is_none_or\(','is_some_and('),
 (r'\.or\(',' .and('),(r'unwrap_or\(0\)','unwrap_or(1)'),(r'return Ok\(\(\)\);',''),(r'\breturn None;',''),(r'skip\(1\)','skip(0)'),
 (r'\b0u?(8|16|32|64|size)?\b(?=[;,)])','1'),(r'\.sort\w*\([^;]*\);',';'),(r'\.dedup\w*\([^;]*\);',';'),
 (r'binary_search','binary_search'),(r'partition_point\(','partition_point('),
]
STMT=re.compile(r'^\s+(self\.|[a-z_]+\.)[\w.()]*\w+\(.*\)(\.await)?\??;\s*$')
ASSIGN=re.compile(r'^\s+(self\.[\w.]+|\*?[a-z_.]+) (=|\+=|\|=) .*;\s*$')
def tests_start(lines):
    for i,l in enumerate(lines):
        if l.startswith('#[cfg(') and 'test' in l and i+1<len(lines) and re.match(r'\s*(pub\(crate\) )?mod ',lines[i+1]): return i
    return len(lines)
def mutants(f):
    lines=open(os.path.join(REPO,f)).read().split('\n'); end=tests_start(lines); out=[]
    skip_next=False
    for i,l in enumerate(lines[:end]):
        s=l.strip()
        if s.startswith('//') or s.startswith('#[') or s.startswith('use ') or 'debug!' in l or 'trace!' in l or 'assert' in l or 'eprintln' in l or not s or "'static" in l or 'log_' in l or '.field(' in l or s.startswith('where') or s.startswith('impl') or re.search(r'\+ (Send|Sync|Clone|Timer|MaybeS|Debug|Unpin)',l) or re.match(r'(FS|E|S|T): ',s): continue
        code=l.split(' // ')[0]
        if '->' in code and 'fn ' in code: continue
        for a,b in OPS:
            for m in re.finditer(a,code):
                if re.search(r'["].*'+a+r'.*["]',code): continue
                new=code[:m.start()]+m.expand(b)+code[m.end():]
                if new!=code: out.append((f,i,l,new))
        if STMT.match(code) or ASSIGN.match(code): out.append((f,i,l,re.match(r'\s*',l).group(0)+'();' if False else re.match(r'\s*',l).group(0)+';'))
    return out
def sh(cmd,cwd=None,timeout=None,env=None):
    try:
        p=subprocess.Popen(cmd,cwd=cwd,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,env=env,start_new_session=True)
        o,_=p.communicate(timeout=timeout); return p.returncode,o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); p.communicate(); return -9,'timeout'
def setup(w):
    d=f'{BASE}/w{w}'
    if not os.path.exists(d+'/repo'):
        os.makedirs(d,exist_ok=True)
        sh(f'git clone -q {REPO} {d}/repo')
    sh(f'cd {d}/repo && git fetch -q && git reset -q --hard origin/HEAD; git checkout -q -- .')
    os.makedirs(d+'/verif',exist_ok=True)
    for x in ['aisle','harness','incrate','tools','build.sh','env.sh','rustc-wrap.sh']:
        sh(f'rsync -a --delete {VERIF}/{x} {d}/verif/ 2>/dev/null || cp -a {VERIF}/{x} {d}/verif/')
    sh(f"sed -i 's#path = \"/repo\"#path = \"{d}/repo\"#' {d}/verif/harness/Cargo.toml")
    if not os.path.exists(d+'/verif/target'): sh(f'cp -a {VERIF}/target {d}/verif/target')
    r,o=sh(f'{d}/verif/build.sh -s',timeout=1200)
    if r!=0: print('worker',w,'base build failed',o[-2000:]); os._exit(1)
def work(w,q,out,lock,scale):
    d=f'{BASE}/w{w}'
    while True:
        try: f,i,old,new=q.get_nowait()
        except queue.Empty: return
        p=f'{d}/repo/{f}'; orig=open(p).read(); lines=orig.split('\n'); lines[i]=new; open(p,'w').write('\n'.join(lines))
        t=time.time(); r,o=sh(f'{d}/verif/build.sh -s',timeout=900)
        res={'file':f,'line':i+1,'old':old.strip(),'new':new.strip()}
        if r!=0: res['res']='nocompile'
        else:
            only=next(v for k,v in ONLY.items() if f.startswith(k))
            for only_ in [only]:
                r,o=sh(f'{d}/verif/target/debug/tonbo-verif sweep --props {ALLP} --only {only_} --scale {scale} --threads 2 --cap 100 --root {d}',timeout=400)
            res['res']={0:'survived',1:'killed',-9:'hang'}.get(r,'crash%d'%r)
            m=re.search(r'replay/SWEEP-(\w+)-\d+',o); res['by']=m.group(1) if m else None
            res['msg']=o.strip().split('\n')[1][:200] if r==1 and len(o.split('\n'))>1 else o[-150:]
        res['t']=round(time.time()-t)
        open(p,'w').write(orig)
        with lock: out.write(json.dumps(res)+'\n'); out.flush()
def main():
    if sys.argv[1]=='list':
        for f in sys.argv[2:]:
            for m in mutants(f): print(f'{m[0]}:{m[1]+1}: {m[2].strip()}  =>  {m[3].strip()}')
        return
    out=open(sys.argv[2],'a'); n=int(sys.argv[3]); sample=int(sys.argv[4]); rnd=random.Random(int(os.environ.get('MSEED','1')))
    ms=[]
    for f in sys.argv[5:]:
        m=mutants(f); rnd.shuffle(m); ms+=m[:sample]
    done=set()
    if os.path.exists(sys.argv[2]): done={(r['file'],r['old'],r['new']) for r in map(json.loads,open(sys.argv[2]))}
    ms=[m for m in ms if (m[0],m[2].strip(),m[3].strip()) not in done]
    rnd.shuffle(ms); q=queue.Queue(); [q.put(m) for m in ms]; print(len(ms),'mutants',flush=True)
    ts=[threading.Thread(target=setup,args=(w,)) for w in range(n)]; [t.start() for t in ts]; [t.join() for t in ts]
    lock=threading.Lock(); ts=[threading.Thread(target=work,args=(w,q,out,lock,os.environ.get('SCALE','60'))) for w in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
