"""Mutation campaign: random one-line changes of a source file that build and pass the stable tests, run against the checks.
python3 mutate.py SEED COUNT FILE ID[,ID...] [lo-hi]      (FILE under /repo/src)"""
import concurrent.futures as cf, hashlib, json, os, random, re, shutil, subprocess, sys, time, glob
M='/tmp/mt/repo'; OBJ='/tmp/mt/obj'; FL='-DDEBUG -DDEBUG_FINAL_MEM -DDEBUG_STRESS_GC -DINCLUDE_SQLITE_LIB -Wall -Wextra -Werror -Wshadow -Wunused-function -Wunused-macros -O0 -g -std=gnu11 -fPIC'
SKIP=re.compile(r'^\s*(//|\*|/\*|#|static (Value|void|bool|int|char|double|Obj\w*) \**\w+\(.*\{$|\}|$|\{|case .*:$|break;|default:|UNUSED|typedef|struct|extern)|printf|runtimeError\(vm, "[^"]*"\)|^\s*return EMPTY_VAL;')
OPS=[(r'(?<![<>=!-])<(?![<=])','<='),(r'<=','<'),(r'(?<![<>=-])>(?![>=])','>='),(r'>=(?!=)','>'),(r'==','!='),(r'!=','=='),(r'&&','||'),(r'\|\|','&&'),(r' \+ 1\b',''),(r' - 1\b',''),(r' \+ ',' - '),(r' - ',' + '),
 (r'\btrue\b','false'),(r'\bfalse\b','true'),(r'\b0\b','1'),(r'\b1\b','0'),(r'\b1\b','2'),(r'\b2\b','3'),(r'\b(\d\d+)\b',lambda m:str(int(m[1])+1)),(r'\b(\d\d+)\b',lambda m:str(int(m[1])-1)),(r' & ',' | '),(r' \| ',' & '),(r'<<','>>'),(r'(?<=[^-])>>','<<'),
 (r' \* ',' + '),(r' / ',' * '),(r' % ',' / '),(r'\+\+','--'),(r'\+= ','-= '),(r'-= ','+= '),(r'\bcontinue;','break;'),(r'\bif \((.*)\) \{$',r'if (!(\1)) {'),(r'\bif \((.*)\) \{$',r'if ((\1) && vm_never) {'),(r'^(\s*)[\w>.\[\]()&*, -]+;$',r'\1;'),(r'^(\s*)[\w>.\[\]()&*, -]+;$',r'\1;'),(r'^(\s*)[\w>.\[\]()&*, -]+;$',r'\1;'),(r'(\w+), (\w+)\)',r'\2, \1)'),(r'\bbreak;','')]
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,errors='replace',**k)
def setup():
    os.makedirs(M,exist_ok=True); os.makedirs(OBJ,exist_ok=True)
    if os.path.exists(M+'/src'): shutil.rmtree(M+'/src')
    shutil.copytree('/repo/src',M+'/src')
    for d in ('tests','examples','ops','docs','.github'):
        if not os.path.exists(M+'/'+d): shutil.copytree('/repo/'+d,M+'/'+d,symlinks=True)
def compile_all():
    heads=hashlib.sha1(b''.join(open(p,'rb').read() for p in sorted(glob.glob(M+'/src/**/*.h',recursive=True)))).hexdigest()
    fs=[p for p in sorted(glob.glob(M+'/src/**/*.c',recursive=True)) if not re.search('sqlite3.c|win32',p)]
    def one(p):
        cli='/cli/' in p and 'argparse' not in p
        fl='-DUSE_UTF8 -g -std=gnu11' if cli else FL
        k=hashlib.sha1((fl+heads+p).encode()+open(p,'rb').read()).hexdigest(); o=OBJ+'/'+k+'.o'
        if not os.path.exists(o):
            r=sh('gcc %s -c %s -o %s.tmp && mv %s.tmp %s'%(fl,p,o,o,o))
            if r.returncode: return None
        return o
    with cf.ThreadPoolExecutor(8) as ex: os_=list(ex.map(one,fs))
    if None in os_: return False
    r=sh('gcc -g %s -o %s/dictu -lcurl -luuid /usr/lib/x86_64-linux-gnu/libsqlite3.so -lm -ldl'%(' '.join(os_),M))
    return r.returncode==0
def tests():
    """True when all stable tests pass"""
    g={'__name__':'x'}; src=open('/opt/vp/run_tests.py').read().replace('\nmain(sys.argv[1])','').replace('REPO = "/repo"','REPO = "%s"'%M).replace('TIMEOUT = 120','TIMEOUT = 40')
    exec(src,g)
    jobs=[]
    for sub in g['imports'](M+'/tests/runTests.du'):
        d=os.path.dirname(sub)
        for f in g['imports'](M+'/tests/'+sub):
            name='tests/%s/%s'%(d,f)
            if name in g['NETWORK']: continue
            text='from UnitTest import UnitTest;\n\nUnitTest.forceOnlyFailures = true;\n\nimport "%s";\n'%sub
            jobs.append((name,['tests/runTests.du','ci'],['tests'],[('tests/runTests.du',text),('tests/'+sub,'import "%s";\n'%f)]))
    for f in g['imports'](M+'/examples/runExamples.du'):
        jobs.append(('examples/'+f,['examples/runExamples.du','ci'],['examples','.github'],[('examples/runExamples.du','import "%s";\n'%f)]))
    stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    names={n for n,*_ in jobs}
    import threading, queue
    pool=queue.Queue()
    for k in range(8):
        w='/dev/shm/mtw%d'%k
        if not os.path.exists(w):
            os.makedirs(w)
            for x in ('tests','examples','.github'): shutil.copytree(M+'/'+x,w+'/'+x,symlinks=True)
        pool.put(w)
    def run(a,d):
        w=pool.get()
        try:
            for path,text in d: open(w+'/'+path,'w').write(text)
            try:
                q=subprocess.run([M+'/dictu']+a,cwd=w,stdin=subprocess.DEVNULL,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=40)
                return q.returncode,q.stdout.decode('utf-8','replace')
            except subprocess.TimeoutExpired: return 'timeout',''
        finally:
            for path,_ in d: shutil.copy(M+'/'+path,w+'/'+path)
            pool.put(w)
    def one(j):
        name,a,c,d=j
        rc,out=run(a,d); ok=rc==0 and re.search(r'^Total bytes lost: 0$',out,re.M)
        got=set(); 
        if ok: got.add(name)
        for m,k in g['methods'](out):
            if k: got.add(name+'::'+m)
        need={s for s in stable if s==name or s.startswith(name+'::')}
        return need<=got or name
    with cf.ThreadPoolExecutor(8) as ex:
        fut=[ex.submit(one,j) for j in jobs]
        for f in cf.as_completed(fut):
            if f.result() is not True:
                for x in fut: x.cancel()
                return f.result()
    return True
def main():
    seed,count,file,ids=int(sys.argv[1]),int(sys.argv[2]),sys.argv[3],sys.argv[4].split(',')
    lo,hi=(map(int,sys.argv[5].split('-')) if len(sys.argv)>5 else (1,10**9))
    rnd=random.Random(seed); setup(); p=M+'/src/'+file; orig=open(p).read(); L=orig.split('\n')
    if '--base' in sys.argv: print(compile_all(),tests()); return
    cand=[]; win=set(); state=[]
    for i,l in enumerate(L):
        x=l.strip()
        if x.startswith('#if'): state.append('win' if '_WIN32' in x and 'ifndef' not in x and '!' not in x else ('notwin' if '_WIN32' in x else '-'))
        elif x.startswith(('#else','#elif')) and state: state[-1]={'win':'notwin','notwin':'win'}.get(state[-1],'-')
        elif x.startswith('#endif') and state: state.pop()
        if 'win' in state: win.add(i)
    def instr(l,at): return l[:at].replace('\\\\','').replace('\\"','').count('"')%2==1
    for i,l in enumerate(L):
        if not lo<=i+1<=hi or SKIP.search(l) or i in win: continue
        for k,(a,b) in enumerate(OPS):
            for m in re.finditer(a,l):
                if file.endswith('-source.h') or not instr(l,m.start()): cand.append((i,k,m.start()))
    lines=sorted({c[0] for c in cand}); rnd.shuffle(lines); done=0; t0=time.time()
    per={}
    for c in cand: per.setdefault(c[0],[]).append(c)
    stats={'built':0,'survived tests':0,'caught':0}
    env=dict(os.environ,VF_REPO=M,VF_BUILD='/tmp/mt/build',VF_OBJCACHE='/tmp/mt/cache')
    seen=set()
    for i in lines*3:
        if done>=count: break
        i,k,at=rnd.choice(per[i])
        if (i,k,at) in seen: continue
        seen.add((i,k,at))
        a,b=OPS[k]; l=L[i]; m=[m for m in re.finditer(a,l) if m.start()==at][0]
        new=l[:m.start()]+m.expand(b) if isinstance(b,str) else l[:m.start()]+b(m)
        new+=l[m.end():]
        new=new.replace('vm_never','0')
        if new==l: continue
        open(p,'w').write('\n'.join(L[:i]+[new]+L[i+1:]))
        if not compile_all(): continue
        stats['built']+=1
        t=tests()
        if t is not True: continue
        stats['survived tests']+=1; done+=1
        res=None
        for pid in ids:
            try: r=subprocess.run(['./run.sh',pid,'quick'],cwd='/tmp/mt/verif',env=env,capture_output=True,text=True,errors='replace',timeout=800)
            except subprocess.TimeoutExpired: res='TIMEOUT '+pid; break
            if r.returncode==1: res=pid; break
            if r.returncode!=0: res='ERROR %s %s'%(pid,r.stderr[-300:]); break
        if res and not res.startswith('ERR'): stats['caught']+=1
        print('%s %s:%d %s'%('caught '+res if res else 'SURVIVED',file,i+1,''),flush=True)
        if not res or res.startswith(('ERR','TIME')): print('   - %s\n   + %s'%(l.strip(),new.strip()),flush=True)
    print(file,stats,'%.0fs'%(time.time()-t0),flush=True)
main()
