"""Builds the code under test from /repo's working tree, with the harnesses of /verif.

Nothing is written under /repo. Objects are cached by the hash of everything that
goes into them, so a change in any source or header of /repo rebuilds what it must."""
import concurrent.futures, glob, hashlib, os, subprocess, threading
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get('VERIF_REPO','/repo')
SRC=os.path.join(REPO,'Source')
CACHE=os.path.join(VERIF,'.build')
JOBS=os.cpu_count() or 4
WRAP=['fftw_plan_r2r_1d','fftw_plan_r2r','fftw_plan_many_r2r','fftw_destroy_plan','fftw_cleanup','fftw_execute_r2r','fftw_execute']
SCHEDWRAP=['memcpy','memmove','memset','pthread_mutex_lock','pthread_mutex_unlock','pthread_mutex_trylock','__cxa_guard_acquire','__cxa_guard_release','__cxa_guard_abort']
SKIP={'main.cpp','unit_manager.cpp'}   # unit_manager is in no Makefile and does not compile
PLANWRAP=['fftw_plan_r2r_1d','fftw_plan_r2r','fftw_plan_many_r2r']
class BuildError(Exception): pass
def _read(p):
    with open(p,'rb') as f: return f.read()
def _h(*parts):
    h=hashlib.sha256()
    for p in parts:
        if isinstance(p,str): p=p.encode()
        h.update(len(p).to_bytes(8,'little')); h.update(p)
    return h.hexdigest()[:24]
def repo_sources():
    return sorted(f for f in glob.glob(SRC+'/*.cpp') if os.path.basename(f) not in SKIP)
def _headers():
    out=[]
    for f in sorted(glob.glob(SRC+'/*.hpp')+glob.glob(SRC+'/*.h')+glob.glob(VERIF+'/shtns/*.h')+glob.glob(VERIF+'/harness/*.hpp')):
        out+= [os.path.basename(f),_read(f)]
    return out
class Flavour:
    def __init__(s,cheb=True,contig=True,kind='rel'):
        s.cheb,s.contig,s.kind=cheb,contig,kind
    @property
    def name(s): return ('cheb' if s.cheb else 'fd')+('_th' if s.contig else '_ph')+('' if s.kind=='rel' else '_'+s.kind)
    @property
    def defs(s): return (['-DUSE_CHEB'] if s.cheb else [])+(['-DSHTNS_CONTIGUOUS_LONGITUDES'] if s.contig else [])
    def flags(s,repo):
        f=['-std=c++11' if repo else '-std=c++17','-fopenmp','-w','-I'+VERIF+'/shtns','-I'+VERIF+'/harness','-I'+SRC]+s.defs
        if s.kind=='rel': f+=['-O2','-DNDEBUG']
        elif s.kind=='san': f+=['-O1','-g1','-fsanitize=address,undefined','-fno-sanitize-recover=undefined','-fno-omit-frame-pointer']
        elif s.kind=='sched': f+=['-O1','-g1','-DNDEBUG']
        return f
    def ldflags(s):
        f=['-fopenmp'] if s.kind!='sched' else ['-pthread','-rdynamic']
        if s.kind=='san': f+=['-fsanitize=address,undefined']
        return f
_lock=threading.Lock()
def _run(cmd,**k):
    r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',**k)
    return r.returncode,r.stdout
def obj(src,fl,repo,extra=()):
    """compiles one file; the cache key covers every header that it could include"""
    flags=fl.flags(repo)+list(extra)
    if fl.kind=='sched' and not os.path.basename(src).startswith(('schedrt','fftwmon')): flags.append('-fsanitize=thread')
    key=_h(_read(src),' '.join(flags),*_headers())
    d=os.path.join(CACHE,'o'); os.makedirs(d,exist_ok=True)
    out=os.path.join(d,os.path.basename(src)+'.'+key+'.o')
    if not os.path.exists(out):
        tmp=out+'.%d.%d.tmp'%(os.getpid(),threading.get_ident())
        rc,log=_run(['g++']+flags+['-c',src,'-o',tmp])
        if rc: raise BuildError('compiling %s (%s):\n%s'%(src,fl.name,log[-3000:]))
        os.replace(tmp,out)
    return out
def objs(jobs):
    """jobs: (src,flavour,is_repo,extra). Compiled in parallel; failures in repo files that a
    harness does not need are tolerated until link time."""
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        fs=[ex.submit(obj,*j) for j in jobs]
        res=[]
        for f in fs:
            try: res.append(f.result())
            except BuildError as e: res.append(e)
    return res
def build_many(specs):
    """specs: list of dict(name, fl, harness=[files], main=bool, libs=[]). Returns {(name,fl.name): path}."""
    jobs={}
    def want(src,fl,repo,extra=()):
        jobs[(src,fl.name,repo,tuple(extra))]=(src,fl,repo,tuple(extra))
        return (src,fl.name,repo,tuple(extra))
    plan=[]
    for s in specs:
        fl=s['fl']
        lib=[want(f,fl,True) for f in repo_sources()]
        if s.get('main'): lib.append(want(SRC+'/main.cpp',fl,True,s.get('main_extra',())))
        lib.append(want(VERIF+'/shtns/shtns.cpp',fl,False,()))
        hs=[want(VERIF+'/harness/'+h,fl,False) for h in s['harness']]
        plan.append((s,lib,hs))
    keys=list(jobs); res=dict(zip(keys,objs([jobs[k] for k in keys])))
    out={}
    def link(item):
        s,lib,hs=item
        fl=s['fl']
        errs=[res[k] for k in lib if isinstance(res[k],BuildError)]
        for k in hs:
            if isinstance(res[k],BuildError): raise res[k]
        lo=[res[k] for k in lib if not isinstance(res[k],BuildError)]
        ho=[res[k] for k in hs]
        key=_h(*(lo+ho+fl.ldflags()+s.get('libs',[])+(s.get('wrap') or [])))
        exe=os.path.join(CACHE,s['name']+'.'+fl.name+'.'+key)
        if not os.path.exists(exe):
            arch=exe+'.%d.%d.a'%(os.getpid(),threading.get_ident())
            mains=[o for o in lo if os.path.basename(o).startswith('main.cpp.')]
            rest=[o for o in lo if o not in mains]
            if os.path.exists(arch): os.unlink(arch)
            _run(['ar','rcs',arch]+rest)
            tmp=exe+'.%d.%d.tmp'%(os.getpid(),threading.get_ident())
            wrap=[] if s.get('nowrap') else ['-Wl,'+','.join('--wrap='+w for w in (s.get('wrap') or WRAP)+(SCHEDWRAP if fl.kind=='sched' else []))]
            if s.get('rdynamic'): wrap+=['-rdynamic']
            rc,log=_run(['g++','-o',tmp]+ho+mains+[arch]+wrap+fl.ldflags()+s.get('libs',[])+['-lfftw3','-lm','-lpthread','-ldl'])
            try: os.unlink(arch)
            except OSError: pass
            if rc:
                raise BuildError('linking %s (%s):\n%s\n%s'%(s['name'],fl.name,'\n'.join(str(e) for e in errs)[-3000:],log[-3000:]))
            os.replace(tmp,exe)
        return (s['name'],fl.name),exe
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for k,v in ex.map(link,plan): out[k]=v
    return out
def tool(name,src,flags=()):
    """a helper program of /verif itself"""
    key=_h(_read(src),' '.join(flags)); os.makedirs(CACHE,exist_ok=True); exe=os.path.join(CACHE,name+'.'+key)
    if not os.path.exists(exe):
        tmp=exe+'.%d.tmp'%os.getpid(); rc,log=_run(['gcc' if src.endswith('.c') else 'g++','-O2','-w']+list(flags)+['-o',tmp,src])
        if rc: raise BuildError(log[-3000:])
        os.replace(tmp,exe)
    return exe
