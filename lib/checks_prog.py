"""C23-C26, C28, C33 (second part): the real executable, under a tracer that numbers and controls its file operations."""
import itertools, json, math, os, re, shutil, subprocess, errno
from . import build, prog, runner
from .build import Flavour
from .prog import BASE
FL=[Flavour(True,True),Flavour(False,False)]
def configs(small=False):
    b=dict(BASE); c=[('base',b)]
    c.append(('out',dict(b,initial_data_direction='outgoing',nl=2,nm=1,nlat=3,nphi=4,l_ang=1,m_ang=0,nx=9,black_hole_spin=1.0,Rmin=0.95)))
    if small: return c
    c.append(('sym',dict(b,initial_data_direction='time_symmetric',nl=3,nm=3,nlat=5,nphi=8,l_ang=2,m_ang=2,nx=11,dt=0.003,black_hole_spin=-0.7)))
    c.append(('nonlin',dict(b,nl=3,nm=2,nlat=4,nphi=7,l_ang=1,m_ang=1,nx=12,dt=0.002,km1=0.3,k1=-0.2,k2=0.4,V2=1.1,V3=-0.7,V4=0.9,amp=0.2,Rmax=15.0)))
    c.append(('mass',dict(b,black_hole_mass=0.5,black_hole_spin=0.45,Rmin=0.7,rl=1.2,ru=6.0,dt=0.00123456789)))
    return c
def names(k): return ['f_RPsl_%d.csv'%k,'rho_RPsl_%d.csv'%k]
def ref(ctx,fl,p,last,every=1):
    """{step: {'f':[(R,l,power)],'rho':..}} from the library, stepping without main.cpp"""
    exe=build.build_many([dict(name='h_ref',fl=fl,harness=['h_ref.cpp','planwrap.cpp'],wrap=build.PLANWRAP)])[('h_ref',fl.name)]
    d=prog.fresh(ctx,'ref'); os.makedirs(d); open(d+'/p.txt','w').write(prog.text(p))
    o=subprocess.run([exe,d+'/p.txt',str(last),str(every)],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,env=dict(os.environ,OMP_NUM_THREADS='1')).stdout
    shutil.rmtree(os.path.dirname(d)); r={}
    for l in o.split('\n'):
        w=l.split()
        if len(w)==6: r.setdefault(int(w[0]),{}).setdefault(w[1],[]).append((float(w[4]),int(w[3]),float(w[5])))
    return r
def compare(content,want):
    """None, or what is wrong with a saved spectrum"""
    ls=content.decode(errors='replace').split('\n')
    if ls[-1]!='': return 'no final newline'
    if ls[0]!='R,l,log(value)': return 'header is '+ls[0]
    if len(ls)-2!=len(want): return '%d rows, expected %d'%(len(ls)-2,len(want))
    mx=max(w[2] for w in want)
    for i,(l,w) in enumerate(zip(ls[1:],want)):
        try: a=[float(x) for x in l.split(',')]
        except ValueError: return 'row %d is %r'%(i,l)
        if len(a)!=3 or abs(a[0]-w[0])>1e-13*(1+abs(w[0])) or a[1]!=w[1]: return 'row %d is %r, expected R=%r l=%d'%(i,l,w[0],w[1])
        pw=10**a[2]
        if not abs(pw-w[2])<=1e-9*w[2]+1e-12*mx and not (pw<=2e-16 and w[2]<=2e-16): return 'row %d has power %r, expected %r'%(i,pw,w[2])
    return None
def times(out): return [float(m.group(1)) for m in re.finditer(r'^\s*([-+0-9.eE]+)\s+Grid\b',out,re.M)]
def status(r): return 'timed out' if r.timed else 'exit status %d'%r.rc
# ------------------------------------------------------------------ C23
MARATHON=dict(BASE,dt=2e-5,km1=0.2)
def schedule_space(ctx):
    n=20 if ctx.thorough else 13
    for fl in FL:
        for name,p in configs():
            full=name=='base' or ctx.thorough
            for nt in range(0,n+1):
                for ts in list(range(1,(n if full else 4)+2))+[1000,2147483647]:
                    yield fl,name,p,nt,ts
            for nt,ts in ((121,1),(250,120),(137,11)) if name in('base','nonlin') else (): yield fl,name,p,nt,ts
            # more snapshots than a process may have open files, and a long run with few of them
            for nt,ts in ((1303,1),(3001,1000),(2049,64)) if name=='base' else (): yield fl,name,p,nt,ts
        # more steps than 16 bits can count (thorough: and more snapshots)
        for nt,ts in ((65700,8200),)+(((140000,8200),(66000,1)) if ctx.thorough else ()): yield fl,'marathon' if ts>1 else 'snapshots',MARATHON,nt,ts
def c23(ctx):
    exes={f.name:prog.executable(f) for f in FL}; space=list(schedule_space(ctx)); refs={}
    need={}
    for fl,name,p,nt,ts in space: need[(fl.name,name)]=(fl,p,max(nt,need.get((fl.name,name),(0,0,0))[2]),name)
    for k,v in zip(need,prog.pool(lambda v: ref(ctx,v[0],v[1],v[2],8200 if v[1] is MARATHON and v[3]!='snapshots' else 1),list(need.values()))): refs[k]=v
    def one(x):
        fl,name,p,nt,ts=x; cid='%s/%s/nt=%d/t_step_save=%d'%(fl.name,name,nt,ts)
        if not ctx.case(cid): return None
        r=prog.run(exes[fl.name],dict(p,nt=nt,t_step_save=ts),prog.fresh(ctx,'r'),timeout=600 if nt>10000 else 120); o,rest=prog.outputs(r); bad=[]
        last=max(nt-1,0)//ts; want=[n for k in range(last+1) for n in names(k)]
        if r.rc!=0 or r.timed: bad.append(status(r)+': '+r.out[-200:])
        if sorted(o)!=sorted(want): bad.append('files missing %s, unexpected %s'%(sorted(set(want)-set(o))[:4],sorted(set(o)-set(want))[:4]))
        if rest: bad.append('files outside the output directory: %s'%list(rest)[:4])
        for k in range(last+1):
            for n,q in zip(names(k),('f','rho')):
                if n in o and not bad:
                    e=compare(o[n],refs[(fl.name,name)][k*ts][q])
                    if e: bad.append('%s is not level n+1 at step %d: %s'%(n,k*ts,e))
        t=times(r.out); wt=[k*ts*p['dt'] for k in range(last+1)]
        if not bad and (len(t)!=len(wt) or any(abs(a-b)>1.1e-5*abs(b) for a,b in zip(t,wt))): bad.append('printed times %s, expected %s'%(t[:6],wt[:6]))
        prog.drop(r); return cid,bad,last+1
    n=snap=0
    for res in prog.pool(one,space):
        if res is None: continue
        n+=1; snap+=res[2]
        for b in res[1][:1]: ctx.violation(res[0],b)
    # where the run is told to write, and how its files are called: long, deep, and with characters that mean something elsewhere
    deep='/'.join('d%d%s'%(k,'y'*(180 if k%2 else 40)) for k in range(12)); dirs=['.','a b','-o','%s%n','x'*120,'x'*127,'x'*200,'x'*255,'out.csv','f_RPsl_0.csv','$HOME','*','\u00e9\u00df','a;b&c','..d','q"\'',deep[:500],deep]; pars=['params.txt','p q.txt','%d','x'*250,'dir/sub/p','-p']
    def place(x):
        fl,od,how,pn=x; cid='%s/place/%s/%s/%s'%(fl.name,(od[:30]+'~%d'%len(od)) if len(od)>40 else od,how,(pn[:8]+'~%d'%len(pn)) if len(pn)>40 else pn)
        if not ctx.case(cid): return None
        p=dict(configs())['base']; nt,ts=6,2; d=prog.fresh(ctx,'r'); os.makedirs(os.path.dirname(os.path.join(d,pn)),exist_ok=True)
        t=prog.text(dict(p,nt=nt,t_step_save=ts)); open(os.path.join(d,pn),'w').write(t); here=od=='.'
        r=prog.run(exes[fl.name],{},d,outdir=od,argv_out={'relative':od,'dotted':'./'+od,'slash':od+'/','absolute':None}[how],param_name=pn if how!='absolute' else os.path.join(d,pn),param_text=t); tr=prog.tree(d); bad=[]
        o={(k if here else k[len(od)+1:]):v for k,v in tr.items() if (here or k.startswith(od+'/')) and not k.endswith('/') and k not in('params.txt',pn)}
        rest=[k for k in tr if k not in('params.txt',pn) and not k.endswith('/') and not (here or k.startswith(od+'/'))]; want=[n for k in range(3) for n in names(k)]
        if r.rc!=0 or r.timed: bad.append(status(r)+': '+r.out[-200:])
        if sorted(o)!=sorted(want): bad.append('files missing %s, unexpected %s'%(sorted(set(want)-set(o))[:4],sorted(set(o)-set(want))[:4]))
        if rest: bad.append('files outside the output directory: %s'%rest[:4])
        for k in range(3):
            for nm,q in zip(names(k),('f','rho')):
                if nm in o and not bad:
                    e=compare(o[nm],refs[(fl.name,'base')][k*ts][q])
                    if e: bad.append('%s: %s'%(nm,e))
        prog.drop(r); return cid,bad,3
    for res in prog.pool(place,[(fl,od,how,pn) for fl in FL for od in dirs for how in('relative','dotted','slash','absolute') for pn in (pars if od in('a b',deep) else pars[:1]) if not (od.startswith('..') and how=='x')]):
        if res is None: continue
        n+=1; snap+=res[2]
        for b in res[1][:1]: ctx.violation(res[0],b)
    ctx.add(states=n,transitions=snap,traces=n,evaluations=n,distinct_nontrivial=n,samples=['%s: every nt in 0..%d x t_step_save, snapshot by snapshot'%(x,20 if ctx.thorough else 13) for x in [c[0] for c in configs()][:3]],counters=dict(runs=n,snapshots_compared=snap))
# ------------------------------------------------------------------ C38
DIAG=re.compile(r'^\s*([-+0-9.eEinfa]+)\s+Grid\s+(\d+)\s+(\S+)\s+(\S+)\s*$',re.M)
def c38(ctx):
    exes={f.name:prog.executable(f) for f in FL}; top=16 if ctx.thorough else 9
    cf=configs()+[('still',dict(BASE,amp=0.0)),('large',dict(BASE,amp=30.0,dt=0.001)),('tiny',dict(BASE,amp=1e-9,dt=0.02)),
        # times of every magnitude: the field at rest stays finite at any step
        ('late',dict(BASE,amp=0.0,dt=517.25)),('later',dict(BASE,amp=0.0,dt=1.2345678e9)),('early',dict(BASE,amp=0.3,dt=1.2345678e-7)),('minute',dict(BASE,amp=0.3,dt=3.3e-201))]
    refs=dict(prog.pool(lambda v: ((v[0].name,v[1][0]),ref(ctx,v[0],v[1][1],top)),list(itertools.product(FL,cf))))
    space=[(fl,n,p,nt,ts,T) for fl in FL for n,p in cf for nt in range(0,top+2) for ts in list(range(1,(top if ctx.thorough else 4)+1))+[top+1] for T in ((1,4) if nt in(top,3) else (1,))]
    deep={(fl.name,'base'):v for fl,v in zip(FL,prog.pool(lambda fl: ref(ctx,fl,dict(configs())['base'],520),FL))}
    for k,v in deep.items(): refs[k]=v
    space+=[(fl,'base',dict(configs())['base'],nt,ts,1) for fl in FL for nt,ts in ((520,1),(520,16),(520,20),(517,32),(520,50),(401,100),(514,128),(513,256),(515,257))]
    def one(x):
        fl,name,p,nt,ts,T=x; cid='%s/%s/nt=%d/t_step_save=%d/T=%d'%(fl.name,name,nt,ts,T)
        if not ctx.case(cid): return None
        r=prog.run(exes[fl.name],dict(p,nt=nt,t_step_save=ts),prog.fresh(ctx,'r'),env={'OMP_NUM_THREADS':str(T)}); bad=[]
        want=[k*ts for k in range(max(nt-1,0)//ts+1)]; got=DIAG.findall(r.out)
        if r.rc!=0 or r.timed: bad.append(status(r)+': '+r.out[-200:])
        elif len(got)!=len(want): bad.append('%d lines of diagnostics, expected %d: %s'%(len(got),len(want),r.out[-300:]))
        else:
            for g,k in zip(got,want):
                res,tv=DIA(refs[(fl.name,name)][k])
                for what,a,b in (('time',g[0],k*p['dt']),('residual',g[2],res),('total variation',g[3],tv)):
                    try: v=float(a)
                    except ValueError: v=math.nan
                    if not abs(v-b)<=1.1e-5*abs(b)+1e-300: bad.append('the %s printed for step %d is %s, expected %r'%(what,k,a,b))
        prog.drop(r); return cid,bad,3*len(want)
    n=d=0
    for res in prog.pool(one,space):
        if res is None: continue
        n+=1; d+=res[2]
        for b in res[1][:1]: ctx.violation(res[0],b)
    ctx.add(states=n,transitions=d,traces=n,evaluations=n,distinct_nontrivial=n,samples=['%s: every nt in 0..%d, save interval and two thread counts'%(x[0],top+1) for x in cf[:3]],counters=dict(runs=n,numbers_compared=d))
def DIA(r): return r['diag'][0][0],r['diag'][0][2]
# ------------------------------------------------------------------ C24
def c24(ctx):
    exes={f.name:prog.executable(f) for f in FL}; n=14 if ctx.thorough else 9
    def base(x):
        fl,(name,p)=x; r=prog.run(exes[fl.name],dict(p,nt=n+1,t_step_save=1),prog.fresh(ctx,'b')); o,_=prog.outputs(r); prog.drop(r); return (fl.name,name),o
    cf=configs(); bases=dict(prog.pool(base,list(itertools.product(FL,cf))))
    # how the run is repeated: heap contents, working directory, path spelling, environment
    variants=[('plain',{}),('perturb165',dict(env={'MALLOC_PERTURB_':'165'})),('perturb90',dict(env={'MALLOC_PERTURB_':'90','MALLOC_ARENA_MAX':'1'})),('relative',dict(argv_out='out')),('slash',dict(argv_out='out/')),('dotted',dict(argv_out='./out/../out')),('bigenv',dict(env={'PADDING':'x'*70001,'MALLOC_TOP_PAD_':'12345678','MALLOC_MMAP_THRESHOLD_':'128'})),('locale',dict(env={'LC_ALL':'de_DE.UTF-8','LANG':'de_DE.UTF-8'}))]
    space=[(fl,name,p,nt,ts,v) for fl in FL for name,p in cf for nt in range(1,n+2) for ts in range(1,n+1) for v in variants if v[0]=='plain' or (nt in(n+1,n-2) and ts in(1,2,3,5))]
    def one(x):
        fl,name,p,nt,ts,(vn,kw)=x; cid='%s/%s/nt=%d/t_step_save=%d/%s'%(fl.name,name,nt,ts,vn)
        if not ctx.case(cid): return None
        r=prog.run(exes[fl.name],dict(p,nt=nt,t_step_save=ts),prog.fresh(ctx,'r'),**kw); o,_=prog.outputs(r); b=bases[(fl.name,name)]; bad=[]; cmpd=0
        if r.rc!=0 or r.timed: bad.append(status(r))
        for k in range(max(nt-1,0)//ts+1):
            for a,w in zip(names(k),names(k*ts)):
                cmpd+=1
                if o.get(a)!=b.get(w): bad.append('%s differs from %s of the run that saves every step'%(a,w)); break
        if len(o)!=2*(max(nt-1,0)//ts+1): bad.append('unexpected files %s'%sorted(o)[:6])
        prog.drop(r); return cid,bad,cmpd
    # the planner's choice, which the statement leaves open: results agree to rounding
    def plans(x):
        fl,(name,p),v=x; cid='%s/%s/plan=%s'%(fl.name,name,v)
        if not ctx.case(cid): return None
        r=prog.run(exes[fl.name],dict(p,nt=n+1,t_step_save=1),prog.fresh(ctx,'r'),env={'V_PLAN':v}); o,_=prog.outputs(r); b=bases[(fl.name,name)]; bad=[]
        if sorted(o)!=sorted(b): bad.append('other files')
        else:
            for k in b:
                rows=[tuple(float(z) for z in l.split(',')) for l in b[k].decode().split('\n')[1:-1]]
                e=compare(o[k],[(a[0],a[1],10**a[2]) for a in rows])
                if e: bad.append('%s with another FFT plan: %s'%(k,e)); break
        prog.drop(r); return cid,bad,len(b)
    # long runs, saved more and more rarely
    N=2201 if ctx.thorough else 1101; lc=[x for x in cf if x[0] in('base','nonlin')]
    def longbase(x):
        fl,(name,p)=x; r=prog.run(exes[fl.name],dict(p,nt=N,t_step_save=1),prog.fresh(ctx,'b')); o,_=prog.outputs(r); prog.drop(r); return (fl.name,name),o
    lb=dict(prog.pool(longbase,list(itertools.product(FL,lc))))
    def sparse(x):
        fl,(name,p),nt,ts=x; cid='%s/%s/nt=%d/t_step_save=%d'%(fl.name,name,nt,ts)
        if not ctx.case(cid): return None
        r=prog.run(exes[fl.name],dict(p,nt=nt,t_step_save=ts),prog.fresh(ctx,'r')); o,_=prog.outputs(r); b=lb[(fl.name,name)]; bad=[]; want=[(a,w) for k in range((nt-1)//ts+1) for a,w in zip(names(k),names(k*ts))]
        if r.rc!=0 or r.timed: bad.append(status(r))
        for a,w in want:
            if o.get(a)!=b.get(w): bad.append('%s differs from %s of the run that saves every step'%(a,w)); break
        if len(o)!=len(want): bad.append('unexpected files %s'%sorted(o)[:6])
        prog.drop(r); return cid,bad,len(want)
    rare=[(fl,x,N,ts) for fl in FL for x in lc for ts in (10,11,15,16,17,20,25,31,32,33,48,50,63,64,65,99,100,101,127,128,129,200,255,256,257,300,500,512,550,600,1000,1100)]+[(fl,x,nt,ts) for fl in FL for x in lc for nt in (101,257,702) for ts in (7,30,100,256)]
    m=c=0
    for res in prog.pool(one,space)+prog.pool(sparse,rare)+prog.pool(plans,list(itertools.product(FL,cf,('measure','patient')))):
        if res is None: continue
        m+=1; c+=res[2]
        for b in res[1][:1]: ctx.violation(res[0],b)
    ctx.add(states=m,transitions=c,traces=m,evaluations=m,distinct_nontrivial=m,samples=['%s with nt in 1..%d, t_step_save in 1..%d, byte for byte'%(x[0],n+1,n) for x in cf[:3]],counters=dict(runs=m,files_compared=c))
# ------------------------------------------------------------------ C25
def crash_setup(ctx,fl,p):
    exe=prog.executable(fl); r=prog.run(exe,p,prog.fresh(ctx,'u'),plan='none'); o,rest=prog.outputs(r); prog.drop(r)
    return exe,r,o
def rel(path,d): return os.path.relpath(os.path.join(d,path),d)
def c25(ctx):
    n=0; ops_total=0; torn=0; says=0
    cfs=[(n_,dict(p,nt=4 if ctx.thorough else 3,t_step_save=1,nx=8 if n_=='base' else 9)) for n_,p in configs(not ctx.thorough)]
    cfs[0][1]['nt']=6; cfs[0][1]['t_step_save']=2
    for fl in FL:
        for name,p in cfs:
            exe,u,o=crash_setup(ctx,fl,p)
            K=max(p['nt']-1,0)//p['t_step_save']+1; want=[x for k in range(K) for x in names(k)]; ops=u.ops; uid='%s/%s'%(fl.name,name)
            # which of the two files of a snapshot comes first is not prescribed; the uninterrupted run tells
            order=list(dict.fromkeys(os.path.relpath(x[2],u.dir+'/out') for x in ops if x[1]=='open')); step=[order[j:j+2] for j in range(0,len(order),2)]
            if ctx.case(uid+'/order'):
                n+=1
                out=[x for x in ops if x[1] in('open','write','close') and os.path.dirname(os.path.normpath(x[2]))!=os.path.normpath(u.dir+'/out')]
                if u.rc!=0: ctx.violation(uid+'/order','uninterrupted run: '+status(u))
                elif [sorted(x) for x in step]!=[sorted(names(k)) for k in range(K)]: ctx.violation(uid+'/order','files are opened in the order %s'%order[:8])
                elif out: ctx.violation(uid+'/order','operation outside the output directory: %s %s'%out[0][1:3])
            points=[]
            for (i,what,path,arg,res) in ops:
                points.append(('kill@%d'%i,i))
                if what=='write':
                    L=arg
                    cuts=range(0,L) if ctx.thorough or L<=12 else sorted(set([0,1,2,L//2,L-2,L-1]+list(range(0,L,5))))
                    points+=[('torn@%d:%d'%(i,c),i) for c in cuts]
            points.append(('kill@%d'%(len(ops)),len(ops)))
            def one(pt):
                plan,i=pt; cid='%s/%s'%(uid,plan)
                if not ctx.case(cid): return None
                r=prog.run(exe,p,prog.fresh(ctx,'k'),plan=plan); got,rest=prog.outputs(r); bad=[]
                killed=i<len(ops)
                if r.rc!=(-9 if killed else 0): bad.append('run ended with '+status(r))
                if rest: bad.append('files outside the output directory: %s'%list(rest))
                seq=[x for x in order if x in got]
                if set(got)-set(want): bad.append('unexpected file %s'%sorted(set(got)-set(want))[0])
                if seq!=order[:len(seq)]: bad.append('files %s exist: not a prefix of the order of the uninterrupted run'%seq)
                done={x for x in order if any(q[0]<len(r.ops) and q[1]=='close' and os.path.basename(q[2])==x and q[4] not in('killed','') for q in r.ops)}
                for j,x in enumerate(seq):
                    if j<len(seq)-1 or x in done:
                        if got[x]!=o[x]: bad.append('%s was complete before the kill but differs from the uninterrupted run'%x)
                    elif not o[x].startswith(got[x]): bad.append('%s is not a prefix of the uninterrupted file'%x)
                prog.drop(r); return cid,bad
            for res in prog.pool(one,points):
                if res is None: continue
                n+=1
                for b in res[1][:1]: ctx.violation(res[0],b)
            # nothing of a finished snapshot is held back: killed right after any write to standard output
            def said(q):
                cid='%s/killout@%d'%(uid,q)
                if not ctx.case(cid): return None
                r=prog.run(exe,p,prog.fresh(ctx,'k'),plan='killout@%d'%q); got,rest=prog.outputs(r); bad=[]; t=len(times(r.out))
                if r.rc not in(-9,0): bad.append('run ended with '+status(r))
                for x in [y for k in range(max(0,t-1)) for y in names(k)]:
                    if got.get(x)!=o[x]: bad.append('the progress of snapshot %d was printed while %s was not complete'%(t-1,x))
                prog.drop(r); return cid,bad,r.rc
            last=u.out.count('\n'); sres=prog.pool(said,range(last+3))
            if ctx.only is None and sres[-1][2]!=0: sres+=prog.pool(said,range(last+3,12*last+40))
            for res in sres:
                if res is None: continue
                n+=1; says+=1
                for b in res[1][:1]: ctx.violation(res[0],b)
            ops_total+=len(ops); torn+=sum(1 for q in points if q[0][0]=='t')
    ctx.add(states=n,transitions=ops_total,traces=n,evaluations=n,distinct_nontrivial=n,samples=['kill before every one of the file operations, and inside every write, of %s'%c[0] for c in cfs],counters=dict(crash_points=n,torn_writes=torn,kills_at_standard_output=says,file_operations=ops_total))
# ------------------------------------------------------------------ C26
def c26(ctx):
    E=dict(ENOSPC=28,EACCES=13,EIO=5,EMFILE=24,EROFS=30,EDQUOT=122,ENOENT=2); n=0
    cfs=[(n_,dict(p,nt=4,t_step_save=1 if n_=='base' else 2)) for n_,p in configs(not ctx.thorough)]
    for fl in FL:
        for name,p in cfs:
            exe,u,o=crash_setup(ctx,fl,p); ops=u.ops; K=max(p['nt']-1,0)//p['t_step_save']+1; order=[x for k in range(K) for x in names(k)]; uid='%s/%s'%(fl.name,name)
            plans=[]   # plan, files that may differ, files whose open fails for good
            path={i:os.path.basename(pa) for i,_,pa,_,_ in ops}
            for (i,what,pa,arg,res) in ops:
                f=os.path.basename(pa)
                if what=='open':
                    for e in ('EACCES','EMFILE','ENOSPC') if not ctx.thorough else E: plans.append(('err@%d:%d'%(i,E[e]),{f},{f}))
                    later={os.path.basename(q[2]) for q in ops if q[0]>=i and q[1]=='open'}
                    plans.append(('allopen:%d:%d'%(E['EMFILE'],i),later,later))
                elif what=='write':
                    for e in ('ENOSPC','EIO') if not ctx.thorough else ('ENOSPC','EIO','EDQUOT'): plans.append(('err@%d:%d'%(i,E[e]),{f},set()))
                    plans.append(('allwrite:%d:%d'%(E['ENOSPC'],i),{os.path.basename(q[2]) for q in ops if q[0]>=i and q[1]=='write'},set()))
                    # not faults: the kernel may always transfer less or be interrupted
                    for c in {1,arg//2,arg-1}:
                        if 0<c<arg: plans.append(('short@%d:%d'%(i,c),set(),set()))
                    plans.append(('err@%d:4'%i,set(),set()))
            # every set of files that cannot be opened; every set of files on a full disk
            sub=list(itertools.chain.from_iterable(itertools.combinations(order,k) for k in range(1,len(order)+1)))
            for s in sub:
                plans.append((','.join('openerr=%s:%d'%(x,E['EACCES']) for x in s),set(s),set(s)))
                plans.append((','.join('writeerr=%s:%d:%d'%(x,E['ENOSPC'],40) for x in s),set(s),set()))
                if len(s)==2: plans.append(('openerr=%s:13,writeerr=%s:28:0'%s,set(s),{s[0]}))
            for x in order:
                for b in range(0,len(o.get(x,b''))+1,1 if ctx.thorough else 7): plans.append(('writeerr=%s:28:%d'%(x,b),{x},set()))
            def one(pl):
                plan,may,opens=pl; cid='%s/%s'%(uid,plan)
                if not ctx.case(cid): return None
                r=prog.run(exe,p,prog.fresh(ctx,'f'),plan=plan); got,rest=prog.outputs(r); bad=[]
                if r.rc!=0 or r.timed: bad.append('the run ended with '+status(r)+': '+r.out[-150:])
                else:
                    t=times(r.out)
                    if len(t)!=K: bad.append('%d of %d snapshots reported on standard output'%(len(t),K))
                    for x in order:
                        if x not in may and got.get(x)!=o[x]: bad.append('%s was not affected by the fault but %s'%(x,'is missing' if x not in got else 'differs from the fault-free run'))
                        if x in opens and not any(x in l for l in r.out.split('\n')): bad.append('no message names %s, which could not be opened'%x)
                    if set(got)-set(order) or rest: bad.append('unexpected file %s'%sorted((set(got)-set(order))|set(rest))[0])
                prog.drop(r); return cid,bad
            for res in prog.pool(one,plans):
                if res is None: continue
                n+=1
                for b in res[1][:1]: ctx.violation(res[0],b)
    ctx.add(evaluations=n,distinct_nontrivial=n,states=n,transitions=n,traces=n,samples=['every single fault, every suffix of faults and every set of failing files of '+c[0] for c in cfs],counters=dict(fault_plans=n))
# ------------------------------------------------------------------ C28
def c28(ctx):
    exe=prog.executable(FL[0]); exe2=prog.executable(FL[1]); keys=prog.REQUIRED; n=0; p=dict(BASE,nt=2,t_step_save=1)
    subs=[()]+[(k,) for k in keys]+list(itertools.combinations(keys,2))
    if ctx.thorough: subs+=list(itertools.combinations(keys,3))
    subs+=[tuple(keys)]+[tuple(keys[i:]) for i in range(1,len(keys))]+[tuple(k for k in keys if k!=x) for x in keys]
    space=[]
    for i,s in enumerate(subs):
        for style in range(5): 
            if style==0 or len(s)==1 or (i+style)%7==0: space.append((s,style))
    def one(x):
        s,style=x; cid='missing %s/style %d'%('+'.join(s) if len(s)<6 else '%d parameters %s..%s'%(len(s),s[0],s[-1]),style)
        if not ctx.case(cid): return None
        items=[(k,v) for k,v in p.items() if k not in s]
        L=['%s %s'%(k,v) for k,v in items]
        if style==1: L.reverse()
        if style==2: L=[y for k in s for y in ('x%s %s'%(k,p[k]),'%s_ %s'%(k,p[k]),' %s %s'%(k,p[k]),'%s\t%s'%(k,p[k]),'%s=%s'%(k,p[k]),'# %s %s'%(k,p[k]))]+L
        if style==3: L=L+['other %s %s'%(k,p[k]) for k in s]+['']
        t='\n'.join(L)+('\n' if style!=4 else '')
        r=prog.run(exe if style%2==0 else exe2,p,prog.fresh(ctx,'m'),param_text=t); o,rest=prog.outputs(r); bad=[]
        if not s:
            if r.rc!=0: bad.append('complete file, but '+status(r)+': '+r.out[-200:])
            elif sorted(o)!=sorted(names(0)+names(1)): bad.append('complete file, but the files are %s'%sorted(o))
        else:
            if r.timed or r.rc==0: bad.append('the program ended with status 0' if r.rc==0 else status(r))
            elif r.rc<0: bad.append('the program was ended by signal %d instead of exiting with a failure status'%-r.rc)
            if o or rest: bad.append('files were written: %s'%sorted(list(o)+list(rest))[:4])
            # the message is the part of the output that is not the echo of a parameter that was read
            msg=[l for l in r.out.split('\n') if not any(l.startswith(k+'\t') for k,_ in items)]
            if not any(re.search(r'(?<![\w])%s(?![\w])'%re.escape(k),l) for k in s for l in msg): bad.append('no message names a missing parameter: %r'%r.out[-200:])
        prog.drop(r); return cid,bad
    for res in prog.pool(one,space):
        if res is None: continue
        n+=1
        for b in res[1][:1]: ctx.violation(res[0],b)
    # no parameter file at all, and an empty one
    for cid,kw in (('no file',dict(param_name='nothere.txt')),('empty file',dict(param_text='')),('a directory',dict(param_name='.'))):
        if not ctx.case(cid): continue
        r=prog.run(exe,p,prog.fresh(ctx,'m'),**kw); o,rest=prog.outputs(r); n+=1
        if r.rc==0 or r.timed or o or rest: ctx.violation(cid,status(r)+', files %s'%sorted(o))
        prog.drop(r)
    ctx.add(evaluations=n,distinct_nontrivial=n,samples=['all %d subsets x orders and decoys; e.g. %s'%(len(subs),subs[30:33])],counters=dict(runs=n))

# ------------------------------------------------------------------ C33, second part: the real runtime
def c33(ctx):
    try: ctx.harness([dict(name='h_sched',fl=Flavour(a,b,'sched'),files=['schedrt.cpp','h_sched.cpp']) for a,b in ((True,True),(False,False))],limit=600)
    except build.BuildError as e:
        # a construct that the controlled runtime does not implement: what remains is the real one
        ctx.exhaustive=False; ctx.extra['controlled_scheduler']='not built: '+str(e)[-400:]; print('note: the controlled runtime does not build with this tree; real runs only')
    if ctx.onlyjob: return
    exes={f.name:prog.executable(f) for f in FL}; cf=[(a,dict(p,nt=5 if ctx.thorough else 3,t_step_save=1)) for a,p in configs()]
    def base(x):
        fl,(name,p)=x; r=prog.run(exes[fl.name],p,prog.fresh(ctx,'b'),env={'OMP_MAX_ACTIVE_LEVELS':'1'}); o,_=prog.outputs(r); prog.drop(r); return (fl.name,name),(o,r)
    bases=dict(prog.pool(base,list(itertools.product(FL,cf))))
    space=[(fl,name,p,T,L,rep) for fl in FL for name,p in cf for T in ((1,2,3,4,5,6,7,8,16) if ctx.thorough else (1,2,3,5,8)) for L in (1,2) for rep in range(3 if ctx.thorough else 1)]
    num=re.compile(r'[-+]?[0-9][0-9.]*(?:[eE][-+]?[0-9]+)?|nan|inf',re.I)
    def one(x):
        fl,name,p,T,L,rep=x; cid='run/%s/%s/threads=%d/levels=%d/%d'%(fl.name,name,T,L,rep)
        if not ctx.case(cid): return None
        r=prog.run(exes[fl.name],p,prog.fresh(ctx,'r'),threads=T,env={'OMP_MAX_ACTIVE_LEVELS':str(L),'OMP_DYNAMIC':'false'}); o,_=prog.outputs(r); b,br=bases[(fl.name,name)]; bad=[]
        if r.rc!=0 or r.timed: bad.append(status(r))
        if sorted(o)!=sorted(b): bad.append('other files than with one thread: %s'%sorted(o)[:6])
        for k in b:
            if o.get(k)!=b[k]: bad.append('%s differs from the run with one thread'%k); break
        # diagnostics printed at every saved step: numbers agree to rounding
        def diag(t): return [[float(z) for z in num.findall(l)] for l in t.split('\n') if re.match(r'^\s*[-+0-9.eE]+\s+Grid\b',l)]
        for l1,l2 in zip(diag(r.out),diag(br.out)):
            if len(l1)!=len(l2) or any(not(abs(u-v)<=2e-5*abs(v)+1e-300) and not (u!=u and v!=v) for u,v in zip(l1,l2)): bad.append('diagnostics %s, with one thread %s'%(l1,l2)); break
        if len(diag(r.out))!=len(diag(br.out)): bad.append('%d lines of diagnostics, %d with one thread'%(len(diag(r.out)),len(diag(br.out))))
        prog.drop(r); return cid,bad
    n=0
    for res in prog.pool(one,space,4):
        if res is None: continue
        n+=1
        for b in res[1][:1]: ctx.violation(res[0],b)
    if 'controlled_scheduler' in ctx.extra: ctx.add(states=n,transitions=n,traces=n)
    ctx.add(evaluations=n,distinct_nontrivial=n,counters=dict(real_runs=n))

# ------------------------------------------------------------------ C35
def c35(ctx):
    mk=lambda a,b: dict(name='h_layout',files=['h_layout.cpp'],fl=Flavour(a,b))
    ex=build.build_many([runner.spec(mk(a,b)) for a in (True,False) for b in (True,False)])
    ctx.harness([dict(mk(a,False),env={'V_PEER':ex[('h_layout',Flavour(a,True).name)]},shards=8) for a in (True,False)])
    if ctx.onlyjob: return
    exes={(a,b):prog.executable(Flavour(a,b)) for a in (True,False) for b in (True,False)}; n=0
    def one(x):
        a,(name,p),nt=x; cid='run/%s/%s/nt=%d'%('cheb' if a else 'fd',name,nt)
        if not ctx.case(cid): return None
        o=[]; bad=[]
        for b in (True,False):
            r=prog.run(exes[(a,b)],dict(p,nt=nt,t_step_save=2),prog.fresh(ctx,'r')); o.append(prog.outputs(r)[0]); prog.drop(r)
            if r.rc!=0: bad.append(status(r))
        if sorted(o[0])!=sorted(o[1]): bad.append('other files: %s and %s'%(sorted(o[0])[:4],sorted(o[1])[:4]))
        else:
            for k in o[0]:
                try: rows=[tuple(float(z) for z in l.split(',')) for l in o[0][k].decode().split('\n')[1:-1]]
                except ValueError: bad.append('%s is not a table'%k); break
                e=compare(o[1][k],[(q[0],q[1],10**q[2]) for q in rows])
                if e: bad.append('%s differs between the layouts: %s'%(k,e)); break
        return cid,bad
    for res in prog.pool(one,list(itertools.product((True,False),configs()+shape_configs(),(1,4,9)))):
        if res is None: continue
        n+=1
        for b in res[1][:1]: ctx.violation(res[0],b)
    ctx.add(evaluations=n,distinct_nontrivial=n,counters=dict(pairs_of_runs=n))
def shape_configs():
    """the executable on every small angular grid"""
    b=dict(BASE,nt=4,t_step_save=2); r=[]
    for l,m,nlat,nphi in ((1,0,2,1),(1,0,3,2),(2,2,3,5),(2,1,5,3),(3,3,4,7),(3,2,7,5),(4,0,5,2),(4,4,5,9),(2,2,8,5),(2,2,3,12)):
        for la in range(0,l+1):
            r.append(('l=%d,m=%d,nlat=%d,nphi=%d,pulse=%d'%(l,m,nlat,nphi,la),dict(b,nl=l,nm=m,nlat=nlat,nphi=nphi,l_ang=la,m_ang=min(la,m),nx=8+(la+nphi)%3)))
    return r
# ------------------------------------------------------------------ C34
def c34(ctx):
    S=lambda a,b: Flavour(a,b,'san')
    def job(n,prop,a,b,**k): return dict(name=n,files=[n+'.cpp'],fl=S(a,b),prop=prop,crash_only=True,env={'V_NOLARGE':'1'},id='%s:%s:%s'%(n,prop,S(a,b).name),**k)
    T,F=True,False; J=[]
    both=((T,T),(F,F)); other=((T,F),(F,T)); al=both+other
    for q,fl in dict(C01=((T,T),),C02=((T,T),),C03=((T,T),),C06=((T,T),(F,T)),C04=((F,T),),C05=((F,T),)).items(): J+=[job('h_radial',q,a,b) for a,b in fl]
    for q,fl in dict(C07=both,C08=both[1:],C09=both).items(): J+=[job('h_sphere',q,a,b) for a,b in (fl if not ctx.thorough else both)]
    for q,fl in dict(C10=other,C11=al,C12=other,C13=other,C14=other).items(): J+=[job('h_grid',q,a,b) for a,b in (fl if not ctx.thorough else al)]
    for q,fl in dict(C18=both,C19=both[1:],C20=al,C15=(),C16=(),C17=()).items(): J+=[job('h_eom',q,a,b) for a,b in (fl if not ctx.thorough else both)]
    for q,fl in dict(C21=both[:1],C22=al,C27=both[:1]).items(): J+=[job('h_misc',q,a,b) for a,b in fl]
    ctx.harness(J)
    if ctx.onlyjob: return
    # the executable itself, sanitized, with its assertions, on every small angular grid and thread count
    exes={(a,b):prog.executable(S(a,b)) for a in (T,F) for b in (T,F)}; n=0
    env={'ASAN_OPTIONS':'detect_leaks=1:abort_on_error=0:exitcode=99','UBSAN_OPTIONS':'print_stacktrace=1'}
    def one(x):
        a,b,(name,p),th=x; cid='run/%s/%s/threads=%d'%(S(a,b).name,name,th)
        if not ctx.case(cid): return None
        r=prog.run(exes[(a,b)],dict(p,nt=4,t_step_save=2),prog.fresh(ctx,'r'),threads=th,env=env); o,_=prog.outputs(r); prog.drop(r)
        m=re.search(r'ERROR: \w+Sanitizer.*|runtime error.*|.*Assertion.*failed.*',r.out)
        return cid,([status(r)+': '+(m.group(0) if m else r.out[-300:])] if r.rc!=0 or r.timed else [])
    for res in prog.pool(one,[(a,b,c,th) for a in (T,F) for b in (T,F) for c in configs()+shape_configs() for th in ((1,3) if not ctx.thorough else (1,2,3,8))]):
        if res is None: continue
        n+=1
        for b in res[1][:1]: ctx.violation(res[0],b)
    # uninitialised reads: the release executable under memcheck
    rel={k:prog.executable(Flavour(*k)) for k in exes}; m=0; vg=shutil.which('valgrind')
    def mem(x):
        a,b,(name,p)=x; cid='memcheck/%s/%s'%(Flavour(a,b).name,name)
        if not ctx.case(cid): return None
        d=prog.fresh(ctx,'v'); log=os.path.dirname(d)+'/vg.log'
        r=prog.run(vg,dict(p,nt=4,t_step_save=2),d,pre=['-q','--error-exitcode=97','--log-file='+log,rel[(a,b)]]); o,_=prog.outputs(r); t=open(log,errors='replace').read() if os.path.exists(log) else ''; prog.drop(r)
        return cid,(['memcheck: '+t[:500]] if r.rc==97 else [status(r)+' under memcheck: '+t[:300]] if r.rc!=0 else [])
    if vg:
        for res in prog.pool(mem,[(a,b,c) for a,b in (al if ctx.thorough else both) for c in configs()+shape_configs()]):
            if res is None: continue
            m+=1
            for b in res[1][:1]: ctx.violation(res[0],b)
    else: ctx.exhaustive=False
    ctx.add(evaluations=n+m,distinct_nontrivial=n+m,counters=dict(sanitized_runs=n,memcheck_runs=m))
