"""C29-C32: the Python run machinery (sim_class.py, config.py) and the Makefiles, in scratch copies."""
import glob, hashlib, importlib.util, itertools, json, math, multiprocessing, os, random, shutil, stat, struct, subprocess, sys, tempfile
from fractions import Fraction
from . import build, prog
from .build import Flavour, REPO
sys.dont_write_bytecode=True
PARAMS=dict(nt='i',nx='i',nl='i',nm='i',nlat='i',nphi='i',t_step_save='i',dt='f',compactification_length='f',Rmax='f',Rmin='f',black_hole_mass='f',black_hole_spin='f',km1='f',k0='f',k1='f',k2='f',V2='f',V3='f',V4='f',initial_data_type='s',initial_data_direction='s',amp='f',rl='f',ru='f',l_ang='i',m_ang='i')
def load():
    if REPO not in sys.path: sys.path.append(REPO)
    spec=importlib.util.spec_from_file_location('sim_class',REPO+'/sim_class.py'); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m); return m
def defaults():
    """what runscript_template.py sets, by hand"""
    return dict(output_dir=None,recompile=False,run_type='basic_run',black_hole_mass=1.0,black_hole_spin=0.9999,compactification_length=20.0,evolve_time=60.0,num_saved_times=12,nx=17,nl=4,nm=4,nlat=8,nphi=10,use_cheb=False,cfl=0.75,bin_name='default_fd.run',km1=0.0,k0=1.0,k1=0.0,k2=0.0,V2=1.0,V3=0.0,V4=100.0,l_ang=0,m_ang=0,amp=0.5,rl_0=-1.0,ru_0=3.0,initial_data_type='compact_pulse',initial_data_direction='outgoing',computer='home',out_stem='/nowhere',time_it=False,num_omp_levels=1,num_threads=4,walltime='24:00:00',memory='8192',email='a@b.c')
def quiet():
    n=os.open('/dev/null',os.O_RDWR); os.dup2(n,0); os.dup2(n,1); os.dup2(n,2); os.close(n)
def workers(f,items,n=None):
    """every item in one of several forked processes (current directory and environment are per process)"""
    n=n or min(8,os.cpu_count() or 4); items=list(items)
    if not items: return []
    with multiprocessing.get_context('fork').Pool(n,initializer=quiet) as p: return p.map(f,items,chunksize=max(1,min(20,len(items)//(4*n)+1)))
def stubs(d):
    """stand-ins on PATH; they only act inside the scratch tree"""
    b=d+'/stub'; os.makedirs(b)
    def w(n,t): open(b+'/'+n,'w').write('#!/bin/sh\n'+t); os.chmod(b+'/'+n,0o755)
    w('time','exec "$@"\n')
    return b
# ------------------------------------------------------------------ C29
def floats(thorough):
    v=[0.0,-0.0,1.0,-1.0,0.1,0.2,0.1+0.2,1/3,2/3,1e22,1e23,1e16,123456789012345680.0,9007199254740993.0,1e-5,1e-4,0.0001,1e-300,2.2250738585072014e-308,1.7976931348623157e308,5e-324*2**60,math.pi,math.e,1e100,-1e-100,0.9999,8.5e-06,4.35,1.1,2.675,1e15,1e17,1.5e300,float.fromhex('0x1.fffffffffffffp-1'),float.fromhex('0x1.0000000000001p0'),3,-7,10**6]
    r=random.Random(12345)
    while len(v)<(400 if thorough else 60):
        x=struct.unpack('<d',struct.pack('<Q',r.getrandbits(64)))[0]
        if x==x and 1e-300<abs(x)<1e300: v.append(x)
    return v
def c29_space(thorough):
    fl=floats(thorough); F=['km1','k0','k1','k2','V2','V3','V4','amp','rl_0','ru_0']; sp=[]
    small=[x for x in fl if abs(x)<1e200]
    for k in F:
        for x in (fl if k in F[:8] else small): sp.append({k:x})
    pos=[x for x in fl if isinstance(x,float) and 1e-3<x<1e6]+[1.0+i/7 for i in range(12)]+[0.3,0.7,1e-2,17.123456789]
    for x in pos: sp+= [dict(compactification_length=x),dict(black_hole_mass=x,black_hole_spin=x),dict(black_hole_mass=x,black_hole_spin=-0.37*x,evolve_time=3.3/x),dict(black_hole_mass=x,black_hole_spin=0)]
    for i in range(25): sp.append(dict(black_hole_spin=round((-1+i/12)*1.0,16)))
    for n in list(range(8,41))+[64,100,127,129,513,8193]: sp+= [dict(nx=n),dict(nx=n,use_cheb=True,bin_name='default_cheb.run'),dict(nlat=n,nphi=n+3),dict(nl=n,nm=n-1),dict(l_ang=n,m_ang=n-2)]
    for n in (1,2,3,7,999,1000,1001,123456): sp+= [dict(num_saved_times=n),dict(evolve_time=n*1.1),dict(evolve_time=n)]
    for c in (0.1,0.25,1/3,0.9,1e-3): sp.append(dict(cfl=c))
    for s in ('ingoing','time_symmetric','outgoing'): sp.append(dict(initial_data_direction=s))
    for m in (-3,0,5): sp.append(dict(l_ang=5,m_ang=m))
    sp+= [dict(notes='two words'),dict(grid_levels=[1,2,3]),dict(empty=[]),dict(weights=[0.1,1e-20,-3]),dict(names=['a','b']),dict(nx_old=5,dt_factor=3.0,k=7,V=8,xnt=9,rl_=1,R=2,am=3,amps=[1,2],kk0=5),dict(flag=True,nothing=None),dict(tup=(1,2))]
    r=random.Random(7)
    for i in range(600 if thorough else 120):
        sp.append(dict({k:r.choice(fl) for k in F[:8]},rl_0=r.choice(small),ru_0=r.choice(small),nx=r.randint(8,999),nl=r.randint(1,40),nm=r.randint(0,40),nlat=r.randint(2,80),nphi=r.randint(2,80),compactification_length=r.uniform(1,100),black_hole_mass=(m:=r.uniform(0.1,3)),black_hole_spin=m*r.uniform(-1,1),use_cheb=bool(i%2),bin_name='default_%s.run'%('cheb' if i%2 else 'fd'),evolve_time=r.uniform(0,50)))
    return sp
def c29_one(x):
    i,ch,exe,root=x; d=os.path.join(root,'w%d'%i); os.makedirs(d+'/Bin'); bad=[]
    for b in ('default_cheb.run','default_fd.run'): os.link(exe,d+'/Bin/'+b) if False else shutil.copy(exe,d+'/Bin/'+b)
    os.chdir(d); os.environ['PATH']=root+'/stub:'+os.environ['PATH']
    try:
        s=load().Sim()
        for k,v in dict(defaults(),**ch).items(): setattr(s,k,v)
        s.output_dir='/run'
        s.launch_run()
        od=s.output_dir; dump={}
        try:
            for l in open(od+'/dump.txt'): k,v=l.rstrip('\n').split(' ',1); dump[k]=v
        except OSError: return ch,['the executable did not get as far as having its parameters: '+open(od+'/out.txt').read()[-200:] if os.path.exists(od+'/out.txt') else 'the executable did not run']
        at=vars(s)
        for k,t in PARAMS.items():
            if k not in at: bad.append('Sim has no %s'%k); continue
            h=at[k]; g=dump[k]
            ok=(int(g)==h) if t=='i' else (g==h) if t=='s' else struct.pack('<d',float.fromhex(g))==struct.pack('<d',float(h))
            if not ok: bad.append('%s: Python held %r, the executable obtained %s'%(k,h,g if t!='f' else repr(float.fromhex(g))))
        lines=open(od+'/params.txt').read().split('\n')
        if lines[-1]!='': bad.append('params.txt has no final newline')
        lines=lines[:-1]
        for k,v in at.items():
            if k in('output_file','run_str'): continue   # set after the file was written
            w=k+''.join(' '+str(y) for y in v) if isinstance(v,list) else '%s %s'%(k,v)
            mine=[l for l in lines if l.split(' ')[0]==k]
            if len(mine)!=1: bad.append('%s is recorded on %d lines'%(k,len(mine)))
            elif mine[0]!=w and not (isinstance(v,float) and mine[0].split(' ')[1:]==[x for x in mine[0].split(' ')[1:] if float(x)==v]): bad.append('line %r, expected %r'%(mine[0],w))
        known=set(at)
        for l in lines:
            if l.split(' ')[0] not in known: bad.append('line %r belongs to no attribute'%l)
    except Exception as e: bad.append('exception %r'%e)
    finally: os.chdir('/'); shutil.rmtree(d,ignore_errors=True)
    return ch,bad
def c29(ctx):
    exe=build.build_many([dict(name='h_dump',fl=Flavour(True,True),harness=['h_dump.cpp','planwrap.cpp'],wrap=build.PLANWRAP)])[('h_dump','cheb_th')]
    root=ctx.tmp(); stubs(root); sp=c29_space(ctx.thorough)
    cases=[(i,ch,exe,root) for i,ch in enumerate(sp) if ctx.case(json.dumps(ch,sort_keys=True,default=str))]
    n=0
    for ch,bad in workers(c29_one,cases):
        n+=1
        for b in bad[:1]: ctx.violation(json.dumps(ch,sort_keys=True,default=str),b)
    ctx.add(evaluations=n,distinct_nontrivial=n,samples=['%r'%c for c in sp[5:400:130]],counters=dict(launches=n,values_compared=n*len(PARAMS)))
# ------------------------------------------------------------------ C30
def c30_block(x):
    M,thorough=x; m=load(); bad=[]; n=0; same=m.Sim()   # one object that goes through many configurations
    def f(v): return Fraction(v)
    def rt(q): # sqrt of a Fraction to 40 digits
        s=10**80; return Fraction(math.isqrt(q.numerator*s//q.denominator),10**40)
    spins=[0.0,0,1e-9,0.3,0.5,0.9,0.99,0.9999,1.0,-0.3,-0.9999,-1.0,1-2**-53]
    for a in [round(q*M,16) if q not in (1.0,-1.0,0) else q*M for q in spins]:
        if abs(a)>M: continue
        for cl in (1.0,20.0,7,1e6,0.1):
            for rl0,ru0 in ((-1.0,3.0),(1.1,2.5),(1,4)):
                for cheb in (True,False):
                    for nx,nlat,nphi in ((8,4,6),(9,6,4),(17,2,3),(65,40,40),(8193,40,44),(33,64,20),(33,20,64),(12,12,12),(3,2,3)):
                        for cfl in ((0.75,0.1,1.3) if not cheb else (0.75,)):
                            for T,ns in ((600.0,1200),(1.0,3),(0.0,5),(10,1000000),(33.3,7),(1e-3,1),(123.456,100)):
                                if not thorough and (n%7) not in (0,3) : n+=1; continue
                                n+=1; s=same if n%3==0 else m.Sim()
                                for k,v in dict(defaults(),black_hole_mass=M,black_hole_spin=a,compactification_length=cl,rl_0=rl0,ru_0=ru0,use_cheb=cheb,nx=nx,nlat=nlat,nphi=nphi,cfl=cfl,evolve_time=T,num_saved_times=ns).items(): setattr(s,k,v)
                                if cheb and hasattr(s,'cfl'): del s.cfl
                                if n%5==0: s.set_derived_params()     # setting them twice is the same
                                try: s.set_derived_params()
                                except Exception as e: bad.append((vars(s).copy(),'exception %r'%e)); continue
                                fM,fa,fcl=f(M),f(a),f(cl); hor=fM+rt((fM-fa)*(fM+fa)); mx=max(nx,nlat,nphi) if cheb else max(nlat,nphi)
                                dt=Fraction(6,mx*mx)
                                if not cheb: dt=min(dt,f(cfl)/(nx-1))
                                def near(g,w,r=1e-13): return isinstance(g,(int,float)) and not isinstance(g,bool) and abs(f(g)-w)<=f(r)*abs(w)
                                def no(w): bad.append((dict(M=M,a=a,cl=cl,rl0=rl0,ru0=ru0,cheb=cheb,nx=nx,nlat=nlat,nphi=nphi,cfl=cfl,T=T,ns=ns),w))
                                # the square root loses relative accuracy near |a|=M only through the rounding of M-a
                                if not near(s.horizon,hor): no('horizon %r, expected %r'%(s.horizon,float(hor)))
                                elif not near(s.rl,f(s.horizon)*f(rl0)) or not near(s.ru,f(s.horizon)*f(ru0)): no('rl, ru = %r, %r'%(s.rl,s.ru))
                                elif not near(s.Rmin,hor/(1+hor/fcl)): no('Rmin %r, expected %r'%(s.Rmin,float(hor/(1+hor/fcl))))
                                elif s.Rmax!=cl: no('Rmax %r'%s.Rmax)
                                elif not near(s.dt,dt): no('dt %r, expected %r'%(s.dt,float(dt)))
                                else:
                                    q=f(T)*fM/f(s.dt)
                                    if type(s.nt) is not int or not (q*(1-Fraction(1,10**14))-1<s.nt<=q*(1+Fraction(1,10**14))): no('nt %r, expected floor(%r)'%(s.nt,float(q)))
                                    elif type(s.t_step_save) is not int or s.t_step_save!=max(1,s.nt//ns): no('t_step_save %r, nt=%r, num_saved_times=%r'%(s.t_step_save,s.nt,ns))
    return M,n,bad
def c30(ctx):
    ms=[1.0,0.5,2.0,1,0.1,3.7,100.0,1e-3]+([0.3,0.7,1.1,17.0,1e4] if ctx.thorough else [])
    os.makedirs(ctx.tmp(),exist_ok=True); n=0
    for M,k,bad in workers(c30_block,[(M,ctx.thorough) for M in ms]):
        n+=k
        for c,w in bad:
            cid=json.dumps(c,sort_keys=True,default=str)
            if ctx.case(cid): ctx.violation(cid,w)
            if len(ctx.viol)>3: break
    ctx.add(evaluations=n,distinct_nontrivial=n,samples=['mass %r x 13 spins x 5 lengths x pulses x grids x cfl x times'%m for m in ms[:3]])
# ------------------------------------------------------------------ C31
EXE='''#!/bin/sh
# %s
{ echo "id=%s"; echo "cwd=$(pwd -P)"; echo "n=$#"; echo "p=$(realpath "$1")"; echo "o=$(realpath "$2")"; echo "threads=$OMP_NUM_THREADS"; echo "levels=$OMP_MAX_ACTIVE_LEVELS"; echo "end"; } >> "$2/ran.txt"
echo data >> "$2/f_RPsl_0.csv"
'''
def c31_world(d,H):
    os.makedirs(H+'/Bin'); os.makedirs(H+'/Output'); os.makedirs(H+'/Source'); os.makedirs(d+'/cluster'); os.makedirs(d+'/log')
    open(H+'/Source/main.cpp','w').write('// source\n'); open(H+'/runscript.py','w').write('# mine\n')
    b=stubs(d)
    def w(n,t): open(b+'/'+n,'w').write('#!/bin/sh\n'+t); os.chmod(b+'/'+n,0o755)
    w('make','echo "$PWD: $*" >> %s/log/make\nc=; for g in "$@"; do case $g in *=*|-*|Source|Source/) ;; clean*) [ "$c" ] || c=1;; *) c=2;; esac; case $g in clean|clean_Output) rm -rf -- "%s"/Output/*/;; esac; case $g in clean|clean_Bin) rm -f -- "%s"/Bin/*.run;; esac; done\n[ "$c" = 1 ] && exit 0\nt=default_fd.run; case "$*" in *use_cheb=true*) t=default_cheb.run;; *default_cheb.run*) t=default_cheb.run;; esac\nn=$(wc -l < %s/log/make); sed "s/ID/made$n/g" %s/log/exe > Bin/$t; exit 0\n'%(d,H,H,d,d))
    open(d+'/log/exe','w').write(EXE%('ID','ID'))
    w('sbatch','echo "$PWD: $*" >> %s/log/sbatch\nfor a in "$@"; do case $a in -*) ;; *) s=$a;; esac; done\nSLURM_CPUS_PER_TASK=$(sed -n "s/^#SBATCH --cpus-per-task=\\([0-9]*\\).*/\\1/p" "$s")\nexport SLURM_CPUS_PER_TASK\nunset OMP_NUM_THREADS OMP_MAX_ACTIVE_LEVELS\nexec /bin/sh "$s"\n'%d)
    return b
def snap(d):
    t={}
    for a,b,c in os.walk(d):
        if a==d: b[:]=[x for x in b if x not in('stub','log')]
        for x in b: t[os.path.join(a,x)]='dir'
        for x in c:
            p=os.path.join(a,x); t[p]=hashlib.sha1(open(p,'rb').read()).hexdigest()
    return t
OPS=['home','homeA','homeA_rec_cheb','cluster','clusterA_rec_cheb','again','again_none','tick','rebuild','other_mass_timed','homeBC_threads','gone','home_rec_fd']
def c31_one(x):
    hist,root,k,home=x; d=os.path.join(root,'h%d'%k); H=d+'/'+home; bad=[]; launches=0
    path=os.environ['PATH']; b=c31_world(d,H); os.environ['PATH']=b+':'+path; os.environ.pop('OMP_NUM_THREADS',None); os.environ.pop('OMP_MAX_ACTIVE_LEVELS',None)
    import time as realtime, datetime as dt
    # the clock of this world: every part of the date that a name may be made from can tick
    m=load(); clock=[dt.datetime(2026,10,9,9,58,7)]
    class T:
        def __getattr__(s,n): return getattr(realtime,n)
        def localtime(s,*a): return clock[0].timetuple()
        gmtime=localtime
        def asctime(s,*a): return realtime.asctime(*(a or (clock[0].timetuple(),)))
        def ctime(s,*a): return s.asctime()
        def strftime(s,f,*a): return realtime.strftime(f,*(a or (clock[0].timetuple(),)))
        def time(s): return clock[0].timestamp()
    if hasattr(m,'time'): m.time=T()
    ids={}; cnt=[0]
    def put(n): cnt[0]+=1; i='v%d'%cnt[0]; open(H+'/Bin/'+n,'w').write(EXE%(i,i))
    def idof(n):
        try: return open(H+'/Bin/'+n).read().split('\n')[1][2:]
        except OSError: return None
    for n in('default_cheb.run','default_fd.run'): put(n)
    os.chdir(H); last=None; names_used=set()
    try:
        for step,op in enumerate(hist):
            if op.startswith('tick'):
                c=clock[0]; unit=op[5:] or 'second'
                clock[0]=dt.datetime(c.year,c.month+1,c.day,c.hour,c.minute,c.second) if unit=='month' else c+dt.timedelta(**{unit+'s':1}); continue
            if op=='rebuild':
                for n in('default_cheb.run','default_fd.run'): put(n)
                continue
            if op=='gone':
                if os.path.exists('Bin/default_fd.run'): os.unlink('Bin/default_fd.run')
                continue
            if op in('again','again_none') and last is None: continue
            if op in('again','again_none'): s=last
            else:
                s=m.Sim()
                for kk,v in defaults().items(): setattr(s,kk,v)
                s.out_stem=d+'/cluster/sf'
                s.num_threads=2+step; s.num_omp_levels=1+step%2
            if op=='again_none': s.output_dir=None
            if op.startswith('cluster'): s.computer='della'
            if 'A' in op: s.output_dir='/A'
            for q in('nx','nl','nm'):
                if op=='home_'+q: setattr(s,q,getattr(s,q)+1)
            if op=='home_spin': s.black_hole_spin=-s.black_hole_spin
            if 'Odd' in op: s.output_dir='/my run (1) & $HOME *;x'
            if 'Stem' in op: s.out_stem=d+"/cluster/my scratch/o'dd"
            if 'Rel' in op: s.out_stem='../cluster/rel'
            if 'BC' in op: s.output_dir='/B/C'; s.num_threads=7; s.num_omp_levels=3
            if '_rec' in op: s.recompile=True
            if 'cheb' in op: s.use_cheb=True; s.bin_name='default_cheb.run'
            if op=='other_mass_timed': s.black_hole_mass=2.0; s.time_it=True
            s.tag='tag%d'%step; last=s
            asked=s.output_dir; key=(asked,s.computer,s.out_stem if s.computer!='home' else None,(s.black_hole_mass,s.black_hole_spin,s.nx,s.nl,s.nm) if asked is None else None,clock[0] if asked is None else None)
            before=snap(d); logs=[open(d+'/log/sbatch').read().count('\n') if os.path.exists(d+'/log/sbatch') else 0]; cwd=os.getcwd(); missing=not os.path.exists('Bin/'+s.bin_name) and not s.recompile
            err=None
            try: s.launch_run()
            except Exception as e: err=e
            launches+=1
            after=snap(d); where='step %d (%s): '%(step,op)
            if os.path.realpath(os.getcwd())!=os.path.realpath(cwd): bad.append(where+'the working directory is now '+os.getcwd()); os.chdir(cwd)
            for p,h in before.items():
                if after.get(p)!=h and not (p.startswith(H+'/Bin/') and s.recompile): bad.append(where+'%s was %s'%(p,'removed' if p not in after else 'overwritten'))
            new=[p for p in after if p not in before]
            if err is not None:
                if isinstance(err,FileExistsError) and key in names_used:
                    if new: bad.append(where+'a refused launch created %s'%new[0])
                    continue
                if missing and isinstance(err,OSError):
                    if new: names_used.add(key)   # the directory of the failed launch stays behind and keeps its name
                    continue
                bad.append(where+'failed with %r'%err); continue
            if key in names_used: bad.append(where+'an existing output directory was reused')
            names_used.add(key)
            if missing: bad.append(where+'there was no executable to run, yet the launch succeeded'); continue
            D=os.path.realpath(s.output_dir)   # a relative one counts from where the launch was made
            if before.get(D): bad.append(where+'output directory existed before')
            base=H+'/Output' if s.computer=='home' else d+'/cluster'
            if not D.startswith(base): bad.append(where+'output directory is %s'%D)
            for p in new:
                if not (p==D or p.startswith(D+'/') or D.startswith(p+'/')) and not (p.startswith(H+'/Bin/') and s.recompile): bad.append(where+'created %s outside its directory'%p)
            try: ran=dict(l.split('=',1) for l in open(D+'/ran.txt').read().split('\n') if '=' in l); ends=open(D+'/ran.txt').read().count('end\n')
            except OSError: bad.append(where+'the executable did not run in %s'%D); continue
            want=dict(id=idof(s.bin_name),cwd=D,n='2',p=D+'/params.txt',o=D,threads=str(s.num_threads),levels=str(s.num_omp_levels))
            for q in want:
                if ran.get(q)!=want[q]: bad.append(where+'the executable ran with %s=%s, expected %s'%(q,ran.get(q),want[q]))
            if ends!=1: bad.append(where+'the executable ran %d times'%ends)
            if s.recompile and not (want['id'] or '').startswith('made'): bad.append(where+'the executable was not rebuilt')
            if not os.path.exists(D+'/'+s.bin_name) or open(D+'/'+s.bin_name).read()!=open('Bin/'+s.bin_name).read(): bad.append(where+'the directory holds no copy of the executable')
            if 'tag tag%d\n'%step not in open(D+'/params.txt').read(): bad.append(where+'params.txt is not that of this launch')
            sb=open(d+'/log/sbatch').read().count('\n') if os.path.exists(d+'/log/sbatch') else 0
            if sb-logs[0]!=(0 if s.computer=='home' else 1): bad.append(where+'%d batch submissions'%(sb-logs[0]))
    except Exception as e: bad.append('harness: %r'%e)
    finally: os.environ['PATH']=path; os.chdir('/'); shutil.rmtree(d,ignore_errors=True)
    return '/'.join(hist)+(' in '+home if home!='home' else ''),bad,launches
OPS_ODD=['homeOdd','clusterOdd','clusterStem','clusterRel','homeOdd_rec_fd','home_spin','home_nx','home_nl','home_nm']
OPS_TICK=['tick_minute','tick_hour','tick_day','tick_month']
def c31(ctx):
    D=4 if ctx.thorough else 3; ok=lambda h: h[-1] not in('rebuild','gone') and not h[-1].startswith('tick') and not (len(h)>1 and h[0] in('again','again_none'))
    sp=[(h,'home') for k in range(1,D+1) for h in itertools.product(OPS,repeat=k) if ok(h)]
    # names and places with characters that mean something to a shell: every history up to one less
    allops=OPS+OPS_ODD+OPS_TICK
    for home in('home','my ho me',"o'home & (co)"):
        sp+=[(h,home) for k in range(1,D) for h in itertools.product(allops,repeat=k) if ok(h) and (home!='home' or any(o in OPS_ODD+OPS_TICK for o in h))]
    sp+=[((a,)+t+(b,),'home') for a in('home','cluster') for b in('home','cluster') for n in(1,2) for t in itertools.product(OPS_TICK+['tick'],repeat=n)]
    sp=list(dict.fromkeys(sp)); root=ctx.tmp(); n=l=0
    for cid,bad,k in workers(c31_one,[(h,root,i,home) for i,(h,home) in enumerate(sp) if ctx.case('/'.join(h)+(' in '+home if home!='home' else ''))]):
        n+=1; l+=k
        for b in bad[:1]: ctx.violation(cid,b)
    ctx.add(states=n,transitions=l,traces=n,evaluations=n,distinct_nontrivial=n,samples=['/'.join(h)+' in '+w for h,w in sp[100::500]],counters=dict(launches=l))
# ------------------------------------------------------------------ C32
# bare names build; name@k injects at the k-th compiler call
BUILDS={'cheb':'make use_cheb=true use_contiguous_longitudes=true','fd':'make use_contiguous_longitudes=true','cheb_ph':'make use_cheb=true','fd_ph':'make','fd_j':'make -j8 use_contiguous_longitudes=true','cheb_debug':'make debug=true use_cheb=true use_contiguous_longitudes=true','config':sys.executable+' config.py','fd_name':'make default_fd.run use_contiguous_longitudes=true'}
EDITS={'edit_cpp':'grid.cpp','edit_fd':'finite_diff.cpp','edit_hpp':'sphere.hpp','edit_main':'main.cpp'}
def fnv(b,h=1469598103934665603):
    for x in b: h=((h^x)*1099511628211)&0xffffffffffffffff
    return h
def src_state(d):
    """{unit: (hash of source, hash of headers)} of the tree as it is"""
    H=b''
    for f in sorted(glob.glob(d+'/Source/*.h*')): H+=os.path.basename(f).encode()+b'\0'+open(f,'rb').read()
    g=cache_hash(H); return {os.path.basename(f):(cache_hash(open(f,'rb').read()),g) for f in glob.glob(d+'/Source/*.cpp') if os.path.basename(f)!='unit_manager.cpp'}
_hc={}
def cache_hash(b):
    k=hashlib.sha1(b).digest()
    if k not in _hc: _hc[k]='%016x'%fnv(b)
    return _hc[k]
_pp={}
def preprocessed(snapdir,unit,key,defs):
    k=(unit,key,tuple(defs))
    if k not in _pp:
        r=subprocess.run(['g++','-std=c++11','-E','-P','-DNDEBUG','-I'+build.VERIF+'/shtns']+list(defs)+[snapdir+'/'+unit],stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,env=dict(os.environ,PATH=REALPATH))
        _pp[k]=hashlib.sha1(r.stdout).hexdigest() if r.returncode==0 else 'fails'
    return _pp[k]
REALPATH=os.environ.get('PATH','')
def c32_one(x):
    hist,root,fake,k=x; d=os.path.join(root,'b%d'%k); bad=[]; n=0
    shutil.copytree(root+'/base',d); os.makedirs(d+'/.fake/bin'); os.makedirs(d+'/.fake/snap')
    for nm in('g++','c++','gcc','clang++'): os.symlink(fake,d+'/.fake/bin/'+nm)
    open(d+'/.fake/bin/time','w').write('#!/bin/sh\nexec "$@"\n'); os.chmod(d+'/.fake/bin/time',0o755)
    env=dict(os.environ,PATH=d+'/.fake/bin:'+REALPATH,FAKE_DIR=d+'/.fake',HOME=d,MAKEFLAGS='',PYTHONDONTWRITEBYTECODE='1'); env.pop('MAKEFLAGS'); env.pop('MAKELEVEL',None)
    snaps={}
    def remember():
        st=src_state(d); s=tuple(sorted(st.items()))
        if s not in snaps:
            p=d+'/.fake/snap/%d'%len(snaps); os.makedirs(p); snaps[s]=p
            for f in glob.glob(d+'/Source/*.cpp')+glob.glob(d+'/Source/*.h*'): shutil.copy(f,p)
        return st
    def judge(text,cheb,contig,where):
        st=remember(); units=[l.split(' ') for l in text.split('\n') if l.startswith('#U ')]
        names=sorted(u[1] for u in units)
        if names!=sorted(st): bad.append(where+'linked from %s, the program is %s'%(names,sorted(st))); return
        want=(['-DUSE_CHEB'] if cheb else [])+(['-DSHTNS_CONTIGUOUS_LONGITUDES'] if contig else [])
        cur=snaps[tuple(sorted(st.items()))]
        for u in units:
            key=(u[2],u[3]); defs=[a for a in u[4:] if a!='-DNDEBUG' and a[:2] in('-D','-U')]
            if key==st[u[1]] and sorted(set(defs))==sorted(want): continue
            old=[p for s,p in snaps.items() if dict(s).get(u[1])==key]
            if not old: bad.append(where+'%s was compiled from an unknown version'%u[1]); return
            if preprocessed(old[0],u[1],key,sorted(set(defs)))!=preprocessed(cur,u[1],st[u[1]],want):
                bad.append(where+'%s was compiled with %s from %s'%(u[1],' '.join(defs) or 'no options','the current sources' if key==st[u[1]] else 'sources that have changed since')); return
    def sh(cmd,plan=None):
        open(d+'/.fake/n','w').write('0\n'); e=dict(env)
        if plan: e['FAKE_PLAN']=plan
        p=subprocess.Popen(cmd,shell=True,cwd=d,env=e,stdin=subprocess.DEVNULL,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL,start_new_session=True)
        rc=p.wait(120)
        return rc,(not plan or int(open(d+'/.fake/n').read() or 0)>=int(plan.split('@')[1]))
    try:
        remember(); edits=0
        for step,op in enumerate(hist):
            b,_,inj=op.partition('!'); where='step %d (%s): '%(step,op)
            if op in EDITS:
                # a change that every unit seeing the file notices
                edits+=1; f=d+'/Source/'+EDITS[op]; t=open(f).read()
                if f.endswith('.cpp'): t+='\nint edited_%d;\n'%edits
                else: t=t.replace('#endif /*','struct edited_%d {};\n#endif /*'%edits) if '#endif /*' in t else t[:t.rindex('#endif')]+'struct edited_%d {};\n'%edits+t[t.rindex('#endif'):]
                open(f,'w').write(t); q=step*10+1e9*2
                os.utime(f,None); remember(); continue
            if op=='clean': sh('make clean_Source'); continue
            if op=='clean_Bin': sh('make clean_Bin'); continue
            if op=='test': sh('make test'); continue
            n+=1
            if b.startswith('launch'):
                cheb='cheb' in b; name='default_%s.run'%('cheb' if cheb else 'fd')
                a=dict(defaults(),use_cheb=cheb,bin_name=name,recompile=True,output_dir='/o%d'%step)
                if not cheb and 'none' in b: pass
                code='import json,sys\nsys.dont_write_bytecode=True\nfrom sim_class import Sim\ns=Sim()\nfor k,v in json.loads(%r).items(): setattr(s,k,v)\ns.launch_run()\n'%json.dumps(a)
                open(d+'/.fake/run.py','w').write('import sys\nsys.path.insert(0,%r)\n'%d+code)
                rc,hit=sh(sys.executable+' .fake/run.py',inj or None); inj=inj if hit else ''
                p=d+'/Output/o%d/ran.exe'%step
                if os.path.exists(p): judge(open(p).read(),cheb,True,where+'the executable that ran ')
                elif not inj: bad.append(where+'no executable ran (exit status %d)'%rc)
                elif rc==0: bad.append(where+'the failed build is not reported')
                continue
            ex=[(d+'/Bin/default_cheb.run',True),(d+'/Bin/default_fd.run',False)]
            if b!='config': ex=[e for e in ex if e[1]==('cheb' in b)]
            rc,hit=sh(BUILDS[b],inj or None); inj=inj if hit else ''
            if inj and (b!='config' and rc==0): bad.append(where+'a build in which the compiler failed reports success')
            if inj: continue
            if rc!=0: bad.append(where+'the build fails (exit status %d)'%rc); continue
            for f,cheb in ex:
                if not os.path.exists(f): bad.append(where+'%s was not built'%os.path.basename(f)); continue
                judge(open(f).read(),cheb,not b.endswith('_ph'),where+os.path.basename(f)+': ')
    except Exception as e: bad.append('harness: %r'%e)
    finally: shutil.rmtree(d,ignore_errors=True)
    return '/'.join(hist),bad,n
def c32_space(thorough):
    good=['cheb','fd','cheb_ph','fd_ph','fd_j','config','launch_cheb','launch_fd']
    inj=['cheb!fail@3','fd!int@5','cheb!kill@8','config!int@17','launch_fd!fail@2','launch_cheb!fail@11']+(['cheb_ph!kill@6','fd!fail@11','config!kill@15','launch_cheb!int@6','fd_j!int@4','fd_j!kill@9'] if thorough else [])
    other=list(EDITS)+['clean','clean_Bin','test']
    more=['cheb_debug','fd_name'] if thorough else []
    ops=good+more+inj+other; D=4 if thorough else 3; out=[]
    for k in range(1,D+1):
        for h in itertools.product(ops,repeat=k):
            if h[-1] in other or (k>1 and h[0] in ('clean','clean_Bin')): continue
            if any(a==b and a in other for a,b in zip(h,h[1:])): continue
            if k==3 and not thorough and not (h[2] in(('cheb','fd_ph','launch_fd') if len(h[0])%2 else ('fd','launch_cheb')) and h[1]!=h[2]): continue
            if k==4 and not (h[3] in('cheb','fd_ph','launch_fd') and h[0] in good+['test'] and h[2]!=h[3]): continue
            out.append(h)
    # every compiler call of every build as the place of the accident
    for b,m in (('cheb',11),('fd',11),('config',22),('launch_cheb',11),('launch_fd',11)):
        for w in('fail','int','kill'):
            for k in range(1,m+1):
                for a in (('cheb','fd')[k%2],) if not thorough else good: out+= [(b+'!%s@%d'%(w,k),a),(a,'edit_hpp',b+'!%s@%d'%(w,k),'launch_'+('fd' if a=='cheb' else 'cheb'))]
    return list(dict.fromkeys(out))
def c32(ctx):
    fake=build.tool('fakecxx',build.VERIF+'/harness/fakecxx.c'); root=ctx.tmp(); b=root+'/base'
    os.makedirs(b+'/Source'); os.makedirs(b+'/Test')
    for f in ('Makefile','sim_class.py','config.py'): shutil.copy(REPO+'/'+f,b)
    for f in os.listdir(REPO):
        if f.endswith('.py') and not os.path.exists(b+'/'+f): shutil.copy(REPO+'/'+f,b)
    for pat in ('Source/*.cpp','Source/*.h*','Source/Makefile*','Source/*.mk','Test/*.cpp','Test/Makefile'):
        for f in glob.glob(REPO+'/'+pat): shutil.copy(f,b+'/'+os.path.relpath(f,REPO))
    for s in('Bin','Output'):
        os.makedirs(b+'/'+s)
        if os.path.exists(REPO+'/'+s+'/Makefile'): shutil.copy(REPO+'/'+s+'/Makefile',b+'/'+s)
    # sources are a little older than any object a build makes
    t=__import__('time').time()-100
    for a,_,c in os.walk(b):
        for x in c: os.utime(os.path.join(a,x),(t,t))
    sp=c32_space(ctx.thorough); n=l=0
    for cid,bad,k in workers(c32_one,[(h,root,fake,i) for i,h in enumerate(sp) if ctx.case('/'.join(h))]):
        n+=1; l+=k
        for w in bad[:1]: ctx.violation(cid,w)
    ctx.add(states=n,transitions=l,traces=n,evaluations=n,distinct_nontrivial=n,samples=['/'.join(h) for h in sp[50:len(sp):len(sp)//4]],counters=dict(builds=l))
# ------------------------------------------------------------------ C37
TEMPLATE='''import importlib.util,json,runpy,sys
sys.dont_write_bytecode=True
repo,over,state=sys.argv[1],json.loads(sys.argv[2]),sys.argv[3]
sys.path.append(repo)
sp=importlib.util.spec_from_file_location('sim_class',repo+'/sim_class.py'); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
class Sim(m.Sim):
   """what editing the assignments of the run script does"""
   def __setattr__(s,k,v): object.__setattr__(s,k,over[k] if k in over and not vars(s).get('_launched') else v)
   def launch_run(s):
      for k in over: setattr(s,k,over[k])
      s._launched=True
      d=dict(vars(s)); d.pop('_launched'); json.dump(d,open(state,'w'),default=str)
      r=m.Sim.launch_run(s); json.dump(dict(d,_output_dir=s.output_dir),open(state,'w'),default=str); return r
class Mod: pass
x=type(sys)('sim_class'); x.__dict__.update(m.__dict__); x.Sim=Sim; sys.modules['sim_class']=x
runpy.run_path(repo+'/runscript_template.py',run_name='__main__')
'''
C37_BASE=dict(computer='home',out_stem='/nowhere',time_it=False,black_hole_mass=1.0,black_hole_spin=0.3,compactification_length=20.0,evolve_time=0.5,num_saved_times=3,nx=11,nl=3,nm=2,nlat=5,nphi=7,use_cheb=True,V2=0.0,V4=0.0,l_ang=1,m_ang=1,amp=0.25,rl_0=-1.0,ru_0=3.0,initial_data_direction='ingoing',num_omp_levels=1,num_threads=1)
def c37_space(thorough):
    B=C37_BASE; sp=[]
    def a(**k): sp.append(dict(B,**k))
    for M in (1.0,0.5)+((2.0,) if thorough else ()):
        for q in (0.0,0.3,0.9999,1.0,-0.7)+((-1.0,0.5,0.999) if thorough else ()):
            for ch in (True,False):
                for dr in ('ingoing','outgoing','time_symmetric'):
                    for l,m in ((0,0),(1,1),(2,1))+(((1,0),(2,2),(3,2)) if thorough else ()): a(black_hole_mass=M,black_hole_spin=round(q*M,16),use_cheb=ch,initial_data_direction=dr,l_ang=l,m_ang=m)
    for ch in (True,False):
        for T in (0.0,0.03,0.2,1.0,3.3)+((0.7,10.0) if thorough else ()):
            for ns in (1,2,3,7,1000)+((5,11,40) if thorough else ()): a(use_cheb=ch,evolve_time=T,num_saved_times=ns,black_hole_mass=0.8,black_hole_spin=0.5)
        for nx in range(9,26 if thorough else 18): a(use_cheb=ch,nx=nx)
        for nl in range(1,6):
            for nm in range(0,nl+1):
                if thorough or (nl+nm)%2: a(use_cheb=ch,nl=nl,nm=nm,nlat=nl+2,nphi=2*nm+1+nl%2,l_ang=nl if thorough else nl-1 if nl-1>=min(nm,nl-1) else nl,m_ang=min(nm,max(nl-1,0)))
        for cl in (5.0,10.0,50.0,13): a(use_cheb=ch,compactification_length=cl)
        for r in ((-1.0,2.0),(1.1,2.5),(1.5,4.0),(1.0,3.0),(0.5,8.0)): a(use_cheb=ch,rl_0=r[0],ru_0=r[1])
        for k in ('km1','k1','k2','V2','V3','V4'):
            a(use_cheb=ch,**{k:0.4}); a(use_cheb=ch,**{k:-0.7},amp=0.1,black_hole_spin=1.0)
        a(use_cheb=ch,k0=2.0,V2=1.0); a(use_cheb=ch,amp=-0.3,V3=1.0); a(use_cheb=ch,amp=1e-9); a(use_cheb=ch,amp=1e3)
        for t in (2,3,8):
            for lev in (1,2): a(use_cheb=ch,num_threads=t,num_omp_levels=lev)
        for t in (1,4): a(use_cheb=ch,computer='della',num_threads=t,time_it=True)
        a(use_cheb=ch,time_it=True); a(use_cheb=ch,output_dir='/mine'); a(use_cheb=ch,output_dir='/deep/er',computer='della'); a(use_cheb=ch,run_type='basic_rum'); a(use_cheb=ch,run_type='')
    for c in (0.1,0.3,1.1): a(use_cheb=False,cfl=c)
    a(use_cheb=False,nlat=12,nphi=14); a(use_cheb=False,nlat=15,nphi=8); a(use_cheb=True,nlat=15,nphi=8); a(use_cheb=True,nlat=8,nphi=16)
    return sp
def c37_expect(c):
    """the parameters of the run described, by exact arithmetic; None when a rounding decides the number of steps"""
    F=Fraction; M,a,cl=F(c['black_hole_mass']),F(c['black_hole_spin']),F(c['compactification_length'])
    q=(M-a)*(M+a); s=10**80; hor=M+Fraction(math.isqrt(q.numerator*s//q.denominator),10**40)
    mx=max(c['nx'],c['nlat'],c['nphi']) if c['use_cheb'] else max(c['nlat'],c['nphi']); dt=F(6,mx*mx)
    if not c['use_cheb']: dt=min(dt,F(c.get('cfl',0.75))/(c['nx']-1))
    n=F(c['evolve_time'])*M/dt; nt=math.floor(n)
    if n and abs(n-round(n))<F(1,10**9): return None
    p=dict(nt=nt,t_step_save=max(1,nt//c['num_saved_times']),dt=float(dt),Rmin=float(hor/(1+hor/cl)),Rmax=float(cl),rl=float(hor*F(c['rl_0'])),ru=float(hor*F(c['ru_0'])),initial_data_type='compact_pulse',compactification_length=float(cl))
    T=dict(km1=0.0,k0=1.0,k1=0.0,k2=0.0,V2=1.0,V3=0.0,V4=100.0)    # the template's own couplings, unless set
    for k in ('nx','nl','nm','nlat','nphi','black_hole_mass','black_hole_spin','l_ang','m_ang','amp','initial_data_direction'): p[k]=c[k]
    for k in T: p[k]=float(c.get(k,T[k]))
    return p
def c37_one(x):
    i,c,exes,refs,root=x; from . import checks_prog as CP
    d=os.path.join(root,'r%d'%i); home=d+'/home'; os.makedirs(home+'/Bin'); os.makedirs(home+'/Output'); os.makedirs(d+'/cluster'); bad=[]
    for k in ('cheb','fd'): shutil.copy(exes[k],home+'/Bin/default_%s.run'%k)
    b=stubs(d)
    open(b+'/sbatch','w').write('#!/bin/sh\nfor a in "$@"; do case $a in -*) ;; *) s=$a;; esac; done\nSLURM_CPUS_PER_TASK=$(sed -n "s/^#SBATCH --cpus-per-task=\\([0-9]*\\).*/\\1/p" "$s")\nexport SLURM_CPUS_PER_TASK\nunset OMP_NUM_THREADS OMP_MAX_ACTIVE_LEVELS\nexec /bin/sh "$s"\n'); os.chmod(b+'/sbatch',0o755)
    c=dict(c); 
    if c['computer']!='home': c['out_stem']=d+'/cluster/sf'
    p=c37_expect(c); snaps=0
    try:
        if p is None: return c,None,0
        open(d+'/t.py','w').write(TEMPLATE)
        r=subprocess.run([sys.executable,d+'/t.py',REPO,json.dumps(c),d+'/state.json'],cwd=home,env=dict(os.environ,PATH=b+':'+os.environ['PATH'],PYTHONDONTWRITEBYTECODE='1',HOME=home),stdin=subprocess.DEVNULL,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',timeout=240)
        t=prog.tree(d); outs={k:v for k,v in t.items() if not k.startswith(('stub/','home/Bin/')) and k not in('t.py','state.json','home/Output/','cluster/')}
        if c.get('run_type','basic_run')!='basic_run':
            if r.returncode==0 or 'run_type' not in r.stdout: bad.append('an unknown run_type is not refused: status %d'%r.returncode)
            if outs: bad.append('a refused run_type left %s'%list(outs)[:3])
            return c,bad,0
        if r.returncode!=0: return c,['the run script failed: '+r.stdout[-400:]],0
        D=json.load(open(d+'/state.json'))['_output_dir']; D=os.path.relpath(os.path.realpath(D),os.path.realpath(d))
        if not D.startswith('home/Output/' if c['computer']=='home' else 'cluster/'): bad.append('the output directory is %s'%D)
        o={k[len(D)+1:]:v for k,v in outs.items() if k.startswith(D+'/')}; stray=[k for k in outs if not k.startswith(D+'/')]
        if stray: bad.append('files outside the output directory: %s'%stray[:3])
        last=max(p['nt']-1,0)//p['t_step_save']; snaps=last+1; kind='cheb' if c['use_cheb'] else 'fd'
        want={n for k in range(last+1) for n in CP.names(k)}|{'params.txt','out.txt','default_%s.run'%kind}|({'run.slurm'} if c['computer']!='home' else set())
        if set(o)!=want: bad.append('files missing %s, unexpected %s: %s'%(sorted(want-set(o))[:4],sorted(set(o)-want)[:4],o.get('out.txt',b'')[-200:]))
        if o.get('default_%s.run'%kind)!=open(exes[kind],'rb').read(): bad.append('the directory holds no copy of the executable')
        if bad: return c,bad,snaps
        out=o['out.txt'].decode(errors='replace'); tm=CP.times(out); wt=[k*p['t_step_save']*p['dt'] for k in range(last+1)]
        if len(tm)!=len(wt) or any(abs(y-z)>1.1e-5*abs(z) for y,z in zip(tm,wt)): bad.append('printed times %s, expected %s'%(tm[:6],wt[:6]))
        # the first snapshot against the description alone: where the points are, where the pulse is, which harmonic, how large
        rows=[[float(y) for y in l.split(',')] for l in o['f_RPsl_0.csv'].decode().split('\n')[1:-1]]; nx,nl=c['nx'],c['nl']
        if len(rows)!=nx*nl: bad.append('%d rows in the first snapshot, expected %d'%(len(rows),nx*nl))
        else:
            lo,hi,cl=p['Rmin'],p['Rmax'],p['Rmax']; L=hi-lo
            node=[(hi+lo)/2+L/2*math.cos(math.pi*k/(nx-1)) for k in range(nx)] if c['use_cheb'] else [lo+k*L/(nx-1) for k in range(nx)]
            shape=[]
            for R in node:
                y=0.0
                if cl-R>1e-9*cl:
                    rr=R/(1-R/cl); w=p['ru']-p['rl']
                    if p['rl']<rr<p['ru']: y=((rr-p['rl'])/w*(p['ru']-rr)/w)**4*math.exp(-w/(rr-p['rl'])-2*w/(p['ru']-rr))
                shape.append(y*y)
            got=[[10**rows[k*nl+l][2] for l in range(nl)] for k in range(nx)]; top=max(shape); j=shape.index(top); scale=max(max(g) for g in got)
            for k in range(nx):
                if bad: break
                for l in range(nl):
                    rw=rows[k*nl+l]
                    if abs(rw[0]-node[k])>1e-12*hi or rw[1]!=l: bad.append('row %d is R=%r l=%r, expected R=%r l=%d'%(k*nl+l,rw[0],rw[1],node[k],l)); break
                    w=shape[k]/top*got[j][c['l_ang']] if top>0 and l==c['l_ang']<nl else 0.0
                    if abs(got[k][l]-w)>1e-10*scale+2e-16: bad.append('initial power at R=%r l=%d is %r, expected %r'%(node[k],l,got[k][l],w)); break
            if not bad and c['l_ang']==0 and top>0:
                w=4*math.pi*c['amp']**2
                if abs(got[j][0]-w)>1e-10*w+2e-16: bad.append('initial power is %r, an amplitude of %r gives %r'%(got[j][0],c['amp'],w))
        # every snapshot against the evolution of the problem described
        if not bad:
            pf=d+'/p.txt'; open(pf,'w').write(prog.text(p)); ref={}
            for l in subprocess.run([refs[kind],pf,str(last*p['t_step_save'])],stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True,env=dict(os.environ,OMP_NUM_THREADS='1')).stdout.split('\n'):
                w=l.split()
                if len(w)==6: ref.setdefault((int(w[0]),w[1]),[]).append((float(w[4]),int(w[3]),float(w[5])))
            for k in range(last+1):
                for n,q in zip(CP.names(k),('f','rho')):
                    e=CP.compare(o[n],ref[(k*p['t_step_save'],q)]) if not bad else None
                    if e: bad.append('%s is not the field of the run described at time %r: %s'%(n,k*p['t_step_save']*p['dt'],e))
    except Exception as e: bad.append('exception %r'%e)
    finally: shutil.rmtree(d,ignore_errors=True)
    return c,bad,snaps
def c37(ctx):
    # as the Makefiles build them for a launch: contiguous longitudes in both
    exes={k:prog.executable(Flavour(k=='cheb',True)) for k in ('cheb','fd')}
    refs={k:build.build_many([dict(name='h_ref',fl=Flavour(k=='cheb',True),harness=['h_ref.cpp','planwrap.cpp'],wrap=build.PLANWRAP)])[('h_ref',Flavour(k=='cheb',True).name)] for k in ('cheb','fd')}
    sp=c37_space(ctx.thorough); root=ctx.tmp(); n=s=0; key=lambda c: json.dumps({k:v for k,v in sorted(c.items()) if C37_BASE.get(k,'?')!=v},default=str)
    ids=[key(c) for c in sp]
    for (c,bad,k),cid in zip(workers(c37_one,[(i,c,exes,refs,root) for i,c in enumerate(sp) if ctx.case(ids[i])]),[y for y in ids if ctx.case(y)]):
        if bad is None: continue
        n+=1; s+=k
        for w in bad[:1]: ctx.violation(cid,w)
    ctx.add(evaluations=n,distinct_nontrivial=n,samples=ids[3:len(ids):len(ids)//4],counters=dict(runs=n,snapshots_compared=s))
# ------------------------------------------------------------------ C39
# what may lie about in the tree: name -> (files, the clean target that owns it)
LITTER=[
 ('cheb','Bin/default_cheb.run','Bin'),('fd','Bin/default_fd.run','Bin'),('own','Bin/my run.run','Bin'),
 ('binnote','Bin/notes.txt',None),('binbackup','Bin/default_fd.run.old',None),('bindir','Bin/old/default_fd.run',None),
 ('run1','Output/Nov_20_m1.0_s0.9/f_RPsl_0.csv','Output'),('run2','Output/a run/default_fd.run','Output'),('dash','Output/-r/params.txt','Output'),('deep','Output/a/b/c/data.csv','Output'),
 ('outfile','Output/table.csv',None),('outobj','Output/main.o',None),('outrun','Output/x.run',None),
 ('objs','Source/main.o','Source'),('obj2','Source/unit_manager.o','Source'),('srcnote','Source/main.o.txt',None),('srcdir','Source/work/main.o',None),('srcrun','Source/x.run',None),
 ('topobj','main.o',None),('toprun','x.run',None),('topdir','data/f.csv',None),('testobj','Test/main.o',None),('link','Output/link',None)]
TARGETS=[('clean_Bin',),('clean_Output',),('clean_Source',),('clean',),('-C','Bin','clean'),('-C','Output','clean'),('-C','Source','clean'),('clean_Source','clean_Bin'),('-j8','clean'),('-C','Source','clean','use_cheb=true')]
OWN={('clean_Bin',):['Bin'],('clean_Output',):['Output'],('clean_Source',):['Source'],('clean',):['Bin','Output','Source'],('-C','Bin','clean'):['Bin'],('-C','Output','clean'):['Output'],('-C','Source','clean'):['Source'],('clean_Source','clean_Bin'):['Source','Bin'],('-j8','clean'):['Bin','Output','Source'],('-C','Source','clean','use_cheb=true'):['Source']}
def nobody():
    """the effects of a wrong recipe stay with files of an unprivileged user"""
    if os.geteuid()==0:
        os.setgroups([]); os.setgid(65534); os.setuid(65534)
def c39_one(x):
    root,k,tgs,have=x; d='%s/w%d'%(root,k); h=d+'/home/repo'; bad=[]
    shutil.copytree(root+'/base',h,symlinks=True); os.makedirs(d+'/outside/deep'); os.makedirs(d+'/home/other/Output/mine'); os.makedirs(d+'/home/other/Bin')
    for f in('outside/data.csv','outside/deep/x.run','outside/deep/y.o','home/other/Output/mine/f.csv','home/other/Bin/default_fd.run','home/a.o'): open(d+'/'+f,'w').write(f)
    try:
        link=False
        for n,f,_ in LITTER:
            if n not in have: continue
            if n=='link': os.symlink('../../../outside',h+'/'+f); link=True; continue
            os.makedirs(os.path.dirname(h+'/'+f),exist_ok=True); open(h+'/'+f,'w').write(n)
        def look():
            t={}
            for a,b,c in os.walk(d):
                for y in b+c:
                    q=os.path.join(a,y); r=os.path.relpath(q,d)
                    t[r]='link' if os.path.islink(q) else 'dir' if os.path.isdir(q) else open(q).read()
            return t
        if os.geteuid()==0:
            for a,b,c in os.walk(d):
                os.lchown(a,65534,65534)
                for y in b+c: os.lchown(os.path.join(a,y),65534,65534)
        n=0
        for t in tgs:
            before=look()
            try: p=subprocess.run(['make',*t],cwd=h,env=dict(PATH=root+'/stub:'+REALPATH,HOME=h,LC_ALL='C',RM_SCOPE=d),stdin=subprocess.DEVNULL,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',preexec_fn=nobody,timeout=60)
            except subprocess.TimeoutExpired: bad.append('make %s does not end'%' '.join(t)); break
            n+=1; after=look(); own=OWN[t]; where='make %s: '%' '.join(t)
            if 'OUT OF SCOPE' in p.stdout: bad.append(where+'would remove '+p.stdout.split('OUT OF SCOPE ')[1].split('\n')[0]); break
            def mine(r):
                if not r.startswith('home/repo/'): return False
                w=r[len('home/repo/'):].split('/')
                if w[0] not in own or len(w)<2: return False
                if w[0]=='Output': return not w[1].startswith('.') and before.get('home/repo/Output/'+w[1])=='dir'
                return len(w)==2 and not w[1].startswith('.') and w[1].endswith('.run' if w[0]=='Bin' else '.o') and before[r]!='dir'
            for r in before:
                if r not in after and not mine(r) and r!='home/repo/Output/link': bad.append(where+'%s is gone'%r)
                elif r in after and after[r]!=before[r]: bad.append(where+'%s was changed'%r)
                elif r in after and mine(r) and not (link and p.returncode): bad.append(where+'%s is still there'%r)
            for r in after:
                if r not in before: bad.append(where+'%s is new'%r)
            if p.returncode and not link: bad.append(where+'fails: '+p.stdout[-200:].replace('\n',' | '))
            if bad: break
    finally: shutil.rmtree(d,ignore_errors=True)
    return json.dumps([tgs,sorted(have)]),bad,n
def c39(ctx):
    import tempfile
    root=tempfile.mkdtemp(prefix='verif_clean_',dir='/tmp'); os.chmod(root,0o755)
    try:
        b=root+'/base'
        for s in('Source','Test','Bin','Output'): os.makedirs(b+'/'+s)
        for f in os.listdir(REPO):
            if os.path.isfile(REPO+'/'+f) and not f.endswith(('.o','.run')): shutil.copy(REPO+'/'+f,b)
        for s in('Source','Test','Bin','Output'):
            for f in os.listdir(REPO+'/'+s):
                if os.path.isfile(REPO+'/'+s+'/'+f) and not f.endswith(('.o','.run','.csv')) and (s in('Source','Test') or f.startswith(('Makefile','.'))): shutil.copy(REPO+'/'+s+'/'+f,b+'/'+s)
        open(b+'/Output/.keep','w').write(''); os.makedirs(b+'/Output/.hidden/kept'); open(b+'/Output/.hidden/x.csv','w').write('x'); open(b+'/Output/.hidden/kept/x.csv','w').write('x'); open(b+'/Bin/.hidden.run','w').write('x')
        # rm removes nothing outside the scratch tree of the case, whoever calls it
        os.makedirs(root+'/stub')
        open(root+'/stub/rm','w').write('#!/bin/sh\nfor a in "$@"; do case $a in -*) [ -e "$a" ] || continue;; esac; case $(realpath -ms -- "$a") in "$RM_SCOPE"/*) ;; *) echo "OUT OF SCOPE $a"; exit 9;; esac; done\nPATH=${PATH#*:}; exec rm "$@"\n'); os.chmod(root+'/stub/rm',0o755)
        names=[n for n,_,_ in LITTER]; sets=[frozenset(),frozenset(names)]
        for k in (1,2)+((3,) if ctx.thorough else ()):
            for c in itertools.combinations(names,k): sets+=[frozenset(c),frozenset(names)-frozenset(c)]
        sp=[((t,),s) for t in TARGETS for s in sets]
        few=[frozenset(),frozenset(names),frozenset(names)-{'link'}]+[frozenset([n]) for n in names]
        sp+=[((t,u),s) for t in TARGETS for u in TARGETS for s in (few if ctx.thorough else few[:3])]
        if not ctx.thorough: sp=[(t,s) for i,(t,s) in enumerate(sp) if len(t)>1 or not 2<len(s)<len(names)-1 and len(s)!=2 or (i//2)%4==0]
        n=l=0
        for cid,bad,k in workers(c39_one,[(root,i,t,s) for i,(t,s) in enumerate(sp) if ctx.case(json.dumps([t,sorted(s)]))]):
            n+=1; l+=k
            for w in bad[:1]: ctx.violation(cid,w)
        ctx.add(states=n,transitions=l,traces=n,evaluations=n,distinct_nontrivial=n,samples=[json.dumps([t,sorted(s)]) for t,s in sp[40:len(sp):len(sp)//4]],counters=dict(cleanings=l))
    finally: shutil.rmtree(root,ignore_errors=True)
