"""Runs of the real executable (main.cpp and everything it links) in scratch directories."""
import concurrent.futures, os, resource, shutil, signal, subprocess, tempfile
from . import build
from .build import Flavour
BASE=dict(nt=7,nx=8,nl=1,nm=1,nlat=2,nphi=3,t_step_save=2,dt=0.001,compactification_length=20.0,Rmin=1.8,Rmax=20.0,black_hole_mass=1.0,black_hole_spin=0.3,
          km1=0.0,k0=1.0,k1=0.0,k2=0.0,V2=0.0,V3=0.0,V4=0.0,initial_data_type='compact_pulse',initial_data_direction='ingoing',amp=0.5,rl=2.1,ru=9.0,l_ang=0,m_ang=0)
REQUIRED=[k for k in BASE]
def executable(fl,extra=()):
    return build.build_many([dict(name='prog',fl=fl,harness=['planwrap.cpp'],main=True,wrap=build.PLANWRAP,main_extra=tuple(extra))])[('prog',fl.name)]
def tracer(): return build.tool('fstrace',build.VERIF+'/tracer/fstrace.c')
def text(p): return ''.join('%s %s\n'%(k,repr(v) if isinstance(v,float) else v) for k,v in p.items())
class Run: pass
def run(exe,params,d,outdir='out',plan=None,env=None,threads=1,timeout=120,param_text=None,mkout=True,argv_out=None,param_name='params.txt',pre=()):
    """runs in the fresh directory d; returns exit code (negative: signal), stdout, files, op log"""
    os.makedirs(d,exist_ok=True)
    if mkout: os.makedirs(os.path.join(d,outdir),exist_ok=True)
    with open(os.path.join(d,'params.txt'),'w') as f: f.write(param_text if param_text is not None else text(params))
    e=dict(os.environ,OMP_NUM_THREADS=str(threads),OMP_MAX_ACTIVE_LEVELS='2',OMP_WAIT_POLICY='passive'); e.update(env or {})
    cmd=[exe]+list(pre)+[param_name,argv_out or os.path.join(d,outdir)]
    log=d+'.ops'
    if plan is not None: cmd=[tracer(),log,plan or 'none']+cmd
    r=Run(); r.timed=False; r.ops=[]
    so=d+'.stdout'
    with open(so,'wb') as o:
        p=subprocess.Popen(cmd,cwd=d,stdin=subprocess.DEVNULL,stdout=o,stderr=subprocess.STDOUT,env=e,start_new_session=True)
        try: r.rc=p.wait(timeout)
        except subprocess.TimeoutExpired:
            r.timed=True
            try: os.killpg(p.pid,signal.SIGKILL)
            except OSError: pass
            r.rc=p.wait()
    if plan is not None and r.rc>128: r.rc=128-r.rc
    r.out=open(so,errors='replace').read(); os.unlink(so)
    if plan is not None:
        for l in open(log,errors='replace'):
            w=l.split(' ')
            if len(w)>=4: r.ops.append((int(w[0]),w[1],w[2],int(w[3]),w[4].strip() if len(w)>4 else ''))
        os.unlink(log)
    r.dir=d
    return r
def tree(d):
    """every file below d, with its content"""
    t={}
    for a,b,c in os.walk(d):
        for x in c:
            p=os.path.join(a,x)
            with open(p,'rb') as f: t[os.path.relpath(p,d)]=f.read()
        for x in b:
            if not os.listdir(os.path.join(a,x)): t[os.path.relpath(os.path.join(a,x),d)+'/']=b''
    return t
def outputs(r,outdir='out'):
    t=tree(r.dir); o={}; rest={}
    for k,v in t.items():
        if k.startswith(outdir+'/') and k!=outdir+'/': o[k[len(outdir)+1:]]=v
        elif k not in ('params.txt',outdir+'/'): rest[k]=v
    return o,rest
def pool(f,items,n=None):
    with concurrent.futures.ThreadPoolExecutor(n or min(8,os.cpu_count() or 4)) as ex: return list(ex.map(f,items))
def fresh(ctx,name): 
    d=tempfile.mkdtemp(prefix=name+'_',dir=ctx.tmp()); return os.path.join(d,'d')
def drop(r): shutil.rmtree(os.path.dirname(r.dir),ignore_errors=True)
