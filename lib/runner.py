"""Runs harness processes, collects their results, confirms and reports violations, writes evidence."""
import concurrent.futures, hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time
from . import build
VERIF=build.VERIF
def known_findings():
    """lines 'known: property=<id> case=<case> <text>'; 'fixed:' lines suppress nothing"""
    out=[]
    p=os.path.join(VERIF,'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known:'):
                w=dict(x.split('=',1) for x in l.split()[1:] if '=' in x)
                out.append((w.get('property'),w.get('case'),l[6:].strip()))
    return out
def spec(j):
    return dict(name=j['name'],fl=j['fl'],harness=(j['harness'] if 'harness' in j else ['common.cpp','fftwmon.cpp']+j['files']),libs=j.get('libs',[]),main=j.get('main',False),main_extra=j.get('main_extra',()),nowrap=j.get('nowrap',False),rdynamic=j.get('rdynamic',False))
class Ctx:
    def __init__(s,pid,tier,only=None,shard=None,job=None):
        s.pid,s.tier,s.only,s.shard,s.onlyjob=pid,tier,only,shard,job
        s.thorough=(tier=='thorough')
        s.seed=int(os.environ.get('VERIF_SEED','1') or 1)
        s.t0=time.time(); s.viol=[]; s.errors=[]; s.known=[]
        s.cov=dict(evaluations=0,distinct_nontrivial=0,states=0,transitions=0,traces=0,samples=[],notes={},counters={})
        s.jobs=[]; s.level='exploration'; s.rule=''; s.assumptions=[]; s.exhaustive=True; s.extra={}
        s.scratch=None
    def tmp(s):
        if s.scratch is None: s.scratch=tempfile.mkdtemp(prefix='verif_%s_'%s.pid)
        return s.scratch
    # --- pure python checks --------------------------------------------------
    def case(s,cid):
        """true when this case is to be run"""
        return s.only is None or s.only==cid
    def violation(s,case,detail,job=None,shard=None):
        for p,c,t in known_findings():
            if p==s.pid and c==case:
                if t not in s.known: s.known.append(t)
                return
        s.viol.append(dict(property=s.pid,tier=s.tier,case=case,detail=detail,job=job,shard=shard))
    def add(s,**k):
        for a,b in k.items():
            if a in ('samples',):
                for x in b:
                    if len(s.cov['samples'])<6: s.cov['samples'].append(x)
            elif a=='notes':
                for q,v in b.items(): s.cov['notes'][q]=max(v,s.cov['notes'].get(q,v))
            elif a=='counters':
                for q,v in b.items(): s.cov['counters'][q]=s.cov['counters'].get(q,0)+v
            else: s.cov[a]=s.cov.get(a,0)+b
    # --- harness processes ----------------------------------------------------
    def harness(s,jobs,shards=None,limit=780):
        """jobs: list of dict(name, fl, files, env, args, libs...). Every job is built, then run in shards."""
        jobs=[j for j in jobs if s.onlyjob in (None,j.get('id',j['name']+':'+j['fl'].name))]
        exes=build.build_many([spec(j) for j in jobs])
        n=shards or max(1,min(8,build.JOBS))
        tasks=[]
        for j in jobs:
            jid=j.get('id',j['name']+':'+j['fl'].name)
            k=j.get('shards',n)
            for i in range(k):
                if s.shard and s.only is None and s.shard!='%d/%d'%(i,k): continue
                tasks.append((j,jid,exes[(j['name'],j['fl'].name)],'%d/%d'%(i,k)))
                if s.only is not None and not s.shard: break
        if s.only is not None and s.shard:
            # a violation that needs the history of its shard: run the whole shard
            tasks=[t for t in tasks if t[3]==s.shard]
        deadline=s.t0+limit if not s.thorough else time.time()+limit*20
        with concurrent.futures.ThreadPoolExecutor(n) as ex:
            fs=[ex.submit(s._one,t,deadline,s.only if not s.shard else None) for t in tasks]
            res=[f.result() for f in fs]
        for t,r in zip(tasks,res): s._collect(t,r,deadline)
    def _cmd(s,t,out,only,shard):
        j,jid,exe,_=t
        c=[exe,'--prop',j.get('prop',s.pid),'--tier',s.tier,'--out',out]+j.get('args',[])
        c+=['--only',only] if only is not None else ['--shard',shard]
        return c
    def _one(s,t,deadline,only,shard=None,alone=False):
        j,jid,exe,sh=t
        d=tempfile.mkdtemp(prefix='h_',dir=s.tmp())
        out=os.path.join(d,'out')
        env=dict(os.environ); env.update(OMP_NUM_THREADS='1',OMP_MAX_ACTIVE_LEVELS='1',OMP_WAIT_POLICY='passive',V_SCRATCH=d)
        env.update({'ASAN_OPTIONS':'detect_leaks=1:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=0:handle_segv=0:detect_stack_use_after_return=0','UBSAN_OPTIONS':'print_stacktrace=1'})
        env.update(j.get('env',{}))
        if s.thorough: env.setdefault('V_CASE_LIMIT','600')
        if alone: env['V_CASE_LIMIT']='200'
        err=open(os.path.join(d,'err'),'wb')
        p=subprocess.Popen(s._cmd(t,out,only,shard or sh),stdout=err,stderr=err,env=env,cwd=d,start_new_session=True)
        timed=False
        try: p.wait(timeout=max(5,deadline-time.time()))
        except subprocess.TimeoutExpired:
            timed=True
            try: os.killpg(p.pid,signal.SIGTERM)
            except OSError: pass
            try: p.wait(10)
            except subprocess.TimeoutExpired: pass
        try: os.killpg(p.pid,signal.SIGKILL)
        except OSError: pass
        p.wait(); err.close()
        txt=open(out,errors='replace').read() if os.path.exists(out) else ''
        er=open(os.path.join(d,'err'),errors='replace').read()
        shutil.rmtree(d,ignore_errors=True)
        return p.returncode,txt,er,timed
    def _parse(s,r):
        rc,txt,er,timed=r
        bad=[];stats=None;done=False
        for l in txt.split('\n'):
            f=l.split('\t')
            if f[0] in('FAIL','CRASH','HANG'): bad.append((f[0],f[1] if len(f)>1 else '?',f[2] if len(f)>2 else ''))
            elif f[0]=='STATS': stats=json.loads(f[1])
            elif f[0]=='DONE': done=True
        return bad,stats,done
    def _collect(s,t,r,deadline):
        rc,txt,er,timed=r
        j,jid,exe,sh=t
        bad,stats,done=s._parse(r)
        if stats:
            s.add(evaluations=stats['evaluations'],distinct_nontrivial=stats['distinct_nontrivial'],states=stats['states'],transitions=stats['transitions'],traces=stats['traces'],samples=stats['samples'],notes=stats['notes'],counters=stats['counters'])
        if j.get('crash_only'): bad=[b for b in bad if b[0]!='FAIL']
        if done and not bad and rc not in (0,1):
            bad=[('CRASH','(exit)','exit status %d after the enumeration: %s'%(rc,er[-1500:]))]
        if not done and not bad:
            if timed: s.errors.append('%s shard %s: time limit'%(jid,sh)); return
            bad=[('CRASH','(unknown)','exit status %d: %s'%(rc,er[-1500:]))]
        if not bad: return
        if s.only is not None:
            for k,c,dn in bad: s.violation(c,'%s %s'%(k,dn),jid,s.shard)
            return
        # replay before report: alone first, then with the history of its shard
        known=0
        for k,c,dn in bad[:6]:
            if timed and k=='HANG' and time.time()>deadline-5:
                s.errors.append('%s shard %s: time limit in %s'%(jid,sh,c)); return
            if len(s.viol)>=3: return
            lim=time.time()+240
            if c not in ('(unknown)','(exit)','(start)'):
                b2,_,_=s._parse(s._one(t,lim,c,alone=True))
                if j.get('crash_only'): b2=[b for b in b2 if b[0]!='FAIL']
                if b2:
                    s.violation(c,'%s %s'%(b2[0][0],b2[0][2] or er[-1500:]),jid); continue
            r3=s._one(t,lim,None,alone=True)
            b3,_,d3=s._parse(r3)
            if j.get('crash_only'): b3=[b for b in b3 if b[0]!='FAIL']
            if any(b[1]==c for b in b3) or (not d3 and k=='CRASH') or (c=='(exit)' and r3[0] not in(0,1)):
                s.violation(c,'%s %s %s (needs the preceding cases of its shard)'%(k,dn,er[-800:] if k!='FAIL' else ''),jid,sh)
            else:
                s.errors.append('%s: %s %s %s did not repeat'%(jid,k,c,dn))
    # --- end --------------------------------------------------------------------
    def finish(s,write=True):
        if s.scratch: shutil.rmtree(s.scratch,ignore_errors=True)
        c=s.cov
        if s.level=='model_checking':
            cov=dict(states=c['states'],transitions=c['transitions'],traces_validated_against_impl=c['traces'],samples=c['samples'])
        else:
            cov=dict(evaluations=c['evaluations'],distinct_nontrivial=c['distinct_nontrivial'],rule=s.rule,samples=c['samples'])
        cov['exhaustive']=bool(s.exhaustive and not s.errors)
        cov['explanation']=s.rule
        cov['measured']={**c['notes'],**c['counters']}
        cov.update(s.extra)
        ev=dict(property=s.pid,tier=s.tier if s.tier in('quick','thorough') else 'quick',seed=s.seed,level=s.level,coverage=cov,assumptions=s.assumptions,wall_s=round(time.time()-s.t0,2),violations=len(s.viol))
        if write:
            os.makedirs(os.path.join(VERIF,'evidence'),exist_ok=True)
            tmp=os.path.join(VERIF,'evidence','%s.json.tmp'%s.pid)
            json.dump(ev,open(tmp,'w'),indent=1); os.replace(tmp,os.path.join(VERIF,'evidence','%s.json'%s.pid))
        for k in s.known: print('KNOWN-FINDING: '+k)
        for e in s.errors: print('ERROR: '+e)
        if s.viol:
            d=os.path.join(VERIF,'replay'); os.makedirs(d,exist_ok=True)
            for v in s.viol[:5]:
                f=os.path.join(d,'%s-%s.json'%(s.pid,hashlib.sha1(json.dumps(v).encode()).hexdigest()[:10]))
                json.dump(v,open(f,'w'),indent=1)
                print('  case %s: %s'%(v['case'],v['detail'][:600].replace('\n',' | ')))
                print('VIOLATION property=%s replay=%s'%(s.pid,f))
            return 1
        if s.errors: return 2
        n=c['states'] if s.level=='model_checking' else c['evaluations']
        if n==0 and s.only is None: print('ERROR: nothing was explored'); return 2
        print('%s: held; %s; %.1f s'%(s.pid,', '.join('%s=%s'%(k,v) for k,v in cov.items() if isinstance(v,(int,bool))),time.time()-s.t0))
        return 0
