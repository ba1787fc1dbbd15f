#include "schedrt.hpp"
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <dlfcn.h>
#include <unistd.h>
#include <errno.h>
#include <sys/mman.h>
#include <execinfo.h>
/* ------------------------------------------------------------------ memory */
namespace {
struct Spin { volatile int v=0; void lock(){ while(__sync_lock_test_and_set(&v,1)) sched_yield(); } void unlock(){ __sync_lock_release(&v);} };
Spin amx; char*arena=0,*atop,*aend; int fillbyte=0xA5;
const size_t HDR=16; struct Free{ Free*next; }; Free*bins[64]; 
int bin_of(size_t n){ int b=5; while((size_t(1)<<b)<n) b++; return b; }
void* raw(size_t n,size_t al){
    amx.lock();
    if(!arena){ size_t S=size_t(24)<<30; arena=(char*)mmap(0,S,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(arena==(char*)MAP_FAILED) _exit(71); atop=arena; aend=arena+S; }
    int b=bin_of(n+HDR+(al>16?al:0)); char*p;
    if(bins[b]){ p=(char*)bins[b]; bins[b]=bins[b]->next; } else { p=atop; atop+=size_t(1)<<b; if(atop>aend) _exit(72); }
    amx.unlock();
    char*u=p+HDR; if(al>16) u=(char*)((uintptr_t(u)+al-1)&~(uintptr_t)(al-1));
    ((uint32_t*)u)[-1]=b; ((uint32_t*)u)[-2]=uint32_t(u-p); ((uint32_t*)u)[-3]=uint32_t(n>0xffffffffu?0xffffffffu:n);
    memset(u,fillbyte,n); return u;
}
void give(void*u){ int b=((uint32_t*)u)[-1]; char*p=(char*)u-((uint32_t*)u)[-2]; amx.lock(); ((Free*)p)->next=bins[b]; bins[b]=(Free*)p; amx.unlock(); }
/* freed during a parallel region: given back after it, so that no address is used twice in it */
void**late=0; size_t nlate=0,clate=0; 
}
static bool concurrent(); static void touch(uintptr_t a,size_t n,bool w,void*pc);
extern "C" {
void* malloc(size_t n){ return raw(n,16); }
static void free_later(void*p){ amx.lock(); if(nlate==clate){ size_t c=clate?2*clate:65536; void**q=(void**)mmap(0,c*sizeof(void*),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); if(late){ memcpy(q,late,nlate*sizeof(void*)); munmap(late,clate*sizeof(void*)); } late=q; clate=c; } late[nlate++]=p; amx.unlock(); }
void free(void*p){ if(!p) return; if(concurrent()){ touch((uintptr_t)p,((uint32_t*)p)[-3],true,__builtin_return_address(0)); free_later(p); return; } give(p); }
void* calloc(size_t a,size_t b){ void*p=raw(a*b,16); memset(p,0,a*b); return p; }
void* realloc(void*p,size_t n){ if(!p) return malloc(n); void*q=malloc(n); size_t o=((uint32_t*)p)[-3]; memcpy(q,p,o<n?o:n); free(p); return q; }
void* memalign(size_t a,size_t n){ return raw(n,a); }
void* aligned_alloc(size_t a,size_t n){ return raw(n,a); }
int posix_memalign(void**p,size_t a,size_t n){ *p=raw(n,a); return 0; }
void* valloc(size_t n){ return raw(n,4096); }
size_t malloc_usable_size(void*p){ return p?((uint32_t*)p)[-3]:0; }
}
/* ------------------------------------------------------------------ logical threads */
namespace {
struct VT { int id; uint32_t*vc; int len; };
struct Worker; struct Team;
struct Work { int next,end; long lo,hi,step,chunk; int arrived_end; bool init; bool ull; unsigned long ulo,uhi,ustep; bool up; };
struct Ctx { long kids; uint32_t*vc; int len; };   /* a task (or the implicit one of a member): unfinished children, clock of the finished ones */
struct Task { void(*fn)(void*); char*arg; VT*vt; Ctx*parent; bool taken; };
struct Team { Task*q; int nq,cq,qlo; long running; bool grew; Worker**w; int n; Worker*parent_w; Team*parent; void(*fn)(void*); void*data; int done; int barrier_n; long barrier_gen; uint32_t*bvc; int bvclen; Work wk[64]; long singles; int level,active; bool serial; };
enum State { IDLE, RUN, WAIT };
struct Worker { Ctx*ctx; long taken; bool atbar; pthread_t th; pthread_cond_t cv; State st; int idx; VT*vt,*base; Team*team; int num; long nwork; Work*cur; long nsingle; bool in_chunk; uintptr_t stlo,sthi,low; bool task_open; Worker*order_tie; int need_join; void*stmark; uint32_t*tvc; int tvclen; };
pthread_mutex_t mx=PTHREAD_MUTEX_INITIALIZER;
const int MAXW=2048; Worker*W[MAXW]; int nW=0; Worker*current=0; __thread Worker*me=0; __thread bool inrt=false;
bool on=false; SchedRun R; SchedOut O; unsigned char widths[1<<20]; char racemsg[2000]; int nvt=0; int depth=0; long gen=0;
char*vca=0,*vcp=0; const size_t VCA=size_t(8)<<30;   /* clocks and teams: dropped when the outermost region ends */
void* zalloc(size_t n){ if(!vca){ vca=vcp=(char*)mmap(0,VCA,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(vca==(char*)MAP_FAILED) _exit(77); } void*p=vcp; vcp+=(n+15)&~size_t(15); if(vcp>vca+VCA) _exit(78); memset(p,0,n); return p; }
VT* newvt(VT*from){ VT*v=(VT*)zalloc(sizeof(VT)); v->id=nvt++; v->len=v->id+1; v->vc=(uint32_t*)zalloc(v->len*4); if(from){ memcpy(v->vc,from->vc,from->len*4);} v->vc[v->id]=1; O.tasks++; return v; }
void ensure(uint32_t*&v,int&len,int n){ if(len<n){ uint32_t*q=(uint32_t*)zalloc(n*4); if(v) memcpy(q,v,len*4); v=q; len=n; } }   /* old copies are dropped with the arena: runs are short */
void joinvc(uint32_t*&d,int&dl,uint32_t*s,int sl){ ensure(d,dl,sl); for(int i=0;i<sl;i++) if(s[i]>d[i]) d[i]=s[i]; }
void acquire(VT*v,uint32_t*s,int sl){ joinvc(v->vc,v->len,s,sl); }
void tick(VT*v){ v->vc[v->id]++; }
/* ---- shadow: granules of 8 bytes */
struct Rec { int tid; uint32_t clk; uint8_t mask; bool w; int wk; void*pc; };
struct Cell { uintptr_t g; uint32_t gen; int n,cap; Rec*r; };
Cell*tab=0; size_t tcap=1<<22; size_t tcount=0; uint32_t tgen=1;
Cell* cell(uintptr_t g){
    if(!tab) tab=(Cell*)mmap(0,tcap*sizeof(Cell),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
    size_t h=(g*0x9E3779B97F4A7C15ull)>>42; h&=tcap-1;
    for(;;){ Cell&c=tab[h]; if(c.gen!=tgen){ if(++tcount>tcap*3/4){ fprintf(stderr,"schedrt: shadow full\n"); _exit(73);} c.g=g; c.gen=tgen; c.n=0; return &c; } if(c.g==g) return &c; h=(h+1)&(tcap-1); }
}
void name_pc(char*b,size_t n,void*pc){ Dl_info i; if(dladdr(pc,&i)&&i.dli_sname) snprintf(b,n,"%s",i.dli_sname); else snprintf(b,n,"%p",pc); }
}
static bool concurrent(){ return on && nvt>1 && me && !inrt; }
static void touch(uintptr_t a,size_t n,bool w,void*pc)
{
    if(!n) return; inrt=true; Worker*m=me; VT*v=m->vt; if(!v){ inrt=false; return; } O.accesses++;
    if(a>=m->stlo&&a<m->sthi&&a<m->low) m->low=a;
    for(uintptr_t g=a>>3; g<=(a+n-1)>>3; g++){
        uintptr_t b0=g<<3; unsigned lo=a>b0?unsigned(a-b0):0, hi=(a+n<b0+8)?unsigned(a+n-b0):8; uint8_t mask=uint8_t(((1u<<hi)-1)&~((1u<<lo)-1));
        Cell*c=cell(g); uint32_t clk=v->vc[v->id]; bool have=false; Rec*same=0;
        for(int i=0;i<c->n;i++){ Rec&r=c->r[i];
            if(r.tid==v->id){ if(r.clk==clk){ if((r.w||!w)&&(r.mask&mask)==mask) have=true; if(r.w==w) same=&r; } }
            else if((r.w||w)&&(r.mask&mask)&&!(r.tid<v->len&&v->vc[r.tid]>=r.clk)&&r.wk!=m->idx){
                if(!O.races++){ char x[400],y[400]; name_pc(x,sizeof x,r.pc); name_pc(y,sizeof y,pc); snprintf(racemsg,sizeof racemsg,"%s in %s and %s in %s, address %p, are concurrent",r.w?"write":"read",x,w?"write":"read",y,(void*)a); }
            }
        }
        if(have) continue;
        if(same){ same->mask|=mask; same->pc=pc; same->wk=m->idx; continue; }
        /* drop what this access is ordered after and covers */
        if(w){ int k=0; for(int i=0;i<c->n;i++){ Rec&r=c->r[i]; bool before=r.wk==m->idx||r.tid==v->id||(r.tid<v->len&&v->vc[r.tid]>=r.clk); if(!(before&&(r.mask&~mask)==0)) c->r[k++]=r; } c->n=k; }
        if(c->n==c->cap){ int q=c->cap?2*c->cap:4; Rec*z=(Rec*)raw(q*sizeof(Rec),16); if(c->r){ memcpy(z,c->r,c->n*sizeof(Rec)); give(c->r);} c->r=z; c->cap=q; }
        c->r[c->n++]=Rec{v->id,clk,mask,w,m->idx,pc};
    }
    inrt=false;
}
namespace {
/* frames below sp on this thread's stack are dead: forget them */
void forget_stack(Worker*w,uintptr_t sp){ if(!tab) return; uintptr_t lo=w->low; if(lo<w->stlo) lo=w->stlo; for(uintptr_t a=lo;a<sp&&a<w->sthi;a+=8){ size_t g=a>>3,h=(g*0x9E3779B97F4A7C15ull)>>42; h&=tcap-1; for(;;){ Cell&c=tab[h]; if(c.gen!=tgen) break; if(c.g==g){ c.n=0; break; } h=(h+1)&(tcap-1); } } w->low=sp; }
struct Lock { uintptr_t key; Worker*owner; int depth; uint32_t*vc; int vclen; Worker*waiters[256]; int nw; };
Lock locks[4096]; int nlocks=0;
struct RT { bool o; RT(){ o=inrt; inrt=true; } ~RT(){ inrt=o; } };
/* ---- scheduler; called with mx held */
long prio(Worker*w,bool share){ return (w->team?w->team->level:0)*(1L<<40)-(share?w->taken<<13:0)+(R.order?w->num:4095-w->num); }
/* share: at a point where work is handed out, the member that has had the least goes on */
void pick(bool stay,bool share=false)
{
    Worker*c[MAXW]; int n=0;
    for(int i=0;i<nW;i++) if(W[i]->st==RUN) c[n++]=W[i];
    if(!n){ O.deadlock=true; fprintf(stderr,"schedrt: deadlock\n"); char b[]="deadlock of the parallel regions\n"; (void)!write(2,b,sizeof b-1); abort(); }
    for(int i=1;i<n;i++) for(int j=i;j>0&&prio(c[j],share)>prio(c[j-1],share);j--){ Worker*t=c[j]; c[j]=c[j-1]; c[j-1]=t; }
    if(stay) for(int i=1;i<n;i++) if(c[i]==me){ for(int j=i;j>0;j--) c[j]=c[j-1]; c[0]=me; break; }
    int k=0;
    if(n>1){ if(O.npoints<R.nchoice) k=R.choice[O.npoints]; if(k>=n) k=n-1; if(O.npoints<int(sizeof widths)) widths[O.npoints]=n>255?255:n; O.npoints++; }
    Worker*nx=c[k]; current=nx; if(nx!=me) pthread_cond_signal(&nx->cv);
}
void wait_turn(){ while(current!=me) pthread_cond_wait(&me->cv,&mx); }
void yieldpoint(bool share=false){ if(!on||!me||nvt<=1) return; pthread_mutex_lock(&mx); pick(!share,share); wait_turn(); pthread_mutex_unlock(&mx); }
void block_until_run(){ me->st=WAIT; pick(false); wait_turn(); }   /* somebody sets st=RUN */
/* ---- tasks: put into the queue of the team; taken by whoever waits at a barrier, in a taskwait or at the end of the region. Called with mx held. */
bool open_tasks(Team*t){ while(t->qlo<t->nq&&t->q[t->qlo].taken) t->qlo++; return t->qlo<t->nq; }
void wake(Team*t){ for(int i=0;i<t->n;i++) if(t->w[i]->team==t&&t->w[i]->st==WAIT&&t->w[i]->atbar) t->w[i]->st=RUN; }
void run_task(Team*t,int k)
{
    Task x=t->q[k]; t->q[k].taken=true; t->running++; me->taken++;
    Worker s=*me; Ctx c={0,0,0}; me->vt=me->base=x.vt; me->ctx=&c; me->cur=0; me->task_open=false; me->tvc=0; me->tvclen=0; me->atbar=false;
    pthread_mutex_unlock(&mx); inrt=false; x.fn(x.arg); inrt=true; pthread_mutex_lock(&mx);
    VT*v=me->vt; if(c.vc) joinvc(v->vc,v->len,c.vc,c.len);
    Ctx*pa=t->q[k].parent; joinvc(pa->vc,pa->len,v->vc,v->len); joinvc(t->bvc,t->bvclen,v->vc,v->len);
    /* children the task did not wait for belong to the team now: they end before its next barrier does */
    for(int i=0;i<t->nq;i++) if(t->q[i].parent==&c) t->q[i].parent=pa; pa->kids+=c.kids-1;
    me->vt=s.vt; me->base=s.base; me->ctx=s.ctx; me->cur=s.cur; me->task_open=s.task_open; me->tvc=s.tvc; me->tvclen=s.tvclen; me->atbar=s.atbar; me->nwork=s.nwork; me->nsingle=s.nsingle;
    forget_stack(me,(uintptr_t)__builtin_frame_address(0));
    t->running--; wake(t);
}
bool take(Team*t){ if(!open_tasks(t)) return false; int k=t->qlo; if(R.order) for(int i=t->nq-1;i>t->qlo;i--) if(!t->q[i].taken){ k=i; break; } run_task(t,k); return true; }
void await_members(){ me->atbar=true; block_until_run(); me->atbar=false; }
void team_barrier(Team*t)
{
    if(t->n==1) return;
    pthread_mutex_lock(&mx);
    joinvc(t->bvc,t->bvclen,me->base->vc,me->base->len);
    long g=t->barrier_gen; t->barrier_n++;
    for(;;){
        if(t->barrier_gen!=g) break;
        if(t->nq&&take(t)) { pick(false,true); wait_turn(); continue; }
        if(t->barrier_n==t->n&&!t->running){ t->barrier_n=0; t->barrier_gen++; wake(t); pick(true); wait_turn(); break; }
        await_members();
    }
    acquire(me->base,t->bvc,t->bvclen); tick(me->base); me->vt=me->base;
    pthread_mutex_unlock(&mx);
}
/* all tasks of the team, at the end of its region */
void drain(){ Team*t=me->team; if(t->n==1||!t->nq) return; pthread_mutex_lock(&mx); while(take(t)){ pick(false,true); wait_turn(); } pthread_mutex_unlock(&mx); }
void children(){ Team*t=me->team; if(!t||t->n==1||!me->ctx||nvt<=1) return; pthread_mutex_lock(&mx); while(me->ctx->kids>0){ if(!take(t)) await_members(); else { pick(false,true); wait_turn(); } } if(me->ctx->vc){ acquire(me->vt,me->ctx->vc,me->ctx->len); tick(me->vt); } pthread_mutex_unlock(&mx); }
void run_part(){ Team*t=me->team; inrt=false; t->fn(t->data); inrt=true; }
/* a chunk of a worksharing construct is a logical thread of its own */
void open_chunk(){ if(me->team->n>1){ me->vt=newvt(me->base); me->task_open=true; } }
void close_chunk(uintptr_t sp){ if(me->task_open){ joinvc(me->tvc,me->tvclen,me->vt->vc,me->vt->len); me->task_open=false; me->vt=me->base; forget_stack(me,sp); } }
void absorb(){ if(me->tvc){ acquire(me->base,me->tvc,me->tvclen); tick(me->base); me->tvc=0; me->tvclen=0; } }
void end_member(Team*t)
{   /* with mx held */
    joinvc(t->bvc,t->bvclen,me->base->vc,me->base->len);
    if(++t->done==t->n) t->w[0]->st=RUN;
}
void* thread_main(void*p)
{
    me=(Worker*)p; inrt=true; pthread_attr_t a; void*lo; size_t sz; pthread_getattr_np(pthread_self(),&a); pthread_attr_getstack(&a,&lo,&sz); pthread_attr_destroy(&a); me->stlo=(uintptr_t)lo; me->sthi=me->stlo+sz; me->low=me->sthi;
    pthread_mutex_lock(&mx); pthread_cond_signal(&me->cv);
    for(;;){ wait_turn(); pthread_mutex_unlock(&mx); run_part(); absorb(); drain(); forget_stack(me,me->sthi); pthread_mutex_lock(&mx); Team*t=me->team; me->st=IDLE; me->team=0; end_member(t); pick(false); }
    return 0;
}
Worker* new_worker(){ if(nW>=MAXW) _exit(74); Worker*w=(Worker*)calloc(1,sizeof(Worker)); pthread_cond_init(&w->cv,0); w->idx=nW; w->st=IDLE; W[nW++]=w; return w; }
void init_master(){ if(me) return; me=new_worker(); me->st=RUN; current=me; pthread_attr_t a; void*lo; size_t sz; pthread_getattr_np(pthread_self(),&a); pthread_attr_getstack(&a,&lo,&sz); pthread_attr_destroy(&a); me->stlo=(uintptr_t)lo; me->sthi=me->stlo+sz; me->low=me->sthi; }
int wanted(unsigned nt){ if(!on) return 1; int act=me->team?me->team->active:0; if(act>=R.levels) return 1; int n=nt?int(nt):R.threads; const int most=R.limit<1?1:R.limit>1000?1000:R.limit; return n<1?1:n>most?most:n; }
void parallel(void(*fn)(void*),void*data,unsigned nt,Work*pre)
{
    RT rt; init_master();
    int n=wanted(nt); Team*t=(Team*)zalloc(sizeof(Team)); t->n=n; t->fn=fn; t->data=data; t->parent=me->team; t->level=(me->team?me->team->level:0)+1; t->active=(me->team?me->team->active:0)+(n>1); t->w=(Worker**)zalloc(n*sizeof(Worker*)); t->w[0]=me; if(pre) t->wk[1]=*pre; Work*pw=pre?&t->wk[1]:0;
    Worker save=*me; 
    if(n==1){ me->team=t; me->num=0; me->nwork=pre?1:0; me->cur=pw; me->nsingle=0; me->task_open=false; me->tvc=0; if(on&&nvt>0) me->base=me->vt; run_part(); me->team=save.team; me->num=save.num; me->nwork=save.nwork; me->cur=save.cur; me->nsingle=save.nsingle; me->base=save.base; me->task_open=save.task_open; me->tvc=save.tvc; me->tvclen=save.tvclen; if(!me->team&&nvt==0) vcp=vca; return; }
    O.regions++;
    bool outer=(nvt==0); if(outer){ depth=1; me->vt=newvt(0); me->base=me->vt; }
    VT*parent=me->vt;
    pthread_mutex_lock(&mx);
    for(int i=1;i<n;i++){ Worker*w=0; for(int k=0;k<nW;k++) if(W[k]->st==IDLE&&!W[k]->team){ w=W[k]; break; }
        if(!w){ w=new_worker(); pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a,1<<20); if(pthread_create(&w->th,&a,thread_main,w)) _exit(75); pthread_attr_destroy(&a); while(!w->sthi) pthread_cond_wait(&w->cv,&mx); }
        t->w[i]=w; w->team=t; }
    for(int i=0;i<n;i++){ Worker*w=t->w[i]; w->team=t; w->num=i; w->nwork=pre?1:0; w->cur=pw; w->nsingle=0; w->vt=w->base=newvt(parent); w->task_open=false; w->tvc=0; w->tvclen=0; w->taken=0; w->ctx=(Ctx*)zalloc(sizeof(Ctx)); w->atbar=false; w->st=RUN; }
    tick(parent);
    pick(false); wait_turn(); pthread_mutex_unlock(&mx);
    run_part(); absorb(); drain(); forget_stack(me,(uintptr_t)__builtin_frame_address(0));
    pthread_mutex_lock(&mx); end_member(t); if(t->done!=n) block_until_run(); else { pick(true); wait_turn(); }
    me->team=save.team; me->num=save.num; me->nwork=save.nwork; me->cur=save.cur; me->nsingle=save.nsingle; me->task_open=save.task_open; me->tvc=save.tvc; me->tvclen=save.tvclen; me->ctx=save.ctx; me->taken=save.taken; me->atbar=save.atbar; me->vt=parent; me->base=outer?parent:save.base;
    acquire(me->vt,t->bvc,t->bvclen); tick(me->vt);
    pthread_mutex_unlock(&mx);
    if(outer){ depth=0; nvt=0; for(int i=0;i<nlocks;i++){ locks[i].vc=0; locks[i].vclen=0; } vcp=vca; me->vt=me->base=0; if(++tgen==0) tgen=1; tcount=0; size_t k=nlate; nlate=0; for(size_t i=0;i<k;i++) give(late[i]); }
}
Work* next_work(){ Team*t=me->team; me->nwork++; Work*k=&t->wk[me->nwork%64]; if(k->arrived_end>=t->n) memset(k,0,sizeof *k); me->cur=k; return k; }
Lock* lk(uintptr_t k){ for(int i=0;i<nlocks;i++) if(locks[i].key==k) return &locks[i]; if(nlocks==4096) _exit(76); locks[nlocks].key=k; return &locks[nlocks++]; }
void lock(uintptr_t key,bool rec=false){
    if(!on||!me||nvt<=1) return; RT rt; yieldpoint(); pthread_mutex_lock(&mx); Lock*l=lk(key);
    if(rec&&l->owner==me){ l->depth++; pthread_mutex_unlock(&mx); return; }
    while(l->owner){ l->waiters[l->nw++%256]=me; block_until_run(); }
    l->owner=me; l->depth=1; if(l->vc) acquire(me->vt,l->vc,l->vclen); pthread_mutex_unlock(&mx);
}
void unlock(uintptr_t key){
    if(!on||!me||nvt<=1) return; RT rt; pthread_mutex_lock(&mx); Lock*l=lk(key); if(l->owner==me&&--l->depth==0){ l->owner=0; joinvc(l->vc,l->vclen,me->vt->vc,me->vt->len); tick(me->vt); for(int i=0;i<l->nw;i++) l->waiters[i]->st=RUN; l->nw=0; } pthread_mutex_unlock(&mx);
    yieldpoint();
}
void sync_on(uintptr_t a){ if(!on||!me||nvt<=1) return; RT rt; yieldpoint(); Lock*l=lk(a|1); joinvc(l->vc,l->vclen,me->vt->vc,me->vt->len); acquire(me->vt,l->vc,l->vclen); tick(me->vt); }
}
extern "C" {
void sched_begin(const SchedRun*r){ RT rt; init_master(); R=*r; memset(&O,0,sizeof O); racemsg[0]=0; O.width=widths; O.race=racemsg; fillbyte=r->fill; nlocks=0; nvt=0; memset(locks,0,sizeof(Lock)*64); on=true; }
void sched_end(SchedOut*o){ on=false; *o=O; }
void sched_access(const void*p,unsigned long n,bool w){ if(concurrent()) touch((uintptr_t)p,n,w,__builtin_return_address(0)); }
static char planner;
void sched_planner(void){ if(concurrent()) touch((uintptr_t)&planner,1,true,__builtin_return_address(0)); }
/* ---- instrumentation */
#define ACC(N) void __tsan_read##N(void*p){ if(concurrent()) touch((uintptr_t)p,N,false,__builtin_return_address(0)); } void __tsan_write##N(void*p){ if(concurrent()) touch((uintptr_t)p,N,true,__builtin_return_address(0)); } \
 void __tsan_unaligned_read##N(void*p){ if(concurrent()) touch((uintptr_t)p,N,false,__builtin_return_address(0)); } void __tsan_unaligned_write##N(void*p){ if(concurrent()) touch((uintptr_t)p,N,true,__builtin_return_address(0)); } \
 void __tsan_volatile_read##N(void*p){ if(concurrent()) touch((uintptr_t)p,N,false,__builtin_return_address(0)); } void __tsan_volatile_write##N(void*p){ if(concurrent()) touch((uintptr_t)p,N,true,__builtin_return_address(0)); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_init(void){}
void __tsan_func_entry(void*){} void __tsan_func_exit(void){}
void __tsan_read_range(void*p,unsigned long n){ if(concurrent()) touch((uintptr_t)p,n,false,__builtin_return_address(0)); }
void __tsan_write_range(void*p,unsigned long n){ if(concurrent()) touch((uintptr_t)p,n,true,__builtin_return_address(0)); }
void __tsan_vptr_update(void**p,void*){ if(concurrent()) touch((uintptr_t)p,8,true,__builtin_return_address(0)); }
void __tsan_vptr_read(void**p){ if(concurrent()) touch((uintptr_t)p,8,false,__builtin_return_address(0)); }
void* __real_memcpy(void*,const void*,size_t); void* __real_memmove(void*,const void*,size_t); void* __real_memset(void*,int,size_t);
void* __wrap_memcpy(void*d,const void*s,size_t n){ if(concurrent()){ touch((uintptr_t)s,n,false,__builtin_return_address(0)); touch((uintptr_t)d,n,true,__builtin_return_address(0)); } return __real_memcpy(d,s,n); }
void* __wrap_memmove(void*d,const void*s,size_t n){ if(concurrent()){ touch((uintptr_t)s,n,false,__builtin_return_address(0)); touch((uintptr_t)d,n,true,__builtin_return_address(0)); } return __real_memmove(d,s,n); }
void* __wrap_memset(void*d,int c,size_t n){ if(concurrent()) touch((uintptr_t)d,n,true,__builtin_return_address(0)); return __real_memset(d,c,n); }
#define ATOM(N,T) \
T __tsan_atomic##N##_load(const volatile T*p,int){ sync_on((uintptr_t)p); return *p; } \
void __tsan_atomic##N##_store(volatile T*p,T v,int){ sync_on((uintptr_t)p); *p=v; } \
T __tsan_atomic##N##_exchange(volatile T*p,T v,int){ sync_on((uintptr_t)p); T o=*p; *p=v; return o; } \
T __tsan_atomic##N##_fetch_add(volatile T*p,T v,int){ sync_on((uintptr_t)p); T o=*p; *p=o+v; return o; } \
T __tsan_atomic##N##_fetch_sub(volatile T*p,T v,int){ sync_on((uintptr_t)p); T o=*p; *p=o-v; return o; } \
T __tsan_atomic##N##_fetch_and(volatile T*p,T v,int){ sync_on((uintptr_t)p); T o=*p; *p=o&v; return o; } \
T __tsan_atomic##N##_fetch_or(volatile T*p,T v,int){ sync_on((uintptr_t)p); T o=*p; *p=o|v; return o; } \
T __tsan_atomic##N##_fetch_xor(volatile T*p,T v,int){ sync_on((uintptr_t)p); T o=*p; *p=o^v; return o; } \
T __tsan_atomic##N##_fetch_nand(volatile T*p,T v,int){ sync_on((uintptr_t)p); T o=*p; *p=~(o&v); return o; } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T*p,T*e,T v,int,int){ sync_on((uintptr_t)p); T o=*p; if(o==*e){ *p=v; return 1; } *e=o; return 0; } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T*p,T*e,T v,int a,int b){ return __tsan_atomic##N##_compare_exchange_strong(p,e,v,a,b); } \
T __tsan_atomic##N##_compare_exchange_val(volatile T*p,T e,T v,int,int){ sync_on((uintptr_t)p); T o=*p; if(o==e) *p=v; return o; }
ATOM(8,unsigned char) ATOM(16,unsigned short) ATOM(32,unsigned) ATOM(64,unsigned long) ATOM(128,unsigned __int128)
void __tsan_atomic_thread_fence(int){} void __tsan_atomic_signal_fence(int){}
/* ---- locks of the C++ library and of function-local statics */
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*); int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t*m){ if(on&&me&&nvt>1&&!inrt){ lock((uintptr_t)m,true); return 0; } return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t*m){ if(on&&me&&nvt>1&&!inrt){ unlock((uintptr_t)m); return 0; } return __real_pthread_mutex_unlock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t*m){ if(on&&me&&nvt>1&&!inrt){ Lock*l=lk((uintptr_t)m); if(l->owner&&l->owner!=me) return EBUSY; lock((uintptr_t)m,true); return 0; } return __real_pthread_mutex_trylock(m); }
int __real___cxa_guard_acquire(int64_t*); void __real___cxa_guard_release(int64_t*); void __real___cxa_guard_abort(int64_t*);
int __wrap___cxa_guard_acquire(int64_t*g){ lock((uintptr_t)g|2); sync_on((uintptr_t)g); int r=__real___cxa_guard_acquire(g); if(!r) unlock((uintptr_t)g|2); return r; }
void __wrap___cxa_guard_release(int64_t*g){ __real___cxa_guard_release(g); sync_on((uintptr_t)g); unlock((uintptr_t)g|2); }
void __wrap___cxa_guard_abort(int64_t*g){ __real___cxa_guard_abort(g); unlock((uintptr_t)g|2); }
/* ---- OpenMP */
int omp_get_thread_num(void){ return me&&me->team?me->num:0; }
int omp_get_num_threads(void){ return me&&me->team?me->team->n:1; }
int omp_get_max_threads(void){ return on?R.threads:1; }
int omp_get_num_procs(void){ return on?R.threads:1; }
int omp_in_parallel(void){ return me&&me->team&&me->team->active>0; }
int omp_get_level(void){ return me&&me->team?me->team->level:0; }
int omp_get_active_level(void){ return me&&me->team?me->team->active:0; }
int omp_get_max_active_levels(void){ return on?R.levels:1; }
int omp_get_nested(void){ return on&&R.levels>1; }
int omp_get_thread_limit(void){ return on?R.limit:1000; } int omp_get_dynamic(void){ return 0; }
void omp_set_dynamic(int){} void omp_set_num_threads(int n){ if(on&&n>0) R.threads=n; } void omp_set_nested(int n){ if(on) R.levels=n?8:1; } void omp_set_max_active_levels(int n){ if(on) R.levels=n; }
double omp_get_wtime(void){ return 0; } double omp_get_wtick(void){ return 1; }
void omp_init_lock(void*){} void omp_destroy_lock(void*){} void omp_set_lock(void*l){ lock((uintptr_t)l); } void omp_unset_lock(void*l){ unlock((uintptr_t)l); } int omp_test_lock(void*l){ Lock*k=lk((uintptr_t)l); if(k->owner) return 0; lock((uintptr_t)l); return 1; }
void omp_init_nest_lock(void*){} void omp_destroy_nest_lock(void*){} void omp_set_nest_lock(void*l){ lock((uintptr_t)l,true); } void omp_unset_nest_lock(void*l){ unlock((uintptr_t)l); }
void GOMP_parallel(void(*fn)(void*),void*d,unsigned nt,unsigned){ parallel(fn,d,nt,0); }
void GOMP_barrier(void){ if(!me||!me->team) return; RT rt; absorb(); team_barrier(me->team); }
static char cs,as_; 
void GOMP_critical_start(void){ lock((uintptr_t)&cs); } void GOMP_critical_end(void){ unlock((uintptr_t)&cs); }
void GOMP_critical_name_start(void**p){ lock((uintptr_t)p); } void GOMP_critical_name_end(void**p){ unlock((uintptr_t)p); }
void GOMP_atomic_start(void){ lock((uintptr_t)&as_); } void GOMP_atomic_end(void){ unlock((uintptr_t)&as_); }
bool GOMP_single_start(void){ if(!me||!me->team||me->team->n==1) return true; RT rt; yieldpoint(); if(me->nsingle++==me->team->singles){ me->team->singles++; return true; } return false; }
/* sections */
unsigned GOMP_sections_next(void){ RT rt; close_chunk((uintptr_t)__builtin_frame_address(0)); yieldpoint(true); Work*k=me->cur; if(k->next>=k->end) return 0; me->taken++; open_chunk(); return ++k->next; }
unsigned GOMP_sections_start(unsigned n){ RT rt; if(!me||!me->team){ init_master(); } Work*k=next_work(); if(!k->init){ k->init=true; k->next=0; k->end=n; } rt.~RT(); return GOMP_sections_next(); }
void GOMP_parallel_sections(void(*fn)(void*),void*d,unsigned nt,unsigned n,unsigned){ RT rt; Work k; memset(&k,0,sizeof k); k.init=true; k.end=n; parallel(fn,d,nt,&k); }
void GOMP_sections_end_nowait(void){ RT rt; close_chunk((uintptr_t)__builtin_frame_address(0)); absorb(); if(me->cur) me->cur->arrived_end++; }
void GOMP_sections_end(void){ GOMP_sections_end_nowait(); RT rt; if(me->team) team_barrier(me->team); }
}
/* loops other than static ones: chunks are handed out, each a logical thread of its own */
namespace {
bool loop_next(long*a,long*b){ RT rt; close_chunk((uintptr_t)__builtin_frame_address(0)); yieldpoint(true); Work*k=me->cur; long left=k->step>0?(k->hi-k->lo+k->step-1)/k->step:(k->lo-k->hi-k->step-1)/-k->step; if(left<=0) return false; long c=k->chunk<1?1:k->chunk; if(c>left) c=left; *a=k->lo; *b=k->lo+c*k->step; if((k->step>0&&*b>k->hi)||(k->step<0&&*b<k->hi)) *b=k->hi; k->lo=k->lo+c*k->step; me->taken++; open_chunk(); return true; }
void loop_set(Work*k,long s,long e,long i,long c){ if(!k->init){ k->init=true; k->lo=s; k->hi=e; k->step=i; k->chunk=c; } }
bool loop_start(long s,long e,long i,long c,long*a,long*b){ { RT rt; init_master(); loop_set(next_work(),s,e,i,c); } return loop_next(a,b); }
bool ull_start(bool up,unsigned long s,unsigned long e,unsigned long i,unsigned long c,unsigned long*a,unsigned long*b){ long x,y; bool r=loop_start(long(s),long(e),long(i),long(c),&x,&y); if(r){ *a=x; *b=y; } return r; }
}
extern "C" {
#define LOOP(K) bool GOMP_loop_##K##_start(long s,long e,long i,long c,long*a,long*b){ return loop_start(s,e,i,c,a,b); } bool GOMP_loop_##K##_next(long*a,long*b){ return loop_next(a,b); } \
 bool GOMP_loop_ull_##K##_start(bool up,unsigned long s,unsigned long e,unsigned long i,unsigned long c,unsigned long*a,unsigned long*b){ return ull_start(up,s,e,i,c,a,b); } bool GOMP_loop_ull_##K##_next(unsigned long*a,unsigned long*b){ return loop_next((long*)a,(long*)b); } \
 void GOMP_parallel_loop_##K(void(*fn)(void*),void*d,unsigned nt,long s,long e,long i,long c,unsigned){ RT rt; Work k; memset(&k,0,sizeof k); loop_set(&k,s,e,i,c); parallel(fn,d,nt,&k); }
#define LOOPR(K) bool GOMP_loop_##K##_start(long s,long e,long i,long*a,long*b){ return loop_start(s,e,i,1,a,b); } bool GOMP_loop_##K##_next(long*a,long*b){ return loop_next(a,b); } \
 bool GOMP_loop_ull_##K##_start(bool up,unsigned long s,unsigned long e,unsigned long i,unsigned long*a,unsigned long*b){ return ull_start(up,s,e,i,1,a,b); } bool GOMP_loop_ull_##K##_next(unsigned long*a,unsigned long*b){ return loop_next((long*)a,(long*)b); } \
 void GOMP_parallel_loop_##K(void(*fn)(void*),void*d,unsigned nt,long s,long e,long i,unsigned){ RT rt; Work k; memset(&k,0,sizeof k); loop_set(&k,s,e,i,1); parallel(fn,d,nt,&k); }
LOOP(static) LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided) LOOPR(runtime) LOOPR(maybe_nonmonotonic_runtime) LOOPR(nonmonotonic_runtime)
void GOMP_loop_end_nowait(void){ GOMP_sections_end_nowait(); } void GOMP_loop_end(void){ GOMP_sections_end(); }
/* tasks. depend clauses, undeferred tasks and tasks of a team of one: run at once, after the children before */
static void put_task(void(*fn)(void*),void*data,void(*cpy)(void*,void*),long sz,long al,bool now,long*range){
    RT rt; char*buf=(char*)malloc(sz+al+16); char*q=(char*)((uintptr_t(buf)+al)&~uintptr_t(al-1)); bool o=inrt; inrt=false; if(cpy) cpy(q,data); else { inrt=o; __real_memcpy(q,data,sz); if(concurrent()) touch((uintptr_t)data,sz,false,__builtin_return_address(0)); } inrt=o; if(range) __real_memcpy(q,range,16);
    Team*t=me?me->team:0; bool par=t&&t->n>1&&nvt>1&&me->ctx;
    if(now||!par){ if(par) children(); inrt=false; fn(q); inrt=true; if(nvt>1) free_later(buf); else give(buf); return; }
    pthread_mutex_lock(&mx);
    if(t->nq==t->cq){ int c=t->cq?2*t->cq:64; Task*z=(Task*)zalloc(c*sizeof(Task)); if(t->q) __real_memcpy(z,t->q,t->nq*sizeof(Task)); t->q=z; t->cq=c; }
    VT*n=newvt(me->vt); tick(me->vt); t->q[t->nq++]=Task{fn,q,n,me->ctx,false}; me->ctx->kids++; wake(t); pick(true); wait_turn(); pthread_mutex_unlock(&mx); free_later(buf); }
void GOMP_task(void(*fn)(void*),void*data,void(*cpy)(void*,void*),long sz,long al,bool ifc,unsigned flags,void**,int,void*){ put_task(fn,data,cpy,sz,al,!ifc||(flags&(8|2)),0); }
static void taskloop(void(*fn)(void*),void*data,void(*cpy)(void*,void*),long sz,long al,unsigned flags,unsigned long nt,long a,long b,long st){
    RT rt; long n=st>0?(b-a+st-1)/st:(a-b-st-1)/-st; if(n<=0) return; long per=(flags&512)&&nt?long(nt):nt?(n+long(nt)-1)/long(nt):1; if(per<1) per=1;
    for(long i=0;i<n;i+=per){ long e=i+per<n?i+per:n; long rg[2]={a+i*st,e==n?b:a+e*st}; put_task(fn,data,cpy,sz,al,!(flags&1024),rg); } if(!(flags&2048)) children(); }
void GOMP_taskloop(void(*fn)(void*),void*data,void(*cpy)(void*,void*),long sz,long al,unsigned flags,unsigned long nt,int,long a,long b,long st){ taskloop(fn,data,cpy,sz,al,flags,nt,a,b,st); }
void GOMP_taskloop_ull(void(*fn)(void*),void*data,void(*cpy)(void*,void*),long sz,long al,unsigned flags,unsigned long nt,int,unsigned long a,unsigned long b,unsigned long st){ taskloop(fn,data,cpy,sz,al,flags,nt,long(a),long(b),long(st)); }
void GOMP_taskwait(void){ RT rt; if(me) children(); } void GOMP_taskyield(void){} void GOMP_taskgroup_start(void){} void GOMP_taskgroup_end(void){ RT rt; if(me) children(); }
}
