/* FFTW seam, linked with -Wl,--wrap: (1) owns planner nondeterminism (FFTW_PATIENT timings
 * would pick a different plan per run), (2) monitors FFTW's documented contract: no use of a
 * plan after fftw_destroy_plan, or after an fftw_cleanup that came after its creation, and
 * new-array execution only with arrays of the alignment the plan was made for. */
#include <fftw3.h>
#include <map>
#include <set>
#include <string>
namespace FM {
struct P { int n; double *in, *out; bool stale; unsigned flags; int al_in, al_out; bool inplace; };
std::map<fftw_plan,P> plans;
std::set<fftw_plan> dead;
std::string error;      /* first contract violation */
long planned=0, executed=0, destroyed=0, cleanups=0;
void (*access_hook)(const void *p, unsigned long bytes, bool write)=nullptr;
void (*plan_hook)()=nullptr;
static void err(const char *s) { if (error.empty()) error=s; }
void reset() { error.clear(); }
int live() { return int(plans.size()); }
static const unsigned planning=FFTW_PATIENT|FFTW_EXHAUSTIVE|FFTW_MEASURE|FFTW_ESTIMATE;
static unsigned own(unsigned f) { return (f&~planning)|FFTW_ESTIMATE; }
static fftw_plan reg(fftw_plan p,int n,double*i,double*o,unsigned f)
{
   if (plan_hook) plan_hook();
   if (p) { plans[p]=P{n,i,o,false,f,fftw_alignment_of(i),fftw_alignment_of(o),i==o}; dead.erase(p); planned++; }
   return p;
}
}
using namespace FM;
extern "C" {
fftw_plan __real_fftw_plan_r2r_1d(int,double*,double*,fftw_r2r_kind,unsigned);
fftw_plan __real_fftw_plan_r2r(int,const int*,double*,double*,const fftw_r2r_kind*,unsigned);
fftw_plan __real_fftw_plan_many_r2r(int,const int*,int,double*,const int*,int,int,double*,const int*,int,int,const fftw_r2r_kind*,unsigned);
void __real_fftw_destroy_plan(fftw_plan);
void __real_fftw_cleanup(void);
void __real_fftw_execute_r2r(const fftw_plan,double*,double*);
void __real_fftw_execute(const fftw_plan);
fftw_plan __wrap_fftw_plan_r2r_1d(int n,double*i,double*o,fftw_r2r_kind k,unsigned f)
{ return reg(__real_fftw_plan_r2r_1d(n,i,o,k,own(f)),n,i,o,f); }
fftw_plan __wrap_fftw_plan_r2r(int rank,const int*n,double*i,double*o,const fftw_r2r_kind*k,unsigned f)
{ int tot=1; for (int d=0;d<rank;d++) tot*=n[d]; return reg(__real_fftw_plan_r2r(rank,n,i,o,k,own(f)),tot,i,o,f); }
fftw_plan __wrap_fftw_plan_many_r2r(int rank,const int*n,int howmany,double*i,const int*ie,int is,int id,double*o,const int*oe,int os,int od,const fftw_r2r_kind*k,unsigned f)
{ int tot=1; for (int d=0;d<rank;d++) tot*=n[d]; return reg(__real_fftw_plan_many_r2r(rank,n,howmany,i,ie,is,id,o,oe,os,od,k,own(f)),tot*howmany,i,o,f); }
void __wrap_fftw_destroy_plan(fftw_plan p)
{
   if (!p) { err("fftw_destroy_plan of a null plan"); return; }
   auto it=plans.find(p);
   if (it==plans.end()) {
      if (dead.count(p)) { err("fftw_destroy_plan of a destroyed plan"); return; }
      __real_fftw_destroy_plan(p); return;
   }
   if (it->second.stale) err("fftw_destroy_plan of a plan made before fftw_cleanup (undefined)");
   if (plan_hook) plan_hook();
   destroyed++;
   plans.erase(it); dead.insert(p);
   __real_fftw_destroy_plan(p);
}
void __wrap_fftw_cleanup(void)
{
   cleanups++; if (plan_hook) plan_hook();
   for (auto &p: plans) p.second.stale=true;
   /* not forwarded: the real call would leave the other plans undefined, and the monitor already knows */
}
static P *use(const fftw_plan p, bool &bad)
{
   bad=false;
   auto it=plans.find(p);
   if (it==plans.end()) { if (dead.count(p)||!p) { err("execution of a destroyed or null plan"); bad=true; } return nullptr; }
   if (it->second.stale) err("execution of a plan made before fftw_cleanup (undefined)");
   executed++;
   return &it->second;
}
void __wrap_fftw_execute_r2r(const fftw_plan p,double*i,double*o)
{
   bool bad; P *q=use(p,bad); if (bad) return;
   if (q) {
      if (!(q->flags&FFTW_UNALIGNED) && (fftw_alignment_of(i)!=q->al_in || fftw_alignment_of(o)!=q->al_out)) err("new-array execution with arrays of another alignment than the plan's");
      if ((i==o)!=q->inplace) err("new-array execution in place with an out-of-place plan, or the reverse");
      if (access_hook) { access_hook(i,sizeof(double)*q->n,false); access_hook(o,sizeof(double)*q->n,true); }
   }
   __real_fftw_execute_r2r(p,i,o);
   /* a plan made with FFTW_DESTROY_INPUT may overwrite its input: here it does */
   if (q && i!=o && (q->flags&FFTW_DESTROY_INPUT)) for (int k=0;k<q->n;k++) i[k]=1e300;
}
void __wrap_fftw_execute(const fftw_plan p)
{
   bool bad; P *q=use(p,bad); if (bad) return;
   if (q && access_hook) { access_hook(q->in,sizeof(double)*q->n,false); access_hook(q->out,sizeof(double)*q->n,true); }
   __real_fftw_execute(p);
}
}
