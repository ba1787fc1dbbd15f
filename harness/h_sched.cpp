/* C33: every parallel region of the program under the controlled runtime. */
#include "eomutil.hpp"
#include "fftwmon.hpp"
#include "io.hpp"
#include "schedrt.hpp"
#include <dirent.h>
using namespace V;
namespace {
struct Sh { int nx,l,m,nlat,nphi; };
struct Quiet { std::streambuf*o; std::ostringstream s; Quiet(){ o=std::cout.rdbuf(s.rdbuf()); } ~Quiet(){ std::cout.rdbuf(o); } };
struct Res { std::vector<vec> exact; vec rounded; std::string text; };
struct World { GC c; std::unique_ptr<Grid> g; std::unique_ptr<Params> P; std::unique_ptr<Scalar_eom> e; vec f,p,f1; };
std::string slurp(const std::string&f) { std::ifstream i(f); std::ostringstream o; o<<i.rdbuf(); return o.str(); }
std::string scratch() { const char*d=getenv("V_SCRATCH"); return d?d:"/tmp"; }
typedef std::function<void(World&,Res&)> Op;
struct Named { std::string name; Op op; bool big; };
Res run(World&w,const Op&op,int T,int L,int order,const std::vector<unsigned char>&ch,SchedOut&o,int fill,int limit=1000)
{
   Res r; Quiet q; SchedRun s{T,L,ch.data(),int(ch.size()),order,fill,limit};
   sched_begin(&s); op(w,r); sched_end(&o); return r;
}
std::vector<Named> ops()
{
   std::vector<Named> v;
   auto gop=[&](const char*n,void(Grid::*m)(const vec&,vec&) const,bool spec){ v.push_back({n,[m,spec](World&w,Res&r){ vec o(spec?size_t(w.g->nx())*w.g->nl():w.c.N(),0.25); ((*w.g).*m)(w.f,o); r.exact.push_back(o); },false}); };
   gop("partial_phi",&Grid::set_partial_phi,false); gop("spherical_lap",&Grid::set_spherical_lap,false); gop("sphereX",&Grid::set_sphereX,false); gop("partial_R",&Grid::set_partial_R,false); gop("partial_r",&Grid::set_partial_r,false); gop("partial2_r",&Grid::set_partial2_r,false);
   gop("power_spectrum",&Grid::set_angular_power_spectrum,true);
#ifdef USE_CHEB
   gop("n_l_coef",&Grid::set_n_l_coef,true);
#endif
   v.push_back({"filter",[](World&w,Res&r){ vec o=w.f; w.g->filter(o); r.exact.push_back(o); },false});
   v.push_back({"residual",[](World&w,Res&r){ r.rounded.push_back(w.g->norm_indep_res(0.01,w.f,w.f1,w.p)); },false});
   v.push_back({"total_variation",[](World&w,Res&r){ r.rounded.push_back(w.g->total_variation(w.f)); },false});
   v.push_back({"shift",[](World&w,Res&r){ Field F("f",w.c.N(),0.5); F.np1=w.f; F.shift(); r.exact={F.n,F.np1,F.l,F.k}; },false});
   for (int lev=1;lev<=5;lev++) v.push_back({S()<<"set_level"<<lev,[lev](World&w,Res&r){ Field F("f",w.c.N(),0.5),Q("p",w.c.N(),0.25); F.n=w.f; Q.n=w.p; F.k=w.p; Q.k=w.f1; F.np1=w.f1; w.e->set_level(lev,F,Q); r.exact={F.n,F.np1,F.l,F.k,Q.n,Q.np1,Q.l,Q.k}; },false});
   v.push_back({"rhs",[](World&w,Res&r){ vec a(w.c.N(),3),b(w.c.N(),4); w.e->set_k(*w.g,w.f,w.p,a,b); r.exact={a,b}; },true});
   v.push_back({"density",[](World&w,Res&r){ vec a(w.c.N(),3); w.e->set_rho(*w.g,w.f,w.p,a); r.exact={a}; },true});
   v.push_back({"step",[](World&w,Res&r){ Field F("f",w.c.N(),0),Q("p",w.c.N(),0); F.n=w.f; Q.n=w.p; w.e->time_step(*w.g,F,Q); r.exact={F.n,F.np1,Q.n,Q.np1}; },true});
   v.push_back({"initial_data",[](World&w,Res&r){ vec a(w.c.N(),3),b(w.c.N(),4); ID::compact_pulse(*w.P,*w.g,a,b); r.exact={a,b}; },false});
   v.push_back({"construct",[](World&w,Res&r){ Grid g(w.c.cl,w.c.a,w.c.b,w.c.nx,w.c.l,w.c.m,w.c.nlat,w.c.nphi); Scalar_eom e(g,*w.P); vec a(w.c.N(),3),b(w.c.N(),4); e.set_k(g,w.f,w.p,a,b); r.exact={a,b}; },true});
   v.push_back({"write",[](World&w,Res&r){ const std::string d=scratch()+"/w"; for (int k=0;k<1;k++) { Csv::write_R_psl(*w.g,d,true,1,w.f);
#ifdef USE_CHEB
      Csv::write_n_psl(*w.g,d,true,1,w.f);
#endif
      Csv::write_x_y_z(*w.g,d,true,1,-1,1,0,1e300,w.f); }
      DIR*D=opendir(scratch().c_str()); std::vector<std::string> fs; while (dirent*e=readdir(D)) if (e->d_name[0]=='w') fs.push_back(e->d_name); closedir(D); std::sort(fs.begin(),fs.end());
      for (auto&f: fs) { r.text+=f+"\n"+slurp(scratch()+"/"+f); unlink((scratch()+"/"+f).c_str()); } },true});
   v.push_back({"two_steps_and_density",[](World&w,Res&r){ Field F("f",w.c.N(),0),Q("p",w.c.N(),0); F.n=w.f; Q.n=w.p; vec rho(w.c.N(),1); for (int i=0;i<2;i++) { w.e->time_step(*w.g,F,Q); w.e->set_rho(*w.g,F.np1,Q.np1,rho); r.exact.push_back(rho); F.shift(); Q.shift(); } r.exact.push_back(F.n); r.exact.push_back(Q.n); },true});
   return v;
}
bool eq(const Res&a,const Res&b,const std::string&w)
{
   if (a.exact.size()!=b.exact.size()) { fail(w+": other outputs"); return false; }
   for (size_t i=0;i<a.exact.size();i++) if (!same_bits(a.exact[i],b.exact[i],S()<<w<<": output "<<i)) return false;
   for (size_t i=0;i<a.rounded.size();i++) if (!(std::fabs(a.rounded[i]-b.rounded[i])<=1e-12*std::fabs(b.rounded[i]))) { fail(S()<<w<<": diagnostic "<<a.rounded[i]<<" against "<<b.rounded[i]<<" with one thread"); return false; }
   if (a.text!=b.text) { fail(w+": files written differ"); return false; }
   return true;
}
}
int main(int argc,char**argv)
{
   init(argc,argv); FM::access_hook=[](const void*p,unsigned long n,bool w){ sched_access(p,n,w); }; FM::plan_hook=[]{ sched_planner(); };
   std::vector<Sh> ss={{CHEB?3:8,1,1,2,3},{CHEB?5:9,2,2,3,5},{CHEB?6:8,2,1,4,3}};
   if (thorough) { ss.push_back({CHEB?9:13,3,3,5,8}); ss.push_back({CHEB?4:8,1,0,2,1}); ss.push_back({CHEB?8:10,3,2,4,7}); }
   struct TL { int T,L,limit; }; std::vector<TL> tl={{2,1,1000},{3,1,1000},{4,1,1000},{8,1,1000},{2,2,1000},{3,2,1000},{4,2,1000},{5,1,1000},{6,1,1000},{7,1,1000},{8,2,1000},{64,1,1000},{8,1,3},{6,2,2}}; if (thorough) { tl.push_back({5,2,1000}); tl.push_back({2,3,1000}); tl.push_back({200,1,1000}); tl.push_back({6,2,1000}); tl.push_back({7,2,1000}); tl.push_back({33,2,1000}); }
   std::vector<Named> os=ops();
   /* grids with more lines and longer ones than the tables anybody might size for them; the conflict check is by happens-before, so few schedules suffice */
   const size_t small=ss.size(); ss.push_back({CHEB?101:130,1,1,2,3}); ss.push_back({CHEB?4:8,1,1,41,3}); ss.push_back({CHEB?3:8,17,17,18,37}); ss.push_back({CHEB?33:40,9,9,18,20}); if (thorough) { ss.push_back({CHEB?257:1025,1,1,2,3}); ss.push_back({CHEB?65:129,16,16,33,34}); ss.push_back({CHEB?3:8,40,40,80,84}); }
   const std::vector<TL> wide={{2,1,1000},{3,2,1000},{16,1,1000},{64,1,1000},{200,1,1000},{64,1,9}};
   for (size_t si=0;si<ss.size();si++) { const Sh&s=ss[si]; const bool big=si>=small; World w; w.c={s.nx,s.l,s.m,s.nlat,s.nphi,20,compactify(horizon(1,0.6),20),20}; bool made=false;
      for (auto&o: os) { Res one; bool have=false;
         for (auto&t: big?wide:tl) for (int order=0;order<(big&&!thorough?1:2);order++) { if (big && !thorough && s.nx*s.nlat*s.nphi>5000 && (t.T==3||t.T==64)) continue; const std::string id=S()<<"C33/"<<w.c.id()<<"/"<<o.name<<"/T="<<t.T<<",L="<<t.L<<(t.limit<1000?std::string(S()<<",limit="<<t.limit):std::string())<<",order="<<order; if (!take(id)) continue;
            if (!made) { made=true; PV pv; pv.grid(w.c).cpl({0.2,1,0.1,0.3,0.4,-0.2,0.5}).set("black_hole_mass",1).set("black_hole_spin",0.6).set("dt",0.004).set("rl",2.0).set("ru",30).set("l_ang",w.c.l).set("m_ang",w.c.m); Quiet q; w.P.reset(new Params(pv.make())); w.g.reset(w.c.make()); w.e.reset(new Scalar_eom(*w.g,*w.P)); w.f=noise(w.c.N(),3); w.p=noise(w.c.N(),4); w.f1=noise(w.c.N(),5); for (auto&x: w.f) x*=0.3; }
            SchedOut so; if (!have) { one=run(w,o.op,1,1,0,{},so,0x11); have=true; }
            std::vector<unsigned char> ch; long n=0;
            auto go=[&](const std::vector<unsigned char>&c,const std::string&what)->bool { Res r=run(w,o.op,t.T,t.L,order,c,so,n%2?0xA5:0x7F,t.limit); n++; transitions+=so.npoints; states++; traces++; bump("regions",so.regions); bump("logical_threads",so.tasks); bump("accesses_checked",so.accesses);
               if (so.races) { fail(S()<<o.name<<": "<<so.race<<" ("<<so.races<<" in all)"); return false; }
               if (!FM::error.empty()) { fail(FM::error); FM::reset(); return false; }
               count(hash_str(id+what),so.tasks>0); return eq(r,one,S()<<o.name<<" with "<<t.T<<" threads, "<<t.L<<" levels, schedule "<<what); };
            if (!go({},"default")) continue;
            if (big) { if (so.npoints>0 && s.nx*s.nlat*s.nphi<3000) for (int pol=0;pol<2;pol++) { ch.assign(std::min(so.npoints*2+64,1<<16),0); for (size_t i=0;i<ch.size();i++) ch[i]=pol==0?255:(unsigned char)(i*7%11); if (!go(ch,S()<<"policy "<<pol)) break; } bump("cases_on_large_grids"); continue; }
            const int np=so.npoints; std::vector<unsigned char> wd(so.width,so.width+std::min(np,1<<20)); note("scheduling_points",np);
            /* one deviation at every scheduling point, to every other runnable thread */
            const int most=thorough?3000:(o.big?40:200); long alt=0; for (int i=0;i<np;i++) alt+=wd[i]-1; const long stride=std::max<long>(1,(alt+most-1)/most); if (stride>1) bump("cases_with_thinned_deviations"); else bump("cases_with_every_single_deviation");
            long k=0; bool ok=true; for (int i=0;i<np&&ok;i++) for (int a=1;a<wd[i]&&ok;a++) if (k++%stride==0) { ch.assign(i+1,0); ch[i]=a; ok=go(ch,S()<<"choice "<<a<<" at point "<<i); }
            if (!ok) continue;
            /* a few global policies: always the last runnable, always the second, rotating */
            for (int pol=0;pol<3&&ok;pol++) { ch.assign(std::min(np*3+64,1<<16),0); for (size_t i=0;i<ch.size();i++) ch[i]=pol==0?255:pol==1?1:(unsigned char)(i*7%11); ok=go(ch,S()<<"policy "<<pol); }
         }
      }
      sample(w.c.id());
   }
   return finish();
}
