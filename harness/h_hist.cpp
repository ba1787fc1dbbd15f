/* C36: nothing but the arguments and the construction parameters. Every history of creations, destructions
 * and calls over three objects of one kind, compared bit for bit with the same call made alone in a process
 * of its own. */
#include "eomutil.hpp"
#include <sys/wait.h>
using namespace V;
typedef std::vector<cplx> cvec;
struct Obj { virtual ~Obj() {} virtual vec run(int op,int q,bool &touched)=0; };
struct Slot { std::string id; std::function<std::unique_ptr<Obj>()> make; int nops; std::vector<const char*> names; };
/* buffers that live as long as the process: the same addresses with other contents from call to call */
static vec &buf(int k,size_t n) { static std::map<std::pair<int,size_t>,vec> m; vec &v=m[{k,n}]; if (v.size()!=n) v.assign(n,0); return v; }
static cvec &cbuf(int k,size_t n) { static std::map<std::pair<int,size_t>,cvec> m; cvec &v=m[{k,n}]; if (v.size()!=n) v.assign(n,0); return v; }
static int tick=0;
static vec &dirty(int k,size_t n) { vec &v=buf(k,n); tick++; for (size_t i=0;i<n;i++) v[i]=(tick%3==0)?NANV:(tick%3==1)?-7e9:0.125*double(i%11); return v; }
static cvec &cdirty(int k,size_t n) { cvec &v=cbuf(k,n); tick++; for (size_t i=0;i<n;i++) v[i]=(tick%2)?cplx(NANV,1):cplx(3e8,-2); return v; }
static const vec &data(int q,size_t n) { static std::map<std::pair<int,size_t>,vec> m; vec &v=m[{q,n}]; if (v.empty()) { v=noise(n,100+q); if (q==1) for (double&x: v) x=std::ldexp(x,-30); if (q==2) { v.assign(n,0.0); for (size_t i=0;i<n;i+=5) v[i]=1+double(i%7); } if (q==3) { /* lines and planes of zeros, in either order of storage */ for (size_t i=0;i<n;i++) v[i]=i%4==1&&i>n/2?0.5*double(i%3):0.0; } if (q==4) { v.assign(n,0.0); } } return v; }
static vec &input(int k,int q,size_t n) { vec &v=buf(k,n); v=data(q,n); return v; }
static const int NQ=5; /* how many different data there are */
static bool differs(const vec&a,const vec&b) { return a.size()!=b.size()||memcmp(a.data(),b.data(),8*a.size()); }
static vec flat(const cvec&c) { vec r; for (auto&z: c) { r.push_back(z.real()); r.push_back(z.imag()); } return r; }
/* ---- spheres ---- */
static const std::vector<const char*> SN={"compute_ylm","partial_phi","laplace_beltrami","raise","lower","sphereX","filter","power_spectrum","to_Ylm","to_Sph"};
struct SphereObj : Obj { Sphere s; int l,m; SphereObj(int l_,int m_,int a,int b):s(l_,m_,a,b),l(l_),m(m_) {}
   vec run(int op,int q,bool &t) override { const size_t N=s.nSph(); vec o;
      if (op==0) { const int M[4]={m,0,std::min(1,m),m}; const int L[4]={m,m+1<=l?m+1:l,l,l}; return s.compute_ylm(L[q%4],M[q%4]); }
      if (op==9) { cvec &c=cbuf(3,s.nYlm()); const vec&d=data(q,2*s.nYlm()); for (size_t i=0;i<s.nYlm();i++) c[i]=cplx(d[2*i],i<=size_t(l)?0.0:d[2*i+1]); const cvec c0=c; vec&r=dirty(2,N); s.to_Sph(c,r); t=differs(flat(c),flat(c0)); return r; }
      vec &in=input(1,q,N);
      switch (op) { case 1: { vec&r=dirty(2,N); s.partial_phi(in,r); o=r; break; } case 2: { vec&r=dirty(2,N); s.laplace_beltrami(in,r); o=r; break; } case 3: { cvec&r=cdirty(2,N); s.raise(in,r); o=flat(r); break; } case 4: { cvec&r=cdirty(2,N); s.lower(in,r); o=flat(r); break; }
         case 5: { vec&r=dirty(2,N); s.sphereX(in,r); o=r; break; } case 6: s.filter(in); return in; case 7: { vec&r=dirty(2,l); s.power_spectrum(in,r); o=r; break; } case 8: { cvec&r=cdirty(2,s.nYlm()); s.to_Ylm(in,r); o=flat(r); break; } }
      t=differs(in,data(q,N)); return o; } };
/* ---- grids ---- */
static const std::vector<const char*> GN={"compute_ylm","set_partial_phi","set_spherical_lap","set_sphereX","set_partial_R","set_partial_r","set_partial2_r","set_angular_power_spectrum","filter","norm_indep_res","total_variation","set_n_l_coef"};
struct GridObj : Obj { GC c; std::unique_ptr<Grid> g; explicit GridObj(const GC&c_):c(c_),g(c_.make()) {}
   vec run(int op,int q,bool &t) override { const size_t N=c.N();
      if (op==0) { const int M[3]={c.m,0,std::min(1,c.m)}; const int L[3]={c.m,c.m+1<=c.l?c.m+1:c.l,c.l}; return g->compute_ylm(L[q%3],M[q%3]); }
      vec &in=input(1,q,N); vec o;
      switch (op) { case 1: { vec&r=dirty(2,N); g->set_partial_phi(in,r); o=r; break; } case 2: { vec&r=dirty(2,N); g->set_spherical_lap(in,r); o=r; break; } case 3: { vec&r=dirty(2,N); g->set_sphereX(in,r); o=r; break; } case 4: { vec&r=dirty(2,N); g->set_partial_R(in,r); o=r; break; } case 5: { vec&r=dirty(2,N); g->set_partial_r(in,r); o=r; break; } case 6: { vec&r=dirty(2,N); g->set_partial2_r(in,r); o=r; break; }
         case 7: { vec&r=dirty(2,size_t(c.nx)*c.l); g->set_angular_power_spectrum(in,r); o=r; break; } case 8: g->filter(in); return in;
         case 9: { vec&b=input(4,q+1,N); vec&p=input(5,q+2,N); o={g->norm_indep_res(0.1+q,in,b,p)}; t=differs(b,data(q+1,N))||differs(p,data(q+2,N)); if (t) return o; break; } case 10: o={g->total_variation(in)}; break;
#if USE_CHEB
         case 11: { vec&r=dirty(2,size_t(c.nx)*c.l); g->set_n_l_coef(in,r); o=r; break; }
#endif
      }
      t=differs(in,data(q,N)); return o; } };
/* ---- equations of motion; one grid per shape, shared as the program shares it ---- */
static const std::vector<const char*> EN={"set_k","set_rho","time_step","two time steps","compact_pulse","set_k on a copied grid"};
static std::shared_ptr<Grid> shared(const GC&c) { static std::map<std::string,std::weak_ptr<Grid>> m; auto&w=m[c.id()]; auto p=w.lock(); if (!p) { p.reset(c.make()); w=p; } return p; }
struct EomObj : Obj { GC c; std::shared_ptr<Grid> g; PV pv; Params P; Scalar_eom e;
   EomObj(const GC&c_,PV p):c(c_),g(shared(c_)),pv(p),P(p.make()),e(*g,P) {}
   vec run(int op,int q,bool &t) override { const size_t N=c.N(); vec o;
      auto scaled=[&](int k,int qq)->vec&{ vec&v=input(k,qq,N); for (double&x: v) x*=0.1; return v; };
      auto join=[&](const vec&a,const vec&b){ o=a; o.insert(o.end(),b.begin(),b.end()); };
      if (op==0||op==5) { vec&f=scaled(1,q),&p=scaled(4,q+1); const vec f0=f,p0=p; vec&a=dirty(2,N),&b=dirty(6,N); if (op==0) e.set_k(*g,f,p,a,b); else { std::unique_ptr<Grid> h(c.make()); e.set_k(*h,f,p,a,b); } join(a,b); t=differs(f,f0)||differs(p,p0); }
      else if (op==1) { vec&f=scaled(1,q),&p=scaled(4,q+1); const vec f0=f,p0=p; vec&a=dirty(2,N); e.set_rho(*g,f,p,a); o=a; t=differs(f,f0)||differs(p,p0); }
      else if (op<4) { Field f("f",N,NANV),p("p",N,-3); f.n=scaled(1,q); p.n=scaled(4,q+1); for (int k=0;k<op-1;k++) { if (k) { f.shift(); p.shift(); } e.time_step(*g,f,p); } join(f.np1,p.np1); o.insert(o.end(),f.n.begin(),f.n.end()); o.insert(o.end(),p.n.begin(),p.n.end()); }
      else { vec&a=dirty(2,N),&b=dirty(6,N); PV v=pv; v.set("initial_data_direction",q==0?"ingoing":q==1?"outgoing":"time_symmetric").set("l_ang",std::min(q,c.l)).set("m_ang",std::min(q/2,c.m)).set("amp",0.25*(q+1)); Params R=v.make(); ID::compact_pulse(R,*g,a,b); join(a,b); }
      return o; } };
/* the call alone, in a process of its own that has done nothing else */
static vec alone(const Slot&s,int op,int q)
{
   int fd[2]; if (pipe(fd)) return {}; const pid_t p=fork();
   if (!p) { close(fd[0]); alarm(60); bool t; vec r; { auto o=s.make(); r=o->run(op,q,t); } const char*b=(const char*)r.data(); size_t n=8*r.size(); while (n) { ssize_t k=write(fd[1],b,n); if (k<=0) _exit(1); b+=k; n-=k; } _exit(0); }
   close(fd[1]); vec r; char b[1<<16]; std::string all; ssize_t k; while ((k=read(fd[0],b,sizeof b))>0) all.append(b,k); close(fd[0]); int st; waitpid(p,&st,0);
   if (!(WIFEXITED(st)&&WEXITSTATUS(st)==0)) fail(S()<<s.id<<": "<<s.names[op]<<" alone ended with status "<<st); r.resize(all.size()/8); memcpy(r.data(),all.data(),all.size()/8*8); return r;
}
static std::unique_ptr<Obj> mk(Obj*o) { return std::unique_ptr<Obj>(o); }
static std::vector<std::pair<std::string,std::vector<Slot>>> sets()
{
   std::vector<std::pair<std::string,std::vector<Slot>>> r;
   auto sph=[](int l,int m,int a,int b){ return Slot{S()<<"Sphere("<<l<<","<<m<<","<<a<<","<<b<<")",[=]{ return mk(new SphereObj(l,m,a,b)); },10,SN}; };
   auto grd=[](GC c){ return Slot{"Grid("+c.id()+")",[=]{ return mk(new GridObj(c)); },CHEB?12:11,GN}; };
   auto eq=[](GC c,double a,Cpl k,double dt){ PV v; v.grid(c).cpl(k).set("black_hole_mass",1).set("black_hole_spin",a).set("dt",dt).set("rl",2.1).set("ru",9.0); return Slot{S()<<"Scalar_eom("<<c.id()<<",a="<<a<<","<<k.id()<<")",[=]{ return mk(new EomObj(c,v)); },6,EN}; };
   r.push_back({"sphere0",{sph(3,3,5,8),sph(3,2,5,8),sph(4,4,6,9)}});
   r.push_back({"sphere1",{sph(5,2,8,5),sph(5,2,5+3,5),sph(2,2,4,10)}});      /* the second is a twin of the first */
   r.push_back({"grid0",{grd({9,2,2,3,5,20,1.8,20}),grd({9,2,2,3,5,15,1.8,12}),grd({12,2,1,4,7,20,1.8,20})}});
   r.push_back({"grid1",{grd({10,3,2,5,6,20,1.8,20}),grd({10,3,2,5,6,20,1.8,20}),grd({10,2,2,6,5,20,1.8,20})}});   /* a twin; the same number of points in another shape */
   const GC A{9,2,2,3,5,20,1.8,20},B{8,1,1,5,3,15,1.9,15}; const Cpl K0{0,1,0,0,0,0,0},K1{0.3,1,-0.2,0.4,0.25,-0.5,0.75},K2{0,2,0,0,1,0,0};
   r.push_back({"eom0",{eq(A,0.3,K0,0.01),eq(A,0.9,K1,0.01),eq(A,0.3,K0,0.02)}});
   r.push_back({"eom1",{eq(A,-0.5,K1,0.01),eq(B,0.7,K2,0.02),eq(B,0.7,K1,0.02)}});
   return r;
}
int main(int argc,char**argv)
{
   init(argc,argv);
   auto SS=sets();
   for (auto&set: SS) {
      const auto &sl=set.second; const bool e=set.first[0]==0x65;
      int depth=(e?5:4)+(thorough?1:0); if (const char*d=getenv("V_DEPTH")) depth=atoi(d);
      struct A { int slot,what; }; std::vector<A> al; for (int s=0;s<3;s++) { al.push_back({s,-1}); al.push_back({s,-2}); for (int o=0;o<sl[s].nops;o++) al.push_back({s,o}); }
      std::vector<std::vector<std::vector<vec>>> ref(3); bool have=false;
      auto mkref=[&]{ for (int s=0;s<3;s++) { ref[s].resize(sl[s].nops); for (int o=0;o<sl[s].nops;o++) for (int q=0;q<NQ;q++) { ref[s][o].push_back(alone(sl[s],o,q)); bump("reference_results"); for (double x: ref[s][o].back()) if (!std::isfinite(x)) { bump("reference_results_not_finite"); break; } } } have=true; };
      /* long lives: two objects of one process, very many calls in turn */
      for (int s=0;s<3;s++) for (int o=0;o<sl[s].nops;o++) { if (!take(set.first+(S()<<"/long/"<<s<<","<<o).str())) continue; if (!have) mkref();
         const long calls=(set.first[0]=='s'?70000:e?(o==4||o==1?5000:o==3?700:1500):6000)*(thorough?20:1); std::unique_ptr<Obj> a=sl[s].make(),b=sl[(s+1)%3].make();
         for (long k=0;k<calls;k++) { const bool other=k%97==96; const int z=other?(s+1)%3:s,x=other?int(k/97)%sl[z].nops:o,q=int(k%NQ); bool t=false; vec r=(other?b:a)->run(x,q,t); transitions++; if (t||differs(r,ref[z][x][q])) { fail(S()<<"call "<<k<<" ("<<sl[z].names[x]<<" of "<<sl[z].id<<") differs from the same call made alone"); break; } }
         states++; traces++; evals++; }
      for (size_t a0=0;a0<al.size();a0++) for (size_t a1=0;a1<al.size();a1++) {
         if (al[a0].what!=-1 || (al[a1].what==-1&&al[a1].slot==al[a0].slot) || (al[a1].what!=-1&&al[a1].slot!=al[a0].slot)) continue;
         if (!take(set.first+(S()<<"/"<<a0<<","<<a1).str())) continue;
         if (!have) mkref();
         std::vector<int> h(depth); bool bad=false; const long before=states;
         std::function<void(int)> go=[&](int d){
            if (bad) return;
            if (d==depth) {
               std::unique_ptr<Obj> ob[3]; int calls=0;
               auto hist=[&](int upto){ S o; for (int z=0;z<=upto;z++) { const A&a=al[h[z]]; o<<(z?"; ":"")<<(a.what==-1?"create ":a.what==-2?"destroy ":sl[a.slot].names[a.what])<<" "<<sl[a.slot].id; } return o.str(); };
               for (int i=0;i<depth&&!bad;i++) {
                  const A&a=al[h[i]]; transitions++;
                  if (a.what==-1) ob[a.slot]=sl[a.slot].make(); else if (a.what==-2) ob[a.slot].reset();
                  else { const int q=int((states+calls++)%NQ); bool t=false; vec r=ob[a.slot]->run(a.what,q,t); if (t) { bad=true; fail("an argument was modified: "+hist(i)); }
                     if (differs(r,ref[a.slot][a.what][q])) { bad=true; size_t k=0; const vec&w=ref[a.slot][a.what][q]; while (k<r.size()&&k<w.size()&&!memcmp(&r[k],&w[k],8)) k++; fail(S()<<"the last call differs from the same call made alone (element "<<k<<": "<<(k<r.size()?r[k]:0)<<" instead of "<<(k<w.size()?w[k]:0)<<"): "<<hist(i)); } }
               }
               states++; traces++; evals++; return;
            }
            for (size_t x=0;x<al.size();x++) {
               if ((d==0&&x!=a0)||(d==1&&x!=a1)) continue;
               bool live=false; for (int z=0;z<d;z++) if (al[h[z]].slot==al[x].slot) { if (al[h[z]].what==-1) live=true; if (al[h[z]].what==-2) live=false; }
               if (al[x].what==-1?live:!live) continue;
               if (d==depth-1&&al[x].what<0) continue;      /* a history that ends without a call adds nothing */
               h[d]=int(x); go(d+1);
            }
         };
         go(0);
         if (states>before) sample(S()<<set.first<<": all "<<(states-before)<<" histories of length "<<depth<<" that start with actions "<<a0<<","<<a1);
      }
   }
   return finish();
}
