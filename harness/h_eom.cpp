/* C15-C20: equation of motion, energy density, time step, symmetries, initial data. */
#include "eomutil.hpp"
#include "fftwmon.hpp"
using namespace V; using O::RB;

struct Quiet { std::streambuf*o; std::ostringstream s; Quiet(){ o=std::cout.rdbuf(s.rdbuf()); } ~Quiet(){ std::cout.rdbuf(o); } };
struct Eom { std::unique_ptr<Scalar_eom> e; Eom(const Grid&g,const Params&p){ Quiet q; e.reset(new Scalar_eom(g,p)); } Scalar_eom*operator->(){return e.get();} };
static Params par(const GC&c,const Cpl&k,double M,double a,double dt=0.01)
{ Quiet q; PV p; p.grid(c).cpl(k).set("black_hole_mass",M).set("black_hole_spin",a).set("dt",dt); return p.make(); }
/* shapes: radial interval given as (horizon multiple, outer end) so that it depends on M and a */
struct Sh { int nx,l,m,nlat,nphi; double cl; double in; double out; };   /* in: r at the inner end / horizon radius; out: fraction of cl */
static GC gc(const Sh&s,double M,double a) { return GC{s.nx,s.l,s.m,s.nlat,s.nphi,s.cl,compactify(s.in*horizon(M,a),s.cl),s.out*s.cl}; }
static std::vector<Sh> shs()
{
   std::vector<Sh> v={{8,2,2,3,5,20,1,1},{9,2,2,4,7,10,0.9,1},{8,2,2,5,6,20,1,0.75},{11,3,3,5,8,50,0.8,1}};
   if (CHEB) { v.push_back({5,2,2,3,5,20,1,1}); v.push_back({6,2,2,4,8,15,1.0,0.9}); v.push_back({17,2,2,3,5,30,1,1}); }
   else { v.push_back({13,2,2,3,6,20,1,1}); v.push_back({10,2,2,3,5,30,1,0.9}); }
   if (thorough) { v.push_back({16,4,4,6,10,40,0.7,1}); v.push_back({24,3,3,7,9,100,1,1}); }
   return v;
}
/* the angular grid of the template of run parameters, and a long radial line: too large for every combination */
static Sh big_angular() { return {9,20,18,40,40,20,1,1}; }
static Sh long_radial() { return {CHEB?65:257,2,2,3,5,30,1,1}; }
static bool large() { return !getenv("V_NOLARGE"); }
static bool heavy(const Sh&s) { return s.nx*s.nlat*s.nphi>3500; }
static std::vector<double> spins() { return {0,0.3,0.9,0.9999,1,-0.5,-1,1e-9,1e-17}; }
/* spins close to the special values 0 and M without being equal to them: fewer couplings and fields */
static std::vector<double> near_spins() { return {1e-3,-1e-5,0.999,0.9999997,-(1-1e-8),1-1e-12,std::nextafter(1.0,0)}; }
/* couplings that are small but not absent, with fields that amplify them */
struct Amp { Cpl k; double f0,p0; };
static std::vector<Amp> tiny_couplings()
{
   std::vector<Amp> v;
   for (double t: {1e-3,-1e-5,1e-7,-1e-9,1e-9,1e-11,-1e-13,1e-15}) { const double q=std::sqrt(std::fabs(t));
      for (double e: {3.0,0.5,-0.5,-3.0}) { Amp a{{t,1.1,0,0,0,0,0},-1+e*q,0.6}; v.push_back(a); a.k.k1=0.2; a.k.v4=0.3; v.push_back(a); }
      for (double e: {0.2,-0.2}) { const double f=e/t,p=1/q; Amp a{{0,1.3,t,0,0,0,0},f,p}; v.push_back(a); a.k={0,1.3,0,t,0,0,0}; a.f0=e*3/q; a.p0=3/q; v.push_back(a); }
      for (double f: {0.7,-2e3,1e6}) for (int w=0;w<3;w++) { Amp a{{0,0.9,0,0,0,0,0},f,0.0}; (w==0?a.k.v2:w==1?a.k.v3:a.k.v4)=t; v.push_back(a); a.k.k0=-1.2; v.push_back(a); }
      { Amp a{{0,t,0,0,0,0,0},0.3,0.4}; v.push_back(a); a.k.k1=2*t; a.k.v2=t*t; v.push_back(a); } }
   return v;
}
static std::vector<Cpl> couplings()
{
   std::vector<Cpl> v; const double val[6]={0.37,-0.43,0.61,1.7,-0.9,2.3};
   auto mk=[&](int mask){ Cpl c{0,1.1,0,0,0,0,0}; double*q[6]={&c.km1,&c.k1,&c.k2,&c.v2,&c.v3,&c.v4}; for (int i=0;i<6;i++) if (mask>>i&1) *q[i]=val[i]; return c; };
   for (int m=0;m<64;m++) if (__builtin_popcount(m)<=2||m==63||thorough) v.push_back(mk(m));
   Cpl c{0.8,0,0,0,0,0,0}; v.push_back(c); c={-0.8,0,0.1,0,1,0,0}; v.push_back(c); c={0,-1.3,0.2,-0.3,-1,2,-3}; v.push_back(c); c={0,2,0,0,0,0,0}; v.push_back(c); c={-0.2,1.4,-0.5,-0.7,1.1,1.2,1.3}; v.push_back(c);
   return v;
}
struct NF { std::string id; Fld F; };
static std::vector<NF> fields(int l,int m)
{
   std::vector<NF> v; auto B=O::basis(std::min(l,2),std::min(m,2)); auto nm=[&](int q,const RB&b){ return std::string(S()<<"x^"<<q<<"Y"<<b.l<<b.m<<(b.part?"i":"")); };
   for (int q=0;q<=2;q++) for (auto&b: B) { v.push_back({"f="+nm(q,b),{{{q,b,0.3L}},{}}}); v.push_back({"p="+nm(q,b),{{},{{q,b,0.5L}}}}); }
   /* pairs: f with f, f with p */
   size_t k=0;
   for (int qa=0;qa<=2;qa++) for (auto&a: B) for (int qb=qa;qb<=2;qb++) for (auto&b: B) { k++; if (!thorough && k%5) continue;
      v.push_back({"f="+nm(qa,a)+"+"+nm(qb,b),{{{qa,a,0.2L},{qb,b,-0.22L}},{}}});
      v.push_back({"f="+nm(qa,a)+",p="+nm(qb,b),{{{qa,a,0.25L}},{{qb,b,-0.6L}}}}); }
   { Fld F; int i=0; for (int q=0;q<=2;q++) for (auto&b: B) { F.f.push_back({q,b,0.03L*(1+(i*7)%5)*(i%2?1:-1)}); F.p.push_back({q,b,0.05L*(1+(i*3)%5)*(i%3?1:-1)}); i++; } v.push_back({"all",F});  }
   return v;
}
/* the dense data in other magnitudes */
static std::vector<NF> magnitudes(int l,int m)
{
   std::vector<NF> v; const NF a=fields(l,m).back();
   for (ld sc: {1e-12L,1e-9L,1e-6L,1e-4L,1e-2L,10.0L,1e3L,1e6L}) for (int w=0;w<3;w++) { NF n=a; n.id=S()<<"all, "<<(w==0?"f and p":w==1?"f":"p")<<" scaled by "<<double(sc); if (w!=2) for (auto&x: n.F.f) x.amp*=sc; if (w!=1) for (auto&x: n.F.p) x.amp*=sc; v.push_back(n); }
   return v;
}
struct Data { std::string id; vec f,p; std::vector<J> j; ld mf,mp; };
static Data data(const Geom&G,const NF&n)
{
   Data d; d.id=n.id; d.j=jets(G,n.F); d.f.resize(d.j.size()); d.p.resize(d.j.size()); d.mf=d.mp=0;
   for (size_t i=0;i<d.j.size();i++) { d.f[i]=double(d.j[i].f); d.p[i]=double(d.j[i].p); d.mf=std::max(d.mf,fabsl(d.j[i].f)); d.mp=std::max(d.mp,fabsl(d.j[i].p)); }
   return d;
}
/* magnitudes that rounding in the discrete derivatives can reach at radial index i */
static J bound(const Geom&G,int i,ld mf,ld mp,ld sth)
{
   const GC&c=G.c; const ld h=((ld)c.b-c.a)/2,z=G.inf(i)?0:1-G.R[i]/(ld)c.cl,n2=CHEB?ld(c.nx)*c.nx:ld(c.nx)*4,l=c.l+1; J b{};
   b.f=mf; b.p=mp; b.fr=n2/h*mf*z*z; b.frr=n2*n2/(h*h)*mf*z*z*z*z+2/(ld)c.cl*z*z*z*n2/h*mf; b.fph=l*mf; b.fth=l*mf; b.lap=l*l*mf*4; b.frp=b.fr*l; b.pr=n2/h*mp*z*z; (void)sth; return b;
}
static ld kcond(const Cpl&c,ld f) { const ld s=fabsl(c.k0)+fabsl(c.km1==0?0:c.km1/(1+f))+fabsl(c.k1*f)+fabsl(0.5L*c.k2*f*f); return s/fabsl(c.k(f)); }
/* scale of the right-hand side at a point: every term with the larger of its own and its rounding-level magnitude */
static ld rhs_scale(const Geo4&g,const Cpl&c,ld f,const J&b,ld th)
{
   const ld K=fabsl(c.k(f)),kp=fabsl(c.km1==0?0:c.km1/((1+f)*(1+f)))+fabsl(c.k1)+fabsl(c.k2*f),vp=fabsl(c.v2*f)+fabsl(c.v3*f*f/2)+fabsl(c.v4*f*f*f/6);
   if (g.inf) return kcond(c,f)*(0.5L*kp/K*b.p*b.p+vp/K+b.fr+b.pr)+1e-3L*(b.p+b.f);
   const ld s=sinl(th),Sg=1/g.up.g[2][2]; (void)s; ld q=0; const ld d[4]={b.p,b.fr,0,b.fph};
   for (int a=0;a<4;a++) for (int e=0;e<4;e++) if (a!=3||e!=3) q+=fabsl(g.up.g[a][e])*d[a]*d[e]; q+=b.fth*b.fth/Sg*4;
   return (2*fabsl(g.up.g[0][1])*b.pr+fabsl(g.up.g[1][1])*b.frr+2*fabsl(g.up.g[1][3])*b.frp+b.lap/Sg+fabsl(g.W[0])*b.p+(fabsl(g.W[1])+1/sqrtl(Sg)/fabsl(Sg))*b.fr+fabsl(g.W[3])*b.fph+kcond(c,f)*(0.5L*kp/K*q+vp/K))/fabsl(g.up.g[0][0]);
}
static void check_rhs(const Geom&G,const std::vector<Geo4>&ge,const Cpl&c,const Data&d,const vec&fk,const vec&pk,const std::string&w)
{
   if (memcmp(fk.data(),d.p.data(),fk.size()*8)) { for (size_t i=0;i<fk.size();i++) if (!(fk[i]==d.p[i])) { fail(S()<<w<<": f_k at "<<i<<" is "<<fk[i]<<", p is "<<d.p[i]); break; } }
   for (int i=0;i<G.c.nx;i++) for (int t=0;t<G.c.nlat;t++) { const Geo4&g=ge[size_t(i)*G.c.nlat+t]; const J b=bound(G,i,d.mf,d.mp,0);
      for (int p=0;p<G.c.nphi;p++) { const size_t k=G.ix(i,t,p); ld sc; const ld want=rhs_oracle(g,c,d.j[k],G.th[t],sc); sc=std::max(sc*kcond(c,d.j[k].f),rhs_scale(g,c,d.j[k].f,b,G.th[t]));
         const ld e=fabsl(want-pk[k])/(1e-11L*sc+1e-300L); if (sc>0) note("rhs_error_over_tolerance",double(e));
         if (!(e<=1)) { fail(S()<<w<<": right-hand side at R index "<<i<<", theta "<<t<<", phi "<<p<<" is "<<pk[k]<<", expected "<<double(want)); return; } } }
}
static void check_rho(const Geom&G,const std::vector<Geo4>&ge,const Cpl&c,const Data&d,const vec&rho,const std::string&w)
{
   for (int i=0;i<G.c.nx;i++) for (int t=0;t<G.c.nlat;t++) { const Geo4&g=ge[size_t(i)*G.c.nlat+t]; const J b=bound(G,i,d.mf,d.mp,0);
      for (int p=0;p<G.c.nphi;p++) { const size_t k=G.ix(i,t,p); ld sc; const ld want=rho_oracle(g,c,d.j[k],sc); ld s2=0; const ld f=d.j[k].f,K=fabsl(c.k(f))*kcond(c,f);
         if (g.inf) { const ld u=(CHEB?ld(G.c.nx)*G.c.nx:4.0L*G.c.nx)/((ld)G.c.b-G.c.a)*2*d.mf+b.fph; s2=K*(b.p*b.p+1e-12L*u*u+1e-12L*b.p*u); } else { const ld D[4]={b.p,b.fr,0,b.fph}; for (int a=0;a<4;a++) for (int e=0;e<4;e++) if (a!=3||e!=3) s2+=fabsl(g.up.g[a][e])*D[a]*D[e]; s2=K*(s2+4*b.fth*b.fth*g.up.g[2][2]); }
         const ld vs=fabsl(c.v2*f*f/2)+fabsl(c.v3*f*f*f/6)+fabsl(c.v4*f*f*f*f/24);
         const ld tol=1e-11L*std::max(sc*kcond(c,f),s2+vs)+1e-300L; const ld e=fabsl(want-rho[k])/tol; note("rho_error_over_tolerance",double(e));
         if (!(e<=1)) { fail(S()<<w<<": rho at R index "<<i<<", theta "<<t<<", phi "<<p<<" is "<<rho[k]<<", expected "<<double(want)); return; }
         /* what the statement draws from it */
         if (c.k(f)>0&&c.v(f)>=0&&!(rho[k]>=-tol)) { fail(S()<<w<<": rho is negative: "<<rho[k]); return; } } }
}
static void c15_17(bool rho)
{
   auto ss=shs(); if (large()) { ss.push_back(big_angular()); ss.push_back(long_radial()); }
   std::vector<double> sp=spins(); const size_t nsp=sp.size(); for (double x: near_spins()) sp.push_back(x);
   for (auto&s: ss) for (double M: {1.0,0.5,2.0}) for (size_t is=0;is<sp.size();is++) { const double ra=sp[is],a=ra*M; const bool hv=heavy(s),nearby=is>=nsp;
      if (nearby && !thorough && (hv||M==0.5)) continue;
      if (hv && !thorough && !((M==1&&(ra==0.9||ra==-0.5))||(M==0.5&&ra==0)||(M==2&&ra==1))) continue;
      const GC c=gc(s,M,a); const std::string cid=S()<<prop<<"/"<<c.id()<<",M="<<M<<",a="<<a;
      if (!take(cid)) continue;
      std::unique_ptr<Grid> g(c.make()); Geom G(c); const size_t N=c.N(); auto ge=geos(G,M,a); std::vector<Data> ds; for (auto&f: fields(c.l,c.m)) if (!hv||f.id=="all"||f.id=="p=x^1Y11"||f.id=="f=x^2Y20") ds.push_back(data(G,f)); { size_t z=0; for (auto&f: magnitudes(c.l,c.m)) if (!hv||z++%5==1) ds.push_back(data(G,f)); }
      size_t kc=0;
      for (auto&k: couplings()) { kc++; if (hv && !thorough && kc%6!=1) continue; if (nearby && !thorough && kc%9!=1) continue;
         Params P=par(c,k,M,a); Eom e(*g,P); size_t kd=0;
         for (auto&d: ds) { kd++; if (nearby && !thorough && d.id!="all" && (kc>1||kd%5)) continue; if (!thorough && d.id!="all" && kc>2 && (hv||(kc+kd)%6)) continue;
            vec f=d.f,p=d.p;
            if (!rho) { vec fk(N,NANV),pk(N,NANV); e->set_k(*g,f,p,fk,pk); check_rhs(G,ge,k,d,fk,pk,k.id()+" "+d.id); count(hash_vec(pk,hash_str(cid+k.id())),true); }
            else { vec r(N,NANV); e->set_rho(*g,f,p,r); check_rho(G,ge,k,d,r,k.id()+" "+d.id); count(hash_vec(r,hash_str(cid+k.id())),true); }
            same_bits(f,d.f,"f modified by the call"); same_bits(p,d.p,"p modified by the call");
         }
         if (rho) { /* constants at rest */ const bool v0=k.v2==0&&k.v3==0&&k.v4==0; for (double f0: {0.4,-0.3,0.0}) { vec f(N,f0),p(N,0.0),r(N,NANV); e->set_rho(*g,f,p,r); for (size_t i=0;i<N;i++) { const double want=v0?0:double(k.v(f0)); if (!close(r[i],want,1e-14*(std::fabs(want)+(f0!=0)))) { fail(S()<<k.id()<<": rho of the constant "<<f0<<" at rest is "<<r[i]<<", expected "<<want); break; } } count(hash_vec(r,hash_str(cid+k.id()+"c")),false); } }
      }
      /* small couplings are not absent ones */
      if (!hv||thorough) { size_t ka=0; for (auto&A: tiny_couplings()) { ka++; if (!thorough && (nearby||ra==1e-9||ra==1e-17||(ka+is)%3)) continue;
         const Cpl&k=A.k; const ld K=k.k(A.f0); if (!(fabsl(K)>1e-3L*fabsl(K)*kcond(k,A.f0))) continue;
         Params P=par(c,k,M,a); Eom e(*g,P); vec f(N,A.f0),p(N,A.p0); Data d; d.id=S()<<"f="<<A.f0<<" p="<<A.p0; d.f=f; d.p=p; d.mf=std::fabs(A.f0); d.mp=std::fabs(A.p0); d.j.assign(N,J{}); for (auto&j: d.j) { j.f=A.f0; j.p=A.p0; }
         if (!rho) { vec fk(N,NANV),pk(N,NANV); e->set_k(*g,f,p,fk,pk); check_rhs(G,ge,k,d,fk,pk,k.id()+" "+d.id); count(hash_vec(pk,hash_str(cid+k.id())),true); }
         else { vec r(N,NANV); e->set_rho(*g,f,p,r); check_rho(G,ge,k,d,r,k.id()+" "+d.id); if (A.p0==0) { const double want=double(k.v(A.f0)); for (size_t i=0;i<N;i++) if (!close(r[i],want,1e-13*std::fabs(want)+1e-22*double(fabsl(K))*A.f0*A.f0)) { fail(S()<<k.id()<<": rho of the constant "<<A.f0<<" at rest is "<<r[i]<<", expected "<<want); break; } } count(hash_vec(r,hash_str(cid+k.id())),true); }
         bump("small_couplings"); } }
      sample(cid+": every coupling set and field of the alphabet");
   }
}
/* ---------------------------------------------------------------- C16 */
static bool finite(const vec&v) { for (double x: v) if (!std::isfinite(x)) return false; return true; }
static void c16()
{
   std::vector<double> vals={-1,-1+1e-7,-1-3e-9,-1+1e-11,0,1e-300,-1e-300,-0.5,1,1e-8,1e3,-1e3,1e30,-1e60,std::nextafter(-1.0,0),std::nextafter(-1.0,-2)};
   auto ss=shs(); if (large()) { ss.push_back(big_angular()); ss.push_back(long_radial()); }
   for (auto&s: ss) { const bool hv=heavy(s)||s.nx>50; if (s.l>2&&!thorough&&!hv) continue; for (double ra: {0.0,0.9,1.0,-1.0}) {
      if (hv&&ra!=0.9) continue;
      const double M=1,a=ra; const GC c=gc(s,M,a); const std::string cid=S()<<"C16/"<<c.id()<<",a="<<a; if (!take(cid)) continue;
      std::unique_ptr<Grid> g(c.make()); Geom G(c); const size_t N=c.N(); auto ge=geos(G,M,a); const double val[7]={0.37,1.1,-0.43,0.61,1.7,-0.9,2.3};
      std::vector<Data> ds; { auto fs=fields(c.l,c.m); ds.push_back(data(G,fs.back())); ds.push_back(data(G,fs[2])); ds.push_back(data(G,fs[3])); }
      for (int mask=1;mask<128;mask++) { if (hv && mask%(thorough?8:32)!=(thorough?2:2) && mask!=127 && mask!=3) continue;
         Cpl k{0,0,0,0,0,0,0}; double*q[7]={&k.km1,&k.k0,&k.k1,&k.k2,&k.v2,&k.v3,&k.v4}; for (int i=0;i<7;i++) if (mask>>i&1) *q[i]=val[i];
         for (int neg=0;neg<2;neg++) { /* -0.0 for absent couplings is absent too */
         if (neg) for (int i=0;i<7;i++) if (!(mask>>i&1)) *q[i]=-0.0;
         if (neg && !thorough && mask%5) continue;
         Params P=par(c,k,M,a,1e-3); Eom e(*g,P);
         for (double f0: vals) for (double p0: {0.0,0.7}) { if (hv && !thorough && f0!=-1 && f0!=0 && f0!=1e3) continue;
            if (k.km1!=0 && std::fabs(f0+1)<1e-12) continue; const ld K=k.k(f0); if (!(fabsl(K)>1e-6L*(fabsl(K)*kcond(k,f0)))||fabsl(K)<1e-250L) continue;
            vec f(N,f0),p(N,p0),fk(N,NANV),pk(N,NANV),r(N,NANV); e->set_k(*g,f,p,fk,pk); e->set_rho(*g,f,p,r);
            const std::string w=S()<<k.id()<<" f="<<f0<<" p="<<p0;
            if (!finite(fk)||!finite(pk)) { fail(w+": set_k is not finite"); continue; } if (!finite(r)) { fail(w+": set_rho is not finite"); continue; }
            /* derivatives of a constant are rounding noise, so the comparison is at that level */
            Data d; d.id=w; d.f=f; d.p=p; d.mf=std::fabs(f0); d.mp=std::fabs(p0); d.j.assign(N,J{}); for (auto&j: d.j) { j.f=f0; j.p=p0; }
            check_rhs(G,ge,k,d,fk,pk,w); check_rho(G,ge,k,d,r,w); count(hash_vec(pk,hash_str(w)),true);
         }
         for (auto&d: ds) { bool ok=true; for (auto&j: d.j) { const ld K=k.k(j.f); if (fabsl(K)<1e-3L*fabsl(K)*kcond(k,j.f)||fabsl(K)<1e-3L) ok=false; }
            if (!ok) continue; vec f=d.f,p=d.p,fk(N,NANV),pk(N,NANV),r(N,NANV); e->set_k(*g,f,p,fk,pk); e->set_rho(*g,f,p,r); check_rhs(G,ge,k,d,fk,pk,k.id()+d.id); check_rho(G,ge,k,d,r,k.id()+d.id); count(hash_vec(pk,hash_str(k.id()+d.id)),true); }
         /* whole steps, including the filter, at psi=-1 when km1 is absent and elsewhere otherwise */
         for (double f0: {-1.0,0.0,0.3}) { if (k.km1!=0&&f0==-1) continue; if (fabsl(k.k(f0))<0.05L||kcond(k,f0)>50) continue;
            Quiet qq; Field F("f",N,f0),Q("p",N,0.1); for (int st=0;st<2;st++) { e->time_step(*g,F,Q); F.shift(); Q.shift(); }
            if (!finite(F.n)||!finite(Q.n)||!finite(F.np1)||!finite(F.k)||!finite(Q.k)) fail(S()<<k.id()<<" f="<<f0<<": a time step is not finite"); count(hash_vec(F.n,hash_str(k.id())),true); }
         }
      }
      sample(cid+": 127 coupling subsets x field values");
   } }
}
/* ---------------------------------------------------------------- C18 */
struct RefStep { vec f,p; };
static void rk4(const Grid&g,Eom&e,double dt,vec f,vec p,vec&fn,vec&pn,vec&f1,vec&p1)
{
   const size_t N=f.size(); g.filter(f); g.filter(p); fn=f; pn=p; vec k[4],q[4],ft=f,pt=p; const double cs[4]={0,0.5,0.5,1};
   for (int s=0;s<4;s++) { k[s].assign(N,0); q[s].assign(N,0); if (s) for (size_t i=0;i<N;i++) { ft[i]=f[i]+cs[s]*dt*k[s-1][i]; pt[i]=p[i]+cs[s]*dt*q[s-1][i]; } e->set_k(g,ft,pt,k[s],q[s]); }
   f1.resize(N); p1.resize(N); for (size_t i=0;i<N;i++) { f1[i]=f[i]+dt/6*(k[0][i]+2*k[1][i]+2*k[2][i]+k[3][i]); p1[i]=p[i]+dt/6*(q[0][i]+2*q[1][i]+2*q[2][i]+q[3][i]); }
}
static void near_vec(const vec&g,const vec&w,double rel,const std::string&what) { double m=0; for (double x: w) m=std::max(m,std::fabs(x)); for (size_t i=0;i<w.size();i++) { const double e=std::fabs(g[i]-w[i])/(rel*m+1e-300); note(rel<1e-12?"stage_error_over_tolerance":"step_error_over_tolerance",e); if (!(e<=1)) { fail(S()<<what<<" at "<<i<<": "<<g[i]<<", expected "<<w[i]); return; } } }
static void c18()
{
   std::vector<Cpl> ks={{0,1,0,0,0,0,0},{0.3,1.2,-0.2,0.4,1.1,-0.7,0.9}};
   std::vector<Sh> ss=shs(); ss.resize(thorough?4:2);
   /* set_level */
   for (auto&s: ss) for (double dt: {0.01,0.5,1.0,1e-10,-0.3,0.0,-1e-14,1e5,1e-200}) { const GC c=gc(s,1,0.5); const std::string cid=S()<<"C18/level/"<<c.id()<<",dt="<<dt; if (!take(cid)) continue;
      std::unique_ptr<Grid> g(c.make()); const size_t N=c.N(); Params P=par(c,ks[1],1,0.5,dt); Eom e(*g,P);
      for (int lev=1;lev<=5;lev++) for (int poison=0;poison<2;poison++) { Quiet q; Field F("f",N,0.0),Q("p",N,0.0); auto put=[&](Field&X,int b){ X.n=noise(N,b); X.l=noise(N,b+1); X.k=noise(N,b+2); X.np1=noise(N,b+3); }; put(F,10*lev); put(Q,10*lev+5);
         /* what a stage must not read is poisoned */
         if (poison) for (Field*X: {&F,&Q}) { for (auto&x: X->l) if (lev!=5) x=NANV; if (lev==1) for (auto&x: X->k) x=NANV; if (lev<=2) for (auto&x: X->np1) x=NANV; }
         Field F0=F,Q0=Q; e->set_level(lev,F,Q);
         Field*X[2]={&F,&Q},*X0[2]={&F0,&Q0}; for (int z=0;z<2;z++) { const char*nm=z?"p":"f"; vec l=X0[z]->l,n1=X0[z]->np1; const vec&n=X0[z]->n,&k=X0[z]->k;
            for (size_t i=0;i<N;i++) { if (lev==1) l[i]=n[i]; if (lev==2||lev==3) l[i]=n[i]+0.5*dt*k[i]; if (lev==4) l[i]=n[i]+dt*k[i]; if (lev==2) n1[i]=n[i]+dt/6*k[i]; if (lev==3||lev==4) n1[i]+=dt/3*k[i]; if (lev==5) n1[i]+=dt/6*k[i]; }
            same_bits(X[z]->n,n,S()<<"set_level("<<lev<<") "<<nm<<".n"); same_bits(X[z]->k,k,S()<<"set_level("<<lev<<") "<<nm<<".k");
            if (lev!=5) near_vec(X[z]->l,l,1e-14,S()<<"set_level("<<lev<<") "<<nm<<".l"); else same_bits(X[z]->l,l,"set_level(5) l");
            if (lev!=1) near_vec(X[z]->np1,n1,1e-14,S()<<"set_level("<<lev<<") "<<nm<<".np1"); else same_bits(X[z]->np1,n1,"set_level(1) np1"); }
         count(hash_vec(F.np1,lev*2+poison),true); states++; transitions++; }
   }
   /* histories */
   const int depth=thorough?6:4; const int NO=7;
   const char*on[NO]={"step","shift","poison","rhs_other","rho_other","second_eom_step","set_level"};
   int total=1; for (int i=0;i<depth;i++) total*=NO;
   for (auto&s: ss) for (auto&k: ks) { const GC c=gc(s,1,0.7); std::unique_ptr<Grid> g; std::unique_ptr<Geom> G; const double dt=0.004; vec f0,p0,fo,po; std::unique_ptr<Params> P;
      std::map<uint64_t,RefStep> memo; std::unique_ptr<Eom> ref;
      for (int h=0;h<total;h++) { std::string id=S()<<"C18/"<<c.id()<<"/"<<k.id()<<"/"; int ops[8],x=h; bool has=false; for (int i=0;i<depth;i++) { ops[i]=x%NO; x/=NO; has|=ops[i]==0||ops[i]==5; id+=std::string(on[ops[i]])+(i+1<depth?",":""); }
         if (!has) continue; if (!take(id)) continue;
         if (!g) { g.reset(c.make()); G.reset(new Geom(c)); auto fs=fields(c.l,c.m); Data d=data(*G,fs.back()),d2=data(*G,fs[5]); f0=d.f; p0=d.p; fo=d2.f; po=d2.p; P.reset(new Params(par(c,k,1,0.7,dt))); ref.reset(new Eom(*g,*P)); }
         const size_t N=c.N(); Quiet q; Field F("f",N,0.0),Q("p",N,0.0); F.n=f0; Q.n=p0; F.np1=f0; Q.np1=p0; Eom e(*g,*P),e2(*g,*P); vec fn=f0,pn=p0,f1=f0,p1=p0; /* reference state of n and np1 */
         for (int i=0;i<depth;i++) { transitions++; switch (ops[i]) {
            case 0: case 5: { Eom&u=ops[i]?e2:e; vec a,b,cc,d; const uint64_t key=hash_vec(fn,hash_vec(pn)); 
               rk4(*g,*ref,dt,fn,pn,a,b,cc,d); (void)key; u->time_step(*g,F,Q);
               same(F.n,a,1e-13,S()<<"op "<<i<<": level n of f after the step (filtered state)"); same(Q.n,b,1e-13,S()<<"op "<<i<<": level n of p after the step"); near_vec(F.np1,cc,1e-11,S()<<"op "<<i<<": f.np1 against classical RK4"); near_vec(Q.np1,d,1e-11,S()<<"op "<<i<<": p.np1 against classical RK4");
               /* the reference continues from what the code computed, so errors do not accumulate; bit equality with a fresh object on fresh fields */
               { Field A("a",N,0.0),B("b",N,0.0); A.n=fn; B.n=pn; Eom fresh(*g,*P); fresh->time_step(*g,A,B); same_bits(F.n,A.n,S()<<"op "<<i<<": f.n differs from the same step by fresh objects"); same_bits(Q.n,B.n,S()<<"op "<<i<<": p.n, fresh objects"); same_bits(F.np1,A.np1,S()<<"op "<<i<<": f.np1, fresh objects"); same_bits(Q.np1,B.np1,S()<<"op "<<i<<": p.np1, fresh objects"); }
               fn=F.n; pn=Q.n; f1=F.np1; p1=Q.np1; traces++; break; }
            case 1: F.shift(); Q.shift(); fn=f1; pn=p1; same_bits(F.n,fn,"shift"); same_bits(Q.n,pn,"shift"); break;
            case 2: for (Field*X: {&F,&Q}) { for (auto&z: X->l) z=NANV; for (auto&z: X->k) z=NANV; } break;
            case 3: { vec a(N,NANV),b(N,NANV); e->set_k(*g,fo,po,a,b); break; }
            case 4: { vec a(N,NANV); e->set_rho(*g,po,fo,a); break; }
            case 6: { Field A("a",N,0.3),B("b",N,-0.2); for (int l=1;l<=5;l++) e->set_level(l,A,B); break; } }
            bump("history_operations");
         }
         states++; count(hash_vec(F.np1,hash_str(id)),true);
      }
      sample(S()<<c.id()<<" "<<k.id()<<": "<<total<<" histories of depth "<<depth);
   }
   /* one long evolution, every step of it repeated by objects made for that step alone */
   for (auto&s: ss) for (size_t ki=0;ki<ks.size();ki++) for (int seed=0;seed<2;seed++) { const GC c=gc(s,1,0.7); const std::string id=S()<<"C18/long/"<<c.id()<<"/"<<ks[ki].id()<<"/"<<seed; if (!take(id)) continue;
      std::unique_ptr<Grid> g(c.make()); Geom G(c); const size_t N=c.N(); const double dt=seed?0.01:0.002; Params P=par(c,ks[ki],1,0.7,dt); Eom e(*g,P); Quiet q; auto fs=fields(c.l,c.m); Data d=data(G,fs[seed?1:fs.size()-1]); Field F("f",N,0.0),Q("p",N,0.0); F.n=d.f; Q.n=d.p; const double amp=0.05; for (auto&x: F.n) x*=amp; for (auto&x: Q.n) x*=amp;
      const int steps=thorough?30000:1200; for (int st=1;st<=steps;st++) { Field A("a",N,0.0),B("b",N,0.0); A.n=F.n; B.n=Q.n; std::unique_ptr<Grid> g2; Eom fresh(*g,P); fresh->time_step(*g,A,B); e->time_step(*g,F,Q); transitions+=3;
         if (memcmp(F.np1.data(),A.np1.data(),8*N)||memcmp(Q.np1.data(),B.np1.data(),8*N)||memcmp(F.n.data(),A.n.data(),8*N)||memcmp(Q.n.data(),B.n.data(),8*N)) { fail(S()<<"step "<<st<<" of a long evolution differs from the same step by objects made for it"); break; }
         F.shift(); Q.shift(); if (memcmp(F.n.data(),A.np1.data(),8*N)||memcmp(Q.n.data(),B.np1.data(),8*N)) { fail(S()<<"shift "<<st<<" of a long evolution"); break; }
         if (!finite(F.n)||!finite(Q.n)) { bump("long_evolutions_cut_where_not_finite"); break; } bump("long_steps"); }
      states++; traces++; count(hash_vec(F.n,hash_str(id)),nonzero(F.n)); }
   /* poisoned np1 as well: everything but n is rubbish */
   auto sl=shs(); if (large()) { sl.push_back(big_angular()); sl.push_back(long_radial()); } size_t kc=0;
   for (auto&s: sl) for (auto&k: couplings()) { const bool hv=heavy(s); kc++; if (hv && !thorough && kc%8!=1) continue; const GC c=gc(s,1,-0.4); for (double dt: {0.003,1e-10,-0.002,1e-16}) { if (dt!=0.003 && (hv?kc%16!=1:!thorough&&kc%5!=2)) continue; const std::string id=S()<<"C18/single/"<<c.id()<<"/"<<k.id()<<"/dt="<<dt; if (!take(id)) continue;
      std::unique_ptr<Grid> g(c.make()); Geom G(c); Params P=par(c,k,1,-0.4,dt); Eom e(*g,P),r(*g,P); const size_t N=c.N(); auto fs=fields(c.l,c.m);
      for (size_t q=hv?fs.size()-1:0;q<fs.size();q+=fs.size()/4) { Data d=data(G,fs[q]); vec a,b,cc,dd; rk4(*g,r,dt,d.f,d.p,a,b,cc,dd);
         for (double rub: {NANV,0.0,1e200}) { Quiet qq; Field F("f",N,rub),Q("p",N,rub); F.n=d.f; Q.n=d.p; e->time_step(*g,F,Q); same(F.n,a,1e-13,"f.n filtered"); same(Q.n,b,1e-13,"p.n filtered"); near_vec(F.np1,cc,1e-11,k.id()+" "+d.id+": f.np1 against RK4"); near_vec(Q.np1,dd,1e-11,k.id()+" "+d.id+": p.np1 against RK4"); states++; transitions++; traces++; count(hash_vec(F.np1,hash_str(id)+q),true); } } }
   }
}
/* ---------------------------------------------------------------- C19 */
struct St { vec f,p; };
static St evolve(const Grid&g,const Params&P,const St&s,int n) { Quiet q; const size_t N=s.f.size(); Field F("f",N,0.0),Q("p",N,0.0); F.n=s.f; Q.n=s.p; Scalar_eom e(g,P); for (int i=0;i<n;i++) { e.time_step(g,F,Q); F.shift(); Q.shift(); } return {F.n,Q.n}; }
static void c19()
{
   std::vector<Sh> ss; for (auto&s: shs()) if (s.m==s.l) ss.push_back(s); if (large()) { ss.push_back({9,10,10,20,24,20,1,1}); ss.push_back(long_radial()); }
   std::vector<Cpl> ks; for (auto&k: couplings()) ks.push_back(k);
   const int steps=thorough?6:3;
   for (auto&s: ss) for (double a: {0.0,0.5,1.0,-0.8}) for (size_t kk=0;kk<ks.size();kk++) { const Cpl&k=ks[kk]; const bool hv=heavy(s);
      if (hv && !thorough && ((a!=0.5&&a!=0)||(kk!=0&&kk!=ks.size()-1))) continue;
      if (!thorough&&kk%4!=(&s-&ss[0])%4u&&kk!=0&&kk!=ks.size()-1) continue;
      const GC c=gc(s,1,a),cm=gc(s,1,-a); const std::string id=S()<<"C19/"<<c.id()<<",a="<<a<<"/"<<k.id(); if (!take(id)) continue;
      std::unique_ptr<Grid> g(c.make()); Geom G(c); const size_t N=c.N(); const double dt=0.002; Params P=par(c,k,1,a,dt),Pm=par(cm,k,1,-a,dt);
      auto map=[&](const St&s,const std::function<size_t(int,int,int)>&src,double sg){ St o; o.f.resize(N); o.p.resize(N); for (int i=0;i<c.nx;i++) for (int t=0;t<c.nlat;t++) for (int p=0;p<c.nphi;p++) { const size_t x=G.ix(i,t,p),y=src(i,t,p); o.f[x]=sg*s.f[y]; o.p[x]=sg*s.p[y]; } return o; };
      double amp0=0.1; /* data are of order 0.1 to 1 before the filter acts */ auto cmp=[&](const St&x,const St&y,const std::string&w){ double m=amp0,mp=0; for (double v: y.f) m=std::max(m,std::fabs(v)); for (double v: y.p) mp=std::max(mp,std::fabs(v)); const double tol=1e-10*(m+mp+1e-30); for (size_t i=0;i<N;i++) { const double e=std::max(std::fabs(x.f[i]-y.f[i]),std::fabs(x.p[i]-y.p[i]))/tol; note("symmetry_error_over_tolerance",e); if (!(e<=1)) { fail(S()<<w<<" at "<<i<<": f "<<x.f[i]<<" against "<<y.f[i]<<", p "<<x.p[i]<<" against "<<y.p[i]); return; } } count(hash_vec(x.f,hash_str(w)),true); };
      auto fs=fields(c.l,c.m); std::vector<size_t> pick={fs.size()-1,0,3,fs.size()/3,fs.size()/2}; if (hv&&!thorough) pick={fs.size()-1,3};
      for (size_t q: pick) { Data d=data(G,fs[q]); const St s0{d.f,d.p}; const St e0=evolve(*g,P,s0,steps);
         if (!finite(e0.f)||!finite(e0.p)) { fail(d.id+": evolution not finite"); continue; }
         for (int sh=1;sh<c.nphi;sh++) { if (!thorough&&sh>2&&q!=pick[0]) continue; auto src=[&](int i,int t,int p){return G.ix(i,t,(p+sh)%c.nphi);}; cmp(evolve(*g,P,map(s0,src,1),steps),map(e0,src,1),S()<<d.id<<": rotation by "<<sh<<" of "<<c.nphi); }
         { auto src=[&](int i,int t,int p){return G.ix(i,c.nlat-1-t,p);}; cmp(evolve(*g,P,map(s0,src,1),steps),map(e0,src,1),d.id+": reflection in theta"); }
         { auto src=[&](int i,int t,int p){return G.ix(i,t,(c.nphi-p)%c.nphi);}; cmp(evolve(*g,Pm,map(s0,src,1),steps),map(e0,src,1),d.id+": spin reversal with phi to -phi"); }
         if (k.km1==0&&k.k1==0&&k.v3==0) { auto src=[&](int i,int t,int p){return G.ix(i,t,p);}; cmp(evolve(*g,P,map(s0,src,-1),steps),map(e0,src,-1),d.id+": overall sign"); }
      }
      const bool free=k.km1==0&&k.k1==0&&k.k2==0&&k.v3==0&&k.v4==0;
      if (free) for (size_t x: pick) for (size_t y: pick) if (x<y) { Data A=data(G,fs[x]),B=data(G,fs[y]); St sum; for (size_t i=0;i<N;i++) { sum.f.push_back(A.f[i]-2*B.f[i]); sum.p.push_back(A.p[i]-2*B.p[i]); } St ea=evolve(*g,P,{A.f,A.p},steps),eb=evolve(*g,P,{B.f,B.p},steps),w; for (size_t i=0;i<N;i++) { w.f.push_back(ea.f[i]-2*eb.f[i]); w.p.push_back(ea.p[i]-2*eb.p[i]); } cmp(evolve(*g,P,sum,steps),w,A.id+" and "+B.id+": superposition"); }
      /* axisymmetric stays axisymmetric; for a=0 spherical stays spherical and pure (l,m) of the free field stays pure */
      for (int l=0;l<=std::min(c.l,2);l++) for (int q=0;q<=2;q++) { NF n; n.id=S()<<"x^"<<q<<"Y"<<l<<"0"; n.F.f={{q,{l,0,0},0.3L}}; n.F.p={{2-q,{l,0,0},0.2L}}; Data d=data(G,n); St e=evolve(*g,P,{d.f,d.p},steps);
         St av=map(e,[&](int i,int t,int){return G.ix(i,t,0);},1); cmp(e,av,n.id+": axisymmetric data stay axisymmetric");
         if (l==0&&a==0) { St sp=map(e,[&](int i,int,int){return G.ix(i,0,0);},1); cmp(e,sp,n.id+": spherical data stay spherical for a=0"); } }
      if (free&&a==0) for (auto&b: O::basis(c.l,c.m)) { NF n; n.id=S()<<"Y"<<b.l<<b.m<<b.part; n.F.f={{1,b,0.3L}}; n.F.p={{2,b,0.2L}}; Data d=data(G,n); St e=evolve(*g,P,{d.f,d.p},steps); St w; w.f.assign(N,0); w.p.assign(N,0);
         /* projection on the mode by its largest grid point */
         int tb=0,pb=0; ld m=0; for (int t=0;t<c.nlat;t++) for (int p=0;p<c.nphi;p++) if (fabsl(O::val(b,G.th[t],G.ph[p]))>m) { m=fabsl(O::val(b,G.th[t],G.ph[p])); tb=t; pb=p; }
         if (m<0.05L) continue; /* the sine of a grid that samples only its zeros */
         for (int i=0;i<c.nx;i++) for (int t=0;t<c.nlat;t++) for (int p=0;p<c.nphi;p++) { const ld r=O::val(b,G.th[t],G.ph[p])/O::val(b,G.th[tb],G.ph[pb]); w.f[G.ix(i,t,p)]=double(r*e.f[G.ix(i,tb,pb)]); w.p[G.ix(i,t,p)]=double(r*e.p[G.ix(i,tb,pb)]); }
         cmp(e,w,n.id+": pure mode stays pure for a=0"); }
      if (k.v2==0&&k.v3==0&&k.v4==0) for (double f0: {0.3,-0.2,0.0}) { St s0{vec(N,f0),vec(N,0.0)}; cmp(evolve(*g,P,s0,steps),s0,S()<<"constant "<<f0<<" stays constant"); }
      sample(id+": rotations, reflections, sign, superposition, symmetry subspaces");
   }
}
/* ---------------------------------------------------------------- C20 */
static void c20()
{
   struct D { double rl,ru; }; std::vector<Sh> ss=shs(); ss.push_back({CHEB?3:8,1,1,2,3,20,1,1}); ss.push_back({CHEB?12:16,2,1,7,5,20,1,1}); ss.push_back({CHEB?9:12,3,2,4,9,10,1,0.8}); ss.push_back({CHEB?33:40,2,2,3,5,20,1,1}); if (large()) { ss.push_back(big_angular()); ss.push_back(long_radial()); }
   for (auto&s: ss) { const GC c=gc(s,1,0.3); const std::string gid="C20/"+c.id(); std::unique_ptr<Grid> g(c.make()); Geom G(c); const size_t N=c.N(); const double r0=double(G.r(CHEB?c.nx-1:0));
      std::vector<D> rs={{r0*1.1,r0*3},{2.5,6},{r0,r0*1.5},{1,100},{5,1e5},{3,1e12},{0.1,0.2},{r0*0.5,r0*1.01},{40,60},{-1,6},{-r0,3*r0},{0,3*r0},{-100,150},{-7,-2}};
      for (auto&r: rs) for (int l=0;l<=c.l;l++) for (int m=0;m<=std::min(l,c.m);m++) if (!heavy(s)||(l*7+m*3)%(thorough?3:17)==0) for (const char*dir: {"ingoing","outgoing","time_symmetric","sideways"}) for (double amp: {1.0,-0.7,1e-6,0.0,250.0,-1e-12,1e-40,1e9}) {
         if (!thorough && amp!=1.0 && (l+m)%2) continue;
         const bool rare=std::fabs(amp)>1e3||(amp!=0&&std::fabs(amp)<1e-10); if (rare && !thorough && l!=m) continue;
         const std::string id=S()<<gid<<"/r="<<r.rl<<".."<<r.ru<<",l="<<l<<",m="<<m<<","<<dir<<",amp="<<amp; if (!take(id)) continue;
         PV pv; pv.grid(c).set("rl",r.rl).set("ru",r.ru).set("l_ang",l).set("m_ang",m).set("amp",amp).set("initial_data_direction",dir);
         Quiet q; Params P=pv.make(); vec f(N,NANV),p(N,NANV),f2(N,1e99),p2(N,-3); ID::compact_pulse(P,*g,f,p); ID::compact_pulse(P,*g,f2,p2); same_bits(f2,f,"f differs when the array held something else (or on repetition)"); same_bits(p2,p,"p differs when the array held something else (or on repetition)");
         /* reference */
         const ld w=(ld)r.ru-r.rl; std::vector<ld> F(N),Q(N),tf(c.nx,0),tp(c.nx,0); ld mx=0,ym=0; RB b{l,m,0}; for (int t=0;t<c.nlat;t++) for (int ph=0;ph<c.nphi;ph++) ym=std::max(ym,fabsl(O::val(b,G.th[t],G.ph[ph])));
         ld gap=1; /* nearest relative distance of a grid radius to the ends of the support */
         for (int i=0;i<c.nx;i++) { ld u=0,d=0; if (!G.inf(i)) { const ld x=G.r(i); gap=std::min(gap,std::min(fabsl(x-r.rl),fabsl(x-r.ru))/w); if (x>r.rl&&x<r.ru) { const ld A=(x-r.rl)/w,B=(r.ru-x)/w,e=expl(-1/A-2/B); u=powl(A,4)*powl(B,4)*e; d=(4*powl(A,3)*powl(B,4)-4*powl(A,4)*powl(B,3)+powl(A,2)*powl(B,4)-2*powl(A,4)*powl(B,2))*e/w;
               /* the tails, however small: rounding of r moves the exponents, the rest is a relative error */
               const ld rel=1e-10L+1e-14L*x*(1+x/(ld)c.cl)/w*(4/A+4/B+1/(A*A)+2/(B*B)); tf[i]=rel*u; tp[i]=rel*(4*powl(A,3)*powl(B,4)+4*powl(A,4)*powl(B,3)+powl(A,2)*powl(B,4)+2*powl(A,4)*powl(B,2))*e/w; } }
            for (int t=0;t<c.nlat;t++) for (int ph=0;ph<c.nphi;ph++) { const ld y=O::val(b,G.th[t],G.ph[ph]); const size_t k=G.ix(i,t,ph); F[k]=u*y; Q[k]=d*y; mx=std::max(mx,fabsl(u*y)); } }
         const bool sg=std::string(dir)=="ingoing",so=std::string(dir)=="outgoing"; const ld am=amp;
         if (mx>1e-13L) { double got=0; for (double x: f) got=std::max(got,std::fabs(x)); if (!close(got,std::fabs(amp),1e-13*std::fabs(amp))) fail(S()<<"max|f| is "<<got<<", amp is "<<amp);
            ld mq=0; for (size_t i=0;i<N;i++) mq=std::max(mq,fabsl(Q[i])); 
            /* relative rounding of r enters through exp(-w/(r-rl)): 1e-9 of the maximum covers it */
            for (int i=0;i<c.nx;i++) { const bool outside=G.inf(i)||((G.r(i)<r.rl-1e-9L*(1+fabsl(r.rl)))||(G.r(i)>r.ru+1e-9L*(1+fabsl(r.ru))));
            for (int t=0;t<c.nlat;t++) for (int ph=0;ph<c.nphi;ph++) { const size_t k=G.ix(i,t,ph); const ld wf=am*F[k]/mx,wp=(sg?1:so?-1:0)*am*Q[k]/mx;
               if (outside&&(f[k]!=0||p[k]!=0)) { fail(S()<<"not zero outside the support at R index "<<i<<": f="<<f[k]<<" p="<<p[k]); goto next; }
               if (!(fabsl(f[k]-wf)<=1e-9L*fabsl(am))) { fail(S()<<"f at R index "<<i<<", theta "<<t<<", phi "<<ph<<" is "<<f[k]<<", expected "<<double(wf)); goto next; }
               if (!(fabsl(p[k]-wp)<=1e-9L*fabsl(am)*mq/mx+1e-300L)) { fail(S()<<"p at R index "<<i<<", theta "<<t<<", phi "<<ph<<" is "<<p[k]<<", expected "<<double(wp)); goto next; }
               if (!outside&&(tf[i]>0||tp[i]>0)) { const ld q=fabsl(am)/mx,tiny=1e-295L*(1+q);
                  if (!(fabsl(f[k]-wf)<=q*tf[i]*ym+tiny)) { fail(S()<<"f in the tail, R index "<<i<<", theta "<<t<<", phi "<<ph<<", is "<<f[k]<<", expected "<<double(wf)); goto next; }
                  if (!(fabsl(p[k]-wp)<=q*tp[i]*ym+tiny)) { fail(S()<<"p in the tail, R index "<<i<<", theta "<<t<<", phi "<<ph<<", is "<<p[k]<<", expected "<<double(wp)); goto next; } } } } }
         else { /* no grid point inside the support (or all of it below rounding): unscaled, hence tiny */ for (size_t i=0;i<N;i++) if (!std::isfinite(f[i])||!std::isfinite(p[i])||std::fabs(f[i])>std::max(1e-12,1.000000001*std::fabs(amp))) { fail("pulse without a point inside its support is not negligible"); break; } if (mx==0) for (size_t i=0;i<N;i++) if (f[i]!=0||p[i]!=0) { if (gap>1e-9L) fail("pulse without a point inside its support is not zero"); break; } }
         next: count(hash_vec(p,hash_vec(f)),mx>0);
      }
      sample(gid+": supports x harmonics x directions x amplitudes");
   }
}
int main(int argc,char**argv)
{
   init(argc,argv);
   if (prop=="C15") c15_17(false); else if (prop=="C17") c15_17(true); else if (prop=="C16") c16(); else if (prop=="C18") c18(); else if (prop=="C19") c19(); else if (prop=="C20") c20();
   else if (prop=="C34") { c18(); c20(); }
   return finish();
}
