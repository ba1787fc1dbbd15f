/* Parameter files, and the Kerr metric in ingoing coordinates in long double, written from the
 * line element in Documentation/main.tex and nothing else. */
#ifndef VERIF_EOMUTIL_HPP
#define VERIF_EOMUTIL_HPP
#include "gridutil.hpp"
#include "params.hpp"
#include "field.hpp"
#include "scalar_eom.hpp"
#include "initial_data.hpp"
#include <fstream>
#include <iomanip>
#include <map>
namespace V {
struct Cpl { double km1,k0,k1,k2,v2,v3,v4; std::string id() const { return S()<<"km1="<<km1<<",k0="<<k0<<",k1="<<k1<<",k2="<<k2<<",V2="<<v2<<",V3="<<v3<<",V4="<<v4; }
   ld k(ld f) const { return k0+(km1==0?0:km1/(1+f))+k1*f+0.5L*k2*f*f; } ld kp(ld f) const { return -(km1==0?0:km1/((1+f)*(1+f)))+k1+k2*f; }
   ld v(ld f) const { return 0.5L*v2*f*f+v3*f*f*f/6+v4*f*f*f*f/24; } ld vp(ld f) const { return v2*f+0.5L*v3*f*f+v4*f*f*f/6; } };
struct PV { std::map<std::string,std::string> m;
   template<class T> PV &set(const std::string&k,const T&v) { S s; s<<v; m[k]=s.str(); return *this; }
   PV() { for (auto k: {"nt","nx","nl","nm","nlat","nphi","t_step_save"}) set(k,1); for (auto k: {"dt","compactification_length","Rmax","Rmin","black_hole_mass","black_hole_spin","km1","k0","k1","k2","V2","V3","V4","amp","rl","ru"}) set(k,0.5); set("initial_data_type","compact_pulse"); set("initial_data_direction","ingoing"); set("l_ang",0); set("m_ang",0); }
   PV &grid(const GC&c) { return set("nx",c.nx).set("nl",c.l).set("nm",c.m).set("nlat",c.nlat).set("nphi",c.nphi).set("compactification_length",c.cl).set("Rmin",c.a).set("Rmax",c.b); }
   PV &cpl(const Cpl&c) { return set("km1",c.km1).set("k0",c.k0).set("k1",c.k1).set("k2",c.k2).set("V2",c.v2).set("V3",c.v3).set("V4",c.v4); }
   std::string write() const { static int n=0; const char*d=getenv("V_SCRATCH"); std::string f=S()<<(d?d:"/tmp")<<"/p"<<getpid()<<"_"<<(n++%8)<<".txt"; std::ofstream o(f); for (auto&x: m) o<<x.first<<" "<<x.second<<"\n"; return f; }
   Params make() const { std::string f=write(); Params p(f); unlink(f.c_str()); return p; } };
struct Metric { ld g[4][4]; };
inline Metric metric(ld M,ld a,ld r,ld th)
{
   Metric q{}; const ld s=sinl(th),s2=s*s,Sg=r*r+a*a*cosl(th)*cosl(th),H=2*M*r/Sg;
   auto set=[&](int i,int j,ld v){ q.g[i][j]+=v; if (i!=j) q.g[j][i]+=v; };
   set(0,0,-(1-H)); set(0,1,H);            /* (4Mr/Sigma) dr dv, halved off the diagonal */
   set(0,3,-H*a*s2); set(1,1,1+H); set(1,3,-(1+H)*a*s2); set(2,2,Sg); set(3,3,(a*a+r*r+H*a*a*s2)*s2);
   return q;
}
inline Metric inverse(const Metric&m)
{
   ld A[4][8]; for (int i=0;i<4;i++) for (int j=0;j<4;j++) { A[i][j]=m.g[i][j]; A[i][4+j]=(i==j); }
   for (int c=0;c<4;c++) { int p=c; for (int r=c+1;r<4;r++) if (fabsl(A[r][c])>fabsl(A[p][c])) p=r; for (int k=0;k<8;k++) std::swap(A[c][k],A[p][k]);
      const ld d=A[c][c]; for (int k=0;k<8;k++) A[c][k]/=d; for (int r=0;r<4;r++) if (r!=c) { const ld f=A[r][c]; for (int k=0;k<8;k++) A[r][k]-=f*A[c][k]; } }
   Metric o; for (int i=0;i<4;i++) for (int j=0;j<4;j++) o.g[i][j]=A[i][4+j]; return o;
}
inline ld det(const Metric&m)
{
   ld A[4][4]; for (int i=0;i<4;i++) for (int j=0;j<4;j++) A[i][j]=m.g[i][j]; ld d=1;
   for (int c=0;c<4;c++) { int p=c; for (int r=c+1;r<4;r++) if (fabsl(A[r][c])>fabsl(A[p][c])) p=r; if (p!=c) { for (int k=0;k<4;k++) std::swap(A[c][k],A[p][k]); d=-d; } d*=A[c][c]; for (int r=c+1;r<4;r++) { const ld f=A[r][c]/A[c][c]; for (int k=c;k<4;k++) A[r][k]-=f*A[c][k]; } }
   return d;
}
/* g^{mu nu} and the vector W^nu = (1/sqrt g) d_mu (sqrt g g^{mu nu}) at (r,theta): box f = g^{mn} d_m d_n f + W^n d_n f */
struct Geo4 { Metric dn,up; ld W[4]; bool inf; };
inline Geo4 geo4(ld M,ld a,ld r,ld th,bool inf)
{
   Geo4 q; q.inf=inf; if (inf) return q;
   q.dn=metric(M,a,r,th); q.up=inverse(q.dn);
   auto dens=[&](ld r_,ld t_,int mu,int nu){ Metric d=metric(M,a,r_,t_); return sqrtl(-det(d))*inverse(d).g[mu][nu]; };
   const ld sg=sqrtl(-det(q.dn));
   /* sixth-order central differences; only r and theta derivatives are nonzero */
   auto diff=[&](std::function<ld(ld)> f,ld h){ return (45*(f(h)-f(-h))-9*(f(2*h)-f(-2*h))+(f(3*h)-f(-3*h)))/(60*h); };
   for (int nu=0;nu<4;nu++) {
      const ld hr=2e-3L*r*std::min<ld>(1,1), ht=std::min<ld>(2e-3L,std::min(th,M_PIl-th)/8);
      q.W[nu]=diff([&](ld h){return dens(r+h,th,1,nu);},hr)/sg+diff([&](ld h){return dens(r,th+h,2,nu);},ht)/sg;
   }
   return q;
}
/* the field and its derivatives at a point */
struct J { ld f,p,fr,fth,fph,frr,frp,lap,pr; };   /* lap: unit-sphere Laplacian; pr: d_r p */
inline ld rhs_oracle(const Geo4&g,const Cpl&c,const J&j,ld th,ld &scale)
{
   const ld K=c.k(j.f),kp=c.kp(j.f),vp=c.vp(j.f);
   if (g.inf) { const ld t1=-0.5L*kp/K*j.p*j.p,t2=-vp/K; scale=fabsl(t1)+fabsl(t2); return t1+t2; }
   /* box = g^vv p_v + 2 g^vr p_r + g^rr f_rr + 2 g^{r phi} f_rp + [angular] + W.d f ; the theta-theta, phi-phi and W^theta parts are the
    * unit-sphere Laplacian divided by Sigma: checked here rather than assumed */
   const ld s=sinl(th), Sg=1/g.up.g[2][2];
   ld box=0; scale=0; auto add=[&](ld t){ box+=t; scale+=fabsl(t); };
   add(2*g.up.g[0][1]*j.pr); add(g.up.g[1][1]*j.frr); add(2*g.up.g[1][3]*j.frp); add(j.lap/Sg);
   /* g^{phi phi} = 1/(Sigma sin^2) and g^{v phi} = 0, W^theta = cot/Sigma in these coordinates */
   add(g.W[0]*j.p); add(g.W[1]*j.fr); add(g.W[3]*j.fph);
   if (fabsl(g.up.g[3][3]*Sg*s*s-1)>1e-9L||fabsl(g.up.g[0][3]*Sg)>1e-9L||fabsl(g.W[2]*Sg-cosl(th)/s)>1e-5L*(1+fabsl(cosl(th)/s))) { fail("oracle self check"); }
   const ld d[4]={j.p,j.fr,j.fth,j.fph}; ld q=0; for (int a=0;a<4;a++) for (int b=0;b<4;b++) { const ld t=g.up.g[a][b]*d[a]*d[b]; q+=t; scale+=fabsl(0.5L*kp/K*t); }
   add(0.5L*kp/K*q); add(-vp/K);
   const ld gvv=g.up.g[0][0]; scale/=fabsl(gvv); return -box/gvv;
}
inline ld rho_oracle(const Geo4&g,const Cpl&c,const J&j,ld &scale)
{
   const ld K=c.k(j.f),Vv=c.v(j.f);
   if (g.inf) { scale=fabsl(K*j.p*j.p)+fabsl(Vv); return 0.5L*K*j.p*j.p+Vv; }
   const ld d[4]={j.p,j.fr,j.fth,j.fph}; ld q=0,sq=0; for (int a=0;a<4;a++) for (int b=0;b<4;b++) { q+=g.up.g[a][b]*d[a]*d[b]; sq+=fabsl(g.up.g[a][b]*d[a]*d[b]); }
   const ld al=1/sqrtl(-g.up.g[0][0]); ld n[4]; for (int a=0;a<4;a++) n[a]=-al*g.up.g[a][0];
   ld nd=0; for (int a=0;a<4;a++) nd+=n[a]*d[a];
   ld nn=0; for (int a=0;a<4;a++) for (int b=0;b<4;b++) nn+=g.dn.g[a][b]*n[a]*n[b];   /* -1 */
   scale=fabsl(K)*(nd*nd+sq)+fabsl(Vv); return K*nd*nd-nn*(0.5L*K*q+Vv);
}
/* field built from radial monomials of the reference coordinate times real harmonics */
struct Term { int q; O::RB b; ld amp; };
struct Fld { std::vector<Term> f,p; };
inline J jet(const Geom&G,const Fld&F,int i,int t,int ph)
{
   J o{}; const GC&c=G.c; const ld mid=((ld)c.a+c.b)/2,h=((ld)c.b-c.a)/2,x=(G.R[i]-mid)/h,z=G.inf(i)?0:1-G.R[i]/(ld)c.cl,T=G.th[t],P=G.ph[ph];
   auto mono=[](ld x,int q,int d){ if (q<d) return 0.0L; ld f=1; for (int k=0;k<d;k++) f*=(q-k); return f*powl(x,q-d); };
   for (auto&e: F.f) { const ld R0=mono(x,e.q,0),R1=mono(x,e.q,1)/h,R2=mono(x,e.q,2)/(h*h); const ld r1=R1*z*z,r2=R2*z*z*z*z-2/(ld)c.cl*z*z*z*R1; const ld y=O::val(e.b,T,P),yp=O::val(e.b,T,P,1);
      o.f+=e.amp*R0*y; o.fr+=e.amp*r1*y; o.frr+=e.amp*r2*y; o.frp+=e.amp*r1*yp; o.fph+=e.amp*R0*yp; o.fth+=e.amp*R0*O::val_th(e.b,T,P); o.lap-=e.amp*R0*y*e.b.l*(e.b.l+1); }
   for (auto&e: F.p) { const ld y=O::val(e.b,T,P); o.p+=e.amp*mono(x,e.q,0)*y; o.pr+=e.amp*mono(x,e.q,1)/h*z*z*y; }
   return o;
}
inline std::vector<J> jets(const Geom&G,const Fld&F) { std::vector<J> v(G.c.N()); for (int i=0;i<G.c.nx;i++) for (int t=0;t<G.c.nlat;t++) for (int p=0;p<G.c.nphi;p++) v[G.ix(i,t,p)]=jet(G,F,i,t,p); return v; }
inline std::vector<Geo4> geos(const Geom&G,ld M,ld a) { std::vector<Geo4> v(size_t(G.c.nx)*G.c.nlat); for (int i=0;i<G.c.nx;i++) for (int t=0;t<G.c.nlat;t++) v[size_t(i)*G.c.nlat+t]=geo4(M,a,G.inf(i)?1:G.r(i),G.th[t],G.inf(i)); return v; }
inline double horizon(double M,double a) { return M+std::sqrt((M-a)*(M+a)); }
inline double compactify(double r,double cl) { return r/(1+r/cl); }
}
#endif
