/* C07-C10: the sphere. Every mode (and pair of modes) of every small configuration. */
#include "common.hpp"
#include "sph.hpp"
#include "sphere.hpp"
#include <functional>
#include <memory>
using namespace V; using O::RB; using O::lc;
static bool nolarge() { static const bool b=getenv("V_NOLARGE")!=nullptr; return b; }   /* the sanitized jobs of C34 */
typedef std::vector<double> vec; typedef std::vector<cplx> cvec;
static const double NANV=std::numeric_limits<double>::quiet_NaN();
struct Cfg { int l,m,nlat,nphi; std::string id() const { return S()<<"l="<<l<<",m="<<m<<",nlat="<<nlat<<",nphi="<<nphi; } };
static std::vector<Cfg> configs()
{
   std::vector<Cfg> r; const int L=thorough?8:5;
   for (int l=1;l<=L;l++) for (int m=0;m<=l;m++) for (int a=1;a<=(thorough?4:3);a++) for (int b=1;b<=4;b++) r.push_back({l,m,l+a,2*m+b});
   for (Cfg c: {Cfg{12,12,16,32},Cfg{16,16,32,36},Cfg{12,7,20,24},Cfg{20,18,24,40},Cfg{9,9,10,19}}) r.push_back(c);
   if (thorough) for (Cfg c: {Cfg{31,31,32,64},Cfg{32,32,40,72},Cfg{40,10,64,24}}) r.push_back(c);
   return r;
}
#ifdef SHTNS_CONTIGUOUS_LONGITUDES
static size_t IX(const Cfg&c,int it,int ip) { return size_t(c.nlat)*ip+it; }
#else
static size_t IX(const Cfg&c,int it,int ip) { return size_t(c.nphi)*it+ip; }
#endif
struct Geo { std::vector<long double> th,ph,w; };
static Geo geo(const Cfg&c) { Geo g; std::vector<ld> x; O::gauss(c.nlat,x,g.w); for (ld z: x) g.th.push_back(acosl(z)); for (int j=0;j<c.nphi;j++) g.ph.push_back(2*M_PIl*j/c.nphi); return g; }
typedef std::function<ld(ld,ld)> Fn;
static vec field(const Cfg&c,const Geo&g,const Fn&f) { vec v(size_t(c.nlat)*c.nphi); for (int i=0;i<c.nlat;i++) for (int j=0;j<c.nphi;j++) v[IX(c,i,j)]=double(f(g.th[i],g.ph[j])); return v; }
static cvec cfield(const Cfg&c,const Geo&g,const std::function<lc(ld,ld)>&f) { cvec v(size_t(c.nlat)*c.nphi); for (int i=0;i<c.nlat;i++) for (int j=0;j<c.nphi;j++) { lc q=f(g.th[i],g.ph[j]); v[IX(c,i,j)]=cplx(double(q.real()),double(q.imag())); } return v; }
static vec tov(const cvec&c) { vec r; for (auto&z: c) { r.push_back(z.real()); r.push_back(z.imag()); } return r; }
static std::string bn(const RB&b) { return S()<<"("<<b.l<<","<<b.m<<(b.part?",im)":")"); }

/* real operator applied with input-intact and dirty-output checks */
static vec ap(const std::function<void(const vec&,vec&)>&op,const vec&v,const char*w,size_t nout)
{
   vec in=v,o1(nout,NANV),o2(nout,1e10); op(in,o1); same_bits(in,v,std::string(w)+": input modified"); op(in,o2); same_bits(o2,o1,std::string(w)+": depends on previous output contents"); return o1;
}
/* the alphabet of inputs for a linear operator: modes, pairs of modes, scaled modes; expectation given on the basis */
static void linear_modes(const Cfg&c,const Geo&g,const std::function<void(const vec&,vec&)>&op,const std::function<ld(const RB&,ld,ld)>&want,double tol,const char*what,const std::vector<RB>&B)
{
   const size_t N=size_t(c.nlat)*c.nphi;
   std::vector<vec> in,out; std::vector<vec> ex;
   for (auto&b: B) {
      vec v=field(c,g,[&](ld t,ld p){return O::val(b,t,p);}), w=field(c,g,[&](ld t,ld p){return want(b,t,p);});
      vec r=ap(op,v,what,N); same(r,w,tol,S()<<what<<" of mode "<<bn(b)); count(hash_vec(r,hash_str(c.id()+what)),true);
      for (int k: {-200,-40,40,200}) { vec s=v; for (double&x: s) x=std::ldexp(x,k); vec rs=ap(op,s,what,N); for (double&x: rs) x=std::ldexp(x,-k); same(rs,w,tol,S()<<what<<" of mode "<<bn(b)<<" scaled by 2^"<<k); }
      in.push_back(v); out.push_back(r); ex.push_back(w);
   }
   vec z(N,0.0); vec rz=ap(op,z,what,N); if (nonzero(rz)) fail(S()<<what<<" of zero is not zero");
   const bool all=B.size()<=49;
   for (size_t a=0;a<B.size();a++) for (size_t b=a+1;b<B.size();b++) {
      if (!all && (b-a)!=1 && b!=B.size()-1-a) continue;
      vec v(N),w(N); for (size_t i=0;i<N;i++) { v[i]=in[a][i]-2.5*in[b][i]; w[i]=ex[a][i]-2.5*ex[b][i]; }
      vec r=ap(op,v,what,N); same(r,w,4*tol,S()<<what<<" of modes "<<bn(B[a])<<"-2.5*"<<bn(B[b])); count(hash_vec(r,hash_str(c.id()+what)),true);
   }
}
static void c07()
{
   for (auto&c: configs()) {
      if (!take("C07/"+c.id())) continue;
      Sphere s(c.l,c.m,c.nlat,c.nphi); Geo g=geo(c); const size_t N=size_t(c.nlat)*c.nphi;
      const size_t nY=size_t((c.m+1)*(2*c.l+2-c.m))/2;
      if (s.nlat()!=size_t(c.nlat)||s.nphi()!=size_t(c.nphi)||s.nSph()!=N||s.nYlm()!=nY) { fail("nlat, nphi, nSph or nYlm"); continue; }
      for (int i=0;i<c.nlat;i++) if (!close(s.theta(i),double(g.th[i]),1e-13)) fail(S()<<"theta("<<i<<") is "<<s.theta(i)<<", expected "<<double(g.th[i]));
      for (int j=0;j<c.nphi;j++) if (!close(s.phi(j),double(g.ph[j]),1e-13)) fail(S()<<"phi("<<j<<") is "<<s.phi(j)<<", expected "<<double(g.ph[j]));
      for (int i=0;i<c.nlat;i++) for (int j=0;j<c.nphi;j++) if (s.indx(i,j)!=IX(c,i,j)) fail(S()<<"indx("<<i<<","<<j<<") is "<<s.indx(i,j));
      auto B=O::basis(c.l,c.m); const double tol=2e-13*(c.l+2);
      for (size_t a=0;a<B.size();a++) for (size_t b=a;b<B.size();b++) {
         if (B.size()>49 && b!=a && b!=a+1) continue;
         cvec co(nY,0.0); co[O::lm_index(c.l,B[a].l,B[a].m)]+=B[a].part?cplx(0,1):cplx(1,0); if (b!=a) co[O::lm_index(c.l,B[b].l,B[b].m)]+=B[b].part?cplx(0,-3):cplx(-3,0);
         vec w=field(c,g,[&](ld t,ld p){return O::val(B[a],t,p)-(b!=a?3*O::val(B[b],t,p):0);});
         cvec cin=co; vec f(N,NANV); s.to_Sph(cin,f); same_bits(tov(cin),tov(co),"to_Sph: input modified"); same(f,w,tol,S()<<"to_Sph of "<<bn(B[a])<<" and "<<bn(B[b]));
         cvec back(nY,cplx(NANV,NANV)); vec win=w; s.to_Ylm(win,back); same_bits(win,w,"to_Ylm: input modified"); same(tov(back),tov(co),tol,S()<<"to_Ylm of "<<bn(B[a])<<" and "<<bn(B[b]));
         cvec b2(nY); s.to_Ylm(f,b2); same(tov(b2),tov(co),tol,"to_Ylm(to_Sph())"); count(hash_vec(f,hash_str(c.id())),true);
         if ((a==b||b==a+1) && !nolarge()) for (int k: {-200,-50,-20,40,200}) { cvec q=co; for (auto&x: q) x=cplx(std::ldexp(x.real(),k),std::ldexp(x.imag(),k)); vec fq(N); s.to_Sph(q,fq); for (double&x: fq) x=std::ldexp(x,-k); same(fq,w,tol,S()<<"to_Sph of "<<bn(B[a])<<" scaled by 2^"<<k); vec wq=w; for (double&x: wq) x=std::ldexp(x,k); cvec bq(nY); s.to_Ylm(wq,bq); for (auto&x: bq) x=cplx(std::ldexp(x.real(),-k),std::ldexp(x.imag(),-k)); same(tov(bq),tov(co),tol,S()<<"to_Ylm of "<<bn(B[a])<<" scaled by 2^"<<k); }
         if (a==b && B[a].part==0) same(s.compute_ylm(B[a].l,B[a].m),w,tol,S()<<"compute_ylm"<<bn(B[a]));
      }
      { /* the complex transforms; degrees above mmax, where SHTns packs the coefficients differently, are left out */
         const size_t nc=size_t(c.l+1)*(c.l+1),part=size_t(c.m+1)*(c.m+1);
         for (int l=0;l<=c.m;l++) for (int m=-l;m<=l;m++) for (int k=0;k<2;k++) {
            const cplx u=k?cplx(0,1):cplx(1,0); cvec co(nc,0.0); co[l*(l+1)+m]=u;
            cvec w=cfield(c,g,[&](ld t,ld p){return O::Y(l,m,t,p)*lc(u.real(),u.imag());});
            cvec cin=co,f(N,cplx(NANV,NANV)); s.to_Sph(cin,f); same_bits(tov(cin),tov(co),"complex to_Sph: input modified"); same(tov(f),tov(w),tol,S()<<"complex to_Sph of ("<<l<<","<<m<<")");
            if (!nolarge()) for (int e: {-200,-50,40,200}) { cvec q=co,fq(N); q[l*(l+1)+m]=u*std::ldexp(1.0,e); s.to_Sph(q,fq); for (auto&x: fq) x*=std::ldexp(1.0,-e); same(tov(fq),tov(w),tol,S()<<"complex to_Sph of ("<<l<<","<<m<<") scaled by 2^"<<e); cvec wq=w,bq(nc); for (auto&x: wq) x*=std::ldexp(1.0,e); s.to_Ylm(wq,bq); for (auto&x: bq) x*=std::ldexp(1.0,-e); cvec cq=co; bq.resize(part); cq.resize(part); same(tov(bq),tov(cq),tol,S()<<"complex to_Ylm of ("<<l<<","<<m<<") scaled by 2^"<<e); }
            cvec win=w,b(nc,cplx(NANV,NANV)); s.to_Ylm(win,b); same_bits(tov(win),tov(w),"complex to_Ylm: input modified"); b.resize(part); co.resize(part); same(tov(b),tov(co),tol,S()<<"complex to_Ylm of ("<<l<<","<<m<<")");
            count(hash_vec(tov(f),hash_str(c.id())+1),true);
         }
      }
      sample(c.id()+": all modes, pairs, real and complex transforms");
   }
}
static void c08()
{
   for (auto&c: configs()) {
      if (!take("C08/"+c.id())) continue;
      Sphere s(c.l,c.m,c.nlat,c.nphi); Geo g=geo(c); const size_t N=size_t(c.nlat)*c.nphi; auto B=O::basis(c.l,c.m);
      const double t0=1e-13*(c.l+2)*(c.l+1);
      linear_modes(c,g,[&](const vec&a,vec&b){s.laplace_beltrami(a,b);},[&](const RB&b,ld t,ld p){return -(ld)b.l*(b.l+1)*O::val(b,t,p);},t0*(c.l+1)*2,"laplace_beltrami",B);
      linear_modes(c,g,[&](const vec&a,vec&b){s.partial_phi(a,b);},[&](const RB&b,ld t,ld p){return O::val(b,t,p,1);},t0*2,"partial_phi",B);
      std::vector<RB> Q; for (auto&b: B) if (c.m==c.l||b.l<=c.m) Q.push_back(b);
      auto ladder=[&](const RB&b,int d){ return cfield(c,g,[&,d](ld t,ld p)->lc{
         auto one=[&](int m)->lc{ const int l=b.l; const ld q=d>0?sqrtl((ld)(l-m)*(l+m+1)):sqrtl((ld)(l+m)*(l-m+1)); return (std::abs(m+d)>l)?lc(0):q*O::Y(l,m+d,t,p); };
         if (b.m==0) return one(0);
         const lc u=b.part?lc(0,1):lc(1,0); const ld par=(b.m%2)?-1:1;   /* conj(u Y_lm) = conj(u) (-1)^m Y_l,-m */
         return u*one(b.m)+std::conj(u)*par*one(-b.m); }); };
      for (size_t a=0;a<Q.size();a++) {
         vec v=field(c,g,[&](ld t,ld p){return O::val(Q[a],t,p);});
         for (int d: {1,-1}) {
            vec in=v; cvec r(N,cplx(NANV,NANV)),r2(N,cplx(5,5)); if (d>0) { s.raise(in,r); s.raise(in,r2); } else { s.lower(in,r); s.lower(in,r2); }
            same_bits(in,v,"ladder: input modified"); same_bits(tov(r2),tov(r),"ladder: depends on previous output contents");
            const vec wl=tov(ladder(Q[a],d));
            same(tov(r),wl,t0*4,S()<<(d>0?"raise":"lower")<<" of mode "<<bn(Q[a])); if (!nolarge()) for (int k: {-200,-40,40,200}) { vec q=v; for (double&x: q) x=std::ldexp(x,k); cvec rs(N); if (d>0) s.raise(q,rs); else s.lower(q,rs); vec rv=tov(rs); for (double&x: rv) x=std::ldexp(x,-k); same(rv,wl,t0*4,S()<<(d>0?"raise":"lower")<<" of mode "<<bn(Q[a])<<" scaled by 2^"<<k); } count(hash_vec(tov(r),hash_str(c.id())+d),true);
         }
         for (size_t b=a;b<Q.size();b++) {
            if (Q.size()>49 && b!=a && b!=a+1 && b!=Q.size()-1-a) continue;
            const double k=(a==b)?0:-1.5;
            vec u=field(c,g,[&](ld t,ld p){return O::val(Q[a],t,p)+k*O::val(Q[b],t,p);});
            vec w=field(c,g,[&](ld t,ld p){const ld q=O::val_th(Q[a],t,p)+k*O::val_th(Q[b],t,p), f=(O::val(Q[a],t,p,1)+k*O::val(Q[b],t,p,1))/sinl(t); return q*q+f*f;});
            vec r=ap([&](const vec&x,vec&y){s.sphereX(x,y);},u,"sphereX",N); same(r,w,t0*40*(c.l+1)*(c.l+1),S()<<"sphereX of "<<bn(Q[a])<<(b!=a?"-1.5*"+bn(Q[b]):"")); if (b<=a+1 && !nolarge()) for (int k: {-200,-40,-20,40,200}) { vec q=u; for (double&x: q) x=std::ldexp(x,k); vec rs=ap([&](const vec&x,vec&y){s.sphereX(x,y);},q,"sphereX",N); for (double&x: rs) x=std::ldexp(x,-2*k); same(rs,w,t0*40*(c.l+1)*(c.l+1),S()<<"sphereX of "<<bn(Q[a])<<" scaled by 2^"<<k); } count(hash_vec(r,hash_str(c.id())+5),Q[a].l>0||Q[b].l>0);
         }
      }
      sample(c.id()+": all modes of 4 linear operators, all pairs for sphereX");
   }
}
static void c09()
{
   for (auto&c: configs()) {
      if (!take("C09/"+c.id())) continue;
      Sphere s(c.l,c.m,c.nlat,c.nphi); Geo g=geo(c); auto B=O::basis(c.l,c.m);
      auto sg=[&](const RB&b)->ld{ return expl(-40*powl((ld)b.l/c.l,16))*expl(-40*powl((ld)b.m/c.l,16)); };
      linear_modes(c,g,[&](const vec&a,vec&b){b=a;s.filter(b);},[&](const RB&b,ld t,ld p){return sg(b)*O::val(b,t,p);},2e-13*(c.l+2),"filter",B);
      sample(c.id()+": all modes and pairs");
   }
}
static void c10()
{
   for (auto&c: configs()) {
      if (!take("C10/"+c.id())) continue;
      Sphere s(c.l,c.m,c.nlat,c.nphi); Geo g=geo(c); auto B=O::basis(c.l,c.m); const size_t N=size_t(c.nlat)*c.nphi;
      auto pw=[&](const vec&v){ return ap([&](const vec&x,vec&y){s.power_spectrum(x,y);},v,"power_spectrum",c.l); };
      for (size_t a=0;a<B.size();a++) for (size_t b=a;b<B.size();b++) {
         if (B.size()>49 && b!=a && b!=a+1 && b!=B.size()-1-a) continue;
         const double k=(a==b)?0:-1.5;
         vec v=field(c,g,[&](ld t,ld p){return O::val(B[a],t,p)+k*O::val(B[b],t,p);}), w(c.l,0.0);
         auto put=[&](const RB&q,double amp){ if (q.l<c.l) w[q.l]+=amp*amp*(q.m?2:1); };
         put(B[a],1); if (k!=0) put(B[b],k);
         vec r=pw(v); same(r,w,1e-12*(c.l+2),S()<<"power of "<<bn(B[a])<<(k!=0?"-1.5*"+bn(B[b]):"")); count(hash_vec(r,hash_str(c.id())+a*100+b),true);
         if (B[a].l<c.l && (k==0||B[b].l<c.l)) {
            ld integral=0,sum=0; for (int i=0;i<c.nlat;i++) for (int j=0;j<c.nphi;j++) integral+=(ld)v[IX(c,i,j)]*v[IX(c,i,j)]*g.w[i]*2*M_PIl/c.nphi;
            for (double x: r) sum+=x;
            if (!close(double(sum),double(integral),1e-12*(c.l+4))) fail(S()<<"spectrum of "<<bn(B[a])<<","<<bn(B[b])<<" sums to "<<double(sum)<<", the integral is "<<double(integral));
         }
         if (a==b) for (int e: {-100,-20,20,100}) { vec q=v; for (double&x: q) x=std::ldexp(x,e); vec rq=pw(q); for (double&x: rq) x=std::ldexp(x,-2*e); same(rq,w,1e-12*(c.l+2),S()<<"power of "<<bn(B[a])<<" scaled by 2^"<<e); }
      }
      (void)N; sample(c.id()+": all modes and pairs");
   }
}
/* Large spheres, up to grids of more than 2^16 points and 2^15 coefficients: dense data (every mode present, each with its
   own amplitude) in several patterns, and single modes at the corners of the triangle and on a stride through it.
   Synthesised from tables, separately in theta and phi. */
struct Big {
   Cfg c; Geo g; size_t N; std::vector<ld> p,d; std::vector<ld> cs,sn;
   size_t at(int l,int m,int t) const { return O::lm_index(c.l,l,m)*size_t(c.nlat)+t; }
   Big(const Cfg&c,bool derivative):c(c),g(geo(c)),N(size_t(c.nlat)*c.nphi)
   {
      const size_t nY=size_t((c.m+1)*(2*c.l+2-c.m))/2; p.assign(nY*c.nlat,0); if (derivative) d.assign(nY*c.nlat,0);
      /* normalised recurrence in l from P_mm, checked below against std::sph_legendre */
      for (int t=0;t<c.nlat;t++) { const ld x=cosl(g.th[t]),s=sinl(g.th[t]); ld mm=sqrtl(1/(4*M_PIl));
         for (int m=0;m<=c.m;m++) { if (m) mm*=-sqrtl((2*m+1)/(2.0L*m))*s; ld a=0,b=mm; p[at(m,m,t)]=mm;
            for (int l=m+1;l<=c.l;l++) { const ld A=sqrtl((4.0L*l*l-1)/((ld)l*l-(ld)m*m)),B=sqrtl(((ld)(l-1)*(l-1)-(ld)m*m)/(4.0L*(l-1)*(l-1)-1)); const ld q=A*(x*b-(l-1>m?B*a:0)); a=b; b=q; p[at(l,m,t)]=q; }
            if (derivative) for (int l=m;l<=c.l;l++) d[at(l,m,t)]=(l*x*p[at(l,m,t)]-(l>m?sqrtl((2*l+1)*((ld)l*l-(ld)m*m)/(2*l-1))*p[at(l-1,m,t)]:0))/s; } }
      for (int l=0;l<=c.l;l+=std::max(1,c.l/5)) for (int m=0;m<=std::min(l,c.m);m+=std::max(1,c.m/4)) for (int t: {0,c.nlat/3,c.nlat-1}) {
         if (fabsl(p[at(l,m,t)]-O::P(l,m,g.th[t]))>1e-14L*(1+fabsl(p[at(l,m,t)]))) fail(S()<<"harness: table of harmonics at "<<l<<","<<m);
         if (derivative && fabsl(d[at(l,m,t)]-O::dP(l,m,g.th[t]))>1e-11L*(l+1)*(l+1)) fail(S()<<"harness: table of derivatives at "<<l<<","<<m); }
      cs.resize(c.nphi); sn.resize(c.nphi); for (int j=0;j<c.nphi;j++) { cs[j]=cosl(g.ph[j]); sn[j]=sinl(g.ph[j]); }
   }
   typedef std::vector<lc> Co;   /* coefficients (l,m), l<=lmax, -l<=m<=l, at l*(l+1)+m, of a complex function */
   size_t nc() const { return size_t(c.l+1)*(c.l+1); }
   /* sum of b_lm Y_lm or of its theta derivative */
   std::vector<lc> synth(const Co&b,bool der=false) const
   {
      std::vector<lc> v(N,0); const std::vector<ld>&q=der?d:p;
      for (int t=0;t<c.nlat;t++) for (int m=-c.m;m<=c.m;m++) { const int a=std::abs(m); lc G=0; for (int l=a;l<=c.l;l++) { const lc&z=b[size_t(l)*(l+1)+m]; if (z!=lc(0)) G+=z*q[at(l,a,t)]; } if (G==lc(0)) continue; if (m<0&&a%2) G=-G;
         for (int j=0;j<c.nphi;j++) { const int k=int((size_t(a)*j)%c.nphi); v[IX(c,t,j)]+=G*lc(cs[k],m<0?-sn[k]:sn[k]); } }
      return v;
   }
   static vec re(const std::vector<lc>&z) { vec v; for (auto&x: z) v.push_back(double(x.real())); return v; }
   static cvec cx(const std::vector<lc>&z) { cvec v; for (auto&x: z) v.push_back(cplx(double(x.real()),double(x.imag()))); return v; }
   /* a real function: b_l,-m=(-1)^m conj(b_lm) */
   void real(Co&b) const { for (int l=0;l<=c.l;l++) { b[size_t(l)*(l+1)]=b[size_t(l)*(l+1)].real(); for (int m=1;m<=l;m++) b[size_t(l)*(l+1)-m]=((m%2)?-1.0L:1.0L)*std::conj(b[size_t(l)*(l+1)+m]); } }
   Co each(const Co&b,const std::function<lc(int,int)>&f) const { Co r(b); for (int l=0;l<=c.l;l++) for (int m=-l;m<=l;m++) r[size_t(l)*(l+1)+m]*=f(l,m); return r; }
};
struct Pattern { std::string id; Big::Co b; int l; };
static std::vector<Pattern> patterns(const Big&B,int lim)    /* lim: the highest degree used */
{
   std::vector<Pattern> r; const Cfg&c=B.c; auto top=[&](int l){ return std::min(l,c.m); };
   for (int k=0;k<3;k++) { Pattern P; P.id=S()<<"dense"<<k; P.b.assign(B.nc(),0); P.l=lim;
      for (int l=0;l<=lim;l++) for (int m=0;m<=top(l);m++) { const ld a=(1+(l*7+m*13+k*5)%11)/11.0L*((l+m+k)%3?1:-1),e=(1+(l*5+m*3+k)%7)/7.0L*((l*m+k)%2?1:-1),w=k==0?1:k==1?1/(ld)((l+1)*(l+1)):(l+1)/(ld)(lim+1); P.b[size_t(l)*(l+1)+m]=lc(a,m?e:0)*w; }
      B.real(P.b); r.push_back(P); }
   auto one=[&](int l,int m,bool im){ if (l<0||l>lim||m<0||m>top(l)||(im&&!m)) return; Pattern P; P.id=S()<<"("<<l<<","<<m<<(im?",im)":")"); P.b.assign(B.nc(),0); P.b[size_t(l)*(l+1)+m]=im?lc(0,1):lc(1,0); P.l=l; B.real(P.b); for (auto&q: r) if (q.id==P.id) return; r.push_back(P); };
   for (int l: {0,1,lim-2,lim-1,lim}) for (int m: {0,1,top(l)/2,top(l)-1,top(l)}) for (bool im: {false,true}) one(l,m,im);
   const int st=thorough?23:97; int i=0; for (int l=0;l<=lim;l++) for (int m=0;m<=top(l);m++) if (i++%st==0) one(l,m,i%2);
   return r;
}
static std::vector<Cfg> bigs()
{
   if (getenv("V_NOLARGE")) return {{40,12,64,30},{24,24,27,51}};
   std::vector<Cfg> v={{63,63,96,160},{40,12,64,30},{90,3,120,9}}; v.push_back({100,100,256,264}); if (thorough) { v.push_back({127,127,130,260}); v.push_back({200,200,210,420}); v.push_back({300,2,310,6}); }
   return v;
}
static double amax(const vec&v) { double m=0; for (double x: v) m=std::max(m,std::fabs(x)); return m; }
/* to t times the largest expected value (or the given scale, if larger) */
static void rsame(const vec&g,const vec&w,double t,const std::string&what,double scale) { same(g,w,t*std::max(amax(w),scale)+1e-300,what); }
static void big()
{
   for (auto&c: bigs()) {
      const std::string gid=prop+"/large/"+c.id()+"/"; std::unique_ptr<Sphere> sp; std::unique_ptr<Big> B; const bool ladders=prop=="C08"; std::vector<Pattern> ps;
      const int parts=8; for (int part=0;part<parts;part++) {
         if (!take(gid+std::to_string(part))) continue;
         if (!B) { B.reset(new Big(c,ladders)); sp.reset(new Sphere(c.l,c.m,c.nlat,c.nphi)); ps=patterns(*B,c.l); }
         const Sphere&s=*sp; const size_t N=B->N,nY=size_t((c.m+1)*(2*c.l+2-c.m))/2; const double L=c.l+2,tol=2e-13*L,t0=1e-13*L*(c.l+1);
         for (size_t k=part;k<ps.size();k+=parts) { const Pattern&P=ps[k]; const std::string w=gid+P.id+": "; const vec f=Big::re(B->synth(P.b)); const double mf=amax(f); auto op=[&](const std::function<void(const vec&,vec&)>&o,const char*n,const std::function<lc(int,int)>&q,double t){ const vec r=ap(o,f,n,N); rsame(r,Big::re(B->synth(B->each(P.b,q))),t,w+n,mf); count(hash_vec(r,hash_str(w)),true); };
            if (prop=="C07") {
               cvec co(nY,0.0); for (int m=0;m<=c.m;m++) for (int l=m;l<=c.l;l++) { const lc z=P.b[size_t(l)*(l+1)+m]; co[O::lm_index(c.l,l,m)]=cplx(double(z.real()),double(z.imag())); }
               cvec cin=co; vec o(N,NANV); s.to_Sph(cin,o); same_bits(tov(cin),tov(co),"to_Sph: input modified"); rsame(o,f,tol,w+"to_Sph",mf); cvec b(nY,cplx(NANV,NANV)); vec fin=f; s.to_Ylm(fin,b); same_bits(fin,f,"to_Ylm: input modified"); rsame(tov(b),tov(co),tol,w+"to_Ylm",mf); cvec b2(nY); s.to_Ylm(o,b2); rsame(tov(b2),tov(co),tol,w+"to_Ylm(to_Sph())",mf); count(hash_vec(o,hash_str(w)),true);
               if (P.id[0]=='(' && P.id.find("im")==std::string::npos) { int l,m; sscanf(P.id.c_str(),"(%d,%d",&l,&m); rsame(s.compute_ylm(l,m),f,tol,w+"compute_ylm",mf); }
               if (c.m==c.l) { Big::Co z=P.b; for (size_t i=0;i<z.size();i++) z[i]*=lc(0.3L+(i%5),-0.7L+(i%3)); const cvec F=Big::cx(B->synth(z)),Z=Big::cx(z); const double mF=amax(tov(F)); cvec o2(N,cplx(NANV,NANV)),zi=Z; s.to_Sph(zi,o2); rsame(tov(o2),tov(F),tol,w+"complex to_Sph",mF); cvec bk(B->nc(),cplx(NANV,NANV)),fi=F; s.to_Ylm(fi,bk); rsame(tov(bk),tov(Z),tol,w+"complex to_Ylm",mF); }
            }
            else if (prop=="C08") {
               op([&](const vec&a,vec&b){s.laplace_beltrami(a,b);},"laplace_beltrami",[](int l,int){return lc(-(ld)l*(l+1));},t0*4);
               op([&](const vec&a,vec&b){s.partial_phi(a,b);},"partial_phi",[](int,int m){return lc(0,m);},t0);
               if (c.m==c.l) {
                  for (int dd: {1,-1}) { Big::Co r(B->nc(),0); for (int l=0;l<=c.l;l++) for (int m=-l;m<=l;m++) if (std::abs(m+dd)<=l) r[size_t(l)*(l+1)+m+dd]=P.b[size_t(l)*(l+1)+m]*(dd>0?sqrtl((ld)(l-m)*(l+m+1)):sqrtl((ld)(l+m)*(l-m+1)));
                     cvec o(N,cplx(NANV,NANV)); vec in=f; if (dd>0) s.raise(in,o); else s.lower(in,o); same_bits(in,f,"ladder: input modified"); rsame(tov(o),tov(Big::cx(B->synth(r))),t0*4,w+(dd>0?"raise":"lower"),mf*0.01); count(hash_vec(tov(o),hash_str(w)),true); }
                  const vec ft=Big::re(B->synth(P.b,true)),fp=Big::re(B->synth(B->each(P.b,[](int,int m){return lc(0,m);}))); vec e(N); for (int t=0;t<c.nlat;t++) for (int j=0;j<c.nphi;j++) { const size_t i=IX(c,t,j); const ld y=fp[i]/sinl(B->g.th[t]); e[i]=double((ld)ft[i]*ft[i]+y*y); }
                  vec r=ap([&](const vec&x,vec&y){s.sphereX(x,y);},f,"sphereX",N); rsame(r,e,t0*40,w+"sphereX",mf*mf*0.01); count(hash_vec(r,hash_str(w)),P.l>0);
               }
            }
            else if (prop=="C09") op([&](const vec&a,vec&b){b=a;s.filter(b);},"filter",[&](int l,int m){return lc(expl(-40*powl((ld)l/c.l,16))*expl(-40*powl((ld)std::abs(m)/c.l,16)));},tol);
            else if (prop=="C10") { vec e(c.l,0.0); for (int l=0;l<c.l;l++) { ld q=0; for (int m=-l;m<=l;m++) q+=std::norm(P.b[size_t(l)*(l+1)+m]); e[l]=double(q); } const vec r=ap([&](const vec&x,vec&y){s.power_spectrum(x,y);},f,"power_spectrum",c.l); rsame(r,e,1e-12*L,w+"power spectrum",mf*mf); for (int l=0;l<c.l;l++) if (e[l]>1e-6&&!close(r[l],e[l],1e-9*e[l]*L)) { fail(S()<<w<<"power at l="<<l<<" is "<<r[l]<<", expected "<<e[l]); break; } count(hash_vec(r,hash_str(w)),true); }
         }
         sample(gid+": dense patterns, corner modes, a stride through all modes");
      }
   }
}
int main(int argc,char**argv)
{
   init(argc,argv);
   if (prop=="C07") c07(); else if (prop=="C08") c08(); else if (prop=="C09") c09(); else if (prop=="C10") c10();
   big();
   return finish();
}
