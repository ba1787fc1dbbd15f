/* C10 (grid part), C11-C14: every small grid shape, both discretisations and layouts (one build each). */
#include <map>
#include <array>
#ifdef _OPENMP
#include <omp.h>
#endif
#include "gridutil.hpp"
using namespace V; using O::RB;
static ld mono(ld x,int q,int d) { if (q<d) return 0; ld f=1; for (int k=0;k<d;k++) f*=(q-k); return f*powl(x,q-d); }

static void c10()
{
   for (auto&c: shapes()) {
      if (!take("C10g/"+c.id())) continue;
      std::unique_ptr<Grid> g(c.make()); Geom G(c); auto B=O::basis(c.l,c.m);
      const size_t np=size_t(c.nx)*c.l;
      for (size_t a=0;a<B.size();a++) for (size_t b=a;b<B.size();b++) {
         if (b!=a && b!=a+1 && B.size()>9) continue;
         if (!keep(c,B[a],a)) continue;
         vec v(c.N()); std::vector<ld> s(np,0);
         /* amplitudes differ at every radius */
         auto A=[&](int i){ return 0.75L+0.5L*G.R[i]/c.cl+0.01L*(i%13)*(i%13); }; auto C=[&](int i){ return b==a?0.0L:(i%3)*0.5L-0.4L; };
         for (int i=0;i<c.nx;i++) {
            for (int t=0;t<c.nlat;t++) for (int p=0;p<c.nphi;p++) v[G.ix(i,t,p)]=double(A(i)*O::val(B[a],G.th[t],G.ph[p])+C(i)*O::val(B[b],G.th[t],G.ph[p]));
            auto put=[&](const RB&q,ld x){ if (q.l<c.l) s[size_t(i)*c.l+q.l]+=x*x*(q.m?2:1); }; put(B[a],A(i)); put(B[b],C(i));
         }
         vec want(np); for (size_t i=0;i<np;i++) want[i]=double(s[i]);
         vec r=gap([&](const vec&x,vec&y){g->set_angular_power_spectrum(x,y);},v,"set_angular_power_spectrum",np);
         same(r,want,1e-11,S()<<"angular spectrum of modes "<<a<<","<<b); count(hash_vec(r,hash_str(c.id())),true);
#ifdef USE_CHEB
         if (b==a) { /* smooth square roots only: where a spectrum is zero its computed square root is rounding noise */
            vec q=gap([&](const vec&x,vec&y){g->set_n_l_coef(x,y);},v,"set_n_l_coef",np);
            const int n=c.nx;
            for (int l=0;l<c.l;l++) for (int k=0;k<n;k++) {
               ld co=0; for (int j=0;j<n;j++) co+=((j==0||j==n-1)?1.0L:2.0L)/(n-1)*sqrtl(s[size_t(j)*c.l+l])*cosl(M_PIl*((k*j)%(2*(n-1)))/(n-1));
               if (k==0||k==n-1) co/=2;
               if (!(fabsl(co-q[size_t(k)*c.l+l])<=1e-10)) { fail(S()<<"n-l coefficient n="<<k<<" l="<<l<<" of mode "<<a<<" is "<<q[size_t(k)*c.l+l]<<", expected "<<double(co)); }
            }
            count(hash_vec(q,hash_str(c.id())+1),true);
         }
#endif
      }
      sample(c.id()+": all modes, different amplitude at each radius");
   }
}
/* vectors with guard words behind the end: accessors compiled without assertions must not write there */
struct Guard { vec v; size_t n; explicit Guard(size_t n_,double x):n(n_) { v.reserve(n+64); v.assign(n,x); for (int i=0;i<64;i++) v.data()[n+i]=1234.5+i; }
   bool ok() const { for (int i=0;i<64;i++) if (v.data()[n+i]!=1234.5+i) return false; return v.size()==n; } };
static void c11()
{
   std::vector<GC> cs=shapes(false,true);
   for (int l=1;l<=3;l++) for (int m=0;m<=l;m++) for (int da=1;da<=3;da++) for (int db=1;db<=4;db++) for (int n: (CHEB?std::vector<int>{3,5,6}:std::vector<int>{8,9})) cs.push_back({n,l,m,l+da,2*m+db,10,2,10});
   for (auto&c: cs) {
      if (!take("C11/"+c.id())) continue;
      std::unique_ptr<Grid> g(c.make()); Geom G(c); const size_t N=c.N();
      if (g->nx()!=size_t(c.nx)||g->nl()!=size_t(c.l)||g->nm()!=size_t(c.m)||g->nlat()!=size_t(c.nlat)||g->nphi()!=size_t(c.nphi)||g->cl()!=c.cl||g->Rmin()!=c.a||g->Rmax()!=c.b) fail("a getter does not return the constructor argument");
      std::vector<char> hit(N,0); Sphere sp(c.l,c.m,c.nlat,c.nphi);
      for (int i=0;i<c.nx;i++) for (int t=0;t<c.nlat;t++) for (int p=0;p<c.nphi;p++) {
         const size_t k=g->indx_R_th_ph(i,t,p); if (k>=N||hit[k]++) { fail(S()<<"index ("<<i<<","<<t<<","<<p<<") = "<<k<<" is out of range or used twice"); continue; }
         const double sc=std::max(std::fabs(c.a),std::fabs(c.b));
         for (int via=0;via<2;via++) {
            auto q=via?g->R_th_ph(k):g->R_th_ph(i,t,p); auto x=via?g->x_y_z(k):g->x_y_z(i,t,p);
            if (q.size()!=3||!close(q[0],double(G.R[i]),1e-14*sc)||!close(q[1],double(G.th[t]),1e-13)||!close(q[2],double(G.ph[p]),1e-13)) fail(S()<<"coordinates at ("<<i<<","<<t<<","<<p<<")");
            if (x.size()!=3||!close(x[0],double(G.R[i]*cosl(G.ph[p])*sinl(G.th[t])),1e-12*sc)||!close(x[1],double(G.R[i]*sinl(G.ph[p])*sinl(G.th[t])),1e-12*sc)||!close(x[2],double(G.R[i]*cosl(G.th[t])),1e-12*sc)) fail(S()<<"Cartesian coordinates at ("<<i<<","<<t<<","<<p<<")");
         }
         if (i==0) { const size_t a=g->indx_th_ph(t,p); if (a!=sp.indx(t,p)) fail(S()<<"indx_th_ph("<<t<<","<<p<<") differs from the sphere's index");
            auto q=g->th_ph(t,p),q2=g->th_ph(a); if (q.size()!=2||q!=q2||!close(q[0],double(G.th[t]),1e-13)||!close(q[1],double(G.ph[p]),1e-13)) fail(S()<<"th_ph at ("<<t<<","<<p<<")"); }
         count(k+hash_str(c.id()),true);
      }
      /* two dimensional indices */
      auto bij=[&](const char*w,int n1,int n2,const std::function<size_t(int,int)>&f){ std::vector<char> h(size_t(n1)*n2,0); for (int a=0;a<n1;a++) for (int b=0;b<n2;b++) { size_t k=f(a,b); if (k>=h.size()||h[k]++) { fail(S()<<w<<"("<<a<<","<<b<<") = "<<k<<" is out of range or used twice"); return; } } };
      bij("indx_r_th",c.nx,c.nlat,[&](int a,int b){return g->indx_r_th(a,b);}); bij("indx_r_ph",c.nx,c.nphi,[&](int a,int b){return g->indx_r_ph(a,b);});
      bij("indx_r_l",c.nx,c.l,[&](int a,int b){return g->indx_r_l(a,b);}); bij("indx_th_ph",c.nlat,c.nphi,[&](int a,int b){return g->indx_th_ph(a,b);});
      for (int i=0;i<c.nx;i++) for (int l=0;l<c.l;l++) { auto q=g->R_l(i,l),q2=g->R_l(g->indx_r_l(i,l)); if (q!=q2||q.size()!=2||!close(q[0],double(G.R[i]),1e-14*std::fabs(c.b))||q[1]!=l) fail(S()<<"R_l("<<i<<","<<l<<")");
#ifdef USE_CHEB
         auto z=g->n_l(i,l),z2=g->n_l(g->indx_r_l(i,l)); if (z!=z2||z.size()!=2||z[0]!=i||z[1]!=l) fail(S()<<"n_l("<<i<<","<<l<<")");
#endif
      }
      /* r(R) */
      for (int i=0;i<c.nx;i++) {
         const double R=g->R_th_ph(i,0,0)[0], r=g->R_to_r(R);
         if (G.inf(i)) { if (!(std::fabs(1/r)<=1.0000001e-12)) fail(S()<<"1/r at R=cl is "<<1/r); }
         else { const double w=double((ld)R/(1-(ld)R/c.cl)); if (!close(r,w,std::fabs(w)*1e-12*std::max(1.0,1/std::fabs(1-R/c.cl)))) fail(S()<<"R_to_r("<<R<<") is "<<r<<", expected "<<w); }
      }
      if (!(std::fabs(1/g->R_to_r(c.cl))<=1.0000001e-12)) fail("1/r at R=cl");
      for (double f: {-2.0,-0.5,0.0,1e-8,0.1,0.5,0.9,0.99,0.9999,1.5}) { const double R=f*c.cl,r=g->R_to_r(R),w=double((ld)R/(1-(ld)R/c.cl)); if (!close(r,w,std::fabs(w)*1e-11)) fail(S()<<"R_to_r("<<R<<") is "<<r<<", expected "<<w); }
      /* close to infinity, on both sides: only infinity itself is special */
      for (int k=5;k<=13;k++) for (int sg: {1,-1}) { const double R=c.cl*(1-sg*std::pow(10.0,-k)),r=g->R_to_r(R); const ld d=1-(ld)R/c.cl; if (std::fabs(R-c.cl)<=1e-15) continue; const double w=double((ld)R/d); if (!(std::fabs(r-w)<=std::fabs(w)*(1e-12+9e-16/std::fabs(double(d))))) fail(S()<<"R_to_r at cl(1-"<<sg<<"e-"<<k<<") is "<<r<<", expected "<<w); count(hash_bytes(&R,8,hash_str(c.id())),true); }
      /* lines and planes. cells(u,k) enumerates the flat cells of line u in order */
      struct Line { const char*name; int nu; size_t len,full; std::function<size_t(int,size_t)> cell; std::function<void(int,const vec&,vec&)> get,set; };
      auto ix=[&](int i,int t,int p){return g->indx_R_th_ph(i,t,p);};
      std::vector<Line> ls={
         {"row_R",c.nlat*c.nphi,size_t(c.nx),N,[&](int u,size_t k){return ix(int(k),u/c.nphi,u%c.nphi);},[&](int u,const vec&a,vec&b){g->get_row_R(u/c.nphi,u%c.nphi,a,b);},[&](int u,const vec&a,vec&b){g->set_row_R(u/c.nphi,u%c.nphi,a,b);}},
         {"row_th",c.nx*c.nphi,size_t(c.nlat),N,[&](int u,size_t k){return ix(u/c.nphi,int(k),u%c.nphi);},[&](int u,const vec&a,vec&b){g->get_row_th(u/c.nphi,u%c.nphi,a,b);},[&](int u,const vec&a,vec&b){g->set_row_th(u/c.nphi,u%c.nphi,a,b);}},
         {"row_ph",c.nx*c.nlat,size_t(c.nphi),N,[&](int u,size_t k){return ix(u/c.nlat,u%c.nlat,int(k));},[&](int u,const vec&a,vec&b){g->get_row_ph(u/c.nlat,u%c.nlat,a,b);},[&](int u,const vec&a,vec&b){g->set_row_ph(u/c.nlat,u%c.nlat,a,b);}},
         {"row_n",c.l,size_t(c.nx),size_t(c.nx)*c.l,[&](int u,size_t k){return g->indx_r_l(k,u);},[&](int u,const vec&a,vec&b){g->get_row_n(u,a,b);},[&](int u,const vec&a,vec&b){g->set_row_n(u,a,b);}},
         {"row_l",c.nx,size_t(c.l),size_t(c.nx)*c.l,[&](int u,size_t k){return g->indx_r_l(u,k);},nullptr,[&](int u,const vec&a,vec&b){g->set_row_l(u,a,b);}},
         {"row_R_th",c.nphi,size_t(c.nx)*c.nlat,N,[&](int u,size_t k){ for (int i=0;i<c.nx;i++) for (int t=0;t<c.nlat;t++) if (g->indx_r_th(i,t)==k) return ix(i,t,u); return size_t(-1);},[&](int u,const vec&a,vec&b){g->get_row_R_th(u,a,b);},[&](int u,const vec&a,vec&b){g->set_row_R_th(u,a,b);}},
         {"row_R_ph",c.nlat,size_t(c.nx)*c.nphi,N,[&](int u,size_t k){ for (int i=0;i<c.nx;i++) for (int p=0;p<c.nphi;p++) if (g->indx_r_ph(i,p)==k) return ix(i,u,p); return size_t(-1);},[&](int u,const vec&a,vec&b){g->get_row_R_ph(u,a,b);},[&](int u,const vec&a,vec&b){g->set_row_R_ph(u,a,b);}},
         {"row_th_ph",c.nx,size_t(c.nlat)*c.nphi,N,[&](int u,size_t k){ for (int t=0;t<c.nlat;t++) for (int p=0;p<c.nphi;p++) if (g->indx_th_ph(t,p)==k) return ix(u,t,p); return size_t(-1);},[&](int u,const vec&a,vec&b){g->get_row_th_ph(u,a,b);},[&](int u,const vec&a,vec&b){g->set_row_th_ph(u,a,b);}},
      };
      for (auto&L: ls) for (int u=0;u<L.nu;u++) {
         std::vector<size_t> cell(L.len); for (size_t k=0;k<L.len;k++) cell[k]=L.cell(u,k);
         if (L.get) { vec full(L.full); for (size_t i=0;i<L.full;i++) full[i]=i+0.5; vec f0=full; Guard o(L.len,NANV); L.get(u,full,o.v); same_bits(full,f0,std::string("get_")+L.name+": input modified");
            if (!o.ok()) fail(S()<<"get_"<<L.name<<" "<<u<<" writes behind the end of its output");
            for (size_t k=0;k<L.len;k++) if (o.v[k]!=f0[cell[k]]) { fail(S()<<"get_"<<L.name<<" "<<u<<": element "<<k<<" is "<<o.v[k]<<", expected "<<f0[cell[k]]); break; } }
         { Guard full(L.full,-1); vec in(L.len); for (size_t k=0;k<L.len;k++) in[k]=100+k; vec i0=in; L.set(u,in,full.v); same_bits(in,i0,std::string("set_")+L.name+": input modified");
            if (!full.ok()) fail(S()<<"set_"<<L.name<<" "<<u<<" writes behind the end of its output");
            vec w(L.full,-1.0); for (size_t k=0;k<L.len;k++) w[cell[k]]=100+k; same_bits(full.v,w,S()<<"set_"<<L.name<<" "<<u);
            if (L.get) { vec o(L.len,NANV); L.get(u,full.v,o); same_bits(o,i0,S()<<"get after set "<<L.name<<" "<<u); } }
         count(hash_str(c.id()+L.name)+u,true);
      }
      if (g->compute_ylm(1,0)!=sp.compute_ylm(1,0)) fail("compute_ylm differs from the sphere's");
      sample(c.id()+": every index, coordinate, line and plane");
   }
}
static void c12()
{
   for (auto&c: shapes(false,true)) {
      if (!take("C12/"+c.id())) continue;
      std::unique_ptr<Grid> g(c.make()); Geom G(c); const size_t N=c.N(); auto B=O::basis(c.l,c.m);
      const ld mid=((ld)c.a+c.b)/2,h=((ld)c.b-c.a)/2; const int n=c.nx;
      const int deg=CHEB?n-3:6;
      typedef std::function<void(const vec&,vec&)> Op;
      const Op pR=[&](const vec&a,vec&b){g->set_partial_R(a,b);},pr=[&](const vec&a,vec&b){g->set_partial_r(a,b);},prr=[&](const vec&a,vec&b){g->set_partial2_r(a,b);},
         pp=[&](const vec&a,vec&b){g->set_partial_phi(a,b);},pl=[&](const vec&a,vec&b){g->set_spherical_lap(a,b);},px=[&](const vec&a,vec&b){g->set_sphereX(a,b);};
      /* angular alphabets: harmonics on all shapes, single rays too */
      std::vector<std::pair<std::string,std::vector<ld>>> ang; const size_t na=size_t(c.nlat)*c.nphi;
      for (size_t nb=0;nb<B.size();nb++) { const RB&b=B[nb]; if (!keep(c,b,nb)) continue; std::vector<ld> a(na); for (int t=0;t<c.nlat;t++) for (int p=0;p<c.nphi;p++) a[G.ia(t,p)]=O::val(b,G.th[t],G.ph[p]); ang.push_back({S()<<"harmonic ("<<b.l<<","<<b.m<<","<<b.part<<")",a}); }
      for (size_t k=0;k<na;k++) if (na<=20||k%(huge(c)?307:na>200?61:7)==size_t(n)%7) { std::vector<ld> a(na,0); a[k]=1; ang.push_back({S()<<"ray "<<k,a}); }
      const double e=2e-15*(CHEB?double(n)*n*n:60)*4;
      for (int q=0;q<=deg;q++) for (auto&A: ang) {
         if (q>6 && q!=deg && q!=deg/2) continue;
         vec v(N),w1(N),w2(N),w3(N);
         for (int i=0;i<n;i++) { const ld x=(G.R[i]-mid)/h, z=1-G.R[i]/(ld)c.cl, zz=G.inf(i)?0:z; const ld f=mono(x,q,0),f1=mono(x,q,1)/h,f2=mono(x,q,2)/(h*h);
            for (int t=0;t<c.nlat;t++) for (int p=0;p<c.nphi;p++) { const size_t k=G.ix(i,t,p); const ld a=A.second[G.ia(t,p)]; v[k]=double(a*f); w1[k]=double(a*f1); w2[k]=double(a*f1*zz*zz); w3[k]=double(a*(f2*zz*zz*zz*zz-2/(ld)c.cl*zz*zz*zz*f1)); } }
         const double s1=e/double(h),s2=e/double(h*h)*(CHEB?double(n)*n:double(n)*4)+e/double(h)/c.cl*4;
         vec r1=gap(pR,v,"set_partial_R",N); same(r1,w1,s1*(CHEB?1:n),S()<<"set_partial_R of x^"<<q<<" times "<<A.first);
         vec r2=gap(pr,v,"set_partial_r",N); same(r2,w2,s1*(CHEB?1:n),S()<<"set_partial_r of x^"<<q<<" times "<<A.first);
         vec r3=gap(prr,v,"set_partial2_r",N); same(r3,w3,s2*(CHEB?1:n),S()<<"set_partial2_r of x^"<<q<<" times "<<A.first);
         count(hash_vec(r3,hash_vec(r1)),q>0);
      }
      /* all nodal vectors along one ray, against the radial operator itself; other rays stay zero */
      Radial rad(n,c.a,c.b);
      for (int j=0;j<n;j++) for (int s=0;s<3;s++) {
         if (n>300 && j>=9 && j+9<n && (j*3+s)%(n>2000?1021:31)) continue;
         if (c.N()>40000 && (j+s)%5) continue;
         const int t=(j+s)%c.nlat,p=(j*2+s)%c.nphi; vec v(N,0.0),row(n,0.0),d(n),dd(n); v[G.ix(j,t,p)]=1; row[j]=1; rad.der(row,d);
#ifdef USE_CHEB
         { vec x=d; rad.der(x,dd); }
#else
         rad.der2(row,dd);
#endif
         vec w1(N,0.0),w2(N,0.0),w3(N,0.0);
         for (int i=0;i<n;i++) { const ld z=G.inf(i)?0:1-G.R[i]/(ld)c.cl; const size_t k=G.ix(i,t,p); w1[k]=d[i]; w2[k]=double(z*z*d[i]); w3[k]=double(z*z*z*z*dd[i]-2/(ld)c.cl*z*z*z*d[i]); }
         vec r1=gap(pR,v,"set_partial_R",N),r2=gap(pr,v,"set_partial_r",N),r3=gap(prr,v,"set_partial2_r",N);
         const double m1=maxabs(d),m2=maxabs(dd)+m1;
         same(r1,w1,m1*1e-13,S()<<"set_partial_R of the nodal vector "<<j<<" on ray "<<t<<","<<p); same(r2,w2,m1*1e-12,S()<<"set_partial_r of the nodal vector "<<j); same(r3,w3,m2*1e-12,S()<<"set_partial2_r of the nodal vector "<<j);
         std::vector<char> on(N,0); for (int i=0;i<n;i++) on[G.ix(i,t,p)]=1;
         for (size_t k=0;k<N;k++) { if (!on[k] && (r1[k]!=0||r2[k]!=0||r3[k]!=0)) { fail(S()<<"a radial derivative leaks from ray "<<t<<","<<p<<" to flat index "<<k); break; } }
         count(hash_vec(r3,hash_vec(r1)),true);
      }
      /* magnitudes: every operator scales with its argument (sphereX with its square) */
      for (int seed=1;seed<=(huge(c)?1:2);seed++) { vec v=noise(N,seed*31); struct Q { const Op*op; const char*w; int pw; }; const Q qs[6]={{&pR,"set_partial_R",1},{&pr,"set_partial_r",1},{&prr,"set_partial2_r",1},{&pp,"set_partial_phi",1},{&pl,"set_spherical_lap",1},{&px,"set_sphereX",2}};
         for (auto&q: qs) { vec w=gap(*q.op,v,q.w,N); const double m=maxabs(w); if (!std::isfinite(m)) { fail(S()<<q.w<<" of dense data is not finite"); continue; }
            for (int k: {-400,-250,-120,-60,-50,-40,-30,-20,-10,-3,3,10,20,30,40,50,60,120,250,400}) { if (huge(c)&&k%40) continue; vec x=v; for (double&z: x) z=std::ldexp(z,k); vec r=gap(*q.op,x,q.w,N); for (double&z: r) z=std::ldexp(z,-k*q.pw); same(r,w,m*1e-13,S()<<q.w<<" of dense data scaled by 2^"<<k); count(hash_vec(r,hash_str(q.w)+k),true); } } }
      /* angular operators with different data on every sphere, and on single spheres */
      std::map<size_t,std::vector<std::array<ld,3>>> ys; auto ytab=[&](size_t b)->const std::vector<std::array<ld,3>>&{ auto&y=ys[b]; if (y.empty()) { y.resize(na); for (int t=0;t<c.nlat;t++) for (int p=0;p<c.nphi;p++) { const ld T=G.th[t],P=G.ph[p]; y[G.ia(t,p)]={O::val(B[b],T,P),O::val(B[b],T,P,1),O::val_th(B[b],T,P)}; } } return y; };
      for (size_t a=0;a<B.size();a++) for (int mode=0;mode<2;mode++) {
         if (!keep(c,B[a],a)) continue;
         const size_t b=(a+1)%B.size(); if (c.m<c.l && (B[a].l>c.m||B[b].l>c.m) && mode==0) {}
         const int only=int(a)%n;
         auto A=[&](int i){ return mode?(i==only?1.0L:0.0L):0.6L+0.1L*((i*7+3)%5); }; auto C=[&](int i){ return mode?0.0L:0.3L*((i*3)%4)-0.5L; };
         vec v(N),wp(N),wl(N),wx(N);
         for (int i=0;i<n;i++) for (int t=0;t<c.nlat;t++) for (int p=0;p<c.nphi;p++) {
            const ld T=G.th[t]; const size_t k=G.ix(i,t,p); const auto &ya=ytab(a)[G.ia(t,p)],&yb=ytab(b)[G.ia(t,p)];
            v[k]=double(A(i)*ya[0]+C(i)*yb[0]); const ld fp=A(i)*ya[1]+C(i)*yb[1];
            wp[k]=double(fp); wl[k]=double(-A(i)*B[a].l*(B[a].l+1)*ya[0]-C(i)*B[b].l*(B[b].l+1)*yb[0]);
            const ld ft=A(i)*ya[2]+C(i)*yb[2]; wx[k]=double(ft*ft+fp*fp/(sinl(T)*sinl(T)));
         }
         const double t0=1e-12*(c.l+2)*(c.l+2);
         vec r1=gap(pp,v,"set_partial_phi",N),r2=gap(pl,v,"set_spherical_lap",N);
         same(r1,wp,t0,S()<<"set_partial_phi of modes "<<a<<","<<b); same(r2,wl,t0*(c.l+2),S()<<"set_spherical_lap of modes "<<a<<","<<b);
         if (c.m==c.l||(B[a].l<=c.m&&(mode||B[b].l<=c.m))) { vec r3=gap(px,v,"set_sphereX",N); same(r3,wx,t0*40,S()<<"set_sphereX of modes "<<a<<","<<b); count(hash_vec(r3),true); }
         if (mode) for (int i=0;i<n;i++) if (i!=only) for (int t=0;t<c.nlat;t++) for (int p=0;p<c.nphi;p++) if (r1[G.ix(i,t,p)]!=0||r2[G.ix(i,t,p)]!=0) { fail("an angular operator leaks from one sphere to another"); i=n; t=c.nlat; break; }
         count(hash_vec(r2,hash_vec(r1)),true);
      }
      sample(c.id()+": all monomials x harmonics/rays, all nodal vectors on rays, all modes");
   }
}
/* reference filter from the definition, on data given as (radial values) x (harmonic) */
static void radial_filter_ld(const GC&c,std::vector<ld>&v)
{
   const int n=c.nx; std::vector<ld> o=v; static const ld w9[9]={1,-8,28,-56,70,-56,28,-8,1};
   if (CHEB) { std::vector<ld> co(n,0); for (int k=0;k<n;k++) { for (int j=0;j<n;j++) co[k]+=((j==0||j==n-1)?1.0L:2.0L)/(n-1)*v[j]*cosl(M_PIl*((k*j)%(2*(n-1)))/(n-1)); if (k==0||k==n-1) co[k]/=2; co[k]*=expl(-40*powl((ld)k/n,16)); }
      for (int i=0;i<n;i++) { o[i]=0; for (int k=0;k<n;k++) o[i]+=co[k]*cosl(M_PIl*((k*i)%(2*(n-1)))/(n-1)); } }
   else for (int i=4;i+4<n;i++) for (int q=0;q<9;q++) o[i]-=w9[q]/256*v[i-4+q];
   o[0]=v[0]; o[n-1]=v[n-1]; v=o;
}
static void c13()
{
   for (auto&c: shapes(false,true)) {
      if (!take("C13/"+c.id())) continue;
      std::unique_ptr<Grid> g(c.make()); Geom G(c); const size_t N=c.N(); auto B=O::basis(c.l,c.m); const int n=c.nx;
      auto op=[&](const vec&a,vec&b){b=a;g->filter(b);};
      auto sg=[&](const RB&b){ return expl(-40*powl((ld)b.l/c.l,16))*expl(-40*powl((ld)b.m/c.l,16)); };
      /* radial alphabet: nodal vectors, and every mode T_k (or power) of the reference coordinate */
      std::vector<std::vector<ld>> rd;
      const int st=huge(c)?(n>2000?127:7):1;   /* thinned on huge grids, ends kept */
      for (int j=0;j<n;j++) { if (j>=9&&j+9<n&&j%st) continue; std::vector<ld> v(n,0); v[j]=1; rd.push_back(v); }
      for (int k=0;k<n;k++) { if (k>=3&&k+3<n&&k%st) continue; std::vector<ld> v(n); for (int i=0;i<n;i++) v[i]=cosl(M_PIl*((size_t(k)*i)%(2*(n-1)))/(n-1)); rd.push_back(v); }
      { std::vector<ld> v(n); for (int i=0;i<n;i++) v[i]=i%2?-1:1; rd.push_back(v); }
      std::map<size_t,std::vector<ld>> ys; auto ytab=[&](size_t b)->const std::vector<ld>&{ auto&y=ys[b]; if (y.empty()) { y.resize(size_t(c.nlat)*c.nphi); for (int t=0;t<c.nlat;t++) for (int p=0;p<c.nphi;p++) y[G.ia(t,p)]=O::val(B[b],G.th[t],G.ph[p]); } return y; };
      for (size_t b=0;b<B.size();b++) for (size_t q=0;q<rd.size();q++) {
         if (B.size()>16 && (q+b)%3) continue;
         if (!keep(c,B[b],b) || (c.nx>100 && (q*5+b)%11 && q+1<rd.size())) continue;
         const size_t b2=(b*3+1)%B.size(); std::vector<ld> f=rd[q],f2=rd[(q+5)%rd.size()],o=f,o2=f2; radial_filter_ld(c,o); radial_filter_ld(c,o2);
         const double k2=(q%2)?0.0:-0.5;
         const std::vector<ld> &Y=ytab(b),&Y2=ytab(b2);
         vec v(N),w(N);
         for (int i=0;i<n;i++) for (int t=0;t<c.nlat;t++) for (int p=0;p<c.nphi;p++) { const ld y=Y[G.ia(t,p)],y2=Y2[G.ia(t,p)]; const size_t k=G.ix(i,t,p); v[k]=double(f[i]*y+k2*f2[i]*y2); w[k]=double(sg(B[b])*o[i]*y+k2*sg(B[b2])*o2[i]*y2); }
         vec r=gap(op,v,"filter",N); same(r,w,1e-12*(c.l+2),S()<<"filter of radial vector "<<q<<" times mode "<<b<<" plus "<<k2<<" times vector "<<(q+5)%rd.size()<<" times mode "<<b2); count(hash_vec(r),true);
      }
      /* full nodal basis against the filters of the parts */
      Radial rad(n,c.a,c.b); Sphere sp(c.l,c.m,c.nlat,c.nphi); const size_t na=size_t(c.nlat)*c.nphi;
      auto ref=[&](const vec&v){ vec o=v; for (int i=0;i<n;i++) { vec s(na); for (int t=0;t<c.nlat;t++) for (int p=0;p<c.nphi;p++) s[G.ia(t,p)]=o[G.ix(i,t,p)]; sp.filter(s); for (int t=0;t<c.nlat;t++) for (int p=0;p<c.nphi;p++) o[G.ix(i,t,p)]=s[G.ia(t,p)]; }
         for (int t=0;t<c.nlat;t++) for (int p=0;p<c.nphi;p++) { vec s(n); for (int i=0;i<n;i++) s[i]=o[G.ix(i,t,p)]; vec z=s; rad.filter(s); for (int i=1;i+1<n;i++) o[G.ix(i,t,p)]=s[i]; } return o; };
      for (size_t j=0;j<N;j++) { if (N>400 && j%(huge(c)?2503:heavy(c)?211:17)) continue; vec v(N,0.0); v[j]=1; vec r=gap(op,v,"filter",N); same(r,ref(v),1e-13,S()<<"filter of the nodal vector "<<j); count(hash_vec(r),true); }
      for (int s=1;s<=(huge(c)?1:4);s++) { vec v=noise(N,s); vec r=gap(op,v,"filter",N); same(r,ref(v),1e-12,S()<<"filter of dense data "<<s); for (int k: {-300,-60,60,300}) { vec x=v; for (double&z: x) z=std::ldexp(z,k); vec y=gap(op,x,"filter",N); for (double&z: y) z=std::ldexp(z,-k); same(y,r,1e-12,S()<<"filter of dense data scaled by 2^"<<k); } }
      sample(c.id()+": radial vectors x modes, nodal basis");
   }
}
static void c14()
{
   for (auto&c: shapes(false,true)) {
      if (!take("C14/"+c.id())) continue;
      std::unique_ptr<Grid> g(c.make()); Geom G(c); const size_t N=c.N();
      auto nres=[&](double dt,const vec&a,const vec&b,const vec&p){ vec x=a,y=b,z=p; const double r=g->norm_indep_res(dt,x,y,z); same_bits(x,a,"norm_indep_res input"); same_bits(y,b,"norm_indep_res input"); same_bits(z,p,"norm_indep_res input"); return r; };
      auto wres=[&](double dt,const vec&a,const vec&b,const vec&p){ ld s=0; for (size_t i=0;i<N;i++) { const ld q=(ld)p[i]-((ld)b[i]-(ld)a[i])/dt; s+=q*q; } return double(sqrtl(s/N)); };
      auto wtv=[&](const vec&v){ ld s=0; for (int i=0;i+1<c.nx;i++) for (int t=0;t+1<c.nlat;t++) for (int p=0;p+1<c.nphi;p++) { const ld x=(ld)v[G.ix(i+1,t,p)]-v[G.ix(i,t,p)],y=(ld)v[G.ix(i,t+1,p)]-v[G.ix(i,t,p)],z=(ld)v[G.ix(i,t,p+1)]-v[G.ix(i,t,p)]; s+=sqrtl(x*x+y*y+z*z); } return double(s/N); };
      const vec zero(N,0.0); uint64_t seq=0;
      auto chk=[&](const char*w,double got,double want){ if (!(std::fabs(got-want)<=1e-12*std::fabs(want)+1e-300)) fail(S()<<w<<" is "<<got<<", expected "<<want); count(hash_bytes(&got,8,hash_str(c.id()+w))+seq++,want!=0); };
      for (size_t j=0;j<N;j++) {
         if (N>600 && j%(huge(c)?7919:heavy(c)?101:13)) continue;
         vec e(N,0.0); e[j]=-2; vec e2=zero; e2[(j*7+1)%N]+=0.5;
         for (double dt: {0.5,1e-3,3.0,-0.25,1e-9,1e7}) { chk("residual of p",nres(dt,zero,zero,e),wres(dt,zero,zero,e)); chk("residual of f_n",nres(dt,e,zero,zero),wres(dt,e,zero,zero)); chk("residual of f_np1",nres(dt,zero,e,zero),wres(dt,zero,e,zero)); chk("residual of p and f_np1",nres(dt,zero,e2,e),wres(dt,zero,e2,e)); chk("residual of all",nres(dt,e2,e,e),wres(dt,e2,e,e)); }
         chk("variation of a nodal vector",g->total_variation(e),wtv(e)); vec s=e; for (size_t i=0;i<N;i++) s[i]+=e2[i]; chk("variation of two nodal vectors",g->total_variation(s),wtv(s));
      }
      for (int s=1;s<=(huge(c)?1:6);s++) { vec a=noise(N,s),b=noise(N,s+50),p=noise(N,s+90); for (double dt: {0.5,1e-3,3.0,-0.25,1e-9,1e7}) chk("residual of dense data",nres(dt,a,b,p),wres(dt,a,b,p)); const double tv=g->total_variation(a); chk("variation of dense data",tv,wtv(a));
         for (int k: {-400,-200,-100,-60,-40,-20,20,40,60,100,200,400}) { auto sc=[&](vec q){ for (double&x: q) x=std::ldexp(x,k); return q; }; chk("scaled variation",g->total_variation(sc(a)),std::ldexp(wtv(a),k)); chk("scaled residual",nres(0.5,sc(a),sc(b),sc(p)),std::ldexp(wres(0.5,a,b,p),k));
            /* one value of another magnitude among ordinary ones */
            vec y=a; y[N/2]=std::ldexp(1.0,k); chk("variation with one other magnitude",g->total_variation(y),wtv(y)); chk("residual with one other magnitude",nres(0.5,a,b,y),wres(0.5,a,b,y)); } }
      /* a run that has blown up is seen: whatever the formula makes of NaN and infinity */
      for (size_t j=0;j<N;j+=(huge(c)?15013:heavy(c)?97:N>200?7:1)) for (double w: {NANV,(double)INFINITY,-(double)INFINITY}) {
         vec e=zero; e[j]=w; bool seen=false; { const size_t q=j; for (int i=0;i+1<c.nx&&!seen;i++) for (int t=0;t+1<c.nlat&&!seen;t++) for (int p=0;p+1<c.nphi;p++) if (G.ix(i,t,p)==q||G.ix(i+1,t,p)==q||G.ix(i,t+1,p)==q||G.ix(i,t,p+1)==q) { seen=true; break; } }
         for (int a=0;a<3;a++) { const double r=nres(0.5,a==0?e:zero,a==1?e:zero,a==2?e:zero); if (std::isfinite(r)) { fail(S()<<"the residual is "<<r<<" although point "<<j<<" of argument "<<a<<" is "<<w); break; } }
         const double tv=g->total_variation(e); if (std::isfinite(tv)==seen) fail(S()<<"the variation is "<<tv<<" although point "<<j<<" is "<<w); count(hash_bytes(&j,8,hash_str(c.id()))+(std::isnan(w)?1:w>0?2:3),true);
      }
#ifdef _OPENMP
      /* any number of threads, more than there are cores or points */
      { const int t0=omp_get_max_threads(); vec a=noise(N,11),b=noise(N,12),p=noise(N,13); const double wr=wres(0.5,a,b,p),wt=wtv(a);
        for (int T: {1,2,3,5,7,12,17,33,48,65,100,129,200}) { if (T>33 && N>20000 && T%2==0) continue; omp_set_dynamic(0); omp_set_num_threads(T);
          chk("residual with another number of threads",nres(0.5,a,b,p),wr); chk("variation with another number of threads",g->total_variation(a),wt); }
        omp_set_num_threads(t0); }
#endif
      vec cst(N,3.25); chk("variation of a constant",g->total_variation(cst),0); chk("residual of an exact step",nres(0.25,zero,cst,vec(N,13.0)),0);
      sample(c.id()+": all nodal vectors in each argument");
   }
}
int main(int argc,char**argv)
{
   init(argc,argv);
   if (prop=="C10") c10(); else if (prop=="C11") c11(); else if (prop=="C12") c12(); else if (prop=="C13") c13(); else if (prop=="C14") c14();
   return finish();
}
