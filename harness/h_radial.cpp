/* C01-C06: radial operators.  The oracles are written from the mathematical definitions in long double. */
#include "common.hpp"
#include "fftwmon.hpp"
#include "cheb.hpp"
#include "finite_diff.hpp"
#include <memory>
#include <functional>
using namespace V;
typedef std::vector<double> vec;
static const double EPS=2.220446049250313e-16;
static const ld PI=M_PIl;
struct Iv { double a,b; };
static const std::vector<Iv> IV={{-1,1},{0,1},{2,5},{-3,-0.5},{1.0101,20},{-1000,0.5},{7,7.0009765625},{0,1e-6},{-3e-9,2e-9},{-1e7,2e8}};
typedef std::function<void(const vec&,vec&)> Op;   /* out is presized */

static vec unit(size_t n,size_t j) { vec v(n,0.0); v[j]=1; return v; }
/* a fixed alphabet of dense inputs */
static std::vector<vec> dense(size_t n)
{
   std::vector<vec> r;
   vec a(n),b(n),c(n),d(n),e(n),f(n);
   uint64_t s=88172645463325252ull;
   for (size_t i=0;i<n;i++) {
      a[i]=1; b[i]=(i%2)?-1:1; c[i]=double(i)-3; d[i]=(i%3==0)?1.5:((i%3==1)?-0.25:0);
      s^=s<<13; s^=s>>7; s^=s<<17; e[i]=double(int64_t(s>>40))/double(1<<23)-1;
      f[i]=(i>=n/2)?1:-1;
   }
   r={a,b,c,d,e,f};
   return r;
}
static bool same_input(const vec&v,const vec&w,const char*what) { return same_bits(v,w,std::string(what)+": input array modified"); }
static const double NANV=std::numeric_limits<double>::quiet_NaN();

/* runs op on v with two different prior contents of out; checks input intact and result identical */
static vec apply(const std::function<void(vec&,vec&)> &op,const vec &v,size_t nout,const char *what)
{
   vec in=v, o1(nout,NANV), o2(nout,0.25);
   op(in,o1); same_input(in,v,what);
   vec in2=v; op(in2,o2);
   same_bits(o2,o1,std::string(what)+": depends on the previous contents of the output");
   bump("operator_calls",2);
   return o1;
}
/* M[j] = column j of the exact operator. Checks all columns, additivity on dense inputs and exact power-of-two scaling. */
static void linear(const std::function<void(vec&,vec&)> &op,size_t n,size_t nout,const std::vector<std::vector<ld>> &M,double rel,const char *what)
{
   /* row scale: sum over columns */
   std::vector<ld> rs(nout,0);
   for (size_t j=0;j<n;j++) for (size_t i=0;i<nout;i++) rs[i]+=fabsl(M[j][i]);
   ld scale=0; for (ld x: rs) scale=std::max(scale,x);
   const double tol=double(scale)*rel;
   auto cmp=[&](const vec&g,const std::vector<ld>&w,double t,const std::string&label){
      for (size_t i=0;i<nout;i++) {
         ld e=fabsl((ld)g[i]-w[i]);
         if (!(e<=t)) { fail(S()<<what<<" "<<label<<": element "<<i<<" is "<<g[i]<<", expected "<<double(w[i])<<" (tolerance "<<t<<")"); return; }
         note(std::string(what)+"_worst_over_tol",double(e/t));
      }
   };
   vec zero(n,0.0); { vec r=apply(op,zero,nout,what); for (double x: r) if (x!=0) { fail(S()<<what<<" of zero is not zero"); break; } }
   for (size_t j=0;j<n;j++) {
      vec r=apply(op,unit(n,j),nout,what);
      cmp(r,M[j],tol,S()<<"of the unit vector "<<j);
      count(hash_vec(r,hash_str(what)+j*1000003+n),true);
   }
   std::vector<vec> D=dense(n);
   for (size_t a=0;a<D.size();a++) for (size_t b=a;b<D.size();b++) {
      vec v(n); for (size_t i=0;i<n;i++) v[i]=(a==b)?D[a][i]:D[a][i]-0.5*D[b][i];
      double m=std::max(1e-300,maxabs(v));
      vec r=apply(op,v,nout,what);
      std::vector<ld> w(nout,0);
      for (size_t j=0;j<n;j++) for (size_t i=0;i<nout;i++) w[i]+=M[j][i]*(ld)v[j];
      cmp(r,w,tol*m,S()<<"of the dense input "<<a<<","<<b);
      count(hash_vec(r,hash_str(what)+n),true);
      if (a==b) for (int k: {-400,-60,-20,20,60,400}) {
         const double s=std::ldexp(1.0,k); vec vs(n); for (size_t i=0;i<n;i++) vs[i]=v[i]*s;
         vec rs_=apply(op,vs,nout,what); vec ex(nout); for (size_t i=0;i<nout;i++) ex[i]=r[i]*s;
         cmp(rs_,[&]{ std::vector<ld> q(nout); for (size_t i=0;i<nout;i++) q[i]=(ld)ex[i]; return q; }(),tol*m*s*1e-3+1e-300,S()<<"of the dense input "<<a<<" scaled by 2^"<<k);
         count(hash_vec(rs_,hash_str(what)+n),true);
      }
   }
}
static ld Tk(size_t k,size_t i,size_t n) { return cosl(PI*((ld)((k*i)%(2*(n-1))))/(n-1)); }
static ld dTk(size_t k,size_t i,size_t n)   /* d/dx of T_k at x_i = cos(pi i/(n-1)) */
{
   if (k==0) return 0;
   const ld K=k;
   if (i==0) return K*K;
   if (i==n-1) return (k%2)?K*K:-K*K;
   const ld th=PI*(ld)i/(n-1);
   return K*sinl(PI*((ld)((k*i)%(2*(n-1))))/(n-1))/sinl(th);
}
/* Chebyshev coefficient k of the nodal basis vector j */
static ld ck(size_t k,size_t j,size_t n)
{
   const ld N=n-1; ld w=((j==0||j==n-1)?1:2)/(2*N)*2; /* endpoint weight */
   w=((j==0||j==n-1)?1.0L:2.0L)/N;
   ld c=w*Tk(k,j,n);
   if (k==0||k==n-1) c/=2;
   return c;
}
static std::vector<size_t> sizes_cheb(std::vector<size_t> &modes_only)
{
   std::vector<size_t> r; const size_t full=thorough?129:65;
   for (size_t n=3;n<=full;n++) r.push_back(n);
   modes_only=thorough?std::vector<size_t>{150,193,255,256,257,400,511,512,513,769,1025,2049,4097}:std::vector<size_t>{80,96,97,128,129,192,257,512,513,1025};
   return r;
}
static void c01()
{
   std::vector<size_t> big; auto N=sizes_cheb(big);
   for (size_t pass=0;pass<2;pass++) for (size_t n: pass?big:N) for (size_t k=0;k<IV.size();k++) {
      if (!pass && n>33 && k!=(n%IV.size())) continue;
      if (pass && k>1) continue;
      if (!take(S()<<"C01/n="<<n<<"/iv="<<k)) continue;
      const Iv I=IV[k];
      Cheb c(n,I.a,I.b);
      if (c.n()!=n||c.lower()!=I.a||c.upper()!=I.b) fail("n(), lower() or upper() is not what the grid was built with");
      const double scale=std::max(std::fabs(I.a),std::fabs(I.b));
      for (size_t i=0;i<n;i++) {
         const ld w=((ld)I.a+I.b)/2+((ld)I.b-I.a)/2*cosl(PI*(ld)i/(n-1));
         if (!(fabsl(w-c.pt(i))<=8*EPS*scale)) fail(S()<<"point "<<i<<" is "<<c.pt(i)<<", expected "<<double(w));
         if (i && !(c.pt(i)<c.pt(i-1))) fail("points are not strictly decreasing");
      }
      auto ch=[&](vec&a,vec&b){ c.to_ch(a,b); };
      auto po=[&](vec&a,vec&b){ c.to_po(a,b); };
      if (!pass) {
         std::vector<std::vector<ld>> M(n,std::vector<ld>(n)),P=M;
         for (size_t j=0;j<n;j++) for (size_t q=0;q<n;q++) { M[j][q]=ck(q,j,n); P[j][q]=Tk(j,q,n); }
         linear(ch,n,n,M,1e-13,"to_ch");
         linear(po,n,n,P,1e-13,"to_po");
      }
      for (size_t m=0;m<n;m++) {   /* each mode, and round trips both ways */
         vec v(n); for (size_t i=0;i<n;i++) v[i]=double(Tk(m,i,n));
         vec co=apply(ch,v,n,"to_ch");
         same(co,unit(n,m),2e-14*std::log2(double(n)+2)*4,S()<<"coefficients of T_"<<m);
         vec back=apply(po,co,n,"to_po"); same(back,v,1e-13*n,S()<<"to_po(to_ch(T_"<<m<<"))");
         vec p=apply(po,unit(n,m),n,"to_po"); same(p,v,1e-13*4,S()<<"to_po(e_"<<m<<")");
         vec c2=apply(ch,p,n,"to_ch"); same(c2,unit(n,m),1e-12,S()<<"to_ch(to_po(e_"<<m<<"))");
         vec e=unit(n,m); vec c3=apply(ch,e,n,"to_ch"), p3=apply(po,c3,n,"to_po"); same(p3,e,1e-12,S()<<"to_po(to_ch(nodal "<<m<<"))");
         count(hash_vec(co,n*131+m),true);
      }
      sample(S()<<"n="<<n<<" interval=["<<I.a<<","<<I.b<<"] all "<<n<<" modes and nodal vectors, both directions");
   }
}
static void c02()
{
   std::vector<size_t> big; auto N=sizes_cheb(big);
   for (size_t pass=0;pass<2;pass++) for (size_t n: pass?big:N) for (size_t k=0;k<IV.size();k++) {
      if (!pass && n>33 && k!=(n%IV.size())) continue;
      if (pass && k>1) continue;
      if (!take(S()<<"C02/n="<<n<<"/iv="<<k)) continue;
      const Iv I=IV[k]; Cheb c(n,I.a,I.b); const ld jac=((ld)I.b-I.a)/2;
      auto der=[&](vec&a,vec&b){ c.der(a,b); };
      /* the two highest modes: exact or dropped */
      ld keep[2]={0,0};
      const double big_tol=2e-15*double(n)*double(n)*double(n)*4;
      for (size_t m=0;m<n;m++) {
         vec v(n); for (size_t i=0;i<n;i++) v[i]=double(Tk(m,i,n));
         vec d=apply(der,v,n,"der");
         ld e1=0,e0=0; size_t at=0;
         for (size_t i=0;i<n;i++) { ld w=dTk(m,i,n); ld g=(ld)d[i]*jac; ld q=fabsl(g-w); if (!(q<=e1)) { e1=q; at=i; } e0=std::max(e0,fabsl(g)); if (std::isnan(d[i])) { e1=e0=INFINITY; at=i; } }
         const double tol=std::min(0.2,big_tol);
         if (m+2<n) {
            if (!(e1<=tol)) fail(S()<<"derivative of T_"<<m<<" at point "<<at<<" is off by "<<double(e1)<<" (reference coordinate)");
            note("der_mode_worst_over_tol",double(e1)/tol);
         } else {
            if (e1<=tol) keep[m+2-n]=1; else if (!(e0<=tol)) fail(S()<<"derivative of T_"<<m<<" is neither exact nor dropped");
         }
         count(hash_vec(d,n*131+m),true);
      }
      if (!pass) {
         std::vector<std::vector<ld>> M(n,std::vector<ld>(n,0));
         for (size_t j=0;j<n;j++) for (size_t m=0;m<n;m++) {
            const ld f=(m+2<n)?1:keep[m+2-n]; if (f==0) continue;
            const ld cc=ck(m,j,n)*f/jac; for (size_t i=0;i<n;i++) M[j][i]+=cc*dTk(m,i,n);
         }
         linear(der,n,n,M,1e-14*n,"der");
      }
      /* monomials in the physical coordinate */
      const ld mid=((ld)I.a+I.b)/2;
      for (size_t d=0;d+3<=n && d<=12;d++) {
         vec v(n),w(n); const ld s=jac;
         for (size_t i=0;i<n;i++) { const ld x=((ld)c.pt(i)-mid)/s; v[i]=double(powl(x,d)); w[i]=d?double(d*powl(x,d-1)/s):0; }
         vec g=apply(der,v,n,"der");
         double xe=EPS*std::max(std::fabs(I.a),std::fabs(I.b))/double(s); /* rounding of the points */
         same(g,w,double((std::min(0.2,big_tol)+20*d*d*xe*n*n)/s),S()<<"derivative of ((x-mid)/half)^"<<d);
         count(hash_vec(g,n*7+d),d>0);
      }
      sample(S()<<"n="<<n<<" interval=["<<I.a<<","<<I.b<<"] all modes and nodal vectors; two top modes kept: "<<int(keep[0])<<","<<int(keep[1]));
   }
}
static void c03()
{
   std::vector<size_t> big; auto N=sizes_cheb(big);
   for (size_t pass=0;pass<2;pass++) for (size_t n: pass?big:N) for (size_t k=0;k<IV.size();k++) {
      if (!pass && n>33 && k!=(n%IV.size())) continue;
      if (pass && k>1) continue;
      if (!take(S()<<"C03/n="<<n<<"/iv="<<k)) continue;
      const Iv I=IV[k]; Cheb c(n,I.a,I.b);
      auto filt=[&](vec&a,vec&b){ b=a; c.filter(b); };
      std::vector<ld> sg(n); for (size_t m=0;m<n;m++) sg[m]=expl(-40*powl((ld)m/n,16));
      for (size_t m=0;m<n;m++) {
         vec v(n),w(n); for (size_t i=0;i<n;i++) { v[i]=double(Tk(m,i,n)); w[i]=double(sg[m]*Tk(m,i,n)); }
         vec d=apply(filt,v,n,"filter");
         same(d,w,1e-13*4,S()<<"filter of T_"<<m);
         count(hash_vec(d,n*131+m),true);
      }
      if (!pass) {
         std::vector<std::vector<ld>> M(n,std::vector<ld>(n,0));
         for (size_t j=0;j<n;j++) for (size_t m=0;m<n;m++) { const ld cc=ck(m,j,n)*sg[m]; for (size_t i=0;i<n;i++) M[j][i]+=cc*Tk(m,i,n); }
         linear(filt,n,n,M,1e-13,"filter");
      }
      sample(S()<<"n="<<n<<" interval=["<<I.a<<","<<I.b<<"] all modes and nodal vectors");
   }
}
/* ---- finite differences: exact stencils from Lagrange interpolation ---- */
/* weights of the d-th derivative at x=z for nodes 0..m-1 (unit spacing), Fornberg in long double */
static std::vector<ld> fornberg(ld z,const std::vector<ld>&x,int d)
{
   const int n=x.size(); std::vector<std::vector<ld>> c(n,std::vector<ld>(d+1,0));
   ld c1=1,c4=x[0]-z; c[0][0]=1;
   for (int i=1;i<n;i++) {
      const int mn=std::min(i,d); ld c2=1,c5=c4; c4=x[i]-z;
      for (int j=0;j<i;j++) {
         const ld c3=x[i]-x[j]; c2*=c3;
         if (j==i-1) { for (int k=mn;k>=1;k--) c[i][k]=c1*(k*c[i-1][k-1]-c5*c[i-1][k])/c2; c[i][0]=-c1*c5*c[i-1][0]/c2; }
         for (int k=mn;k>=1;k--) c[j][k]=(c4*c[j][k]-k*c[j][k-1])/c3;
         c[j][0]=c4*c[j][0]/c3;
      }
      c1=c2;
   }
   std::vector<ld> w(n); for (int i=0;i<n;i++) w[i]=c[i][d]; return w;
}
/* row i of the operator: first column index and weights */
static std::vector<ld> fdrow(size_t n,size_t i,int d,size_t &first)
{
   size_t w=7;
   if (i>=3 && i+3<n) first=i-3;
   else { if (d==2) w=8; first=(i<3)?0:n-w; }
   std::vector<ld> x; for (size_t q=0;q<w;q++) x.push_back((ld)(first+q));
   return fornberg((ld)i,x,d);
}
static std::vector<size_t> sizes_fd(std::vector<size_t> &big)
{
   std::vector<size_t> r; const size_t full=thorough?200:72; for (size_t n=8;n<=full;n++) r.push_back(n);
   big=thorough?std::vector<size_t>{255,256,257,513,1000,1025,4097,8193,16385}:std::vector<size_t>{97,128,129,257,513,1025,8193};
   return r;
}
static void c04()
{
   std::vector<size_t> big; auto N=sizes_fd(big);
   for (size_t pass=0;pass<2;pass++) for (size_t n: pass?big:N) for (size_t k=0;k<IV.size();k++) {
      if (!pass && n>24 && k!=(n%IV.size())) continue;
      if (pass && k>1) continue;
      if (!take(S()<<"C04/n="<<n<<"/iv="<<k)) continue;
      const Iv I=IV[k]; FD c(n,I.a,I.b); const ld dx=((ld)I.b-I.a)/(n-1);
      if (c.n()!=n||c.lower()!=I.a||c.upper()!=I.b) fail("n(), lower() or upper() is not what the grid was built with");
      const double scale=std::max(std::fabs(I.a),std::fabs(I.b));
      for (size_t i=0;i<n;i++) if (!(fabsl((ld)I.a+dx*i-c.pt(i))<=8*EPS*scale)) fail(S()<<"point "<<i<<" is "<<c.pt(i)<<", expected "<<double((ld)I.a+dx*i));
      for (int d=1;d<=2;d++) {
         auto op=[&](vec&a,vec&b){ if (d==1) c.der(a,b); else c.der2(a,b); };
         const char *what=d==1?"der":"der2"; const ld h=d==1?dx:dx*dx;
         /* large n: every stencil phase with sparse combs, so that all rows and columns are hit */
         if (pass) {
            for (size_t ph=0;ph<17;ph++) {
               vec v(n,0.0); for (size_t j=ph;j<n;j+=17) v[j]=1+0.001*double(j%97);
               vec r=apply(op,v,n,what);
               for (size_t i=0;i<n;i++) { size_t f; auto w=fdrow(n,i,d,f); ld s=0; for (size_t q=0;q<w.size();q++) s+=w[q]*(ld)v[f+q]; if (!(fabsl(s/h-r[i])<=1e-13*fabsl(60/h))) { fail(S()<<what<<" row "<<i<<" of comb "<<ph<<" is "<<r[i]<<", expected "<<double(s/h)); break; } }
               count(hash_vec(r,n*131+ph),true);
            }
         } else {
            std::vector<std::vector<ld>> M(n,std::vector<ld>(n,0));
            for (size_t i=0;i<n;i++) { size_t f; auto w=fdrow(n,i,d,f); for (size_t q=0;q<w.size();q++) M[f+q][i]=w[q]/h; }
            linear(op,n,n,M,2e-14,what);
            /* locality, literally: a NaN elsewhere must not reach the row */
            for (size_t j=0;j<n;j++) {
               vec v(n,1.0); v[j]=NANV; vec r=apply(op,v,n,what);
               for (size_t i=0;i<n;i++) { size_t f; auto w=fdrow(n,i,d,f); const bool in=(j>=f&&j<f+w.size()); if (!in && std::isnan(r[i])) { fail(S()<<what<<" at "<<i<<" depends on point "<<j); break; } }
               count(j*7+n,true);
            }
         }
         const int deg=(d==1)?6:7;
         for (int q=0;q<=deg;q++) {
            vec v(n); std::vector<ld> w(n); const double L=double(n-1);
            for (size_t i=0;i<n;i++) { const ld x=(ld)i/L; v[i]=double(powl(x,q)); w[i]=(q<d)?0:(d==1?q*powl(x,q-1):q*(q-1)*powl(x,q-2))/(d==1?L*dx:L*dx*L*dx); }
            vec r=apply(op,v,n,what);
            const double t=60*8*EPS/double(h);
            for (size_t i=0;i<n;i++) if (!(fabsl(r[i]-w[i])<=t)) { fail(S()<<what<<" of the monomial of degree "<<q<<" at point "<<i<<" is "<<r[i]<<", expected "<<double(w[i])); break; }
            count(hash_vec(r,n*17+q),q>=d);
         }
      }
      sample(S()<<"n="<<n<<" interval=["<<I.a<<","<<I.b<<"] all nodal vectors, NaN probes, monomials");
   }
}
static void c05()
{
   std::vector<size_t> big; auto N=sizes_fd(big);
   static const ld w9[9]={1,-8,28,-56,70,-56,28,-8,1};
   for (size_t pass=0;pass<2;pass++) for (size_t n: pass?big:N) for (size_t k=0;k<IV.size();k++) {
      if (!pass && n>24 && k!=(n%IV.size())) continue;
      if (pass && k>1) continue;
      if (!take(S()<<"C05/n="<<n<<"/iv="<<k)) continue;
      const Iv I=IV[k]; FD c(n,I.a,I.b);
      auto op=[&](vec&a,vec&b){ b=a; c.filter(b); };
      auto ends=[&](const vec&v,const vec&r){ for (size_t i=0;i<n;i++) if ((i<4||i+4>=n) && memcmp(&v[i],&r[i],8)) { fail(S()<<"point "<<i<<" next to the end was changed"); return; } };
      auto rowval=[&](const vec&v,size_t i)->ld{ if (i<4||i+4>=n) return v[i]; ld s=v[i]; for (int q=0;q<9;q++) s-=w9[q]/256*(ld)v[i-4+q]; return s; };
      if (!pass) {
         std::vector<std::vector<ld>> M(n,std::vector<ld>(n,0));
         for (size_t j=0;j<n;j++) { vec e=unit(n,j); for (size_t i=0;i<n;i++) M[j][i]=rowval(e,i); }
         linear(op,n,n,M,1e-15*4,"filter");
         for (size_t j=0;j<n;j++) {
            vec e=unit(n,j); ends(e,apply(op,e,n,"filter"));
            for (size_t q=j+1;q<n;q++) { vec v=e; v[q]=-3; vec r=apply(op,v,n,"filter"); for (size_t i=0;i<n;i++) if (!(fabsl(rowval(v,i)-r[i])<=1e-14)) { fail(S()<<"filter of points "<<j<<","<<q<<" at "<<i<<" is "<<r[i]); break; } count(hash_vec(r,n),true); }
         }
      } else for (size_t ph=0;ph<23;ph++) {
         vec v(n,0.0); for (size_t j=ph;j<n;j+=23) v[j]=1+0.001*double(j%97);
         vec r=apply(op,v,n,"filter"); ends(v,r);
         for (size_t i=0;i<n;i++) if (!(fabsl(rowval(v,i)-r[i])<=1e-14)) { fail(S()<<"filter of comb "<<ph<<" at "<<i<<" is "<<r[i]<<", expected "<<double(rowval(v,i))); break; }
         count(hash_vec(r,n*131+ph),true);
      }
      for (int q=0;q<=7;q++) { vec v(n); for (size_t i=0;i<n;i++) v[i]=double(powl((ld)i/(n-1)*2-1,q)); vec r=apply(op,v,n,"filter"); ends(v,r); same(r,v,1e-14,S()<<"polynomial of degree "<<q); count(hash_vec(r,n*3+q),true); }
      { vec v(n); for (size_t i=0;i<n;i++) v[i]=(i%2)?-1:1; vec r=apply(op,v,n,"filter"); ends(v,r); for (size_t i=4;i+4<n;i++) if (!(std::fabs(r[i])<=1e-14)) { fail(S()<<"the sawtooth survives at point "<<i<<": "<<r[i]); break; } count(hash_vec(r,n),true); }
      for (auto &v: dense(n)) ends(v,apply(op,v,n,"filter"));
      sample(S()<<"n="<<n<<" all nodal vectors and pairs, polynomials, sawtooth");
   }
}
/* ---- C06: histories ---- */
struct Slot { int kind; size_t n; double a,b; };   /* kind 0 Cheb, 1 FD */
struct Obj { std::unique_ptr<Cheb> c; std::unique_ptr<FD> f; bool live() const { return c||f; } };
static int nops(int kind) { return kind==0?4:3; }
static vec runop(const Obj&o,int kind,int op,const vec&in,const vec&prior,bool &touched)
{
   vec i=in,out=prior; touched=false;
   if (kind==0) { if (op==0) o.c->to_ch(i,out); else if (op==1) o.c->to_po(i,out); else if (op==2) o.c->der(i,out); else { out=i; o.c->filter(out); } }
   else { if (op==0) o.f->der(i,out); else if (op==1) o.f->der2(i,out); else { out=i; o.f->filter(out); } }
   touched=memcmp(i.data(),in.data(),8*i.size())!=0;
   return out;
}
static void make(Obj&o,const Slot&s) { if (s.kind==0) o.c.reset(new Cheb(s.n,s.a,s.b)); else o.f.reset(new FD(s.n,s.a,s.b)); }
static void c06()
{
   const std::vector<std::vector<Slot>> sets={
      {{0,9,-1,1},{0,9,2,5},{0,16,-1,1}},
      {{0,12,0,1},{1,12,0,1},{1,12,2,5}},
      {{1,9,-1,1},{1,17,-1,1},{0,17,-1,1}},
      {{0,8,-1,1},{0,8,-1,1},{0,24,-1,1}},
   };
   int depth=thorough?7:6; if (const char*e=getenv("V_DEPTH")) depth=atoi(e);
   for (size_t si=0;si<sets.size();si++) {
      const auto &sl=sets[si];
      /* alphabet: for each slot create, destroy, and each op on one of two inputs (chosen by position) */
      struct A { int slot,what; }; std::vector<A> al;
      for (int s=0;s<int(sl.size());s++) { al.push_back({s,-1}); al.push_back({s,-2}); for (int o=0;o<nops(sl[s].kind);o++) al.push_back({s,o}); }
      std::vector<std::vector<vec>> inputs(sl.size());
      for (size_t s=0;s<sl.size();s++) { auto D=dense(sl[s].n); inputs[s]={D[4],D[2],unit(sl[s].n,sl[s].n-2)}; }
      /* references: each slot alone, fresh object for each call */
      std::vector<std::vector<std::vector<vec>>> ref(sl.size());
      bool refdone=false;
      auto mkref=[&]{
         for (size_t s=0;s<sl.size();s++) { ref[s].resize(nops(sl[s].kind)); for (int o=0;o<nops(sl[s].kind);o++) for (size_t q=0;q<inputs[s].size();q++) { Obj ob; make(ob,sl[s]); bool t; ref[s][o].push_back(runop(ob,sl[s].kind,o,inputs[s][q],vec(sl[s].n,0.0),t)); } }
         refdone=true;
      };
      /* breadth by prefix of two: each pair of first actions is one unit of work */
      for (size_t a0=0;a0<al.size();a0++) for (size_t a1=0;a1<al.size();a1++) {
         if (al[a0].what!=-1) continue;          /* the first action can only be a creation */
         if (!take(S()<<"C06/set"<<si<<"/"<<a0<<","<<a1)) continue;
         if (!refdone) mkref();
         std::vector<int> h(depth);
         bool bad=false;
         std::function<void(int)> go=[&](int d){
            if (bad) return;
            if (d==depth) {
               /* execute */
               std::vector<Obj> ob(sl.size()); FM::reset(); int ncheb=0;
               for (int i=0;i<depth&&!bad;i++) {
                  const A &a=al[h[i]]; const Slot &S_=sl[a.slot];
                  if (a.what==-1) { make(ob[a.slot],S_); if (S_.kind==0) ncheb++; transitions++; }
                  else if (a.what==-2) { ob[a.slot].c.reset(); ob[a.slot].f.reset(); if (S_.kind==0) ncheb--; transitions++; }
                  else {
                     const size_t q=size_t(i)%inputs[a.slot].size();
                     bool t; vec r=runop(ob[a.slot],S_.kind,a.what,inputs[a.slot][q],vec(S_.n,i%2?NANV:-1e300),t); transitions++;
                     if (t) { bad=true; fail("an operator modified its input"); }
                     if (memcmp(r.data(),ref[a.slot][a.what][q].data(),8*r.size())) {
                        S o; o<<"history"; for (int z=0;z<=i;z++) o<<" ("<<al[h[z]].slot<<","<<al[h[z]].what<<")"; o<<": result differs from a fresh object's"; bad=true; fail(o);
                     }
                     if (ob[a.slot].c && (ob[a.slot].c->n()!=S_.n || ob[a.slot].c->pt(0)!=S_.b)) { bad=true; fail("grid points changed"); }
                  }
                  if (!FM::error.empty()) { bad=true; S o; o<<"FFTW contract: "<<FM::error<<"; history"; for (int z=0;z<=i;z++) o<<" ("<<al[h[z]].slot<<","<<al[h[z]].what<<")"; fail(o); }
               }
               for (auto&o: ob) { o.c.reset(); o.f.reset(); }
               if (!bad && FM::live()!=0) { bad=true; fail(S()<<FM::live()<<" FFTW plans are never destroyed"); }
               if (!bad && !FM::error.empty()) { bad=true; fail("FFTW contract: "+FM::error); }
               FM::reset();
               states++; traces++; evals++;
               return;
            }
            for (size_t x=0;x<al.size();x++) {
               if (d==0 && x!=a0) continue; if (d==1 && x!=a1) continue;
               /* liveness of the slot */
               bool live=false; for (int z=0;z<d;z++) if (al[h[z]].slot==al[x].slot) { if (al[h[z]].what==-1) live=true; if (al[h[z]].what==-2) live=false; }
               if (al[x].what==-1 ? live : !live) continue;
               h[d]=int(x); go(d+1);
            }
         };
         const long before=states;
         go(0);
         if (states>before) sample(S()<<"set "<<si<<": all "<<(states-before)<<" histories of length "<<depth<<" starting with actions "<<a0<<","<<a1);
      }
      /* long lives: one object, very many calls; every one must give what a fresh object gives */
      for (size_t s=0;s<sl.size();s++) for (int order=0;order<2;order++) {
         if (!take(S()<<"C06/long/set"<<si<<"/"<<s<<"/order"<<order)) continue;
         if (!refdone) mkref();
         FM::reset(); const Slot&S_=sl[s]; const long calls=thorough?3000000:140000; const int no=nops(S_.kind);
         { Obj ob; make(ob,S_); vec prior(S_.n,NANV);
           for (long k=0;k<calls;k++) { const int o=order?int(k%no):int(k*no/calls); const size_t q=size_t(k/no)%inputs[s].size(); bool t; vec r=runop(ob,S_.kind,o,inputs[s][q],prior,t); transitions++;
              if (t||memcmp(r.data(),ref[s][o][q].data(),8*r.size())) { fail(S()<<"call "<<k<<" of one object (operator "<<o<<", input "<<q<<") differs from a fresh object's"); break; }
              if (!FM::error.empty()) { fail("FFTW contract: "+FM::error); break; } } }
         if (FM::live()!=0) fail("FFTW plans are never destroyed"); FM::reset(); states++; traces++; evals++; sample(S()<<"set "<<si<<" slot "<<s<<": "<<calls<<" calls of one object");
         /* and very many objects one after the other */
         for (long k=0;k<(thorough?60000:3000);k++) { Obj ob; make(ob,S_); const int o=int(k%no); const size_t q=size_t(k)%inputs[s].size(); bool t; vec r=runop(ob,S_.kind,o,inputs[s][q],vec(S_.n,NANV),t); transitions+=2; if (t||memcmp(r.data(),ref[s][o][q].data(),8*r.size())) { fail(S()<<"object "<<k<<" of one process gives another result"); break; } }
         if (FM::live()!=0) fail("FFTW plans are never destroyed"); FM::reset(); states++; traces++;
      }
      /* references against the definition, so that a fault present even in a fresh object is not taken as truth */
      for (size_t s=0;s<sl.size();s++) {
         if (!take(S()<<"C06/ref/set"<<si<<"/"<<s)) continue;
         const Slot&S_=sl[s]; const size_t n=S_.n; Obj ob; make(ob,S_);
         for (auto &in: inputs[s]) for (int o=0;o<nops(S_.kind);o++) {
            bool t; vec r=runop(ob,S_.kind,o,in,vec(n,NANV),t); std::vector<ld> w(n,0); double sc=1;
            if (S_.kind==0) {
               std::vector<ld> co(n,0); for (size_t k=0;k<n;k++) for (size_t j=0;j<n;j++) co[k]+=ck(k,j,n)*(ld)in[j];
               for (size_t i=0;i<n;i++) for (size_t k=0;k<n;k++) {
                  if (o==0) { if (i==k) w[i]=co[k]; }
                  else if (o==1) w[i]+=Tk(k,i,n)*(ld)in[k];
                  else if (o==3) w[i]+=expl(-40*powl((ld)k/n,16))*co[k]*Tk(k,i,n);
                  else if (k+2<n) w[i]+=co[k]*dTk(k,i,n)*2/((ld)S_.b-S_.a);
               }
               if (o==2) { /* top modes exact or dropped is C02's business: accept either */ continue; }
               sc=double(n)*100;
            } else { const ld dx=((ld)S_.b-S_.a)/(n-1); static const ld w9[9]={1,-8,28,-56,70,-56,28,-8,1};
               for (size_t i=0;i<n;i++) { if (o<2) { size_t f; auto wt=fdrow(n,i,o+1,f); for (size_t q=0;q<wt.size();q++) w[i]+=wt[q]*(ld)in[f+q]/(o?dx*dx:dx); } else { w[i]=in[i]; if (i>=4&&i+4<n) for (int q=0;q<9;q++) w[i]-=w9[q]/256*(ld)in[i-4+q]; } }
               sc=double(n)*10000; }
            for (size_t i=0;i<n;i++) if (!(fabsl(w[i]-r[i])<=1e-14*sc)) { fail(S()<<"op "<<o<<" of a fresh object is wrong at "<<i<<": "<<r[i]<<" instead of "<<double(w[i])); break; }
            evals++; traces++;
         }
      }
   }
}
int main(int argc,char**argv)
{
   init(argc,argv);
   if (prop=="C01") c01(); else if (prop=="C02") c02(); else if (prop=="C03") c03();
   else if (prop=="C04") c04(); else if (prop=="C05") c05(); else if (prop=="C06") c06();
   return finish();
}
