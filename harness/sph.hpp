/* Independent spherical-harmonic oracle in long double (C++17 special functions, not the stand-in). */
#ifndef VERIF_SPH_HPP
#define VERIF_SPH_HPP
#include <cmath>
#include <complex>
#include <vector>
namespace O {
typedef long double ld;
typedef std::complex<long double> lc;
/* theta part of Y_lm, m may be negative, Condon-Shortley phase included */
inline ld P(int l,int m,ld th)
{
   const int am=m<0?-m:m;
   if (am>l) return 0;
   ld v=std::sph_legendre((unsigned)l,(unsigned)am,th);
   return (m<0 && am%2)?-v:v;
}
inline ld dP(int l,int m,ld th)   /* d/dtheta */
{
   return m*cosl(th)/sinl(th)*P(l,m,th)+sqrtl((ld)(l-m)*(l+m+1))*P(l,m+1,th);
}
inline lc Y(int l,int m,ld th,ld ph) { return P(l,m,th)*lc(cosl(m*ph),sinl(m*ph)); }
/* real basis: part 0: coefficient 1 at (l,m); part 1: coefficient i at (l,m), m>0.  f = a Y + conj for m>0 */
struct RB { int l,m,part; };
inline ld val(const RB&b,ld th,ld ph,int dphi=0)
{
   const ld p=P(b.l,b.m,th); if (b.m==0) return dphi?0:p;
   ld c=cosl(b.m*ph), s=sinl(b.m*ph);
   for (int i=0;i<dphi;i++) { const ld c0=c; c=-b.m*s; s=b.m*c0; }
   return b.part==0 ? 2*p*c : -2*p*s;
}
inline ld val_th(const RB&b,ld th,ld ph)
{
   const ld p=dP(b.l,b.m,th); if (b.m==0) return p;
   return b.part==0 ? 2*p*cosl(b.m*ph) : -2*p*sinl(b.m*ph);
}
inline std::vector<RB> basis(int lmax,int mmax)
{
   std::vector<RB> r; for (int l=0;l<=lmax;l++) for (int m=0;m<=std::min(l,mmax);m++) for (int p=0;p<(m?2:1);p++) r.push_back({l,m,p}); return r;
}
inline size_t lm_index(int lmax,int l,int m) { return size_t(m)*(2*lmax+2-(m+1))/2+l; }
/* Gauss-Legendre nodes (north first) and weights */
inline void gauss(int n,std::vector<ld>&x,std::vector<ld>&w)
{
   x.resize(n); w.resize(n);
   for (int i=0;i<n;i++) {
      ld z=cosl(M_PIl*(i+0.75L)/(n+0.5L)),d=0;
      for (int k=0;k<100;k++) {
         const ld p=std::legendre(n,z), q=std::legendre(n-1,z); d=n*(q-z*p)/(1-z*z);
         const ld s=p/d; z-=s; if (fabsl(s)<1e-19L) break;
      }
      const ld p=std::legendre(n,z), q=std::legendre(n-1,z); d=n*(q-z*p)/(1-z*z);
      x[i]=z; w[i]=2/((1-z*z)*d*d);
   }
}
}
#endif
