/* See shtns.h: direct (table driven) transforms, no fast algorithms, no hidden shared buffers. */
#include "shtns.h"
#include <vector>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fftw3.h>
#include <algorithm>

/* creating, setting up and destroying configurations is documented as not thread safe */
extern "C" void sched_planner(void) __attribute__((weak));
static inline void not_thread_safe() { if (sched_planner) sched_planner(); }
namespace {
struct Priv {
   unsigned magic;
   int type_flags;
   bool phi_contig, south_first, grid_set;
   double cs;
   std::vector<double> w;        /* Gauss weights, sum = 2 */
   std::vector<double> plm;      /* [lm*nlat + it]: normalised P_lm(ct[it]) */
   std::vector<double> cosm, sinm; /* [m*nphi + ip] */
};
const unsigned MAGIC = 0x5117A5;

[[noreturn]] void contract(const char *what, const char *detail="")
{
   std::fprintf(stderr, "SHTNS-CONTRACT: %s %s\n", what, detail);
   std::fflush(stderr);
   std::abort();
}
Priv *priv(shtns_cfg s, bool need_grid)
{
   if (!s) contract("null configuration");
   Priv *p = static_cast<Priv*>(s->priv);
   if (!p || p->magic != MAGIC) contract("use of a destroyed configuration");
   if (need_grid && !p->grid_set) contract("transform before the grid is set");
   return p;
}
inline size_t sidx(const shtns_info *s, const Priv *p, size_t it, size_t ip)
{
   return p->phi_contig ? (size_t(s->nphi)*it + ip) : (size_t(s->nlat)*ip + it);
}
void gauss(int n, std::vector<double> &x, std::vector<double> &w)
{
   x.resize(n); w.resize(n);
   for (int i=0; i<n; i++) {
      long double z = cosl(M_PIl*(i+0.75L)/(n+0.5L)), pp=0;
      for (int it=0; it<200; it++) {
         long double p1=1, p2=0;
         for (int j=0; j<n; j++) { long double p3=p2; p2=p1; p1=((2*j+1)*z*p2 - j*p3)/(j+1); }
         pp = n*(z*p1-p2)/(z*z-1);
         long double dz = p1/pp; z -= dz;
         if (fabsl(dz) < 1e-19L) break;
      }
      if (n%2==1 && i==n/2) z=0;
      { long double p1=1,p2=0; for (int j=0;j<n;j++){long double p3=p2;p2=p1;p1=((2*j+1)*z*p2-j*p3)/(j+1);} pp=n*(z*p1-p2)/(z*z-1); }
      x[i]=z; w[i]=2/((1-z*z)*pp*pp);
   }
}
}

unsigned int verif_shtns_lm(const shtns_info *s, long l, long m)
{
   if (m<0 || m>long(s->mmax)*s->mres || m%s->mres!=0 || l<m || l>s->lmax) {
      char b[128]; std::snprintf(b,sizeof b,"l=%ld m=%ld lmax=%d mmax=%d",l,m,s->lmax,s->mmax);
      contract("coefficient index outside the triangle", b);
   }
   const long im = m/s->mres;
   return unsigned(((im*(2*long(s->lmax)+2-(m+s->mres)))>>1) + l);
}
unsigned int verif_shtns_lm_cplx(const shtns_info *s, long l, long m)
{
   if (l<0 || l>s->lmax || std::labs(m)>std::min<long>(l,s->mmax)) contract("complex coefficient index outside the range");
   return unsigned(l<=s->mmax ? l*(l+1)+m : s->mmax*(2*l-s->mmax)+l+m);
}

extern "C" {
void shtns_verbose(int) {}
int  shtns_use_threads(int n) { return n>0 ? n : 1; }
void shtns_print_version(void) {}
long nlm_calc(long lmax, long mmax, long mres)
{
   if (mmax*mres > lmax) mmax = lmax/mres;
   return ((mmax+1)*(2*lmax+2-mmax*mres))/2;
}
long nlm_cplx_calc(long lmax, long mmax, long) { return mmax>=lmax ? (lmax+1)*(lmax+1) : mmax*(2*lmax-mmax)+lmax+mmax+1; }

shtns_cfg shtns_create(int lmax, int mmax, int mres, enum shtns_norm norm)
{
   not_thread_safe();
   if (lmax<1 || mmax<0 || mres<1) contract("shtns_create: lmax must be at least 1, mmax>=0, mres>=1");
   if (mmax*mres>lmax) contract("shtns_create: mmax*mres > lmax");
   if ((int(norm)&255)!=sht_orthonormal) contract("stand-in supports only orthonormal harmonics");
   shtns_cfg s = new shtns_info();
   Priv *p = new Priv();
   p->magic=MAGIC; p->grid_set=false; p->cs = (int(norm)&SHT_NO_CS_PHASE) ? 1.0 : -1.0;
   s->priv=p;
   s->lmax=lmax; s->mmax=mmax; s->mres=mres;
   s->nlm=unsigned(nlm_calc(lmax,mmax,mres));
   s->nlm_cplx=unsigned(nlm_cplx_calc(lmax,mmax,mres));
   s->li=new unsigned short[s->nlm]; s->mi=new unsigned short[s->nlm];
   unsigned lm=0;
   for (int im=0; im<=mmax; im++) for (int l=im*mres; l<=lmax; l++) { s->li[lm]=l; s->mi[lm]=im*mres; lm++; }
   return s;
}
int shtns_set_grid(shtns_cfg s, enum shtns_type flags, double, int nlat, int nphi)
{
   not_thread_safe();
   Priv *p = priv(s,false);
   if (nlat<=s->lmax) contract("shtns_set_grid: nlat must exceed lmax");
   if (nphi<=2*s->mmax) contract("shtns_set_grid: nphi must exceed 2*mmax");
   p->type_flags=int(flags);
   p->phi_contig=(int(flags)&SHT_PHI_CONTIGUOUS)!=0;
   p->south_first=(int(flags)&SHT_SOUTH_POLE_FIRST)!=0;
   s->nlat=nlat; s->nlat_2=(nlat+1)/2; s->nphi=nphi; s->nspat=unsigned(nlat)*nphi; s->nlat_padded=nlat;
   std::vector<double> x; gauss(nlat,x,p->w);
   delete[] s->ct; delete[] s->st;
   s->ct=new double[nlat]; s->st=new double[nlat];
   for (int i=0;i<nlat;i++) {
      const int j = p->south_first ? nlat-1-i : i;
      s->ct[i]=x[j]; s->st[i]=std::sqrt((1.0-x[j])*(1.0+x[j]));
   }
   p->plm.assign(size_t(s->nlm)*nlat,0.0);
   for (int im=0; im<=s->mmax; im++) {
      const int m=im*s->mres;
      for (int it=0; it<nlat; it++) {
         const long double z=s->ct[it], sn=sqrtl((1-z)*(1+z));
         long double pmm=sqrtl(1/(4*M_PIl));
         for (int k=1;k<=m;k++) pmm*= (long double)(p->cs)*sqrtl((2*k+1)/(2.0L*k))*sn;
         long double a=pmm, b=0;      /* a = P_l, b = P_{l-1} */
         for (int l=m; l<=s->lmax; l++) {
            p->plm[size_t(verif_shtns_lm(s,l,m))*nlat+it]=double(a);
            const long double L=l+1, M=m;
            const long double c1=sqrtl((4*L*L-1)/(L*L-M*M));
            const long double c0=sqrtl(((L-1)*(L-1)-M*M)/(4*(L-1)*(L-1)-1));
            const long double nx=c1*(z*a-(l==m?0.0L:c0*b));
            b=a; a=nx;
         }
      }
   }
   p->cosm.assign(size_t(s->mmax+1)*nphi,0); p->sinm=p->cosm;
   for (int im=0; im<=s->mmax; im++) for (int ip=0; ip<nphi; ip++) {
      const long k=(long(im)*ip)%nphi; /* angle m*phi with phi = 2 pi ip/(nphi*mres), m=im*mres */
      p->cosm[size_t(im)*nphi+ip]=double(cosl(2*M_PIl*k/nphi));
      p->sinm[size_t(im)*nphi+ip]=double(sinl(2*M_PIl*k/nphi));
   }
   p->grid_set=true;
   return int(s->nspat);
}
int shtns_set_grid_auto(shtns_cfg s, enum shtns_type flags, double eps, int nl_order, int *nlat, int *nphi)
{
   priv(s,false);
   if (*nlat==0) *nlat=((nl_order+1)*s->lmax/2+2)&~1;
   if (*nphi==0) *nphi=(((nl_order+1)*s->mmax+1)+3)&~3;
   return shtns_set_grid(s,flags,eps,*nlat,*nphi);
}
void shtns_destroy(shtns_cfg s)
{
   not_thread_safe();
   Priv *p=priv(s,false);
   p->magic=0;
   delete[] s->li; delete[] s->mi; delete[] s->ct; delete[] s->st;
   delete p; s->priv=nullptr;
   delete s;
}
void shtns_reset(void) {}
void *shtns_malloc(size_t n) { return fftw_malloc(n); }
void shtns_free(void *p) { fftw_free(p); }
int shtns_gauss_wts(shtns_cfg s, double *w) { Priv *p=priv(s,true); int n=(s->nlat+1)/2; for(int i=0;i<n;i++) w[i]=p->w[i]; return n; }

void spat_to_SH_l(shtns_cfg s, double *v, cplx *q, int ltr)
{
   const Priv *p=priv(s,true);
   const size_t nlat=s->nlat, nphi=s->nphi;
   std::vector<double> re(nlat), im_(nlat);
   for (int im=0; im<=s->mmax; im++) {
      for (size_t it=0; it<nlat; it++) {
         double a=0,b=0;
         for (size_t ip=0; ip<nphi; ip++) {
            const double x=v[sidx(s,p,it,ip)];
            a+=x*p->cosm[im*nphi+ip]; b-=x*p->sinm[im*nphi+ip];
         }
         const double c=2*M_PI/nphi*p->w[p->south_first? nlat-1-it : it];
         re[it]=a*c; im_[it]=(im==0)?0.0:b*c;
      }
      const int m=im*s->mres;
      for (int l=m; l<=s->lmax; l++) {
         const size_t lm=verif_shtns_lm(s,l,m);
         double a=0,b=0;
         if (l<=ltr) for (size_t it=0; it<nlat; it++) { const double y=p->plm[lm*nlat+it]; a+=re[it]*y; b+=im_[it]*y; }
         q[lm]=cplx(a,b);
      }
   }
}
void SH_to_spat_l(shtns_cfg s, cplx *q, double *v, int ltr)
{
   const Priv *p=priv(s,true);
   const size_t nlat=s->nlat, nphi=s->nphi;
   std::vector<double> out(s->nspat,0.0), re(nlat), im_(nlat);
   for (int im=0; im<=s->mmax; im++) {
      const int m=im*s->mres;
      std::fill(re.begin(),re.end(),0.0); std::fill(im_.begin(),im_.end(),0.0);
      for (int l=m; l<=std::min<int>(s->lmax,ltr); l++) {
         const size_t lm=verif_shtns_lm(s,l,m);
         const double a=q[lm].real(), b=(im==0)?0.0:q[lm].imag();
         for (size_t it=0; it<nlat; it++) { const double y=p->plm[lm*nlat+it]; re[it]+=a*y; im_[it]+=b*y; }
      }
      const double f=(im==0)?1.0:2.0;
      for (size_t it=0; it<nlat; it++) for (size_t ip=0; ip<nphi; ip++)
         out[sidx(s,p,it,ip)] += f*(re[it]*p->cosm[im*nphi+ip]-im_[it]*p->sinm[im*nphi+ip]);
   }
   for (size_t i=0; i<s->nspat; i++) v[i]=out[i];
}
void spat_to_SH(shtns_cfg s, double *v, cplx *q) { priv(s,true); spat_to_SH_l(s,v,q,s->lmax); }
void SH_to_spat(shtns_cfg s, cplx *q, double *v) { priv(s,true); SH_to_spat_l(s,q,v,s->lmax); }

/* complex field z = x + i y: alm = x_lm + i y_lm, with x_{l,-m} = (-1)^m conj(x_lm) for real x (CS phase) */
void spat_cplx_to_SH(shtns_cfg s, cplx *z, cplx *alm)
{
   const Priv *p=priv(s,true);
   if (s->mres!=1) contract("complex SH requires mres=1");
   std::vector<double> x(s->nspat), y(s->nspat);
   for (size_t i=0;i<s->nspat;i++) { x[i]=z[i].real(); y[i]=z[i].imag(); }
   std::vector<cplx> xl(s->nlm), yl(s->nlm);
   spat_to_SH(s,x.data(),xl.data()); spat_to_SH(s,y.data(),yl.data());
   const cplx I(0,1);
   for (int m=0; m<=s->mmax; m++) {
      const double par=(m%2 && p->cs<0)?-1.0:1.0;
      for (int l=m; l<=s->lmax; l++) {
         const size_t lm=verif_shtns_lm(s,l,m);
         alm[verif_shtns_lm_cplx(s,l,m)]=xl[lm]+I*yl[lm];
         if (m>0) alm[verif_shtns_lm_cplx(s,l,-m)]=par*(std::conj(xl[lm])+I*std::conj(yl[lm]));
      }
   }
}
void SH_to_spat_cplx(shtns_cfg s, cplx *alm, cplx *z)
{
   const Priv *p=priv(s,true);
   if (s->mres!=1) contract("complex SH requires mres=1");
   std::vector<cplx> xl(s->nlm), yl(s->nlm);
   const cplx I(0,1);
   for (int m=0; m<=s->mmax; m++) {
      const double par=(m%2 && p->cs<0)?-1.0:1.0;
      for (int l=m; l<=s->lmax; l++) {
         const size_t lm=verif_shtns_lm(s,l,m);
         const cplx a=alm[verif_shtns_lm_cplx(s,l,m)];
         const cplx b=(m==0)?std::conj(a):par*std::conj(alm[verif_shtns_lm_cplx(s,l,-m)]);
         /* a = x + i y ; b = x - i y */
         if (m==0) { xl[lm]=a.real(); yl[lm]=a.imag(); }
         else { xl[lm]=0.5*(a+b); yl[lm]=(a-b)/(2.0*I); }
      }
   }
   std::vector<double> x(s->nspat), y(s->nspat);
   SH_to_spat(s,xl.data(),x.data()); SH_to_spat(s,yl.data(),y.data());
   for (size_t i=0;i<s->nspat;i++) z[i]=cplx(x[i],y[i]);
}
}
