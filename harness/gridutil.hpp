/* Grid configurations and independent geometry shared by the grid, equation and layout harnesses. */
#ifndef VERIF_GRIDUTIL_HPP
#define VERIF_GRIDUTIL_HPP
#include "common.hpp"
#include "sph.hpp"
#include "grid.hpp"
#include <memory>
#ifdef USE_CHEB
typedef Cheb Radial; static const bool CHEB=true;
#else
typedef FD Radial; static const bool CHEB=false;
#endif
#ifdef SHTNS_CONTIGUOUS_LONGITUDES
static const bool THETA_FAST=true;
#else
static const bool THETA_FAST=false;
#endif
namespace V {
typedef std::vector<double> vec;
static const double NANV=std::numeric_limits<double>::quiet_NaN();
struct GC { int nx,l,m,nlat,nphi; double cl,a,b;
   std::string id() const { return S()<<"nx="<<nx<<",l="<<l<<",m="<<m<<",nlat="<<nlat<<",nphi="<<nphi<<",cl="<<cl<<",R="<<a<<".."<<b; }
   size_t N() const { return size_t(nx)*nlat*nphi; }
   Grid *make() const { return new Grid(cl,a,b,nx,l,m,nlat,nphi); } };
/* own copy of the layout: what C07/C11 state */
struct Geom {
   GC c; std::vector<ld> th,w,ph,R;
   explicit Geom(const GC&g):c(g) {
      std::vector<ld> x; O::gauss(c.nlat,x,w); for (ld z: x) th.push_back(acosl(z));
      for (int j=0;j<c.nphi;j++) ph.push_back(2*M_PIl*j/c.nphi);
      for (int i=0;i<c.nx;i++) R.push_back(CHEB ? ((ld)c.a+c.b)/2+((ld)c.b-c.a)/2*cosl(M_PIl*i/(c.nx-1)) : (ld)c.a+((ld)c.b-c.a)*i/(c.nx-1));
   }
   size_t ix(int i,int t,int p) const { return THETA_FAST ? (size_t(i)*c.nphi+p)*c.nlat+t : (size_t(i)*c.nlat+t)*c.nphi+p; }
   size_t ia(int t,int p) const { return THETA_FAST ? size_t(p)*c.nlat+t : size_t(t)*c.nphi+p; }
   bool inf(int i) const { return c.b==c.cl && (CHEB ? i==0 : i==c.nx-1); }
   ld r(int i) const { return R[i]/(1-R[i]/(ld)c.cl); }
   ld invr(int i) const { return inf(i)?0:1/r(i); }
};
static inline std::vector<GC> shapes(bool small_only=false,bool huge_too=false)
{
   struct A { int l,m,nlat,nphi; };
   std::vector<A> as={{1,0,2,1},{1,1,2,3},{1,1,3,4},{2,2,3,5},{2,1,5,3},{2,2,3,8},{3,3,4,7},{3,2,7,5}};
   if (!small_only) { as.push_back({4,4,6,12}); as.push_back({5,5,8,12}); as.push_back({5,3,12,8}); }
   if (thorough) { as.push_back({6,6,7,13}); as.push_back({8,8,16,24}); as.push_back({8,4,20,12}); }
   std::vector<int> nx=CHEB?std::vector<int>{3,4,5,7,8,12,17}:std::vector<int>{8,9,10,11,13,17};
   if (thorough) { nx.push_back(24); nx.push_back(33); }
   struct D { double cl,a,b; }; std::vector<D> ds={{20,1.8,20},{10,2,7},{1,0.5,1}};
   std::vector<GC> r; size_t k=0;
   for (auto&a: as) for (int n: nx) { for (size_t q=0;q<ds.size();q++) if (thorough||q==k%3||(n<=9&&a.l<=2)) r.push_back({n,a.l,a.m,a.nlat,a.nphi,ds[q].cl,ds[q].a,ds[q].b}); k++; }
   /* larger ones: the angular grid of the run script, long radial lines, more than a machine vector or a cache line each way */
   if (!small_only && !getenv("V_NOLARGE")) {
      r.push_back({CHEB?4:8,20,18,40,40,20,1.8,20}); r.push_back({CHEB?5:9,12,10,18,36,20,1.8,20}); r.push_back({CHEB?9:12,3,3,33,17,10,2,7}); r.push_back({CHEB?7:10,2,2,5,65,20,1.8,20});
      r.push_back({CHEB?65:129,2,2,3,5,20,1.8,20}); r.push_back({CHEB?129:1025,1,1,2,3,10,2,7}); r.push_back({CHEB?33:40,2,1,4,3,20,1.8,20});
      if (huge_too||thorough) { r.push_back({CHEB?257:8193,1,0,2,1,20,1.8,20}); r.push_back({CHEB?42:65,20,18,40,40,20,1.8,20}); }
      if (thorough) { r.push_back({CHEB?9:17,40,30,48,64,20,1.8,20}); r.push_back({CHEB?128:2049,2,1,3,4,1,0.5,1}); }
   }
   return r;
}
static inline bool huge(const GC&c) { return c.N()>40000||c.nx>2000; }   /* size thresholds: few inputs */
/* on large grids: the lowest and the highest modes, and every so many of the others */
static inline bool heavy(const GC&c) { return c.N()>2500; }
static inline bool keep(const GC&c,const O::RB&b,size_t k) { return !heavy(c) || b.l<=1 || (b.l>=c.l-1 && (b.m>=c.m-1||b.m==0)) || k%(huge(c)?97:c.N()>5000?23:7)==0; }
/* an op on grid functions, with the side conditions: input intact, output contents irrelevant */
static inline vec gap(const std::function<void(const vec&,vec&)>&op,const vec&v,const char*what,size_t nout)
{
   vec in=v,o1(nout,NANV),o2(nout,-7e10); op(in,o1); same_bits(in,v,std::string(what)+": input modified");
   op(in,o2); same_bits(o2,o1,std::string(what)+": depends on previous output contents"); bump("operator_calls",2); return o1;
}
/* deterministic dense data */
static inline vec noise(size_t n,uint64_t s) { vec v(n); s=s*6364136223846793005ull+1442695040888963407ull; for (size_t i=0;i<n;i++) { s^=s<<13; s^=s>>7; s^=s<<17; v[i]=double(int64_t(s>>33))/double(1ull<<30)-1; } return v; }
}
#endif
