/* C35: this process (one layout) against its peer (the other layout, same case, started with the
 * same arguments); every result is compared at the same physical point. */
#include "eomutil.hpp"
#include "io.hpp"
#include "sphere.hpp"
#include <memory>
#include <dirent.h>
using namespace V;
namespace {
struct Quiet { std::streambuf*o; std::ostringstream s; Quiet(){ o=std::cout.rdbuf(s.rdbuf()); } ~Quiet(){ std::cout.rdbuf(o); } };
FILE*peer=nullptr, *emitf=nullptr;
/* one result: named, with the relative tolerance that rounding needs; canonical order */
void result(const std::string&id,const vec&v,double tol,double floor=0)
{
   const uint64_t h=hash_str(id), n=v.size();
   if (emitf) { fwrite(&h,8,1,emitf); fwrite(&n,8,1,emitf); fwrite(v.data(),8,n,emitf); fflush(emitf); return; }
   if (!peer) return;
   uint64_t h2=0,n2=0; if (fread(&h2,8,1,peer)!=1||fread(&n2,8,1,peer)!=1) { fail(id+": the build with the other layout ended here"); fclose(peer); peer=nullptr; return; }
   if (h2!=h||n2>100000000) { fail(id+": the build with the other layout does something else"); pclose(peer); peer=nullptr; return; }
   vec w(n2); if (n2&&fread(w.data(),8,n2,peer)!=n2) { fail(id+": short answer"); return; }
   if (n2!=n) { fail(S()<<id<<": "<<n<<" values, "<<n2<<" with the other layout"); return; }
   double m=floor; for (double x: w) if (std::isfinite(x)) m=std::max(m,std::fabs(x)); bump("results_compared"); for (double x: w) if (!std::isfinite(x)) { bump("results_not_finite"); break; }
   double worst=0; for (size_t i=0;i<n;i++) { if (v[i]==w[i]||(std::isnan(v[i])&&std::isnan(w[i]))) continue; const double d=std::fabs(v[i]-w[i]); if (!(d<=tol*m)) { fail(S()<<id<<": canonical index "<<i<<" is "<<v[i]<<", with the other layout "<<w[i]); return; } worst=std::max(worst,d/(tol*m)); }
   note("worst_difference_over_tolerance",worst); bump("values_compared",long(n)); transitions++;
   count(hash_vec(v,h),nonzero(v));
}
struct Map3 { /* physical index -> storage index, from the coordinates that the grid reports */
   std::vector<size_t> k; size_t N; bool ok=true;
   Map3(const Grid&g,const Geom&G):N(G.c.N()) {
      k.assign(N,size_t(-1)); std::vector<char> used(N,0);
      auto nearest=[](const std::vector<ld>&v,double x)->long { long b=-1; ld d=1e9; for (size_t i=0;i<v.size();i++) if (fabsl(v[i]-x)<d) { d=fabsl(v[i]-x); b=long(i); } return b; };
      for (size_t q=0;q<N;q++) { const std::vector<double> x=g.R_th_ph(q); if (x.size()!=3) { ok=false; break; } const long i=nearest(G.R,x[0]),t=nearest(G.th,x[1]),p=nearest(G.ph,x[2]); const size_t c=(size_t(i)*G.c.nlat+t)*G.c.nphi+p; if (k[c]!=size_t(-1)) { ok=false; break; } k[c]=q; }
      if (!ok) fail("the coordinates reported for the storage indices are not the grid points, each once");
   }
   vec put(const vec&canon) const { vec v(N); for (size_t c=0;c<N;c++) v[k[c]]=canon[c]; return v; }
   vec get(const vec&v) const { vec c(N); if (v.size()!=N) return v; for (size_t i=0;i<N;i++) c[i]=v[k[i]]; return c; }
};
void operators(const GC&c,const std::string&id,const Grid&g,const Geom&G,const Map3&M,const std::string&what,const vec&canon)
{
   const vec v=M.put(canon); const size_t N=c.N(); vec o;
   auto op=[&](const char*n,void(Grid::*m)(const vec&,vec&) const,double tol){ o.assign(N,0.5); (g.*m)(v,o); result(id+"/"+what+"/"+n,M.get(o),tol,1e-13); };
   op("partial_phi",&Grid::set_partial_phi,1e-11); op("spherical_lap",&Grid::set_spherical_lap,1e-11); op("sphereX",&Grid::set_sphereX,1e-10); op("partial_R",&Grid::set_partial_R,1e-10); op("partial_r",&Grid::set_partial_r,1e-10); op("partial2_r",&Grid::set_partial2_r,1e-9);
   o=v; g.filter(o); result(id+"/"+what+"/filter",M.get(o),1e-11);
   vec s(size_t(c.nx)*g.nl(),0); g.set_angular_power_spectrum(v,s); result(id+"/"+what+"/power",s,1e-11,1e-25);
#ifdef USE_CHEB
   s.assign(size_t(c.nx)*g.nl(),0); g.set_n_l_coef(v,s); result(id+"/"+what+"/n_l",s,1e-11,1e-25);
#endif
   result(id+"/"+what+"/total_variation",{g.total_variation(v)},1e-11);
   vec f2=canon,p2(N); for (size_t i=0;i<N;i++) { f2[i]+=0.01*canon[(i*7+1)%N]; p2[i]=canon[(i*3+2)%N]; }
   result(id+"/"+what+"/residual",{g.norm_indep_res(0.01,v,M.put(f2),M.put(p2))},1e-9);
   for (int t=0;t<c.nlat;t++) for (int p=0;p<c.nphi;p++) if ((t+p)%2==0) { vec r(c.nx); g.get_row_R(t,p,v,r); result(S()<<id<<"/"<<what<<"/row_R"<<t<<","<<p,r,0); }
}
void sphere_ops(const GC&c,const std::string&id)
{
   Geom G(c); Sphere s(c.l,c.m,c.nlat,c.nphi); const size_t n=size_t(c.nlat)*c.nphi;
   auto get=[&](const vec&v){ vec o(n); for (int t=0;t<c.nlat;t++) for (int p=0;p<c.nphi;p++) o[size_t(t)*c.nphi+p]=v[G.ia(t,p)]; return o; };
   for (auto&b: O::basis(c.l,c.m)) { vec v(n); for (int t=0;t<c.nlat;t++) for (int p=0;p<c.nphi;p++) v[G.ia(t,p)]=double(O::val(b,G.th[t],G.ph[p]));
      const std::string w=S()<<id<<"/Y"<<b.l<<","<<b.m<<","<<b.part; std::vector<cplx> y(s.nYlm()); s.to_Ylm(v,y); vec o; for (auto&z: y) { o.push_back(z.real()); o.push_back(z.imag()); } result(w+"/to_Ylm",o,1e-11,1e-3);
      vec b2(n); s.to_Sph(y,b2); result(w+"/to_Sph",get(b2),1e-11,1e-3); vec z=v; s.filter(z); result(w+"/filter",get(z),1e-11,1e-3);
      auto op=[&](const char*nm,void(Sphere::*m)(const vec&,vec&) const){ vec o(n); (s.*m)(v,o); result(w+"/"+nm,get(o),1e-11,1e-3); };
      op("laplace_beltrami",&Sphere::laplace_beltrami); op("partial_phi",&Sphere::partial_phi); op("sphereX",&Sphere::sphereX);
      for (int up=0;up<2;up++) { std::vector<cplx> r(n); if (up) s.raise(v,r); else s.lower(v,r); vec re(n),im(n); for (size_t i=0;i<n;i++) { re[i]=r[i].real(); im[i]=r[i].imag(); } re=get(re); im=get(im); re.insert(re.end(),im.begin(),im.end()); result(w+(up?"/raise":"/lower"),re,1e-11,1e-3); } 
      if (b.part==0) result(w+"/compute_ylm",get(s.compute_ylm(b.l,b.m)),1e-12,1e-3); }
}
vec power_rows(const std::string&f) { vec r; std::ifstream i(f); std::string l; std::getline(i,l); while (std::getline(i,l)) { for (char&ch: l) if (ch==',') ch=' '; std::istringstream s(l); double x; while (s>>x) r.push_back(x); } return r; }
}
int main(int argc,char**argv)
{
   init(argc,argv); if (const char*e=getenv("V_EMIT")) { emitf=fopen(e,"w"); }
   else if (const char*p=getenv("V_PEER")) { const char*d=getenv("V_SCRATCH"); const std::string fifo=S()<<(d?d:"/tmp")<<"/peer.fifo"; std::string cmd=S()<<"mkfifo "<<fifo<<"; V_EMIT="<<fifo<<" "<<p<<" --prop C35 --tier "<<tier<<" --out /dev/null"; if (!only.empty()) cmd+=" --only '"+only+"'"; else cmd+=S()<<" --shard "<<shard<<"/"<<nshards; cmd+=" >/dev/null & cat "+fifo+"; wait"; peer=popen(cmd.c_str(),"r"); }
   else { fprintf(stderr,"no peer\n"); return 7; }
   struct K { Cpl k; double M,a; const char*dir; }; std::vector<K> ks={{{0,1,0,0,0,0,0},1,0,"ingoing"},{{0,1,0,0,1,0,0},1,0.7,"outgoing"},{{0.2,1,0.1,0.3,0.4,-0.2,0.5},0.5,-0.4,"time_symmetric"}}; if (thorough) ks.push_back({{0,0,1,0,0,1,0},1,1,"ingoing"});
   std::vector<GC> all=shapes(); for (int q=0;q<3;q++) { const int A[3][4]={{1,0,4,1},{1,1,2,6},{2,0,3,2}}; all.push_back({CHEB?4:8,A[q][0],A[q][1],A[q][2],A[q][3],20,1.8,20}); }
   long nshape=0;
   for (auto c: all) { const std::string gid="C35/"+c.id(); const bool many=(nshape++%3==0)||thorough;
      { const std::string id=gid+"/operators"; if (take(id)) { std::unique_ptr<Grid> g(c.make()); Geom G(c); Map3 M(*g,G); if (M.ok) { const size_t N=c.N();
         { vec x; for (size_t i=0;i<N;i++) { const auto a=g->R_th_ph(M.k[i]),b=g->x_y_z(M.k[i]); x.insert(x.end(),a.begin(),a.end()); for (double z: b) x.push_back(std::min(std::max(z,-1e6),1e6)); } result(id+"/coordinates",x,1e-13); }
         { vec x; for (int i=0;i<c.nx;i++) for (int t=0;t<c.nlat;t++) for (int p=0;p<c.nphi;p++) { auto a=g->R_th_ph(i,t,p); x.insert(x.end(),a.begin(),a.end()); } for (int t=0;t<c.nlat;t++) for (int p=0;p<c.nphi;p++) { auto a=g->th_ph(t,p); x.insert(x.end(),a.begin(),a.end()); } result(id+"/coordinates by index",x,1e-13); }
         for (int l=0;l<=c.l;l++) for (int m=0;m<=std::min(l,c.m);m++) { vec y=g->compute_ylm(l,m),z; Map3&mm=M; (void)mm; for (int t=0;t<c.nlat;t++) for (int p=0;p<c.nphi;p++) z.push_back(y[G.ia(t,p)]); result(S()<<id<<"/ylm"<<l<<","<<m,z,1e-12,1e-3); }
         size_t nb=0; for (auto&b: O::basis(c.l,c.m)) { if (!keep(c,b,nb++)) continue; vec v(N); for (int i=0;i<c.nx;i++) for (int t=0;t<c.nlat;t++) for (int p=0;p<c.nphi;p++) v[(size_t(i)*c.nlat+t)*c.nphi+p]=double((1+0.3L*i+0.01L*i*i)*O::val(b,G.th[t],G.ph[p])); operators(c,id,*g,G,M,S()<<"Y"<<b.l<<","<<b.m<<","<<b.part,v); }
         for (int k=0;k<3;k++) operators(c,id,*g,G,M,S()<<"noise"<<k,noise(N,11+k));
         if (N<=400) for (size_t q=0;q<N;q+=(many||N<=60?1:5)) { vec v(N,0); v[q]=1; operators(c,id,*g,G,M,S()<<"point"<<q,v); }
         } sample(id); } }
      if (many) { const std::string id=gid+"/sphere"; if (take(id)) { Quiet q; sphere_ops(c,id); } }
      if (many&&c.cl==20) for (size_t kk=0;kk<ks.size();kk++) { const K&k=ks[kk]; const std::string id=S()<<gid<<"/evolution "<<kk; if (!take(id)) continue;
         GC c2=c; c2.a=compactify(horizon(k.M,k.a),20); c2.b=20; Quiet qq; std::unique_ptr<Grid> g(c2.make()); Geom G(c2); Map3 M(*g,G); if (!M.ok) continue; const size_t N=c2.N();
         PV pv; pv.grid(c2).cpl(k.k).set("black_hole_mass",k.M).set("black_hole_spin",k.a).set("dt",0.002).set("rl",2.0).set("ru",40).set("amp",0.3).set("initial_data_direction",k.dir); 
         for (int l=0;l<=c2.l;l++) for (int m=0;m<=std::min(l,c2.m);m++) { if (heavy(c2) && !((l==c2.l||l==2)&&(m==0||m==c2.m||m==l))) continue; pv.set("l_ang",l).set("m_ang",m); Params P=pv.make(); Scalar_eom e(*g,P);
            Field F("f",N,0),Q("p",N,0); ID::compact_pulse(P,*g,F.n,Q.n); const std::string w=S()<<id<<"/"<<l<<","<<m; result(w+"/f",M.get(F.n),1e-12,1e-9); result(w+"/p",M.get(Q.n),1e-12,1e-9);
            for (int data=0;data<2;data++) { if (data) { F.n=M.put(noise(N,31+l)); Q.n=M.put(noise(N,41+m)); for (auto&x: F.n) x*=0.3; }
               vec a(N),b(N),rho(N); e.set_k(*g,F.n,Q.n,a,b); result(S()<<w<<"/"<<data<<"/set_k f",M.get(a),1e-9,1e-9); result(S()<<w<<"/"<<data<<"/set_k p",M.get(b),1e-9,1e-9);
               for (int st=0;st<3;st++) { e.time_step(*g,F,Q); result(S()<<w<<"/"<<data<<"/step "<<st<<" f",M.get(F.np1),1e-8,1e-9); result(S()<<w<<"/"<<data<<"/step "<<st<<" p",M.get(Q.np1),1e-8,1e-9); e.set_rho(*g,F.np1,Q.np1,rho); result(S()<<w<<"/"<<data<<"/rho "<<st,M.get(rho),1e-8,1e-9); F.shift(); Q.shift(); }
               const char*d=getenv("V_SCRATCH"); const std::string f=S()<<(d?d:"/tmp")<<"/"<<(emitf?"a":"b"); Csv::write_R_psl(*g,f,true,3,F.n); vec r=power_rows(f+"_3.csv"); /* R,l,log: compare the power where it is above rounding */ vec rr; double mx=1e-300; for (size_t i=2;i<r.size();i+=3) mx=std::max(mx,std::pow(10,r[i])); for (size_t i=0;i<r.size();i++) rr.push_back(i%3==2?std::pow(10,r[i])/mx:i%3==0?r[i]/20:r[i]/100); result(S()<<w<<"/"<<data<<"/file",rr,1e-7); unlink((f+"_3.csv").c_str()); } } }
   }
   if (emitf) { fclose(emitf); return 0; }
   if (peer) { char x; if (only.empty()&&fread(&x,1,1,peer)==1) { fail("the build with the other layout does more"); } pclose(peer); }
   return finish();
}
