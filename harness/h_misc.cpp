/* C21 fields, C22 output files, C27 parameter files. */
#include "eomutil.hpp"
#include "io.hpp"
#include <omp.h>
#include <dirent.h>
#include <sys/stat.h>
using namespace V; using O::RB;
struct Quiet { std::streambuf*o; std::ostringstream s; Quiet(){ o=std::cout.rdbuf(s.rdbuf()); } ~Quiet(){ std::cout.rdbuf(o); } };
static double poison(size_t i) { const uint64_t b=0x7ff8dead00000000ull+i; double d; memcpy(&d,&b,8); return d; }
static bool bits(const vec&a,const vec&b) { return a.size()==b.size()&&(a.empty()||!memcmp(a.data(),b.data(),8*a.size())); }
/* ------------------------------------------------------------------ C21 */
static void c21()
{
   std::vector<size_t> sizes; for (size_t s=0;s<=70;s++) sizes.push_back(s); for (size_t s: {127,128,129,255,256,1000,1001,4096,4099,65536,65537}) sizes.push_back(s);
   if (thorough) { for (size_t s=71;s<1200;s++) sizes.push_back(s); sizes.push_back(1<<20); sizes.push_back((1<<21)+13); }
   const std::vector<double> ini={0.0,-0.0,1.5,-3e-310,1e308,NANV,std::numeric_limits<double>::infinity()};
   const int T=thorough?16:8;
   for (size_t s: sizes) for (int t=1;t<=T;t++) { const std::string id=S()<<"C21/size="<<s<<",threads="<<t; if (!take(id)) continue; omp_set_num_threads(t);
      for (double x: ini) for (const char*nm: {"f","p",""}) {
         Quiet q; Field F(nm,s,x); const vec w(s,x); if (F.size!=s||F.name!=nm||!bits(F.n,w)||!bits(F.l,w)||!bits(F.np1,w)||!bits(F.k,w)) fail(S()<<"initial state for init value "<<x<<", name '"<<nm<<"'");
         count(s*31+t+hash_bytes(&x,8),s>0); }
      /* every sequence of write-one-level / shift up to the depth, against a model */
      const int D=s<=4096?4:2; int total=1; for (int i=0;i<D;i++) total*=5;
      for (int h=0;h<total;h++) { Quiet q; Field F("f",s,0.25); vec m[4]; for (auto&v: m) v.assign(s,0.25); int x=h; for (int d=0;d<D;d++) { const int op=x%5; x/=5; transitions++;
            if (op==4) { F.shift(); m[0]=m[2]; } else { vec&v=op==0?F.n:op==1?F.l:op==2?F.np1:F.k; for (size_t i=0;i<s;i++) { v[i]=(i%7==3)?poison(i+d):(i%5==1)?-0.0:double(i)+0.125*h+d*1e5; m[op][i]=v[i]; } }
            if (!bits(F.n,m[0])||!bits(F.l,m[1])||!bits(F.np1,m[2])||!bits(F.k,m[3])||F.size!=s||F.name!="f") { fail(S()<<"history "<<h<<" step "<<d<<" (op "<<op<<"): levels differ from the model"); break; } }
         states++; traces++; }
      /* fewer threads than asked for: within a parallel region, where the levels are used up or the limit is reached */
      for (int lev=1;lev<=3;lev++) for (int out: {2,3,8}) { omp_set_max_active_levels(lev); Quiet q; std::vector<std::unique_ptr<Field>> F; vec w(s); for (size_t i=0;i<s;i++) w[i]=(i%7==3)?poison(i):double(i)-0.5; const vec z(s,0.25); for (int k=0;k<out;k++) { F.emplace_back(new Field("f",s,0.25)); F[k]->np1=w; F[k]->l.assign(s,1); }
         #pragma omp parallel num_threads(out)
         { const int a=omp_get_thread_num(),b=omp_get_num_threads(); for (int k=a;k<out;k+=b) F[k]->shift(); }
         omp_set_max_active_levels(1); for (int k=0;k<out;k++) if (!bits(F[k]->n,w)||!bits(F[k]->np1,w)||!bits(F[k]->k,z)||!bits(F[k]->l,vec(s,1))) { fail(S()<<"shift called by one of "<<out<<" threads, "<<lev<<" active levels"); break; } states++; transitions+=out; }
      count(s*100+t,s>0); sample(id+": every write/shift history");
   }
}
/* ------------------------------------------------------------------ C22 */
static std::string dir;
static std::string slurp(const std::string&f) { std::ifstream i(f,std::ios::binary); std::stringstream s; s<<i.rdbuf(); return s.str(); }
static std::vector<std::string> ls(const std::string&d) { std::vector<std::string> v; DIR*D=opendir(d.c_str()); while (dirent*e=readdir(D)) if (e->d_name[0]!='.') v.push_back(e->d_name); closedir(D); std::sort(v.begin(),v.end()); return v; }
static void clear() { for (auto&f: ls(dir)) unlink((dir+"/"+f).c_str()); }
/* expected content: text lines and numeric rows */
struct Row { bool text; std::string s; std::vector<double> v; double tol; };   /* tol: relative, on the last column */
typedef std::vector<Row> Content;
static void verify(const std::string&got,const Content&c,const std::string&what)
{
   size_t pos=0,n=0;
   for (auto&r: c) { n++;
      const size_t e=got.find('\n',pos); if (e==std::string::npos) { fail(S()<<what<<": ends before line "<<n<<" of "<<c.size()); return; }
      const std::string l=got.substr(pos,e-pos); pos=e+1;
      if (r.text) { if (l!=r.s) { fail(S()<<what<<": line "<<n<<" is '"<<l<<"', expected '"<<r.s<<"'"); return; } continue; }
      size_t p=0; for (size_t k=0;k<r.v.size();k++) { const bool last=k+1==r.v.size(); const size_t q=last?l.size():l.find(',',p); if (q==std::string::npos) { fail(S()<<what<<": line "<<n<<" has too few columns: "<<l); return; }
         const std::string w=l.substr(p,q-p); char*end; const double x=strtod(w.c_str(),&end); const double want=r.v[k];
         const double tol=last?r.tol:1e-12; /* coordinates are computed; 16 digits are checked on exactly known values */
         const bool ok=!w.empty()&&!*end&&(std::isnan(want)?std::isnan(x):std::isinf(want)?x==want:std::fabs(x-want)<=std::max(tol,6e-16)*std::max(std::fabs(want),k<r.v.size()-1?1.0:0.0)+1e-323);
         if (!ok) { fail(S()<<what<<": line "<<n<<" column "<<k<<" is '"<<w<<"', expected "<<want); return; } p=q+1; }
      bump("rows_compared"); }
   if (pos!=got.size()) fail(S()<<what<<": has "<<got.size()-pos<<" bytes more than expected: "<<got.substr(pos,80));
}
static void add(Content&c,const Content&d) { c.insert(c.end(),d.begin(),d.end()); }
static Content head(const char*s) { return {Row{true,s,{},0}}; }
/* smooth data with known spectra: computed by the grid (decided by C10), so that only the writing is judged here */
static Content exp_R(const Grid&g,const Geom&G,const vec&v,bool h) { Content c; if (h) c=head("R,l,log(value)"); vec s(size_t(G.c.nx)*G.c.l,0); g.set_angular_power_spectrum(v,s); for (int i=0;i<G.c.nx;i++) for (int l=0;l<G.c.l;l++) { const double x=s[g.indx_r_l(i,l)]; c.push_back(Row{false,"",{double(G.R[i]),double(l),x<1e-16?-16.0:double(log10l(x))},4e-15}); } return c; }
#ifdef USE_CHEB
static Content exp_n(const Grid&g,const Geom&G,const vec&v,bool h) { Content c; if (h) c=head("n,l,log(value)"); vec s(size_t(G.c.nx)*G.c.l,0); g.set_n_l_coef(v,s); for (int i=0;i<G.c.nx;i++) for (int l=0;l<G.c.l;l++) { const double x=std::fabs(s[g.indx_r_l(i,l)]); c.push_back(Row{false,"",{double(i),double(l),x<1e-16?-16.0:double(log10l(x))},4e-15}); } return c; }
#endif
static Content exp_x(const Geom&G,const vec&v,bool h,double v0,double v1,double r0,double r1) { Content c; if (h) c=head("x,y,z,value"); std::vector<Row> byix(G.c.N()); std::vector<char> in(G.c.N(),0);
   for (int i=0;i<G.c.nx;i++) for (int t=0;t<G.c.nlat;t++) for (int p=0;p<G.c.nphi;p++) { const size_t k=G.ix(i,t,p); const ld R=G.R[i]; if (std::fabs(v[k])>v0&&std::fabs(v[k])<v1&&R>r0&&R<r1) { in[k]=1; byix[k]=Row{false,"",{double(R*cosl(G.ph[p])*sinl(G.th[t])),double(R*sinl(G.ph[p])*sinl(G.th[t])),double(R*cosl(G.th[t])),v[k]},0}; } }
   for (size_t k=0;k<in.size();k++) if (in[k]) c.push_back(byix[k]); return c; }
static vec wave(const Geom&G,int s) { vec v(G.c.N()); auto B=O::basis(G.c.l,G.c.m); for (int i=0;i<G.c.nx;i++) for (int t=0;t<G.c.nlat;t++) for (int p=0;p<G.c.nphi;p++) { ld x=0; for (size_t b=0;b<B.size();b++) if ((b+s)%3!=2) x+=(0.3L+0.1L*((b*7+s)%5))*powl(10,-2.0L*((b*5+s)%4))*(1+0.3L*G.R[i]/(ld)G.c.cl)*O::val(B[b],G.th[t],G.ph[p]); v[G.ix(i,t,p)]=double(x); } return v; }
static void c22()
{
   { const char*d=getenv("V_SCRATCH"); dir=std::string(d?d:"/tmp")+"/csv"+std::to_string(getpid()); mkdir(dir.c_str(),0700); }
   /* plain values: every special value, every position */
   { std::vector<double> sp={0.0,-0.0,1,-1,0.1,1.0/3,2.0/3,1e-300,1e300,4e-320,123456789.123456789,-9.999999999999999e22,0.30000000000000004,1e16,1e17,9007199254740993.0,NANV,std::numeric_limits<double>::infinity(),-std::numeric_limits<double>::infinity(),std::nextafter(1,2),std::nextafter(1,0)};
     for (int e=-320;e<=308;e+=3) sp.push_back(std::strtod((S()<<"1.2345678901234567e"<<e).str().c_str(),0));
     if (take("C22/write/values")) { clear(); for (size_t n=0;n<=sp.size();n++) for (size_t itm: {size_t(n),size_t(1000000007)*n}) { vec v(sp.begin(),sp.begin()+n),v0=v; const std::string f=dir+"/a b.c"; Csv::write(f,itm,v); Content c; for (double x: v0) c.push_back(Row{false,"",{x},0}); const std::string file=f+"_"+std::to_string(itm)+".csv"; verify(slurp(file),c,"write"); if (!bits(v,v0)) fail("write changed its data"); if (ls(dir).size()!=1) fail("write made other files"); unlink(file.c_str()); count(n*3+itm,n>0); } clear(); sample("Csv::write of every prefix of "+std::to_string(sp.size())+" special values"); } }
   std::vector<GC> cs; for (auto&c: shapes()) cs.push_back(c);
   for (auto&c: cs) { const std::string cid="C22/"+c.id(); if (!take(cid)) continue; clear();
      std::unique_ptr<Grid> g(c.make()); Geom G(c);
      for (int s=0;s<4;s++) { if (heavy(c)&&s!=0&&s!=3) continue; vec v=s<3?wave(G,s):noise(c.N(),7); if (s==2) for (auto&x: v) x*=1e-8; const vec v0=v;
         for (int h=0;h<2;h++) for (int k: {0,3,12345}) { const std::string nm=dir+"/n"+std::to_string(s);
            Csv::write_R_psl(*g,nm,h,k,v); verify(slurp(nm+"_RPsl_"+std::to_string(k)+".csv"),exp_R(*g,G,v,h),"write_R_psl"); 
#ifdef USE_CHEB
            Csv::write_n_psl(*g,nm,h,k,v); verify(slurp(nm+"_NPsl_"+std::to_string(k)+".csv"),exp_n(*g,G,v,h),"write_n_psl");
#endif
            if (ls(dir).size()!=size_t(1+CHEB)) fail("files other than the named ones were written"); clear(); count(hash_str(cid)+s*100+h*10+k,true);
            /* thresholds: every pair of values below, including limits that equal a value exactly */
            std::vector<double> th={-1,0,1e300,0.05,0.3}; th.push_back(std::fabs(v[v.size()/2])); th.push_back(std::fabs(v[1])); std::vector<double> rr={-1,0,1e9}; for (int i=0;i+1<c.nx;i+=(c.nx>20?c.nx/5:2)) rr.push_back(double((G.R[i]+G.R[i+1])/2));
            size_t q=0; for (double a: th) for (double b: th) for (double ra: rr) for (double rb: rr) { q++; if ((!thorough||heavy(c)) && q%((k==0&&s==0&&!heavy(c))?3:heavy(c)?397:37)!=1) continue; if ((ra==0&&c.a==0)) continue; Csv::write_x_y_z(*g,nm,h,k,a,b,ra,rb,v); const std::string f=nm+"_XYZ_"+std::to_string(k)+".csv"; verify(slurp(f),exp_x(G,v,h,a,b,ra,rb),S()<<"write_x_y_z "<<a<<".."<<b<<", r "<<ra<<".."<<rb); unlink(f.c_str()); count(hash_str(cid)+q*7919+s+h*3+k,true); }
            if (!bits(v,v0)) fail("writing changed the data"); }
      }
      sample(cid+": every writer, header flag, index and threshold pair");
   }
   /* files of many rows */
   if (!getenv("V_NOLARGE")) for (const GC&c: {GC{CHEB?42:65,20,18,40,40,20,1.8,20},GC{CHEB?257:4097,3,3,5,8,20,1.8,20}}) { const std::string cid="C22/large/"+c.id(); if (!take(cid)) continue; clear(); std::unique_ptr<Grid> g(c.make()); Geom G(c); const vec v=wave(G,0); const std::string nm=dir+"/n"; Quiet q;
      Csv::write_x_y_z(*g,nm,true,1,-1,1e300,-1,1e9,v); verify(slurp(nm+"_XYZ_1.csv"),exp_x(G,v,true,-1,1e300,-1,1e9),"write_x_y_z of a large grid"); Csv::write_R_psl(*g,nm,true,1,v); verify(slurp(nm+"_RPsl_1.csv"),exp_R(*g,G,v,true),"write_R_psl of a large grid"); Csv::write(nm,1,v); { Content e; for (double x: v) e.push_back(Row{false,"",{x},0}); verify(slurp(nm+"_1.csv"),e,"write of a large grid"); }
#ifdef USE_CHEB
      Csv::write_n_psl(*g,nm,true,1,v); verify(slurp(nm+"_NPsl_1.csv"),exp_n(*g,G,v,true),"write_n_psl of a large grid");
#endif
      clear(); count(hash_str(cid),true); sample(cid+": "+std::to_string(c.N())+" points"); }
   /* the name is the caller's: long ones, and ones with characters that mean something elsewhere */
   { const GC c=cs[0]; const std::string cid="C22/names/"+c.id(); if (take(cid)) { clear(); std::unique_ptr<Grid> g(c.make()); Geom G(c); const vec v=wave(G,0); std::vector<std::string> nm,mk; for (int n: {1,60,100,120,127,128,200,230}) nm.push_back(std::string(n,'x')); for (const char*w: {"%s%n%d%f","a b","-","--help","a.csv","f_RPsl_3","a;b","$HOME","*","\"q\"","a\\b","\xc3\xa9","~","_","a_"}) nm.push_back(w);
      std::string deep=dir; for (int k=0;k<16;k++) { deep+="/"+std::string(k%2?200:57,'d'); mkdir(deep.c_str(),0700); mk.push_back(deep); if (k<3||k==7||k==15) for (int n: {1,40,200}) nm.push_back(deep.substr(dir.size()+1)+"/"+std::string(n,'y')); }
      for (auto&w: nm) for (int k: {0,2147483647}) for (int kind=0;kind<(CHEB?4:3);kind++) { const std::string f=dir+"/"+w,file=f+(kind==0?"_":kind==1?"_RPsl_":kind==2?"_XYZ_":"_NPsl_")+std::to_string(k)+".csv"; if (file.size()>4000) continue; { Quiet q; if (kind==0) Csv::write(f,k,v); else if (kind==1) Csv::write_R_psl(*g,f,true,k,v); else if (kind==2) Csv::write_x_y_z(*g,f,true,k,-1,1e300,-1,1e9,v);
#ifdef USE_CHEB
         else Csv::write_n_psl(*g,f,true,k,v);
#endif
         }
         struct stat st; if (stat(file.c_str(),&st)) { fail("no file under the name given: "+w.substr(0,60)+" ("+std::to_string(file.size())+" characters)"); continue; }
         const std::string got=slurp(file); unlink(file.c_str()); if (kind==1) verify(got,exp_R(*g,G,v,true),"write_R_psl"); else if (kind==2) verify(got,exp_x(G,v,true,-1,1e300,-1,1e9),"write_x_y_z"); else if (kind==0) { Content e; for (double x: v) e.push_back(Row{false,"",{x},0}); verify(got,e,"write"); }
#ifdef USE_CHEB
         else verify(got,exp_n(*g,G,v,true),"write_n_psl");
#endif
         count(hash_str(file),true); }
      for (size_t k=mk.size();k--;) if (rmdir(mk[k].c_str())) fail("files other than the named ones were written under a long name"); if (!ls(dir).empty()) fail("files other than the named ones were written"); clear(); sample(cid+": "+std::to_string(nm.size())+" names, up to 2300 characters"); } }
   /* limits that equal a radius exactly: a point on the x axis, where |x| has no rounding */
   for (auto&c: cs) { if (c.nlat%2==0) continue; const std::string cid="C22/limits/"+c.id(); if (!take(cid)) continue; clear(); std::unique_ptr<Grid> g(c.make()); Geom G(c);
      for (int i=0;i<c.nx;i++) { const size_t k=G.ix(i,c.nlat/2,0); const auto x=g->x_y_z(k); const double R=x[0]; if (!(R>0)||std::fabs(x[1])>1e-12*R||std::fabs(x[2])>1e-12*R) { bump("not_on_axis"); continue; }
         vec v(c.N(),0.0); v[k]=1.5; const std::string nm=dir+"/l",f=nm+"_XYZ_0.csv"; struct { double a,b; bool in; } L[]={{R,1e9,false},{0,R,false},{R,R,false},{-1,R,false},{std::nextafter(R,0),1e9,true},{0,std::nextafter(R,1e9),true},{R*(1-1e-13),R*(1+1e-13),true},{R*(1+1e-13),1e9,false},{0,R*(1-1e-13),false}};
         for (auto&l: L) { Csv::write_x_y_z(*g,nm,false,0,1,2,l.a,l.b,v); const std::string t=slurp(f); if ((!t.empty())!=l.in) { fail(S()<<"write_x_y_z: point at |x|="<<R<<(l.in?" left out of ":" written with ")<<"limits "<<l.a<<".."<<l.b); break; } unlink(f.c_str()); }
         count(hash_str(cid)+i,true); bump("radii_equal_to_a_limit"); }
      sample(cid+": limits equal to a radius"); }
   /* magnitudes: the spectra pass through the floor of the logarithm in small steps */
   for (size_t ci: {size_t(0),size_t(3),size_t(20)}) { const GC c=cs[ci]; const std::string cid="C22/magnitudes/"+c.id(); if (!take(cid)) continue; clear(); std::unique_ptr<Grid> g(c.make()); Geom G(c); const vec b=wave(G,0);
      for (int e=-60;e<=(thorough?1600:400);e+=1) { const double sc=pow(10,-e*(thorough?0.0125:0.05)); vec v=b; for (auto&x: v) x*=sc; const std::string nm=dir+"/m"; Csv::write_R_psl(*g,nm,false,0,v); verify(slurp(nm+"_RPsl_0.csv"),exp_R(*g,G,v,false),S()<<"write_R_psl, data scaled by "<<sc);
#ifdef USE_CHEB
         Csv::write_n_psl(*g,nm,false,0,v); verify(slurp(nm+"_NPsl_0.csv"),exp_n(*g,G,v,false),S()<<"write_n_psl, data scaled by "<<sc);
#endif
         clear(); count(hash_str(cid)+e,true); } sample(cid+": magnitudes in small steps"); }
   /* histories of writes: append, never touch other files */
   { std::vector<GC> hs={cs[0],cs[20]}; const int D=thorough?4:3; struct W { int kind,name,k,h; }; std::vector<W> al; for (int kind=0;kind<(CHEB?4:3);kind++) for (int nm=0;nm<2;nm++) for (int k: {0,1}) for (int h=0;h<(kind?2:1);h++) if (!(nm==1&&k==1)) al.push_back({kind,nm,k,h});
     for (auto&c: hs) { std::unique_ptr<Grid> g(c.make()); Geom G(c); const vec v[2]={wave(G,0),wave(G,1)}; size_t tot=1; for (int i=0;i<D;i++) tot*=al.size();
        for (size_t a=0;a<al.size();a++) { const std::string id=S()<<"C22/history/"<<c.id()<<"/"<<a; if (!take(id)) continue;
           for (size_t h=0;h<tot/al.size();h++) for (int pre=0;pre<2;pre++) { if (pre&&h%7) continue; clear(); std::map<std::string,Content> model; if (pre) { for (const char*f: {"a_RPsl_0.csv","b_XYZ_0.csv","a_0.csv"}) { std::ofstream o(dir+"/"+f); o<<"old content\n1,2\n"; model[f]={Row{true,"old content",{},0},Row{true,"1,2",{},0}}; } }
              size_t x=h; for (int d=0;d<D;d++) { const W&w=d==0?al[a]:al[x%al.size()]; if (d) x/=al.size(); const char*nm=w.name?"b":"a"; const std::string base=dir+"/"+nm,ks="_"+std::to_string(w.k)+".csv"; const vec&data=v[d%2]; transitions++;
                 if (w.kind==0) { Csv::write(base,w.k,data); Content e; for (double z: data) e.push_back(Row{false,"",{z},0}); add(model[nm+ks],e); }
                 else if (w.kind==1) { Csv::write_R_psl(*g,base,w.h,w.k,data); add(model[nm+("_RPsl"+ks)],exp_R(*g,G,data,w.h)); }
                 else if (w.kind==2) { Csv::write_x_y_z(*g,base,w.h,w.k,0.01,10,0,1e9,data); add(model[nm+("_XYZ"+ks)],exp_x(G,data,w.h,0.01,10,0,1e9)); }
#ifdef USE_CHEB
                 else { Csv::write_n_psl(*g,base,w.h,w.k,data); add(model[nm+("_NPsl"+ks)],exp_n(*g,G,data,w.h)); }
#endif
              }
              std::vector<std::string> want; for (auto&m: model) want.push_back(m.first); if (ls(dir)!=want) { std::string s; for (auto&f: ls(dir)) s+=f+" "; fail(S()<<"history "<<h<<": directory holds "<<s); }
              for (auto&m: model) verify(slurp(dir+"/"+m.first),m.second,S()<<"history "<<h<<" file "<<m.first); states++; traces++; count(h*100+a,true); }
        } } }
   /* a file that cannot be opened: message with its name, no file, no crash */
   { const GC c=cs[0]; const std::string id="C22/unwritable"; if (take(id)) { std::unique_ptr<Grid> g(c.make()); Geom G(c); vec v=wave(G,0); for (int kind=0;kind<(CHEB?4:3);kind++) { Quiet q; const std::string base=dir+"/nodir/x"; if (kind==0) Csv::write(base,4,v); else if (kind==1) Csv::write_R_psl(*g,base,true,4,v); else if (kind==2) Csv::write_x_y_z(*g,base,true,4,0,1,0,1e9,v);
#ifdef USE_CHEB
            else Csv::write_n_psl(*g,base,true,4,v);
#endif
            const char*suf[4]={"_4.csv","_RPsl_4.csv","_XYZ_4.csv","_NPsl_4.csv"}; if (q.s.str().find(base+suf[kind])==std::string::npos) fail(S()<<"no message naming "<<base<<suf[kind]<<": '"<<q.s.str()<<"'"); count(kind,true); } } }
   clear(); rmdir(dir.c_str());
}
/* ------------------------------------------------------------------ C27 */
struct Par { const char*name; int kind; /* 0 unsigned, 1 signed, 2 double, 3 string */ std::function<std::string(const Params&)> get; };
static std::string hexd(double d) { char b[64]; snprintf(b,64,"%a",d); return b; }
static std::vector<Par> pars()
{
#define U(n,g) {n,0,[](const Params&p){return std::to_string((unsigned long)p.g());}}
#define I(n,g) {n,1,[](const Params&p){return std::to_string(p.g());}}
#define D(n,g) {n,2,[](const Params&p){return hexd(p.g());}}
#define T(n,g) {n,3,[](const Params&p){return p.g();}}
   return {U("nt",nt),U("nx",nx),U("nl",nl),U("nm",nm),U("nlat",nlat),U("nphi",nphi),U("t_step_save",t_step_save),D("dt",dt),D("compactification_length",cl),D("Rmax",Rmax),D("Rmin",Rmin),D("black_hole_mass",bh_mass),D("black_hole_spin",bh_spin),D("km1",km1),D("k0",k0),D("k1",k1),D("k2",k2),D("V2",V2),D("V3",V3),D("V4",V4),T("initial_data_type",id),T("initial_data_direction",initial_data_direction),D("amp",amp),D("rl",rl),D("ru",ru),I("l_ang",l_ang),I("m_ang",m_ang)};
}
typedef std::vector<std::string> Lines;
static std::string pfile;
static void c27check(const Lines&ls_,const std::map<std::string,std::string>&want,const std::vector<Par>&ps,const std::string&what,bool nonl=false,const char*eol="\n")
{
   { std::ofstream o(pfile,std::ios::binary); for (size_t i=0;i<ls_.size();i++) { o<<ls_[i]; if (i+1<ls_.size()||!nonl) o<<eol; } }
   Quiet q; std::unique_ptr<Params> P; try { P.reset(new Params(pfile)); } catch (std::exception&e) { fail(what+": exception "+e.what()); return; }
   for (auto&p: ps) { const std::string&w=want.at(p.name); std::string e; if (p.kind==0) e=std::to_string(strtoul(w.c_str(),0,10)); else if (p.kind==1) e=std::to_string(strtol(w.c_str(),0,10)); else if (p.kind==2) e=hexd(strtod(w.c_str(),0)); else e=w;
      const std::string g=p.get(*P); if (g!=e) { fail(S()<<what<<": "<<p.name<<" is "<<g<<", the file says "<<w<<" ("<<e<<")"); return; } }
   static long n=0; count(hash_str(what)+(n++),true);
}
static void c27()
{
   pfile=std::string(getenv("V_SCRATCH")?getenv("V_SCRATCH"):"/tmp")+"/params"+std::to_string(getpid())+".txt";
   const auto ps=pars(); const size_t n=ps.size(); std::map<std::string,std::string> base; Lines L;
   for (size_t i=0;i<n;i++) { const int k=ps[i].kind; std::string v=k<2?std::to_string(101+i*7):k==2?(S()<<1.0/(i+3)+i).str():std::string("word")+std::to_string(i); base[ps[i].name]=v; L.push_back(std::string(ps[i].name)+" "+v); }
   auto alt=[&](size_t i){ const int k=ps[i].kind; return std::string(k<2?std::to_string(900+i):k==2?(S()<<-7.5-i).str():std::string("other")+std::to_string(i)); };
   /* orders: rotations of both directions, and every pair exchanged */
   for (size_t r=0;r<n;r++) { if (!take(S()<<"C27/order/"<<r)) continue; for (int rev=0;rev<2;rev++) for (int nonl=0;nonl<2;nonl++) { Lines M; for (size_t i=0;i<n;i++) M.push_back(L[(i+r)%n]); if (rev) std::reverse(M.begin(),M.end()); c27check(M,base,ps,S()<<"rotation "<<r<<" reversed "<<rev<<" final newline "<<!nonl,nonl); }
      for (size_t j=0;j<n;j++) { Lines M=L; std::swap(M[r],M[j]); c27check(M,base,ps,S()<<"lines "<<r<<" and "<<j<<" exchanged"); M=L; std::string x=M[r]; M.erase(M.begin()+r); M.insert(M.begin()+j,x); c27check(M,base,ps,S()<<"line "<<r<<" moved to "<<j); } sample(S()<<"orders from line "<<r); }
   /* another line in every position: duplicates (first wins), near names, blanks, lists */
   for (size_t i=0;i<n;i++) { if (!take(std::string("C27/decoys/")+ps[i].name)) continue; const std::string nm=ps[i].name,a=alt(i);
      std::string up=nm; for (auto&c: up) c=islower(c)?toupper(c):tolower(c);
      Lines dec={"x"+nm+" "+a,nm+"x "+a,nm+"_ "+a,nm+"0 "+a,"_"+nm+" "+a," "+nm+" "+a,"  "+nm+" "+a,nm+"\t"+a,"\t"+nm+" "+a,nm+"="+a,nm+","+a,nm+": "+a,nm+"= "+a,"other "+nm+" "+a,"# "+nm+" "+a,"#"+nm+" "+a,nm+nm+" "+a,up+" "+a,"",std::string(" "),"   ","x","list 1 2 3 4",nm+"_list "+a+" "+a,"\""+nm+"\" "+a,a+" "+nm,nm.substr(0,nm.size()-1)+"~ "+a,nm.substr(1)+"~ "+a,"use_cheb True","computer home",std::string(5000,'z')+" "+a,nm+std::string(5000,'z')+" "+a};
      for (auto&d: dec) for (size_t pos=0;pos<=n;pos++) { if (!thorough && pos!=0 && pos!=i && pos!=i+1 && pos!=n && (pos+i)%9) continue; Lines M=L; M.insert(M.begin()+pos,d); c27check(M,base,ps,S()<<"line '"<<d.substr(0,60)<<"' at "<<pos,pos%2); }
      /* every prefix of the name followed by a space: a parameter of its own or unknown */
      for (size_t k=1;k<nm.size();k++) { const std::string pre=nm.substr(0,k); if (base.count(pre)) continue; Lines M=L; M.insert(M.begin(),pre+" "+a); c27check(M,base,ps,"prefix "+pre); } for (size_t k=1;k<nm.size();k++) { const std::string suf=nm.substr(k); if (base.count(suf)) continue; Lines M=L; M.insert(M.begin(),suf+" "+a); c27check(M,base,ps,"suffix "+suf); }
      for (size_t pos=0;pos<=n;pos++) { Lines M=L; M.insert(M.begin()+pos,nm+" "+a); auto w=base; if (pos<=i) w[nm]=a; c27check(M,w,ps,S()<<"duplicate of "<<nm<<" at "<<pos,pos%2); }
      /* extra words and spaces on its own line, carriage returns */
      for (const std::string&t: {nm+" "+base[nm]+" "+a,nm+"  "+base[nm],nm+"    "+base[nm]+"   ",nm+" \t"+base[nm]+"\t"+a,nm+" "+base[nm]+" # "+nm+" "+a}) { Lines M=L; M[i]=t; c27check(M,base,ps,"line '"+t+"'"); }
      c27check(L,base,ps,"carriage returns",false,"\r\n");
      sample(nm+": decoy lines in every position");
   }
   /* long lines: another line whose tail, from any offset on, reads like a parameter's own line; the parameter's own line made long */
   { std::vector<size_t> off; for (size_t o=1;o<=(thorough?5000:1100);o++) off.push_back(o); for (size_t b: {2048,4096,8192,16384,65536,131072}) for (int d=-3;d<=3;d++) off.push_back(b+d);
     for (size_t blk=0;blk<off.size();blk+=50) { if (!take(S()<<"C27/long/"<<blk)) continue;
        for (size_t q=blk;q<std::min(off.size(),blk+50);q++) { const size_t o=off[q];
           for (int w=0;w<2;w++) { const size_t i=(q*(w?11:1)+w*5)%n; const std::string own=std::string(ps[i].name)+" "+alt(i);
              Lines M=L; M.insert(M.begin()+(w?i:0),std::string(o,w?'#':'z')+own); c27check(M,base,ps,S()<<"a line of "<<o<<" characters followed by '"<<own<<"'");
              M=L; M.insert(M.begin(),"comment"+std::string(o>8?o-8:0,' ')+(w?" ":"")+own+" tail"); c27check(M,base,ps,S()<<"a comment of "<<o<<" characters followed by '"<<own<<"'");
              M=L; M[i]+=std::string(" ")+std::string(o,w?'y':' ')+own; c27check(M,base,ps,S()<<ps[i].name<<"'s own line with "<<o<<" more characters and '"<<own<<"'"); 
              if (q%4==0||o<300) { M=L; M[i]=std::string(ps[i].name)+std::string(o,' ')+base[ps[i].name]; c27check(M,base,ps,S()<<ps[i].name<<" with its value "<<o<<" spaces away"); } }
           if (q%4==0||o<300) for (size_t i=0;i<n;i++) if (ps[i].kind==3) { auto w=base; w[ps[i].name]=std::string(o,'v'); Lines M=L; M[i]=std::string(ps[i].name)+" "+w[ps[i].name]; c27check(M,w,ps,S()<<ps[i].name<<" with a value of "<<o<<" characters"); } 
           bump("long_lines"); }
        sample(S()<<"long lines from offset "<<off[blk]); } }
   /* many lines: a parameter file of any length */
   for (size_t k: {100,1000,20000}) { if (!take(S()<<"C27/many/"<<k)) continue; for (int w=0;w<3;w++) { Lines M; for (size_t i=0;i<k;i++) M.push_back(S()<<"unknown_"<<i<<" "<<i); if (w==0) M.insert(M.end(),L.begin(),L.end()); else if (w==1) M.insert(M.begin(),L.begin(),L.end()); else for (size_t i=0;i<n;i++) M.insert(M.begin()+(i*37)%k,L[i]); c27check(M,base,ps,S()<<k<<" other lines, arrangement "<<w); } }
   /* values as text */
   std::vector<std::string> iv={"0","1","2","007","+5","10","2147483647","2147483646","65536","1000000","99999"},dv={"0","-0","0.0","-0.0","1","-1","1.","+1.5",".5","-.5","1e0","1E0","1e+10","1e-10","0.1","0.2","0.30000000000000004","1e22","1e23","9007199254740993","9007199254740992.5","123456789012345678901234567890","0.1000000000000000055511151231257827021181583404541015625","4.35","2.2250738585072014e-308","2.2250738585072011e-300","1.7976931348623157e308","1.7976931348623157e+308","179769313486231570000000000000000000","5e-300","1e-300","0x1p-3","0x1.8p1","6.02214076e23","00012.5","1e05","1e-05","1E-5","8.5e-06","1.0e2","3.141592653589793","2.718281828459045","1e16","12345678.9e-8","2.5e-3","1e2","100000000000000000000","0.000001","1e-6"};
   uint64_t s=88172645463325252ull; for (int k=0;k<(thorough?20000:1500);k++) { s^=s<<13; s^=s>>7; s^=s<<17; uint64_t b=s; double d; memcpy(&d,&b,8); if (!std::isfinite(d)||std::fabs(d)<1e-300) continue; char t[64]; snprintf(t,64,"%.17g",d); dv.push_back(t); if (k%3==0) { snprintf(t,64,"%.15g",d); dv.push_back(t); } }
   for (int e=-300;e<=300;e+=(thorough?1:7)) { char t[64]; snprintf(t,64,"%.17g",std::ldexp(1.0,e)); dv.push_back(t); dv.push_back(S()<<"1e"<<e); dv.push_back(S()<<"9.999999999999999e"<<e); }
   std::vector<std::string> sv={"ingoing","outgoing","time_symmetric","compact_pulse","x","1","-","in,going","\"ingoing\"","Ingoing","a=b"};
   for (size_t i=0;i<n;i++) { if (!take(std::string("C27/values/")+ps[i].name)) continue; std::vector<std::string> vals=ps[i].kind==0?iv:ps[i].kind==2?dv:ps[i].kind==3?sv:iv; if (ps[i].kind==1) for (auto x: {"-1","-2147483648","-12"}) vals.push_back(x);
      for (auto&v: vals) { Lines M=L; M[i]=std::string(ps[i].name)+" "+v; auto w=base; w[ps[i].name]=v; c27check(M,w,ps,std::string(ps[i].name)+" = "+v,v.size()%2); } sample(S()<<ps[i].name<<": "<<vals.size()<<" texts"); }
   unlink(pfile.c_str());
}
int main(int argc,char**argv) { init(argc,argv); if (prop=="C21") c21(); else if (prop=="C22") c22(); else if (prop=="C27") c27(); return finish(); }
