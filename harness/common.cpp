#include "common.hpp"
#include <map>
#include <algorithm>
namespace V {
std::string prop, tier="quick", only, fam;
int shard=0, nshards=1;
bool thorough=false;
long evals=0, states=0, transitions=0, traces=0, nfail=0;
std::ostringstream captured;
static std::string outpath;
static char cur[4096]="(start)";
static int outfd=-1;
static std::unordered_set<uint64_t> seen;
static long distinct=0;
static std::vector<std::string> samples;
static std::map<std::string,double> notes;
static std::map<std::string,long> bumps;
static long unit=0;
static int case_limit=60;
static std::map<std::string,int> failcases;

static void put(const char *s) { if (outfd>=0) { ssize_t r=write(outfd,s,strlen(s)); (void)r; } }
static std::string esc(const std::string &s) { std::string r; for (char c: s) { if (c=='"'||c=='\\') { r+='\\'; r+=c; } else if ((unsigned char)c<32) r+=' '; else r+=c; } return r; }

static void on_signal(int sig)
{
   char b[4600];
   snprintf(b,sizeof b,"%s\t%s\tsignal %d\n", (sig==SIGTERM||sig==SIGALRM)?"HANG":"CRASH", cur, sig);
   put(b);
   _exit(3);
}
static void on_terminate() {
   std::string what="uncaught exception";
   try { if (std::current_exception()) std::rethrow_exception(std::current_exception()); }
   catch (std::exception &e) { what=std::string("uncaught exception: ")+e.what(); }
   catch (...) {}
   char b[4600]; snprintf(b,sizeof b,"CRASH\t%s\t%s\n",cur,what.c_str()); put(b); _exit(3);
}
extern "C" void __sanitizer_set_death_callback(void(*)()) __attribute__((weak));
static void on_sanitizer() { char b[4600]; snprintf(b,sizeof b,"CRASH\t%s\tsanitizer report or failed assertion\n",cur); put(b); }
void init(int argc, char **argv)
{
   if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_sanitizer);
   for (int i=1;i<argc;i++) {
      std::string a=argv[i];
      auto nx=[&]{ return std::string(i+1<argc?argv[++i]:""); };
      if (a=="--prop") prop=nx();
      else if (a=="--tier") tier=nx();
      else if (a=="--only") only=nx();
      else if (a=="--fam") fam=nx();
      else if (a=="--out") outpath=nx();
      else if (a=="--shard") { sscanf(nx().c_str(),"%d/%d",&shard,&nshards); }
   }
   thorough=(tier=="thorough");
   if (const char *l=getenv("V_CASE_LIMIT")) case_limit=atoi(l);
   if (!outpath.empty()) outfd=open(outpath.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0644);
   else outfd=dup(1);
   static char alt[1<<16]; stack_t ss={}; ss.ss_sp=alt; ss.ss_size=sizeof alt; sigaltstack(&ss,nullptr);
   struct sigaction sa={}; sa.sa_handler=on_signal; sa.sa_flags=SA_ONSTACK;
   for (int s: {SIGSEGV,SIGBUS,SIGFPE,SIGILL,SIGABRT,SIGTERM,SIGALRM}) sigaction(s,&sa,nullptr);
   std::set_terminate(on_terminate);
   std::cout.rdbuf(captured.rdbuf());
}
bool take(const std::string &id)
{
   const long k=unit++;
   if (!only.empty()) { if (only!=id) return false; }
   else if (k%nshards!=shard) return false;
   snprintf(cur,sizeof cur,"%s",id.c_str());
   alarm(case_limit);
   captured.str(""); captured.clear();
   return true;
}
void fail(const std::string &detail)
{
   nfail++;
   if (failcases[cur]++ || failcases.size()>20) return;
   put((std::string("FAIL\t")+cur+"\t"+esc(detail).substr(0,1500)+"\n").c_str());
}
void count(uint64_t h, bool nontrivial)
{
   evals++;
   if (nontrivial && seen.size()<6000000 && seen.insert(h).second) distinct++;
}
void sample(const std::string &s) { if (samples.size()<4) samples.push_back(s); }
void note(const std::string &k, double v) { auto it=notes.find(k); if (it==notes.end()) notes[k]=v; else it->second=std::max(it->second,v); }
void bump(const std::string &k, long by) { bumps[k]+=by; }
bool same(const std::vector<double> &g, const std::vector<double> &w, double tol, const std::string &what)
{
   if (g.size()!=w.size()) { fail(S()<<what<<": size "<<g.size()<<" instead of "<<w.size()); return false; }
   double worst=0;
   for (size_t i=0;i<g.size();i++) {
      if (!(std::fabs(g[i]-w[i])<=tol)) { fail(S()<<what<<": element "<<i<<" is "<<g[i]<<", expected "<<w[i]<<" (tolerance "<<tol<<")"); return false; }
      worst=std::max(worst,std::fabs(g[i]-w[i]));
   }
   if (tol>0) note("worst_error_over_tolerance",worst/tol);
   return true;
}
bool same_bits(const std::vector<double> &g, const std::vector<double> &w, const std::string &what)
{
   if (g.size()!=w.size()) { fail(S()<<what<<": size "<<g.size()<<" instead of "<<w.size()); return false; }
   for (size_t i=0;i<g.size();i++) if (memcmp(&g[i],&w[i],sizeof(double))) { fail(S()<<what<<": element "<<i<<" is "<<g[i]<<", expected exactly "<<w[i]); return false; }
   bump("bitwise_comparisons"); for (double x: w) if (!std::isfinite(x)) { bump("bitwise_comparisons_with_nonfinite_values"); break; }
   return true;
}
int finish()
{
   alarm(0);
   std::ostringstream o; o.precision(6);
   o<<"STATS\t{\"units\":"<<unit<<",\"evaluations\":"<<evals<<",\"distinct_nontrivial\":"<<distinct<<",\"states\":"<<states<<",\"transitions\":"<<transitions<<",\"traces\":"<<traces<<",\"samples\":[";
   for (size_t i=0;i<samples.size();i++) o<<(i?",":"")<<"\""<<esc(samples[i])<<"\"";
   o<<"],\"notes\":{"; bool f=true;
   for (auto &n: notes) { o<<(f?"":",")<<"\""<<n.first<<"\":"<<(std::isfinite(n.second)?n.second:-1); f=false; }
   o<<"},\"counters\":{"; f=true;
   for (auto &n: bumps) { o<<(f?"":",")<<"\""<<n.first<<"\":"<<n.second; f=false; }
   o<<"}}\nDONE\n";
   put(o.str().c_str());
   signal(SIGTERM,SIG_DFL); snprintf(cur,sizeof cur,"(exit)");
   return nfail?1:0;
}
}
