/* Shared by all C++ harnesses: enumeration driver, counters, failure and crash reporting. */
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <limits>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <unistd.h>
#include <fcntl.h>

namespace V {
typedef long double ld;
extern std::string prop, tier, only;
extern int shard, nshards;
extern bool thorough;
extern long evals, states, transitions, traces, nfail;
extern std::string fam;          /* optional family filter */

void init(int argc, char **argv);
int  finish();

/* Enumerated unit of work. Returns true when this process is to run it: the
 * shard owns it (or it is the one selected with --only).  The id names the
 * case and is what a replay file stores. */
bool take(const std::string &id);
/* Forces sharding at a coarser level: pick(k) is true if unit number k belongs to this shard. */
void fail(const std::string &detail);          /* violation in the current case */
void count(uint64_t h, bool nontrivial);       /* one evaluated case */
void sample(const std::string &s);
void note(const std::string &key, double v);   /* running maximum of a measured quantity */
void bump(const std::string &key, long by=1);  /* named counter, summed over shards */

inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h=1469598103934665603ull)
{
   const unsigned char *c=(const unsigned char*)p;
   for (size_t i=0;i<n;i++) { h^=c[i]; h*=1099511628211ull; }
   return h;
}
inline uint64_t hash_vec(const std::vector<double> &v, uint64_t h=1469598103934665603ull) { return hash_bytes(v.data(), v.size()*sizeof(double), h); }
inline uint64_t hash_str(const std::string &s, uint64_t h=1469598103934665603ull) { return hash_bytes(s.data(), s.size(), h); }
inline bool nonzero(const std::vector<double> &v) { for (double x: v) if (x!=0) return true; return false; }

struct S { /* string builder */
   std::ostringstream o;
   template<class T> S &operator<<(const T &t) { o.precision(17); o<<t; return *this; }
   operator std::string() const { return o.str(); }
   std::string str() const { return o.str(); }
};
inline double maxabs(const std::vector<double> &v) { double m=0; for (double x: v) { if (std::isnan(x)) return x; m=std::max(m,std::fabs(x)); } return m; }

/* |a-b| <= tol, false when not a number */
inline bool close(double a, double b, double tol) { return std::fabs(a-b)<=tol; }
/* compares two vectors; on failure reports the first offending index */
bool same(const std::vector<double> &got, const std::vector<double> &want, double tol, const std::string &what);
bool same_bits(const std::vector<double> &got, const std::vector<double> &want, const std::string &what);
/* silence the code under test on std::cout, or capture it */
extern std::ostringstream captured;
}
#endif
