/* Owns the one nondeterministic choice of the environment: which algorithm FFTW's planner picks
 * after timing the candidates. V_PLAN=patient leaves the choice to the clock. */
#include <fftw3.h>
#include <cstdlib>
static unsigned own(unsigned f) { const char*e=getenv("V_PLAN"); if (e&&*e=='p') return f; if (e&&*e=='m') return (f&~(FFTW_PATIENT|FFTW_EXHAUSTIVE|FFTW_ESTIMATE))|FFTW_MEASURE; return (f&~(FFTW_PATIENT|FFTW_EXHAUSTIVE|FFTW_MEASURE))|FFTW_ESTIMATE; }
extern "C" {
fftw_plan __real_fftw_plan_r2r_1d(int,double*,double*,fftw_r2r_kind,unsigned);
fftw_plan __real_fftw_plan_r2r(int,const int*,double*,double*,const fftw_r2r_kind*,unsigned);
fftw_plan __real_fftw_plan_many_r2r(int,const int*,int,double*,const int*,int,int,double*,const int*,int,int,const fftw_r2r_kind*,unsigned);
fftw_plan __wrap_fftw_plan_r2r_1d(int n,double*i,double*o,fftw_r2r_kind k,unsigned f) { return __real_fftw_plan_r2r_1d(n,i,o,k,own(f)); }
fftw_plan __wrap_fftw_plan_r2r(int r,const int*n,double*i,double*o,const fftw_r2r_kind*k,unsigned f) { return __real_fftw_plan_r2r(r,n,i,o,k,own(f)); }
fftw_plan __wrap_fftw_plan_many_r2r(int r,const int*n,int h,double*i,const int*ie,int is,int id,double*o,const int*oe,int os,int od,const fftw_r2r_kind*k,unsigned f) { return __real_fftw_plan_many_r2r(r,n,h,i,ie,is,id,o,oe,os,od,k,own(f)); }
}
