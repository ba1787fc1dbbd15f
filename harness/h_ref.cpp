/* Reference for the program's output: for every step, the power in each (R,l) of f.np1 and of its energy density.
 * argv: parameter file, last step, and (optionally) to report only every so many steps. Output: step kind iR l R power */
#include <cstdio>
#include <iostream>
#include <cmath>
#include <cstdlib>
#include "params.hpp"
#include "grid.hpp"
#include "field.hpp"
#include "initial_data.hpp"
#include "scalar_eom.hpp"
int main(int c,char**v)
{
   std::cout.setstate(std::ios::failbit);
   Params P(v[1]); const size_t N=P.nx()*P.nlat()*P.nphi(); Field f("f",N,0.0),p("p",N,0.0); std::vector<double> rho(N);
   Grid g(P.cl(),P.Rmin(),P.Rmax(),P.nx(),P.nl(),P.nm(),P.nlat(),P.nphi()); Scalar_eom e(g,P),e2(g,P);
   ID::compact_pulse(P,g,f.n,p.n); f.np1=f.n; p.np1=p.n;
   auto out=[&](int t){ std::vector<double> s(P.nx()*P.nl()); e2.set_rho(g,f.np1,p.np1,rho); for (int k=0;k<2;k++) { g.set_angular_power_spectrum(k?rho:f.np1,s); for (size_t i=0;i<P.nx();i++) for (size_t l=0;l<P.nl();l++) printf("%d %s %zu %zu %.17g %.17g\n",t,k?"rho":"f",i,l,g.R_th_ph(i,0,0)[0],s[g.indx_r_l(i,l)]); } };
   /* what the run prints with the snapshot: the residual of the step just made, the variation of what is saved */
   auto diag=[&](int t){ long double q=0; for (size_t i=0;i<N;i++) { const long double d=p.n[i]-((long double)f.np1[i]-f.n[i])/P.dt(); q+=d*d; } printf("%d diag 0 0 %.17g %.17g\n",t,double(sqrtl(q/N)),g.total_variation(f.np1)); };
   const int every=c>3?atoi(v[3]):1;
   out(0); diag(0); for (int t=1;t<=atoi(v[2]);t++) { e.time_step(g,f,p); if (t%every==0) { out(t); diag(t); } f.n=f.np1; p.n=p.np1; }
}
