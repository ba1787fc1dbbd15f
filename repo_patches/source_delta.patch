From 50458858e599f85bec7b9f79646cf82b06516b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 01/16] fix: apply the radial low pass filter in Grid::filter

The radial row was copied out and back without being filtered, and the
boundary values were restored after the row had been written.
---
 Source/grid.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Source/grid.cpp b/Source/grid.cpp
index 7819e4c..9c60d66 100644
--- a/Source/grid.cpp
+++ b/Source/grid.cpp
@@ -295,9 +295,10 @@ void Grid::filter(std::vector<double> &v) const
       get_row_R(it, ip, v, inter_radial); 
       const double lwr = inter_radial[0    ];
       const double upr = inter_radial[_nx-1];
-      set_row_R(it, ip, inter_radial, v); 
+      _radial.filter(inter_radial);
       inter_radial[0    ] = lwr;
       inter_radial[_nx-1] = upr;
+      set_row_R(it, ip, inter_radial, v); 
    }
    }
 }
-- 
2.43.0


From 1499022f745a7330625959ed32ffa6d91703e76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 02/16] fix: apply the angular operators to the l=lmax and
 m=mmax modes too

The transforms resolve l=0..lmax and m=0..mmax, but the Laplacian, the phi
derivative, the ladder operators and the low pass filter left the l=lmax
and m=mmax coefficients as they were, and the power spectrum left m=mmax out.
---
 Source/sphere.cpp | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/Source/sphere.cpp b/Source/sphere.cpp
index 8d1ebfa..e9084e4 100644
--- a/Source/sphere.cpp
+++ b/Source/sphere.cpp
@@ -13,8 +13,8 @@ Sphere::Sphere(
    _mmax{nm},
    _nlat{nlat}, 
    _nphi{nphi}, 
-   _lap(_lmax,0),
-   _low_pass(_lmax,0)
+   _lap(_lmax+1,0),
+   _low_pass(_lmax+1,0)
 {
    std::cout<<"Initializing Sphere"<<std::endl;
    shtns_verbose(0);     /* displays informations during initialization. */
@@ -45,13 +45,13 @@ Sphere::Sphere(
    /* 
     * Set Laplacian in spherical harmonic space: \Delta Y_{lm} = -l(l+1) Y_{lm}
     */
-   for (size_t i=0; i<_lmax; i++) {
+   for (size_t i=0; i<=_lmax; i++) {
       _lap[i] = - double(i)*double(i+1.0);
    }
    /* 
     * Low pass filter in spherical harmonic space 
     */
-   for (size_t i=0; i<_lmax; i++) {
+   for (size_t i=0; i<=_lmax; i++) {
       _low_pass[i] = exp(-40.0*pow(double(i)/_lmax,16));
    }
    _nSph = NSPAT_ALLOC(_shtns);
@@ -202,8 +202,8 @@ void Sphere::laplace_beltrami(
    }
    spat_to_SH(_shtns, Sph_tmp, Ylm_tmp);
 
-   for (size_t l=0; l<_lmax;               l++) {
-   for (size_t m=0; m<std::min(l+1,_mmax); m++) {
+   for (size_t l=0; l<=_lmax;             l++) {
+   for (size_t m=0; m<=std::min(l,_mmax); m++) {
       Ylm_tmp[LM(_shtns,l,m)] *= _lap[l];
    }
    }
@@ -233,8 +233,8 @@ void Sphere::partial_phi(const std::vector<double> &v, std::vector<double> &dv)
 
    const cplx img(0,1);
 
-   for (size_t l=0; l<_lmax;               l++) {
-   for (size_t m=0; m<std::min(l+1,_mmax); m++) {
+   for (size_t l=0; l<=_lmax;             l++) {
+   for (size_t m=0; m<=std::min(l,_mmax); m++) {
       Ylm_tmp[LM(_shtns,l,m)] *= img*cplx(m);
    }
    }
@@ -263,9 +263,12 @@ void Sphere::raise(const std::vector<double> &v, std::vector<cplx> &rv) const
    for (size_t i=0; i<_nSph; i++) {
       Sph_tmp[i] = cplx(v[i],0);
    }
+   for (size_t i=0; i<pow(_lmax+1,2); i++) {
+      Ylm_tmp[i] = 0;
+   }
    spat_cplx_to_SH(_shtns, Sph_tmp, Ylm_tmp);
 
-   for (size_t l=0; l<_lmax; l++) {
+   for (size_t l=0; l<=_lmax; l++) {
       for (int m=int(l); m>-int(l); m--) {
          Ylm_tmp[l*(l+1)+m] = pow((l-m+1)*(l+m),0.5)*Ylm_tmp[l*(l+1)+(m-1)];
       }
@@ -297,9 +300,12 @@ void Sphere::lower(const std::vector<double> &v, std::vector<cplx> &lv) const
    for (size_t i=0; i<_nSph; i++) {
       Sph_tmp[i] = cplx(v[i],0);
    }
+   for (size_t i=0; i<pow(_lmax+1,2); i++) {
+      Ylm_tmp[i] = 0;
+   }
    spat_cplx_to_SH(_shtns, Sph_tmp, Ylm_tmp);
 
-   for (size_t l=0; l<_lmax; l++) {
+   for (size_t l=0; l<=_lmax; l++) {
       for (int m=-int(l); m<int(l); m++) {
          Ylm_tmp[l*(l+1)+m] = pow((l+m+1)*(l-m),0.5)*Ylm_tmp[l*(l+1)+(m+1)];
       }
@@ -354,8 +360,8 @@ void Sphere::filter(std::vector<double> &v) const
    }
    spat_to_SH(_shtns, Sph_tmp, Ylm_tmp);
 
-   for (size_t l=0; l<_lmax;               l++) {
-   for (size_t m=0; m<std::min(l+1,_mmax); m++) {
+   for (size_t l=0; l<=_lmax;             l++) {
+   for (size_t m=0; m<=std::min(l,_mmax); m++) {
       Ylm_tmp[LM(_shtns,l,m)] *= _low_pass[l]*_low_pass[m];
    }
    }
@@ -387,7 +393,7 @@ void Sphere::power_spectrum(const std::vector<double> &v, std::vector<double> &p
       const double i_Ylm = Ylm_tmp[LM(_shtns,l,0)].imag();
       p[l] = (pow(r_Ylm,2) + pow(i_Ylm,2));
 
-      for (size_t m=1; m<std::min(l+1,_mmax); m++) {
+      for (size_t m=1; m<=std::min(l,_mmax); m++) {
          /*
           * We double count positive m as we do not
           * count negative m.
-- 
2.43.0


From 76a3e8478b969068410102283b945ff1bea0a03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 03/16] fix: row accessors along phi have nphi points, not nlat

---
 Source/grid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/grid.hpp b/Source/grid.hpp
index 8d710c5..ef35227 100644
--- a/Source/grid.hpp
+++ b/Source/grid.hpp
@@ -111,7 +111,7 @@ public:
    {
       assert(in.size() ==_nphi);
       assert(out.size()==_nx*_nphi*_nlat);
-      for (size_t ip=0; ip<_nlat; ip++) {
+      for (size_t ip=0; ip<_nphi; ip++) {
          out[indx_R_th_ph(ix,it,ip)] = in[ip];
       }
    } 
@@ -167,7 +167,7 @@ public:
          std::vector<double> &out) const
    {
       assert(in.size() ==_nx*_nphi*_nlat);
-      assert(out.size()==_nx*_nlat);
+      assert(out.size()==_nx*_nphi);
       for (size_t ix=0; ix<_nx;   ix++) {
       for (size_t ip=0; ip<_nphi; ip++) {
          out[indx_r_ph(ix,ip)] = in[indx_R_th_ph(ix,it,ip)];
-- 
2.43.0


From 20b5fa03e6c94544418027b40df8d239879221b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 04/16] fix: set the initial data on the last radial point as
 well

With the Chebyshev grid the last point is the horizon, not r=infty, and a
pulse that reaches across the horizon was left at zero there.
---
 Source/initial_data.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/initial_data.cpp b/Source/initial_data.cpp
index 5d18d71..86434ac 100644
--- a/Source/initial_data.cpp
+++ b/Source/initial_data.cpp
@@ -36,7 +36,7 @@ void compact_pulse(
 
    std::vector<double> ylm = grid.compute_ylm(l_ang, m_ang);
 
-   for (size_t ix=0; ix<nx-1; ix++) { /* do not include ix=nx-1 as r=infty there */
+   for (size_t ix=0; ix<nx; ix++) { /* the pulse vanishes where r=infty */
    for (size_t ip=0; ip<nphi; ip++) {
    for (size_t it=0; it<nlat; it++) {
       const std::vector<double> R_th_ph = grid.R_th_ph(ix,it,ip);
-- 
2.43.0


From 9828cc5757cae67ab91337f909f96b4514df7fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 05/16] fix: count the factor 1/2 of the kinetic energy density
 once

The coefficients _rho_* already contain it.
---
 Source/scalar_eom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/scalar_eom.cpp b/Source/scalar_eom.cpp
index 13124fa..67d0a26 100644
--- a/Source/scalar_eom.cpp
+++ b/Source/scalar_eom.cpp
@@ -343,7 +343,7 @@ void Scalar_eom::set_rho(
          );
          
       rho[i] = 
-      +  k*(1./2.)*(
+      +  k*(
             _rho_vv[i]*pow(p[i],2) 
          +  _rho_vr[i]*p[i]*_dr_f[i]
          +  _rho_rr[i]*pow(_dr_f[i],2)
-- 
2.43.0


From 9f524ea4ecd21c8fdf2a6d49ed7d3ba9f337a854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 06/16] fix: sign of the dv-dr cross term in the energy density

n^v and n^r have opposite signs (g^{vv}<0<g^{vr}), so n^mu n^nu T_munu has
-4Mr/Sigma there, as contracting the metric of the documentation shows.
---
 Documentation/main.tex | 2 +-
 Source/scalar_eom.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Documentation/main.tex b/Documentation/main.tex
index 4ae33b5..92e67d6 100644
--- a/Documentation/main.tex
+++ b/Documentation/main.tex
@@ -306,7 +306,7 @@ In ingoing Eddington-Finkelstein coordinates we have
    \frac{1}{2}\Bigg[
       \left(1+\frac{2Mr}{\Sigma}\right)
       \left(\partial_v\psi\right)^2
-      +
+      -
       \frac{4Mr}{\Sigma}
       \left(\partial_v\psi\right)\left(\partial_r\psi\right)
       \nonumber\\&
diff --git a/Source/scalar_eom.cpp b/Source/scalar_eom.cpp
index 67d0a26..c5d4c54 100644
--- a/Source/scalar_eom.cpp
+++ b/Source/scalar_eom.cpp
@@ -112,7 +112,7 @@ Scalar_eom::Scalar_eom(
       _p_sphereX_f[indx]   *= _pre[indx];
 
       _rho_vv[indx]      = 0.5*(1. + 2.*m*inv_r/Sigma);
-      _rho_vr[indx]      = 2. *m*inv_r/Sigma;
+      _rho_vr[indx]      = -2.*m*inv_r/Sigma;
       _rho_rr[indx]      = 0.5*( 
             ((1. + (2.*m*inv_r)+pow(a*inv_r,2))/Sigma)
          -  (4.*m*inv_r/(2.*m*inv_r + Sigma))     
-- 
2.43.0


From 4af15f913874c0430fcb55bf67089980f39a4122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 07/16] fix: no 0/0 at psi=-1 when the 1/(1+psi) coupling is
 absent

---
 Source/scalar_eom.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Source/scalar_eom.cpp b/Source/scalar_eom.cpp
index c5d4c54..1bc32a7 100644
--- a/Source/scalar_eom.cpp
+++ b/Source/scalar_eom.cpp
@@ -173,12 +173,12 @@ void Scalar_eom::set_k(
    for (size_t i=0; i<_n; i++) {
       const double inverse_k = 1.0/( 
             _k0 
-         +  _km1/(f[i]+1)
+         +  ((_km1==0) ? 0.0 : _km1/(f[i]+1))
          +  _k1*f[i]
          +  (_k2/2.0)*pow(f[i],2)
          );
       const double kprime = 
-      -  _km1/pow(f[i]+1,2)
+      -  ((_km1==0) ? 0.0 : _km1/pow(f[i]+1,2))
       +  _k1
       +  _k2*f[i]
       ;
@@ -332,7 +332,7 @@ void Scalar_eom::set_rho(
    for (size_t i=0; i<_n; i++) {
       const double k = ( 
             _k0 
-         +  _km1/(f[i]+1)
+         +  ((_km1==0) ? 0.0 : _km1/(f[i]+1))
          +  _k1*f[i]
          +  (_k2/2.)*pow(f[i],2)
          );
-- 
2.43.0


From 7d6a8088fec9ce92abf31de00c4011f62d88f923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 08/16] fix: do not fftw_cleanup() when one Chebyshev grid is
 destroyed

It makes every other FFTW plan of the process undefined, including those of
other grids and of SHTns, which are destroyed afterwards.
---
 Source/cheb.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Source/cheb.cpp b/Source/cheb.cpp
index d53b232..dfcdd2a 100644
--- a/Source/cheb.cpp
+++ b/Source/cheb.cpp
@@ -42,7 +42,6 @@ Cheb::~Cheb()
    assert(_plan_dct!=nullptr);
 
    fftw_destroy_plan(_plan_dct);
-   fftw_cleanup();
 }
 /*==========================================================================*/
 /* position space to Chebyshev space */
-- 
2.43.0


From b1debcafa8646c83bb96e38badbf366a208b01aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 09/16] fix: Cheb::to_po leaves the coefficients it is given as
 they were

---
 Source/cheb.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Source/cheb.cpp b/Source/cheb.cpp
index dfcdd2a..0b617a0 100644
--- a/Source/cheb.cpp
+++ b/Source/cheb.cpp
@@ -76,10 +76,11 @@ void Cheb::to_po(std::vector<double> &ch, std::vector<double> &po) const
    /*
     * normalize coefficients for Fourier transform 
     */
+   std::vector<double> tmp(ch);
    for (size_t i=1; i<_n-1; i++) {
-      ch[i] /= 2.0;
+      tmp[i] /= 2.0;
    }
-   fftw_execute_r2r(_plan_dct, ch.data(), po.data());
+   fftw_execute_r2r(_plan_dct, tmp.data(), po.data());
 }
 /*==========================================================================*/
 /* Compute derivative over interval */
-- 
2.43.0


From ce6e567260dcc6c2e4eceab05deba079dad6a78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 10/16] fix: report a missing parameter in the exit status

---
 Source/params.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Source/params.cpp b/Source/params.cpp
index fa13c17..214f1e9 100644
--- a/Source/params.cpp
+++ b/Source/params.cpp
@@ -1,4 +1,5 @@
 #include <cassert>
+#include <cstdlib>
 #include <iomanip>
 #include <fstream>
 #include <iostream>
@@ -83,7 +84,7 @@ std::string Params::_read(
       }
    }
    std::cout<<"ERROR: did not find "<<find_this_var<<std::endl;
-   std::quick_exit(0);
+   std::quick_exit(EXIT_FAILURE);
 }
 /*========================================================================*/
 void Params::_read_array(
@@ -114,7 +115,7 @@ void Params::_read_array(
       }
    }
    std::cout<<"ERROR: did not find "<<find_this_var<<std::endl;
-   std::quick_exit(0);
+   std::quick_exit(EXIT_FAILURE);
 }
 /*========================================================================*/
 void Params::_read_array(
@@ -144,5 +145,5 @@ void Params::_read_array(
       }
    }
    std::cout<<"ERROR: did not find "<<find_this_var<<std::endl;
-   std::quick_exit(0);
+   std::quick_exit(EXIT_FAILURE);
 }
-- 
2.43.0


From 1df0bc7ac11f41da24704acab22bfc0da58920c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 11/16] fix: recompile the executable with the radial
 discretisation it is named after

'make default_cheb.run' compiled without use_cheb, so a Chebyshev run that
asked to be recompiled got the finite difference code under that name.
---
 sim_class.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sim_class.py b/sim_class.py
index 19b5c61..1738503 100644
--- a/sim_class.py
+++ b/sim_class.py
@@ -145,5 +145,9 @@ class Sim:
          os.chdir(self.home_dir)
 #=============================================================================
    def then_recompile(self)->None:
-      subprocess.call('make clean_obj'+self.bin_name,shell=True)
-      subprocess.call('make '+self.bin_name,shell=True)
+      subprocess.call('make clean_Source',shell=True)
+      subprocess.call(
+         'make use_cheb={} use_contiguous_longitudes=true'.format(
+            'true' if self.use_cheb else ''
+         )
+      ,shell=True)
-- 
2.43.0


From e8a014792a6553d290994dc42d5636f4d38fbf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 12/16] fix: save the magnitude of negative Chebyshev
 coefficients

They were written as if they had vanished.
---
 Source/io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/io.cpp b/Source/io.cpp
index a9c8cce..7863602 100644
--- a/Source/io.cpp
+++ b/Source/io.cpp
@@ -72,7 +72,7 @@ void write_n_psl(
             out<<std::setprecision(16)<<grid.n_l(i)[j]<<",";
          }		
          out<<std::setprecision(16)
-            <<((power_spectrum[i]<1e-16) ? -16 : log(power_spectrum[i])/log(10))
+            <<((fabs(power_spectrum[i])<1e-16) ? -16 : log(fabs(power_spectrum[i]))/log(10))
             <<std::endl; 
       }		
    }
-- 
2.43.0


From f879db14aa7ac4269d19c3f8c16266d303729cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:52 +0000
Subject: [PATCH 13/16] fix: never link objects left behind by a build with
 other options

'make test' leaves sphere.o compiled for theta-contiguous storage in Source/,
and a killed make leaves whatever it had compiled; the next build linked them
as they were, whatever it was asked for.
---
 Source/Makefile | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Source/Makefile b/Source/Makefile
index 695e837..502c7a1 100644
--- a/Source/Makefile
+++ b/Source/Makefile
@@ -65,9 +65,15 @@ DEPS = params.hpp \
 %.run: $(OBJ) 
 	$(CC) -o $(BIN)/$@ $^ $(SHTNS_INC) $(SHTNS_LIB) $(CFLAGS)
 
-%.o: %.cpp $(DEPS)
+## always recompile: an object left behind by another build
+## (e.g. make test, or an interrupted make) may have been compiled 
+## with other options
+%.o: %.cpp $(DEPS) FORCE
 	$(CC) $(CFLAGS) $(SHTNS_INC) $(SHTNS_LIB) -c -o $@ $<
 
+.PHONY: FORCE
+FORCE:
+
 #=============================================================================
 .PHONY: clean
 clean:
-- 
2.43.0


From f1df353feae1d921c069393b16302e0c70f06ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:52 +0000
Subject: [PATCH 14/16] fix: do not run an old executable when recompiling
 fails

---
 sim_class.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sim_class.py b/sim_class.py
index 1738503..e490f3e 100644
--- a/sim_class.py
+++ b/sim_class.py
@@ -145,8 +145,8 @@ class Sim:
          os.chdir(self.home_dir)
 #=============================================================================
    def then_recompile(self)->None:
-      subprocess.call('make clean_Source',shell=True)
-      subprocess.call(
+      subprocess.check_call('make clean_Source',shell=True)
+      subprocess.check_call(
          'make use_cheb={} use_contiguous_longitudes=true'.format(
             'true' if self.use_cheb else ''
          )
-- 
2.43.0


From 46e5068a0f963cddd67df8ced6c14db7b771078e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:14 +0000
Subject: [PATCH 15/16] fix: make clean_Output does not empty directories
 behind symbolic links

rm -rf link/ leaves the link but removes what the directory it points to
holds, so a link in Output to results kept elsewhere lost those results.
---
 Output/Makefile | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Output/Makefile b/Output/Makefile
index a68b1f2..f61f8be 100644
--- a/Output/Makefile
+++ b/Output/Makefile
@@ -1,4 +1,4 @@
 all:
 	@echo "Did nothing"
 clean:
-	$(RM) -r -- */
+	find . -mindepth 1 -maxdepth 1 -type d ! -name ".*" -exec $(RM) -r {} +
-- 
2.43.0


From a5920e2d03db64e8ad9745d0694d8052f07e258c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:37 +0000
Subject: [PATCH 16/16] fix: submit the batch script whatever the path of the
 output directory

A path with a space was split by the shell, and a relative out_stem was
looked up from inside the output directory; the run was never submitted.
---
 sim_class.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim_class.py b/sim_class.py
index e490f3e..c1b434b 100644
--- a/sim_class.py
+++ b/sim_class.py
@@ -141,7 +141,7 @@ class Sim:
       else:
          self.write_slurm_script()
          os.chdir(self.output_dir)
-         subprocess.call('sbatch {}/run.slurm'.format(self.output_dir), shell=True)
+         subprocess.call('sbatch run.slurm', shell=True)
          os.chdir(self.home_dir)
 #=============================================================================
    def then_recompile(self)->None:
-- 
2.43.0

