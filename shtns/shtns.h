/*
 * Stand-in for the public API of the SHTns library (version 3 conventions),
 * for machines where SHTns cannot be installed.  It is the environment model
 * of the checks in /verif, not part of the code under test.
 *
 * Conventions taken from the SHTns documentation:
 *   - orthonormal harmonics, Condon-Shortley phase unless SHT_NO_CS_PHASE;
 *   - real fields: f = sum_l [ a_l0 Y_l0 + 2 Re sum_{m>0} a_lm Y_lm ];
 *   - coefficients of real fields at LM(shtns,l,m), m-major;
 *   - coefficients of complex fields at LM_cplx(shtns,l,m);
 *   - Gauss-Legendre nodes, theta increasing from the north pole;
 *   - native layout: theta contiguous (it + nlat*ip);
 *     SHT_PHI_CONTIGUOUS: phi contiguous (ip + nphi*it).
 */
#ifndef VERIF_SHTNS_H
#define VERIF_SHTNS_H
#include <complex>
#include <cstddef>

typedef std::complex<double> cplx;

enum shtns_type {
   sht_gauss, sht_auto, sht_reg_fast, sht_reg_dct, sht_quick_init, sht_reg_poles, sht_gauss_fly
};
enum shtns_norm { sht_orthonormal, sht_fourpi, sht_schmidt, sht_for_rotations };

#define SHT_NATIVE_LAYOUT 0
#define SHT_THETA_CONTIGUOUS 256
#define SHT_PHI_CONTIGUOUS (256*2)
#define SHT_NO_CS_PHASE (256*4)
#define SHT_REAL_NORM (256*8)
#define SHT_SCALAR_ONLY (256*16)
#define SHT_SOUTH_POLE_FIRST (256*32)
#define SHT_DEFAULT_POLAR_OPT 1.e-10

struct shtns_info {
   unsigned int   nlm;
   unsigned short lmax;
   unsigned short mmax;
   unsigned short mres;
   unsigned short nlat_2;
   unsigned int   nlat;
   unsigned int   nphi;
   unsigned int   nspat;
   unsigned short *li;
   unsigned short *mi;
   double *ct;
   double *st;
   unsigned int nlat_padded;
   unsigned int nlm_cplx;
   /* private part */
   void *priv;
};
typedef struct shtns_info *shtns_cfg;

#define NSPAT_ALLOC(shtns) ((shtns)->nspat)
/* bounds are checked: an index outside the stored triangle is a contract violation */
unsigned int verif_shtns_lm(const shtns_info *s, long l, long m);
#define LM(shtns, l, m) (verif_shtns_lm((shtns), (long)(l), (long)(m)))
#define LiM(shtns, l, im) (verif_shtns_lm((shtns), (long)(l), (long)(im)*(shtns)->mres))
unsigned int verif_shtns_lm_cplx(const shtns_info *s, long l, long m);
#define LM_cplx(shtns, l, m) (verif_shtns_lm_cplx((shtns), (long)(l), (long)(m)))
#define LM_LOOP( shtns, action ) { unsigned int lm=0; do { action } while(++lm < (shtns)->nlm); }

extern "C" {
void shtns_verbose(int);
int  shtns_use_threads(int);
void shtns_print_version(void);
long nlm_calc(long lmax, long mmax, long mres);
long nlm_cplx_calc(long lmax, long mmax, long mres);
shtns_cfg shtns_create(int lmax, int mmax, int mres, enum shtns_norm norm);
int  shtns_set_grid(shtns_cfg, enum shtns_type flags, double eps, int nlat, int nphi);
int  shtns_set_grid_auto(shtns_cfg, enum shtns_type flags, double eps, int nl_order, int *nlat, int *nphi);
void shtns_destroy(shtns_cfg);
void shtns_reset(void);
void *shtns_malloc(size_t);
void shtns_free(void*);
int  shtns_gauss_wts(shtns_cfg, double *wts);

void spat_to_SH(shtns_cfg, double *Vr, cplx *Qlm);
void SH_to_spat(shtns_cfg, cplx *Qlm, double *Vr);
void spat_to_SH_l(shtns_cfg, double *Vr, cplx *Qlm, int ltr);
void SH_to_spat_l(shtns_cfg, cplx *Qlm, double *Vr, int ltr);
void spat_cplx_to_SH(shtns_cfg, cplx *z, cplx *alm);
void SH_to_spat_cplx(shtns_cfg, cplx *alm, cplx *z);
}
#endif
