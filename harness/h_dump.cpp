/* Stands where the executable stands: reads the parameter file with the real Params and writes what it obtained, bit for bit. */
#include <cstdio>
#include <string>
#include "params.hpp"
int main(int c,char**v)
{
   if (c!=3) return 7; Params p(v[1]); FILE*f=fopen((std::string(v[2])+"/dump.txt").c_str(),"a"); if (!f) return 8;
#define U(n,g) fprintf(f,"%s %lu\n",n,(unsigned long)p.g());
#define I(n,g) fprintf(f,"%s %d\n",n,p.g());
#define D(n,g) fprintf(f,"%s %a\n",n,p.g());
#define T(n,g) fprintf(f,"%s %s\n",n,p.g().c_str());
   U("nt",nt)U("nx",nx)U("nl",nl)U("nm",nm)U("nlat",nlat)U("nphi",nphi)U("t_step_save",t_step_save)D("dt",dt)D("compactification_length",cl)D("Rmax",Rmax)D("Rmin",Rmin)D("black_hole_mass",bh_mass)D("black_hole_spin",bh_spin)D("km1",km1)D("k0",k0)D("k1",k1)D("k2",k2)D("V2",V2)D("V3",V3)D("V4",V4)T("initial_data_type",id)T("initial_data_direction",initial_data_direction)D("amp",amp)D("rl",rl)D("ru",ru)I("l_ang",l_ang)I("m_ang",m_ang)
   fclose(f);
}
