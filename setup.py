#!/usr/bin/env python3
"""Warms the build cache (every harness in every flavour that a check uses). Checks rebuild whatever changed since."""
import os,sys
V=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,V)
from lib import build, runner
from lib.build import Flavour
def main():
    A=[(a,b) for a in (True,False) for b in (True,False)]
    H=lambda n,a,b,k='rel': runner.spec(dict(name=n,files=[n+'.cpp'],fl=Flavour(a,b,k)))
    sp=[H(n,a,b,k) for n in ('h_radial','h_sphere','h_grid','h_eom','h_misc','h_layout') for a,b in A for k in ('rel','san')]
    sp+=[H('h_hist',a,b) for a,b in ((True,True),(False,False))]
    sp+=[runner.spec(dict(name='h_sched',fl=Flavour(a,b,'sched'),files=['schedrt.cpp','h_sched.cpp'])) for a,b in ((True,True),(False,False))]
    sp+=[dict(name='prog',fl=Flavour(a,b,k),harness=['planwrap.cpp'],main=True,wrap=build.PLANWRAP) for a,b in A for k in ('rel','san')]
    sp+=[dict(name='h_ref',fl=Flavour(a,b),harness=['h_ref.cpp','planwrap.cpp'],wrap=build.PLANWRAP) for a,b in A]
    sp+=[dict(name='h_dump',fl=Flavour(True,True),harness=['h_dump.cpp','planwrap.cpp'],wrap=build.PLANWRAP)]
    try: build.build_many(sp)
    except build.BuildError as e:
        print('note:',str(e)[:2000])
        for s in sp:
            try: build.build_many([s])
            except build.BuildError as e: print('note:',str(e)[:300])
    for t,src in (('fstrace','tracer/fstrace.c'),('fakecxx','harness/fakecxx.c')): build.tool(t,os.path.join(V,src))
    print('built',len(sp))
main()
