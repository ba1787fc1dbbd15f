"""Which machinery decides which property, and with what level of evidence."""
from .build import Flavour
CHECKS={}; TECH={}
DEFAULT_TECH='stateless bounded-exhaustive exploration of the real code against a reference model'
def check(pid,level,rule,assumptions=()):
    def deco(f):
        def run(ctx):
            ctx.level,ctx.rule,ctx.assumptions=level,rule,list(assumptions)
            f(ctx)
        CHECKS[pid]=run; run.level=level; run.rule=rule; run.assumptions=list(assumptions)
        return f
    return deco
FFTW='FFTW is trusted; the planner is forced to FFTW_ESTIMATE so that runs are reproducible'
SHT='SHTns is replaced by a stand-in written from its documentation (shtns/), bound to it by the upstream tests passing with it'
def ch(c=True): return Flavour(c,c)   # one flavour of each discretisation, with different layouts
def radial(ctx,fls,**k):
    ctx.harness([dict(name='h_radial',files=['h_radial.cpp'],fl=f,**k) for f in fls])
@check('C01','exploration','every n in the bound x interval x basis vector in point and coefficient space, dense pairs and power-of-two scales; non-trivial: the result is not zero',[FFTW])
def c01(ctx): radial(ctx,[Flavour(True,True)])
@check('C02','exploration','every n in the bound x interval x Chebyshev mode, nodal vector, dense pair, scale and monomial; non-trivial: derivative of a non-constant',[FFTW])
def c02(ctx): radial(ctx,[Flavour(True,True)])
@check('C03','exploration','every n in the bound x interval x Chebyshev mode, nodal vector, dense pair and scale',[FFTW])
def c03(ctx): radial(ctx,[Flavour(True,True)])
@check('C04','exploration','every n in the bound x interval x nodal vector, NaN probe, dense pair, scale and monomial; combs reaching every row for large n')
def c04(ctx): radial(ctx,[Flavour(False,True)])
@check('C05','exploration','every n in the bound x interval x nodal vector, pair of nodal vectors, polynomial, sawtooth, dense pair and scale; combs for large n')
def c05(ctx): radial(ctx,[Flavour(False,True)])
@check('C06','model_checking','every history up to the depth over create/destroy/operator on three slots, for four slot sets; states: complete histories; transitions: real calls; every one compared bit for bit with the reference model (a fresh object)',[FFTW])
def c06(ctx):
    # sanitized too, to a smaller depth: memory of one object must not be used for another
    ctx.harness([dict(name='h_radial',files=['h_radial.cpp'],fl=Flavour(True,True)),dict(name='h_radial',id='h_radial:sanitized',files=['h_radial.cpp'],fl=Flavour(True,True,'san'),env={'V_DEPTH':'5' if ctx.thorough else '4'})])
def sphere(ctx,**k): return [dict(name='h_sphere',files=['h_sphere.cpp'],fl=f,**k) for f in (Flavour(True,True),Flavour(False,False))]
@check('C07','exploration','every (lmax,mmax,nlat,nphi) in the bound x mode and pair of modes x both layouts',[SHT])
def c07(ctx): ctx.harness(sphere(ctx))
@check('C08','exploration','every (lmax,mmax,nlat,nphi) in the bound x operator x mode, pair of modes and scale x both layouts; non-trivial: not the monopole alone',[SHT])
def c08(ctx): ctx.harness(sphere(ctx))
@check('C09','exploration','every (lmax,mmax,nlat,nphi) in the bound x mode, pair of modes and scale x both layouts',[SHT])
def c09(ctx): ctx.harness(sphere(ctx))
ALL4=[Flavour(a,b) for a in (True,False) for b in (True,False)]
def grid(ctx,fls=ALL4,**k): return [dict(name='h_grid',files=['h_grid.cpp'],fl=f,**k) for f in fls]
@check('C10','exploration','every (lmax,mmax,nlat,nphi) in the bound x mode, pair of modes and scale on the sphere; every small grid shape x mode and pair with a different amplitude at each radius; all layouts and discretisations',[SHT])
def c10(ctx): ctx.harness(sphere(ctx)+grid(ctx))
@check('C11','exploration','every grid shape in the bound x index, coordinate, line and plane accessor, with guard words behind the outputs',[SHT])
def c11(ctx): ctx.harness(grid(ctx))
@check('C12','exploration','every grid shape in the bound x operator x (radial monomial x harmonic or ray), nodal vector, mode pair with different data on each sphere; non-trivial: derivative of a non-constant',[SHT,FFTW])
def c12(ctx): ctx.harness(grid(ctx))
@check('C13','exploration','every grid shape in the bound x (radial nodal vector or mode x harmonic), full nodal basis, dense data and scales',[SHT,FFTW])
def c13(ctx): ctx.harness(grid(ctx))
@check('C14','exploration','every grid shape in the bound x nodal vector in each argument, pairs, dense data, several dt; threads 1 and several',[SHT])
def c14(ctx): 
    ctx.harness(grid(ctx))
    for t in (3,8): ctx.harness([dict(j,id=j['name']+':'+j['fl'].name+':T%d'%t,env={'OMP_NUM_THREADS':str(t)},shards=8//t) for j in grid(ctx,[Flavour(True,True)])])
def eom(ctx,fls=(Flavour(True,True),Flavour(False,False)),**k): return [dict(name='h_eom',files=['h_eom.cpp'],fl=f,**k) for f in fls]
@check('C15','exploration','every (grid shape, mass, spin, coupling set) of the alphabet x radial monomial x harmonic and pairs in f and p, compared at every point with the covariant equation evaluated in long double from the line element alone',[SHT,FFTW])
def c15(ctx): ctx.harness(eom(ctx))
@check('C16','exploration','every subset of the seven couplings x special field values (psi=-1, 0, denormal-scale, up to 1e60) x spin x grid, plus whole steps; compared with the formula without the absent terms',[SHT,FFTW])
def c16(ctx): ctx.harness(eom(ctx))
@check('C17','exploration','every (grid shape, mass, spin, coupling set) of the alphabet x field, compared at every point with n^mu n^nu T_mu_nu evaluated in long double from the line element alone',[SHT,FFTW])
def c17(ctx): ctx.harness(eom(ctx))
@check('C18','model_checking','every history up to the depth over step, shift, poisoning of work levels, use of the right-hand side and density on other data, a second evolution object; states: complete histories; transitions: operations; traces: steps compared with a classical RK4 written from the statement and bit for bit with fresh objects',[SHT,FFTW])
def c18(ctx): ctx.harness(eom(ctx))
@check('C19','exploration','every symmetry x spin x coupling set x field of the alphabet, evolved both ways for several steps',[SHT,FFTW])
def c19(ctx): ctx.harness(eom(ctx))
@check('C20','exploration','every (grid shape, support, harmonic, direction, amplitude) of the alphabet, compared at every grid point with the documented formula',[SHT])
def c20(ctx): ctx.harness(eom(ctx,ALL4))
def misc(ctx,fls,**k): return [dict(name='h_misc',files=['h_misc.cpp'],fl=f,**k) for f in fls]
@check('C21','model_checking','every size in the bound x number of threads x history of level writes and shifts up to the depth, compared bit for bit with a model after every operation; states: histories; transitions: operations')
def c21(ctx): ctx.harness(misc(ctx,[Flavour(True,True)]))
@check('C22','exploration','every writer x grid shape x header flag x index x data set x threshold pair, and every history of writes up to the depth over eleven to fourteen write operations; every file parsed back and compared',[SHT,'the spectra written are those Grid computes (C10)'])
def c22(ctx): ctx.harness(misc(ctx,ALL4))
@check('C27','exploration','every rotation, reversal, exchange and move of lines; every decoy line x parameter x position; duplicates in every position; every numeric text of the alphabet x parameter')
def c27(ctx): ctx.harness(misc(ctx,[Flavour(True,True)]))
from . import checks_prog as P
PTR='a single-threaded run is traced (ptrace); the kernel performs each system call it is given, and no power failure: what the kernel accepted stays'
check('C23','model_checking','every (nt, t_step_save) in the bound x physical configuration x discretisation, real executable; states: runs; transitions: snapshots, each compared in name, content and printed time with the evolution stepped by the library without main',[SHT])(P.c23)
check('C24','exploration','every (nt, t_step_save) in the bound x configuration, and repetitions with perturbed heap, path spelling and environment; compared byte for byte with the run that saves every step',[SHT])(P.c24)
check('C25','fault_enumeration','kill before every file operation of the run and inside every write (every byte in the thorough tier, a fixed set of cuts in the quick one)',[SHT,PTR])(P.c25)
check('C26','fault_enumeration','every single failing open or write x errno, every suffix of failing operations, every set of unopenable files, every set of files on a full disk, every amount of space left; also short and interrupted writes, which must change nothing',[SHT,PTR])(P.c26)
check('C28','exploration','every subset of missing parameters of size 0, 1, 2 (3 in the thorough tier), all but one, suffixes, all; x order, decoy lines, final newline; real executable')(P.c28)
check('C33','model_checking','every operation with parallel regions x grid shape x threads x nesting levels x chunk order under an own OpenMP runtime: the default schedule, every single deviation from it (thinned where the evidence says so) and three global policies; on every one, all accesses checked for conflicts between logically concurrent tasks by vector clocks and every result compared bit for bit with one thread; states: schedules; transitions: scheduling points; plus free runs of the executable under the real runtime',[SHT,FFTW,'memory inside FFTW is reported by the stand-in at plan execution; libgomp itself is replaced by a runtime with the same interface'])(P.c33)
check('C35','exploration','every (grid shape, discretisation) in the bound x operator x harmonic, nodal vector and dense data, sphere operations, initial data, right-hand side, steps, density and files; two processes, one per layout, compared value by value at the same physical point; then the two executables on every small angular grid',[SHT])(P.c35)
check('C34','exploration','the enumerations of the other checks (quick: those of C01-C14, C18-C22, C27; thorough: also C15-C17, all layouts and discretisations) rerun with address, leak and undefined-behaviour sanitizers and with assertions on, only memory errors, undefined behaviour, leaks and assertions counting; then the sanitized executable on every small angular grid, layout, discretisation and two thread counts',[SHT,FFTW,'inside FFTW only what the sanitizers intercept'])(P.c34)
from . import checks_py as Y
check('C29','exploration','every parameter x value of its alphabet, derived parameters through mass, spin, grid and time, extra attributes, and mixed rows; a real launch in which the executable reports what the real Params obtained',['values are finite and no subnormal floats'])(Y.c29)
check('C30','exploration','every (mass, spin, length, pulse, grid, discretisation, cfl, time, saves) of the alphabet, compared with exact rational arithmetic')(Y.c30)
check('C31','model_checking','every history up to the depth over thirteen operations (and a shorter one over twenty-six, with odd names, places and dates): launches at home and on a cluster with fresh, named, nested, repeated and colliding directories, recompiling, clock ticks, rebuilds, removal of the executable; states: histories; transitions: launches, each checked against a snapshot of the whole tree',['make, sbatch, time and the executables are recording stand-ins; slurm sets SLURM_CPUS_PER_TASK as its documentation says'])(Y.c31)
check('C32','model_checking','every history up to the depth over builds (both discretisations, both layouts, config.py, parallel make, make test), recompiling launches, edits of sources and headers, cleaning, and failing, interrupted and killed compilers, plus an accident at every compiler call; states: histories; transitions: builds, each executable judged by what its objects were compiled from',['the compiler is a recording stand-in, real make and python'])(Y.c32)

@check('C36','model_checking','every history up to the depth over creation, destruction and every public operation of three spheres, grids or evolution objects (same size, same shape, other size; shared buffers at the same addresses), every result compared bit for bit with the same call made alone in a process of its own; states: complete histories; transitions: operations',[SHT,FFTW])
def c36(ctx): ctx.harness([dict(name='h_hist',files=['h_hist.cpp'],fl=f) for f in (Flavour(True,True),Flavour(False,False))])
check('C37','exploration','every run of the product mass x spin x discretisation x direction x harmonic and of the tables of grids, times, couplings, pulses, threads and computers: the real run script and Sim, the real executable; each judged from the values in the run script alone (exact arithmetic, closed form of the first snapshot) and snapshot by snapshot against the evolution of that problem by the library',[SHT,'sbatch and time are stand-ins','the run script is edited by overriding the attributes it sets'])(Y.c37)

check('C38','model_checking','every (nt, t_step_save) in the bound x configuration (also zero, tiny and large amplitude) x discretisation x thread count: every number printed with a snapshot compared with the residual of the step just made, the variation of what is saved and the time of it, computed by stepping the library without main; states: runs; transitions: printed numbers',[SHT])(P.c38)
check('C39','model_checking','every clean target, and every pair of them in sequence, x everything that may lie about in the tree: nothing, everything, each one and two of 23 kinds of item and their complements (pairs thinned to a quarter in the quick tier; triples in the thorough one); states: histories; transitions: cleanings by the real make, each compared with the model of what the target owns',['rm is passed through a stand-in that refuses to leave the scratch tree, and make runs as an unprivileged user'])(Y.c39)
