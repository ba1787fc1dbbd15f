#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code because JSON lines are unreadable to edit)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,obs,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))
S='Source/'
p('C01','Chebyshev points and transform pair are exact',
 'For every number of points n>=3 and every interval, Cheb places point i at (upper+lower)/2 + (upper-lower)/2*cos(pi*i/(n-1)) (first point the upper end, last point the lower end) and reports the n, lower and upper it was built with. to_ch returns the coefficients c_k, k=0..n-1, of the degree n-1 polynomial sum_k c_k T_k through the given point values, to_po returns the point values of the given coefficients, and the two are inverse to each other in both orders, to rounding, whatever the magnitude of the data. Neither changes the array it is given.',
 ['inputs','configurations'],'all n in 3..N (odd, even, prime, power of two +1), several intervals, every basis vector in either space (the whole matrix), every pair, data scaled by powers of two',
 'test_cheb checks one n and one smooth function, which has almost no energy in the high modes where normalisation and endpoint weights go wrong',
 [S+'cheb.cpp',S+'cheb.hpp'],[('Cheb::to_ch / Cheb::to_po','Source/cheb.cpp'),('FFTW REDFT00 plan','Source/cheb.cpp')],['Cheb::to_ch','Cheb::to_po','Cheb::pt'])
p('C02','Chebyshev derivative is exact on what it resolves',
 'For every n>=3 and every interval, Cheb::der is a linear map that returns, at every grid point including both ends, the exact derivative (with respect to the coordinate on [lower,upper]) of every polynomial of degree <= n-3. The two highest resolved modes, k=n-2 and k=n-1, contribute either their exact derivative or nothing. The input array is not changed.',
 ['inputs','configurations'],'all n in 3..N, several intervals, every Chebyshev mode and every nodal basis vector (hence, by linearity, every input), linearity on all pairs of a dense alphabet and all power-of-two scales',
 'test_cheb differentiates one smooth function on one n: an error in one recurrence row, in one parity or on another interval is not sampled',
 [S+'cheb.cpp'],[('derivative recurrence and Jacobian','Source/cheb.cpp: Cheb::der')],['Cheb::der'])
p('C03','Chebyshev low-pass filter acts as documented on every mode',
 'For every n>=3 and every interval, Cheb::filter multiplies the Chebyshev coefficient of degree k of its argument by exp(-40*(k/n)^16) and does nothing else: it is linear, diagonal in the Chebyshev coefficients, and leaves constants unchanged. It therefore never amplifies a mode, changes the lower half of the spectrum by less than one part in a thousand and suppresses the highest modes strongly.',
 ['inputs','configurations'],'all n in 3..N, every mode and every nodal basis vector, pairs, scales',
 'the existing filter test only asserts that the total variation of one sample does not grow',
 [S+'cheb.cpp'],[('_low_pass table','Source/cheb.cpp'),('Cheb::filter','Source/cheb.cpp')],['Cheb::filter'])
p('C04','Finite-difference derivatives have their full order everywhere',
 'For every n>=8 and every interval, FD has the equally spaced points lower+i*(upper-lower)/(n-1), and at every point, the boundary points included, FD::der is exact for polynomials of degree <=6 and FD::der2 for polynomials of degree <=7. Each output value depends linearly on, and only on, the nearest points: the 7 points nearest to it for der, and for der2 the 7 nearest in the interior and the 8 nearest at the three points next to each end. The input is not changed.',
 ['inputs','configurations'],'all n in 8..N plus large n, several intervals, every nodal basis vector (the whole operator matrix), every monomial',
 'test_finite_diff compares one function with a loose tolerance: a wrong coefficient in one boundary row is diluted, and sizes near the stencil width are not tried',
 [S+'finite_diff.cpp'],[('stencils','Source/finite_diff.cpp: FD::der, FD::der2')],['FD::der','FD::der2','FD::pt'])
p('C05','Finite-difference dissipation filter is the 8th-difference filter',
 'For every n>=8, FD::filter replaces each point that has four neighbours on both sides by a linear combination of the original (unfiltered) values of itself and those eight neighbours that leaves every polynomial of degree <=7 unchanged and annihilates the grid-scale sawtooth (-1)^i. The first four and the last four points are left bit for bit as they were, and so is the whole array when n=8.',
 ['inputs','configurations'],'all n in 8..N plus large n, every nodal basis vector, polynomials, sawtooth, pairs, scales',
 'the existing test only asserts that the total variation of one sample does not grow',
 [S+'finite_diff.cpp'],[('Kreiss-Oliger stencil','Source/finite_diff.cpp: FD::filter')],['FD::filter'])
p('C06','Operators are pure functions of their arguments',
 'The result of any radial operator (to_ch, to_po, der, der2, filter, pt) depends only on the arguments of that call and on the parameters the object was built with: not on earlier calls, on the previous contents of the output array, on which other radial grids of the same or another size exist, or were created or destroyed before or in between. Input arrays are never modified, and FFTW plans are used only while they are valid and are all released.',
 ['histories'],'all sequences up to a depth over create/destroy of several grids of different sizes and all operator calls, outputs compared bit for bit with a fresh object; output arrays pre-filled with 0, NaN and garbage',
 'each unit test uses one object once; leaks between objects, caches and stale plans need a history',
 [S+'cheb.cpp',S+'finite_diff.cpp'],[('plan lifetime','Source/cheb.cpp: constructor/destructor')],['Cheb','FD'])
p('C07','Spherical-harmonic conventions and transforms',
 'For every (lmax,mmax,nlat,nphi) with mmax<=lmax<nlat and nphi>2*mmax, Sphere has the nlat Gauss-Legendre colatitudes from north to south and the longitudes 2*pi*j/nphi, stored theta-fastest when built with contiguous longitudes and phi-fastest otherwise. to_Sph of the unit coefficient (l,m) and compute_ylm(l,m) are the orthonormal Condon-Shortley harmonic Y_l0 for m=0 and 2*Re Y_lm for m>0, to_Ylm recovers the coefficients, and the real transform pair, and the complex one on fields of degree up to mmax, are inverse to each other on band-limited fields. No transform modifies its input.',
 ['inputs','configurations'],'all small (lmax,mmax,nlat,nphi), every mode (l,m), both layouts, every pair of modes',
 'test_sphere needs SHTns and tests one resolution; it is not among the runnable tests',
 [S+'sphere.cpp',S+'sphere.hpp'],[('shtns_create/shtns_set_grid flags','Source/sphere.cpp: constructor'),('Sphere::indx','Source/sphere.hpp')],['Sphere::to_Sph','Sphere::to_Ylm','Sphere::theta','Sphere::phi','Sphere::compute_ylm'])
p('C08','Angular derivative operators are exact on every mode',
 'For every band-limited field on the sphere, laplace_beltrami returns sum of -l(l+1) f_lm Y_lm, partial_phi the exact d/dphi, raise and lower the ladder operators L_+ and L_- (L_± Y_lm = sqrt((l∓m)(l±m+1)) Y_l,m±1), and sphereX the squared gradient (d_theta f)^2 + (d_phi f)^2/sin^2(theta), at every grid point. This includes the modes l=lmax and m=mmax (ladder and sphereX: for mmax=lmax, or fields with no content beyond l=mmax). Inputs are not modified and previous output contents do not matter.',
 ['inputs','configurations'],'all small (lmax,mmax,nlat,nphi), every mode, every pair of modes for the quadratic operator, both layouts',
 'test_sphere checks low modes only at one resolution: the highest modes and cross terms are not reached',
 [S+'sphere.cpp'],[('mode loops','Source/sphere.cpp: laplace_beltrami, partial_phi, raise, lower, sphereX')],['Sphere::laplace_beltrami','Sphere::partial_phi','Sphere::raise','Sphere::lower','Sphere::sphereX'])
p('C09','Angular low-pass filter acts on every mode and mixes none',
 'Sphere::filter multiplies the harmonic coefficient (l,m) of its argument by exp(-40*(l/lmax)^16)*exp(-40*(m/lmax)^16) for all l<=lmax and 0<=m<=mmax (with its conjugate), and does nothing else: it is linear, mixes no modes and leaves the monopole unchanged.',
 ['inputs','configurations'],'all small (lmax,mmax,nlat,nphi), every mode, pairs, both layouts',
 'the sphere tests only assert a total-variation decrease and are not runnable here',
 [S+'sphere.cpp'],[('_low_pass','Source/sphere.cpp'),('Sphere::filter','Source/sphere.cpp')],['Sphere::filter'])
p('C10','Power spectra count every mode exactly once',
 'Sphere::power_spectrum returns, for every l=0..lmax-1, the sum over all m from -min(l,mmax) to min(l,mmax) of |f_lm|^2, so that for a field with no l=lmax content its sum is the integral of f^2 over the sphere. The grid version does the same independently at each radial point, and with the Chebyshev radial grid set_n_l_coef returns for each l the Chebyshev coefficients of the square root of that spectrum as a function of radius.',
 ['inputs','configurations'],'all small (lmax,mmax,nlat,nphi), every mode (real and imaginary part), pairs, different data at each radius',
 'no runnable test covers it; the saved output files of a run consist of exactly this quantity',
 [S+'sphere.cpp',S+'grid.cpp'],[('power_spectrum','Source/sphere.cpp'),('set_angular_power_spectrum, set_n_l_coef','Source/grid.cpp')],['Sphere::power_spectrum','Grid::set_angular_power_spectrum','Grid::set_n_l_coef'])
p('C11','Grid layout, slices and coordinates are consistent',
 'For every grid shape, including nlat!=nphi, the flat index of (ix,itheta,iphi) is a bijection onto 0..N-1, every get_row_*/set_row_* accessor reads or writes exactly the points of the named line or plane in order and no others, and a set followed by a get returns the same data. At each flat index the stored coordinates are the radial point, colatitude and longitude of that index, x_y_z are R*(sin cos, sin sin, cos), and R_to_r(R)=R/(1-R/cl), with 1/r below 1e-12 in magnitude at R=cl.',
 ['inputs','configurations'],'all shapes nx x nlat x nphi in a box, all rows and planes, all indices, both layouts and radial discretisations',
 'test_grid uses one shape with nlat==nphi, where swapping the two sizes is invisible',
 [S+'grid.hpp',S+'grid.cpp'],[('indx_R_th_ph and row accessors','Source/grid.hpp')],['Grid::get_row_*','Grid::set_row_*','Grid::R_th_ph','Grid::x_y_z','Grid::R_to_r'])
p('C12','Grid derivatives implement the compactified chain rule',
 'For every grid, set_partial_R applies the radial derivative along every ray, and set_partial_r and set_partial2_r return d/dr and d^2/dr^2 with respect to the uncompactified radius r=R/(1-R/cl), at every point including R=cl where they vanish. They are exact (to rounding) for functions polynomial in R of the degree the radial operator resolves, with any angular dependence. set_partial_phi, set_spherical_lap and set_sphereX apply the corresponding angular operator on every sphere, no ray or sphere influencing another.',
 ['inputs','configurations'],'all small shapes, both discretisations and layouts, every monomial in R times every angular nodal basis vector or harmonic, several (cl,Rmin,Rmax)',
 'test_grid samples one function at one shape and is not runnable here',
 [S+'grid.cpp'],[('_dR_over_dr, _d2R_over_dr2','Source/grid.cpp'),('set_partial_*','Source/grid.cpp')],['Grid::set_partial_R','Grid::set_partial_r','Grid::set_partial2_r','Grid::set_partial_phi','Grid::set_spherical_lap','Grid::set_sphereX'])
p('C13','The evolution filter filters every direction and keeps radial ends',
 'Grid::filter applies the angular low-pass filter on every sphere and the radial filter of the chosen discretisation along every ray, with the radially filtered values at the first and the last radial point replaced by the merely angularly filtered ones. It is linear, leaves spherically symmetric radial constants unchanged, and depends on nothing but its argument.',
 ['inputs','configurations'],'all small shapes, both discretisations and layouts, the full nodal basis on the smallest grids, every (radial mode x harmonic) product on the others',
 'test_grid only asserts that total variation decreases for one sample: a filter that skips one direction passes',
 [S+'grid.cpp'],[('Grid::filter','Source/grid.cpp')],['Grid::filter'])
p('C14','Residual norm and total variation are what they say',
 'norm_indep_res(dt,f_n,f_np1,p) is the root mean square over all grid points of p-(f_np1-f_n)/dt. total_variation(v) is the sum, over the points that have a next neighbour in all three index directions, of the Euclidean norm of the three forward differences, divided by the number of grid points. Both are independent of the number of threads up to rounding.',
 ['inputs','configurations'],'all small shapes with distinct extents, every nodal basis vector in each argument, pairs, several dt, 1..8 threads',
 'no test covers them; they are the only diagnostics printed during a run',
 [S+'grid.cpp'],[('norm_indep_res,total_variation','Source/grid.cpp')],['Grid::norm_indep_res','Grid::total_variation'])
p('C15','The right-hand side is the covariant wave equation on Kerr',
 'Scalar_eom::set_k returns f_k=p, and p_k such that the documented covariant equation Box psi + (k\'/2k)(grad psi)^2 - V\'/k = 0 holds on the Kerr metric in ingoing coordinates with the given mass and spin, with k=k0+km1/(1+psi)+k1*psi+k2*psi^2/2 and V=V2*psi^2/2+V3*psi^3/6+V4*psi^4/24. It holds at every grid point, from inside or on the horizon out to R=cl, for every spin |a|<=M including a=0, extremal and negative spin, and for all coupling values, with derivatives those of the grid.',
 ['inputs','configurations'],'all combinations of spins, masses, coupling subsets (single and pairs), angular modes (l,m), radial profiles, both discretisations; compared pointwise with an independent long double evaluation from the metric itself',
 'there is no test of the equations at all',
 [S+'scalar_eom.cpp','Documentation/main.tex'],[('coefficient tables','Source/scalar_eom.cpp: constructor'),('set_k','Source/scalar_eom.cpp')],['Scalar_eom::set_k'])
p('C16','Absent couplings contribute nothing and nothing finite becomes NaN',
 'A coupling or potential coefficient that is zero contributes exactly nothing, whatever the field value up to 1e60 in magnitude (in particular psi=-1 with km1=0). For finite fields with nonzero kinetic coupling, set_k, set_rho, the filter, the derivatives and a full time step give finite values at every grid point, including the horizon, the poles-nearest points and spatial infinity R=cl, for every |a|<=M.',
 ['inputs','configurations'],'all subsets of the seven couplings x all field values of a small alphabet containing the singular ones x all spins x grids with and without R=cl',
 'no test evaluates the equations; NaN at a single special value or point is invisible to any sampled run',
 [S+'scalar_eom.cpp',S+'grid.hpp'],[('km1==0 guard','Source/scalar_eom.cpp'),('inv_r=0 at infinity','Source/scalar_eom.cpp')],['Scalar_eom::set_k','Scalar_eom::set_rho'])
p('C17','The saved energy density is that of the documented action',
 'set_rho returns at every grid point n^mu n^nu T_mu_nu for the stress tensor of the documented action, T_mu_nu = k d_mu psi d_nu psi - g_mu_nu((k/2)(grad psi)^2+V), with n the unit normal of the v=const slices of the Kerr metric in ingoing coordinates, for every mass, spin |a|<=M, coupling and field. Hence with k>0 and V>=0 it is never negative (up to rounding), and with V=0 it vanishes for constant fields at rest.',
 ['inputs','configurations'],'as C15: all combinations of spins, coupling subsets, modes and radial profiles; oracle contracts the stress tensor with the metric in long double',
 'there is no test of the energy density at all',
 [S+'scalar_eom.cpp','Documentation/main.tex'],[('rho coefficient tables','Source/scalar_eom.cpp: constructor'),('set_rho','Source/scalar_eom.cpp')],['Scalar_eom::set_rho'])
p('C18','A time step is classical RK4 on the filtered state',
 'time_step filters the fields at level n in place and sets level n+1 to the classical fourth-order Runge-Kutta update of the filtered state with step dt and the right-hand side of set_k. The result is independent of whatever the work levels (l, k, n+1) held before, of earlier steps and of the Scalar_eom object\'s history. set_level(1..5) performs the corresponding stage updates.',
 ['histories','inputs'],'all histories up to a depth over {step, shift, poison work arrays, rhs or rho evaluation of other data, second Scalar_eom} and several initial states, against a reference RK4 written with the public set_k and filter',
 'no test makes a time step; a stage coefficient or stale-level error only shows as a lower order of convergence',
 [S+'scalar_eom.cpp',S+'field.cpp'],[('set_level','Source/scalar_eom.cpp'),('time_step','Source/scalar_eom.cpp')],['Scalar_eom::time_step','Field levels'])
p('C19','The evolution respects the symmetries of the problem',
 'Evolving transformed initial data gives the transformed evolution, to rounding: rotation by a grid multiple in phi; reflection theta->pi-theta; overall sign flip when all couplings are even; and reversing the spin together with phi->-phi. Free fields (k constant, V quadratic) superpose linearly, axisymmetric data stay axisymmetric, on a=0 a pure (l,m) stays pure (l,m), and a constant field with V=0 stays constant.',
 ['histories','inputs'],'all symmetry generators x modes x spins x couplings x discretisations over several steps',
 'relations between runs are never tested, and a single run cannot exhibit them',
 [S+'scalar_eom.cpp',S+'grid.cpp',S+'sphere.cpp'],[('whole evolution','Source/scalar_eom.cpp: time_step')],['Field::n after each step'])
p('C20','Initial data are the requested pulse, everywhere',
 'compact_pulse sets, at every grid point, f to a compactly supported bump in r, ((r-rl)/w)^4((ru-r)/w)^4*exp(-w/(r-rl)-2w/(ru-r)) for rl<r<ru (w=ru-rl) and exactly zero elsewhere, times the harmonic of the requested (l,m), scaled so that max|f|=|amp| on the grid. p is +df/dr for "ingoing", -df/dr for "outgoing" (with the same scaling) and zero for "time_symmetric" or anything unrecognised. Every point is set, whatever the arrays contained before, and the same call gives the same data.',
 ['inputs','configurations'],'all combinations of direction, (l,m), pulse supports covering, touching and missing the ends of the grid, amplitudes of both signs, both discretisations and layouts, poisoned arrays',
 'no test covers the initial data',
 [S+'initial_data.cpp'],[('compact_pulse','Source/initial_data.cpp')],['ID::compact_pulse'])
p('C21','Field levels and shift',
 'A Field of any size has all of its levels (n, l, np1, k) of that size and filled with the given initial value, and reports its name and size. shift() makes level n bit for bit equal to level np1, for every size and number of threads, and changes nothing else.',
 ['inputs','configurations','histories'],'all sizes 0..N, all thread counts 1..8, all short sequences of writes and shifts, values including NaN, infinities and signed zeros',
 'there is no test of Field; an off-by-one in a parallel loop needs particular sizes',
 [S+'field.cpp',S+'field.hpp'],[('Field::shift','Source/field.cpp')],['Field::n','Field::l','Field::np1','Field::k'])
p('C22','Saved CSV files say exactly what was computed',
 'write_R_psl, write_n_psl and write_x_y_z append to <name>_RPsl_<k>.csv, <name>_NPsl_<k>.csv and <name>_XYZ_<k>.csv a header line (when asked) and one row per value in index order, with that value\'s own coordinates (R,l / n,l / x,y,z) and the value, all with 16 significant digits; Csv::write appends one value per line to <name>_<k>.csv. The spectra are written as log10 of the magnitude, floored to -16 below 1e-16; write_x_y_z writes exactly the points with vmin<|value|<vmax and rmin<|x|<rmax. Existing content is kept, and writing does not change the data.',
 ['inputs','histories','configurations'],'all small shapes, all writers, values from an alphabet including thresholds, all short sequences of writes to the same and different names, file parsed back and compared',
 'no test reads a file back',
 [S+'io.cpp'],[('Csv writers','Source/io.cpp')],['CSV files'])
p('C23','Snapshots come at exactly the promised steps',
 'A run saves snapshot 0 of the initial data and then, for every step itm=1..nt-1 that is a multiple of t_step_save, snapshot number itm/t_step_save, numbered contiguously, each as one f file and one rho file and nothing else. Snapshot k holds the level n+1 field and its energy density at time k*t_step_save*dt, and the printed times agree; the run then exits with status 0.',
 ['configurations','histories'],'all (nt,t_step_save) in a box, both discretisations: the real executable run for each, its file set and contents compared with an independent loop over the public API',
 'no test runs the executable',
 [S+'main.cpp'],[('save schedule','Source/main.cpp')],['output directory','stdout'])
p('C24','How often a run saves does not change what it computes',
 'Two runs whose parameters differ only in nt and t_step_save produce byte-identical snapshots for the same evolution step, and the snapshots of a shorter run are a prefix of those of a longer one. Repeating a run in a fresh directory reproduces every file byte for byte. All of this is for the same choice of FFT algorithm by the FFTW planner, which times candidates at run time; another choice changes results by rounding only.',
 ['configurations','histories'],'all pairs of (nt,t_step_save) in a box with the real executable, several couplings and spins, both discretisations',
 'no test runs the executable, and a diagnostic that disturbs the state is only visible by comparing runs',
 [S+'main.cpp',S+'scalar_eom.cpp'],[('set_rho shares work arrays with set_k','Source/scalar_eom.cpp')],['CSV files of two runs'])
p('C25','A killed run leaves a clean prefix of its output',
 'If a run is killed at any moment, every snapshot file completed before that moment is complete and identical to that of the uninterrupted run, the file being written is a byte prefix of it, no later file exists, and nothing outside the output directory was written. Files are written one after another, those of a snapshot before those of the next. By the time the progress line of a snapshot is printed, the files of all earlier snapshots are complete.',
 ['crash_points'],'every file-system operation (open, each write call, close) of complete runs of the real executable is a crash point; torn writes at several byte positions of each write',
 'needs a fault injector; tests never kill a run',
 [S+'io.cpp',S+'main.cpp'],[('append-mode streams closed after each file','Source/io.cpp')],['output directory after the kill'])
p('C26','An output fault costs that file, not the simulation',
 'If opening or writing an output file fails (any one or any set of them, once or permanently), the evolution is not disturbed: the run goes on to the end, exits without crashing, and every file that could be opened and written is byte-identical to the fault-free run. A file that could not be opened is reported on standard output with its name.',
 ['fault_sequences'],'every single open, every subset of opens of a short run, every write call failing with ENOSPC/EIO or writing short, on the real executable',
 'tests never inject I/O faults',
 [S+'io.cpp'],[('is_open check and message','Source/io.cpp')],['exit status','stdout','output directory'])
p('C27','Parameters are read exactly as written',
 'Params gives each parameter the value of the first line of the file whose text up to the first space equals the parameter\'s name exactly, whatever the order of the lines, whatever other lines (unknown names, names that contain or extend a known one, blank lines, list-valued or extra-word lines) surround it, and with or without a final newline. Every getter returns its own parameter: integers as written, floating-point values as the double nearest to the decimal text.',
 ['inputs','configurations'],'all line orders up to a bound (every adjacent and every pairwise order of the file), all decoy lines at all positions, duplicate lines, every parameter given a distinct value, an alphabet of numeric texts (sign, exponent, many digits, Python repr forms)',
 'there is no test of Params in the runnable suite',
 [S+'params.cpp',S+'params.hpp'],[('Params::_read','Source/params.cpp')],['Params getters'])
p('C28','An incomplete parameter file stops the run before it starts',
 'If any required parameter is missing from the parameter file, the program prints a message naming it, ends with a failure exit status, and writes no output files; if all are present it does not fail. This holds for every single missing parameter and every combination.',
 ['inputs','configurations'],'every subset of missing parameters of size 1, 2 (and larger ones sampled by structure: prefixes and suffixes), keys present only as a prefix, extension or value of another key, on the real executable',
 'no test runs with an incomplete file',
 [S+'params.cpp',S+'main.cpp'],[('ERROR: did not find, quick_exit(EXIT_FAILURE)','Source/params.cpp')],['exit status','stdout','output directory'])
p('C29','The run script\'s parameters reach the executable bit for bit',
 'Every parameter the executable reads is in the params.txt that Sim writes, and for every value a user can set in the run script (ints, floats of any size, derived floats) the value the executable obtains is bit for bit the value Python held. Every attribute of the simulation is recorded on its own line as its name, a space and its value (lists: values separated by spaces).',
 ['inputs','configurations'],'all run-script configurations of a product alphabet and all floats of an exhaustive boundary alphabet, written by the real Sim and read by the real Params',
 'the Python and the C++ half are never tested together',
 ['sim_class.py',S+'params.cpp'],[('write_sim_params','sim_class.py'),('Params::_read','Source/params.cpp')],['params.txt','Params getters'])
p('C30','Derived run parameters are consistent with the requested run',
 'set_derived_params gives horizon=M+sqrt(M^2-a^2) (for |a|<=M), rl and ru the requested multiples of it, Rmin the compactified horizon radius r/(1+r/cl) and Rmax the compactification length; dt=6/max(nx,nlat,nphi)^2 with Chebyshev and min(6/max(nlat,nphi)^2, cfl/(nx-1)) with finite differences. nt=floor(evolve_time*M/dt), and t_step_save=floor(nt/num_saved_times) but at least 1, so that the run never saves less often than asked.',
 ['inputs','configurations'],'the full product of alphabets for mass, spin (0, generic, extremal, negative), lengths, nx, nlat, nphi, evolve time, number of snapshots, discretisation',
 'there are no Python tests',
 ['sim_class.py'],[('set_derived_params, compactification','sim_class.py')],['Sim attributes'])
p('C31','Launching runs keeps them apart and reproducible',
 'launch_run creates a new output directory of its own (and refuses to reuse an existing one), records the parameters there, runs a copy of the named executable made at launch time with that parameter file inside that directory with the requested thread settings, and leaves the working directory as it found it; on a cluster it writes a batch script for the same command and submits it instead. No sequence of launches makes one run overwrite the files of another, or of the repository.',
 ['histories','configurations','fault_sequences'],'all sequences of launches up to a depth over {default or named directory, same name again, home or cluster, recompile or not, different parameters, a run that fails}, with stand-in make/sbatch/executables recording what they were given',
 'there are no Python tests',
 ['sim_class.py'],[('make_output_dir, launch_run','sim_class.py')],['file tree','environment and cwd of the launched process'])
p('C32','Building and recompiling give the discretisation asked for',
 'However builds are sequenced (config.py, make with either radial option, recompiling from a run, starting from any mixture of object files such a build leaves, with or without cleaning), default_cheb.run is linked only from objects compiled with the Chebyshev option and default_fd.run only from objects compiled without it, both with contiguous longitudes when asked and each from all of the program\'s current sources. A recompiling launch runs an executable built from the current sources with its own use_cheb.',
 ['histories','configurations'],'all sequences up to a depth of {config.py, recompile cheb, recompile fd, make use_cheb, make fd, edit a source, clean} run on the real Makefiles with a recording compiler',
 'the build is never tested; a stale object shows only in the results',
 ['Makefile','Source/Makefile','config.py','sim_class.py'],[('make rules','Source/Makefile'),('then_recompile','sim_class.py')],['recorded compiler commands','Bin/'])
p('C33','Results do not depend on threads or schedules',
 'For every number of threads, nesting level and interleaving of its parallel regions, the program computes bit for bit the same fields, energy density, spectra and files as with one thread (reductions used for printed diagnostics: to rounding). No two threads access the same memory concurrently with at least one of them writing.',
 ['schedules'],'every parallel region executed in initial data, time steps, energy density, spectra and filters, at 1..8 threads and both nesting levels: all pairs of logically concurrent accesses checked on every execution, and thread execution orders permuted exhaustively up to a bound',
 'a data race shows only under particular schedules and the tests run none of the parallel code with more than the default threads',
 [S+'grid.cpp',S+'scalar_eom.cpp',S+'field.cpp'],[('omp parallel for / sections','Source/grid.cpp, Source/scalar_eom.cpp, Source/field.cpp')],['memory accesses of instrumented code','field contents'])
p('C34','No undefined behaviour on any supported configuration',
 'For every supported grid shape, discretisation, layout and operation sequence, the program performs no out-of-bounds or use-after-free access, no uninitialised or otherwise undefined operation that sanitizers detect, leaks no memory across the life of its objects, and none of its own assertions fails. This includes shapes with nlat!=nphi, mmax<lmax, and the smallest permitted sizes.',
 ['configurations','histories','inputs'],'the enumerations of the other checks and all small grid shapes, rerun with address and undefined-behaviour sanitizers and assertions enabled',
 'the tests use one shape, and release builds disable the assertions',
 [S+'grid.cpp',S+'grid.hpp',S+'sphere.cpp',S+'scalar_eom.cpp',S+'io.cpp',S+'cheb.cpp',S+'finite_diff.cpp',S+'params.cpp',S+'field.cpp',S+'initial_data.cpp',S+'main.cpp'],[('index arithmetic','Source/grid.hpp'),('buffer allocation','Source/sphere.cpp')],['sanitizer reports','assertions'])
p('C35','The storage layout does not affect results',
 'A build with theta-contiguous storage and a build with phi-contiguous storage compute the same quantities at the same physical points, to rounding, for every operator, for initial data, energy density, time steps and saved spectra, for all grid shapes including nlat!=nphi.',
 ['configurations','inputs'],'all small shapes, both discretisations, all operators on harmonics and nodal vectors and several evolution steps, one process per layout, compared by physical index',
 'no test compares builds; with nlat==nphi a transposition can go unnoticed',
 [S+'sphere.cpp',S+'sphere.hpp',S+'grid.hpp'],[('SHTNS_CONTIGUOUS_LONGITUDES switches','Source/sphere.hpp, Source/sphere.cpp, Source/grid.hpp')],['operator outputs','CSV files'])
p('C36','Objects are independent and calls leave nothing behind',
 'What any public operation of Sphere, Grid, Scalar_eom or the initial data returns depends only on the arguments of that call and on the parameters the object was built with: not on earlier calls, not on other objects (living or destroyed, of the same size or another), not on what the output buffers held or where the buffers are, and no operation changes an argument it does not return its result in. Objects can be created, used and destroyed in any order.',
 ['histories'],'all sequences up to a depth over create / destroy / every public operation of three spheres, three grids (twins, other sizes, the same number of points in another shape) or three evolution objects that share grids, each result compared bit for bit with the same call made alone in a process of its own',
 'a test uses one object once: static caches, shared scratch memory, work arrays reused with stale contents and handles freed under another object need a history',
 [S+'sphere.cpp',S+'grid.cpp',S+'scalar_eom.cpp',S+'initial_data.cpp'],[('shtns handle and scratch','Source/sphere.cpp'),('work fields','Source/scalar_eom.hpp'),('radial operator ownership','Source/grid.hpp')],['Sphere','Grid','Scalar_eom','ID::compact_pulse'])
p('C37','A run started from the run script is the run it describes',
 'Executing runscript_template.py with its assignments set to a run (mass, spin, lengths, grid, discretisation, couplings, pulse, times, threads; at home or on a cluster) leaves one new output directory with params.txt, out.txt, a copy of the executable of the chosen discretisation and exactly 1+floor((nt-1)/t_step_save) pairs of snapshots (one pair when nt is 0), and nothing elsewhere. The snapshots have the radial points of that discretisation from the compactified horizon to the compactification length; the first holds only the harmonic l of the pulse with the pulse\'s radial shape between rl_0 and ru_0 horizon radii and the amplitude asked for; every later one is the evolution of exactly that problem at the time printed for it. An unknown run_type is refused and starts nothing.',
 ['configurations','inputs'],'the product mass x spin x discretisation x direction x harmonic, and tables of grid shapes, evolve times x snapshot counts, lengths, pulses, couplings, threads, computers and run types, each executed with the real script, Sim and executable',
 'no test runs the script, Sim and the executable together: a value that is right in each part can be lost, renamed or replaced by another between them',
 ['runscript_template.py','sim_class.py',S+'params.cpp',S+'main.cpp',S+'initial_data.cpp',S+'io.cpp'],[('assignments, bin_name, launch_run','runscript_template.py'),('set_derived_params, write_sim_params, launch_run','sim_class.py'),('main','Source/main.cpp')],['output directory','CSV files','out.txt'])
p('C38','Printed diagnostics describe the step that is saved',
 'With every snapshot, and only then, a run prints one line with the time of the snapshot, the root mean square over the grid of p-(f_np1-f_n)/dt for the step that produced it (level n being the filtered state that step started from; for snapshot 0 both levels are the initial data), and the total variation of the field that is saved, each to the six digits printed.',
 ['configurations','histories'],'all (nt,t_step_save) in a box x couplings, spins, amplitudes, discretisations and thread counts with the real executable, every printed number compared with an independent loop over the public API',
 'no test runs the executable; the diagnostics are what a user watches for a run that goes wrong, and nothing else depends on them, so that an error in them has no other symptom',
 [S+'main.cpp',S+'grid.cpp'],[('diagnostics at each save','Source/main.cpp'),('norm_indep_res, total_variation','Source/grid.cpp')],['stdout'])
p('C39','Cleaning removes what it names and nothing else',
 'clean_Bin (and clean in Bin) removes the executables *.run that lie in Bin, clean_Output (and clean in Output) the directories that lie in Output with all they hold and whatever their names (spaces, a leading dash), clean_Source (and clean in Source) the object files *.o that lie in Source, and clean all three. No clean target removes, changes or creates anything else: not sources, notes, backups, files of other kinds in those directories, hidden names, files in other directories or beyond a symbolic link, nor anything outside the tree. With nothing to remove it succeeds, and cleaning twice is cleaning once.',
 ['histories','inputs'],'every clean target and every ordered pair of them x what lies about in the tree (nothing, everything, each one and two of 23 kinds of item and their complements), each carried out by the real make and compared with the model of what the target owns',
 'no test runs a clean target; a pattern that is one character too wide deletes results, and only in a tree that holds the file it should have spared',
 ['Makefile','Bin/Makefile','Output/Makefile',S+'Makefile'],[('clean targets','Makefile'),('clean','Bin/Makefile'),('clean','Output/Makefile'),('clean','Source/Makefile')],['make clean','clean_Bin','clean_Output','clean_Source'])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
if __name__=='__main__':
    try:
        import jsonschema
        sc=json.load(open('/root/.vp/PROPERTIES.schema.json'))
        for x in P: jsonschema.validate(x,sc)
    except ImportError: pass
    print(len(P))
