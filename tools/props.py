"""Writes properties.jsonl (the list is kept here because it is easier to edit)."""
import json
S = 'spectralDNS/solvers/'
M = 'spectralDNS/maths/'
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
         'why_tests_cant': why, 'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                                            'hook_needed': None}}
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        d['anchors']['observe_at'] = observe
    assert len(title) <= 80, title
    P.append(d)


IN, HI, CO = 'inputs', 'histories', 'configurations'

p('C01', 'NS solver integrates the incompressible Navier-Stokes equations',
  'For every solenoidal periodic velocity field, the triply periodic velocity solver advances each resolved Fourier mode at the rate given by '
  'the divergence-free projection of the chosen form of the convective term (evaluated with the chosen dealiasing rule), minus nu*k^2 times '
  'the mode, plus the user\'s source term. This holds for every convection form (Standard, Divergence, Skewed, Vortex), dealiasing rule, '
  'anisotropic mesh and domain, viscosity and Nyquist-mask setting; with the mask on, the nonlinear term leaves Nyquist modes untouched.',
  [IN, CO], 'All band-limited solenoidal fields (including mean flow), all meshes/domains, nu, source terms, 4 convection forms x 3 dealiasing rules x mask.',
  'The tests run one Taylor-Green flow on one isotropic cube and compare one rounded energy number; most modes, anisotropy, sources and mean flow never matter there.',
  [S + 'NS.py', M + 'cross.py', S + 'spectralinit.py'],
  [('nonlinear term, pressure projection, diffusion', S + 'NS.py: getConvection, add_pressure_diffusion, ComputeRHS'),
   ('wavenumber arrays', S + 'NS.py: get_context')], ['velocity coefficients after one explicit step'])

p('C02', 'VV solver integrates the vorticity transport equations',
  'For every solenoidal vorticity field the velocity-vorticity solver advances each resolved mode at the rate curl(u x w) - nu*k^2*w plus source, where u '
  'is the mean-free solenoidal velocity whose curl is w, evaluated with the chosen dealiasing rule; the velocity it reports is that u. '
  'Its vorticity therefore equals, at every later time, the curl of the velocity the velocity-form solver computes from the same (mean-free) initial state under a common full dealiasing.',
  [IN, CO], 'All band-limited solenoidal vorticity fields, meshes, domains, nu, source, dealiasing rules.',
  'One Taylor-Green flow and one energy number; VV is compared to NS nowhere.',
  [S + 'VV.py', S + 'NS.py', M + 'cross.py'], [('Biot-Savart inversion and curl of the Lamb vector', S + 'VV.py: compute_velocity, getConvection, add_linear')])

p('C03', 'Two-dimensional NS solver integrates the 2D Navier-Stokes equations',
  'For every solenoidal doubly periodic velocity field the 2D solver advances each resolved mode at the rate given by the projected rotational convective term, '
  'minus nu*k^2 times the mode, plus the source term, for every dealiasing rule, mesh and domain.',
  [IN, CO], 'All band-limited 2D fields, anisotropic meshes/domains, nu, source, dealiasing, mask.',
  'The only 2D test is the 2D Taylor-Green vortex, whose projected nonlinear term vanishes identically: a wrong convective term can pass.',
  [S + 'NS2D.py', S + 'NS.py', M + 'cross.py'], [('2D curl and cross product', S + 'NS2D.py: getConvection'), ('projection, diffusion', S + 'NS.py: add_pressure_diffusion')])

p('C04', 'Boussinesq solver integrates the 2D Boussinesq equations',
  'For every state the 2D Boussinesq solver advances velocity by the projected rotational convective term minus Ri*rho in the vertical (second) direction minus viscous decay nu*k^2, and '
  'density by minus the divergence of the density flux minus (nu/Pr)*k^2*rho, for every Ri, Pr, nu, mesh, domain and dealiasing rule. '
  'The mean density is conserved and a state without density reduces to the 2D Navier-Stokes solver.',
  [IN, CO], 'All band-limited (u, rho) states, Ri, Pr, nu, meshes, domains, dealiasing.',
  'No test runs this solver at all.',
  [S + 'Bq2D.py', S + 'NS2D.py'], [('buoyancy, density advection, projection', S + 'Bq2D.py: getConvection, add_pressure_diffusion')])

p('C05', 'MHD solver integrates the incompressible MHD equations',
  'For every pair of solenoidal velocity and magnetic fields the MHD solver advances the velocity by the projected divergence of (bb - uu) minus nu*k^2*u and the magnetic field by the divergence of (bu - ub) '
  'minus eta*k^2*b, for every dealiasing rule, mesh, domain, nu and eta. With no magnetic field it reduces to the divergence-form Navier-Stokes solver, and flipping the sign of b flips only the sign of its evolution.',
  [IN, CO], 'All solenoidal (u, b), meshes, domains, nu, eta, dealiasing, mask.',
  'One Taylor-Green type initial state, two rounded energies, isotropic cube, one viscosity and resistivity.',
  [S + 'MHD.py'], [('Elsasser products', S + 'MHD.py: divergenceConvection, set_Elsasser'), ('projection, diffusion', S + 'MHD.py: add_pressure_diffusion')])

p('C06', 'Solenoidality, realness and mean momentum survive every history',
  'Along every run of a periodic solver started from a divergence-free real state, with any integrator and any step sizes, the velocity (and magnetic, or vorticity) field stays divergence free to rounding, its coefficients remain those of a real field, '
  'masked Nyquist modes stay empty, and without a source the mean velocity (and mean magnetic field and density) stays constant up to the mean of the body force.',
  [IN, HI, CO], 'Every solver, integrator, step size sequence and number of steps within stability, every state.',
  'No test looks at divergence, realness or the mean; the tested flows have zero mean.',
  [S + 'NS.py', S + 'VV.py', S + 'NS2D.py', S + 'Bq2D.py', S + 'MHD.py', M + 'integrators.py'],
  [('projection on every right-hand side', S + 'NS.py: add_pressure_diffusion'), ('Nyquist mask', S + 'NS.py: ComputeRHS')])

p('C07', 'Dealiased inviscid dynamics conserves the quadratic invariants',
  'With full dealiasing, the nonlinear term of every periodic solver leaves the quadratic invariants of its equations unchanged: kinetic energy and helicity in 3D, kinetic energy and enstrophy in 2D, total energy and cross helicity in MHD. '
  'With viscosity, energy changes at exactly the rate -2*nu*(squared gradient) plus the work of forces, so unforced energy never grows; convection forms that differ analytically by a gradient give the same evolution.',
  [IN, CO], 'All resolved states, all forms, all meshes and domains, zero and non-zero viscosity.',
  'The energy of one Taylor-Green flow is compared at one time to 7 digits with a fixed viscosity; invariance of the nonlinear term over states is not observed.',
  [S + 'NS.py', S + 'VV.py', S + 'NS2D.py', S + 'MHD.py', S + 'Bq2D.py'],
  [('skew symmetry of the dealiased nonlinear term', S + 'NS.py: getConvection'), ('dealiased transforms', S + 'NS.py: get_context')])

p('C08', 'Periodic solvers respect the symmetries of their equations',
  'Translating, reflecting, or permuting the axes of the initial state and domain, or rescaling lengths, times and viscosity consistently, transforms the computed solution of a periodic solver in the same way; adding a uniform velocity translates the solution (to time-discretisation accuracy). '
  'A 2D state extended uniformly along a third direction evolves in the 3D solver as in the 2D solver.',
  [IN, CO], 'All states, grid translations, reflections, axis permutations (with their meshes and domains), scale factors.',
  'The Taylor-Green flow is symmetric under most of these operations, so the tests cannot see one axis treated differently.',
  [S + 'NS.py', S + 'VV.py', S + 'NS2D.py', S + 'MHD.py'], [('per-axis wavenumbers and products', S + 'NS.py: get_context, getConvection')])

p('C09', 'Fixed-step integrators are the published schemes',
  'Each fixed-step integrator (ForwardEuler, AB2 with an Euler start, RK4, the fixed-step 5th-order Bogacki-Shampine pair) advances the state exactly as its published scheme prescribes for any right-hand side, state size, step size and number of steps; '
  'so RK4 and the 5th-order method reproduce polynomials-in-time and linear systems to their order.',
  [IN, HI], 'Arbitrary (nonlinear) right-hand sides, states, step sizes, numbers of steps; 2D and 3D states.',
  'The tests compare end energies to 7 digits at tiny step sizes where a wrong stage coefficient of high order is invisible.',
  [M + 'integrators.py', 'spectralDNS/__init__.py'], [('scheme coefficients and stage reuse', M + 'integrators.py: RK4, AB2, ForwardEuler, adaptiveRK, getintegrator')],
  state=[('previous slope', 'AB2 history and the first-same-as-last stage', M + 'integrators.py')])

p('C10', 'Adaptive integration meets its tolerance and rejects cleanly',
  'With the adaptive integrator every accepted step has an embedded error estimate of at most one in the tolerance-weighted norm, a rejected attempt leaves state, time and step count unchanged and is retried with a smaller step, and the next step size follows the documented controller. '
  'The run ends exactly at the requested end time, and the integrated solution deviates from the exact one in proportion to the tolerance.',
  [IN, HI, CO], 'All right-hand sides, tolerances, initial step sizes (including ones far too large), end times; states where rejections occur at any step.',
  'The adaptive runs in the tests start from a step size that is never rejected and only look at the final energy.',
  [M + 'integrators.py', S + 'NS.py', 'spectralDNS/__init__.py'],
  [('error estimate, rejection loop, controller', M + 'integrators.py: adaptiveRK'), ('landing on the end time', S + 'NS.py: end_of_tstep')])

p('C11', 'The time loop keeps honest books',
  'A run advances time by exactly the steps taken, counts every step once, calls the user\'s update callback once after each completed step with time, step count and state of that step, calls the end-of-run hook once, and stops at the requested end time without overshooting it. '
  'The time step parameter the user set is what it was before the run, and a run whose end time is already reached takes no step.',
  [IN, HI, CO], 'All solvers, integrators, step sizes that do or do not divide the interval, start times, end times.',
  'Tests only assert quantities at the end for one dt that divides T.',
  ['spectralDNS/__init__.py', S + 'NS.py', S + 'KMM.py', S + 'spectralinit.py'], [('time loop', 'spectralDNS/__init__.py: solve'), ('end of step', S + 'NS.py: end_of_tstep')])

p('C12', 'Interrupting and continuing a run does not change the solution',
  'Solving to an intermediate time and calling solve again to the final time gives the same state, time and step count as one uninterrupted run, for every solver and every integrator, after whichever completed step the run is cut. '
  'This also holds when the run is cut repeatedly, and to the tolerance for the adaptive integrator, which restarts from the step size the user set.',
  [HI, IN, CO], 'Every solver and integrator, every cut position, number of cuts, state.',
  'No test calls solve twice on one context.',
  ['spectralDNS/__init__.py', M + 'integrators.py', S + 'KMM.py', S + 'KMMRK3.py'],
  [('multi-step history kept between calls', M + 'integrators.py: getintegrator; ' + S + 'KMM.py: end_of_tstep')])

p('C13', 'Optimised kernels compute what the reference kernels compute',
  'Selecting any optimisation back end (cython, numba, pythran) in either precision gives the same trajectories as the plain implementation up to rounding, for every solver and integrator the back end accepts, in 2D and 3D. '
  'Each optimised kernel (cross products, projections, time steppers, channel kernels) agrees with its reference for every array shape and content.',
  [IN, CO], 'All kernels x shapes (including anisotropic) x contents x precision; all solver/integrator/back-end combinations.',
  'Tests run back ends for few combinations, on isotropic meshes, and compare an energy.',
  ['spectralDNS/optimization/cython_maths.in', 'spectralDNS/optimization/cython_integrators.in', 'spectralDNS/optimization/cython_solvers.in',
   'spectralDNS/optimization/numba_module.py', 'spectralDNS/optimization/pythran_maths.py', 'spectralDNS/optimization/pythran_module.py', 'spectralDNS/optimization/__init__.py'],
  [('dispatch by name, dimension and solver', 'spectralDNS/optimization/__init__.py: optimizer'), ('kernels', 'spectralDNS/optimization/*')])

p('C14', 'Results do not depend on the number of MPI processes or the decomposition',
  'For every solver, mesh and state, running on any number of processes that the axes of the mesh can be divided over, with slab or pencil decomposition, yields the same fields, the same accepted and rejected steps, the same diagnostics and the same stored data as on one process, up to rounding, '
  'and every rank finishes.',
  [CO, IN, 'schedules'], 'All numbers of processes the decomposition admits, slab/pencil, all solvers, integrators, uneven divisions.',
  'The suite is run on 1 and 4 processes with one flow and equal subdivisions; it compares one reduced scalar.',
  [S + 'NS.py', S + 'KMM.py', M + 'integrators.py', 'spectralDNS/h5io/HDF5File.py', 'spectralDNS/utilities/__init__.py'],
  [('distributed spaces', S + 'NS.py: get_context'), ('global reductions', M + 'integrators.py: adaptiveRK; spectralDNS/utilities/__init__.py: dx'), ('zero wavenumber on rank 0', S + 'KMM.py: solve_linear')])

p('C15', 'Checkpoints restart without loss',
  'A checkpoint contains the complete spectral solution, time and step count of the step it was written at, written at exactly the requested cadence; a run restarted from it in a fresh process continues to the same solution as the uninterrupted run (a multi-step integrator of the periodic solvers, whose history is not part of the solution, takes its starting step again). '
  'A kill request at any step makes the run checkpoint that step, remove the request and stop, whatever the cadence.',
  [HI, 'crash_points', CO], 'Every checkpoint cadence, kill at every step, every solver, state, restart in a fresh process image.',
  'No test writes or reads a checkpoint.',
  ['spectralDNS/h5io/HDF5File.py', S + 'NS.py', S + 'KMM.py', 'demo/MKM.py'],
  [('checkpoint cadence, attributes, kill file', 'spectralDNS/h5io/HDF5File.py: update, check_if_kill'), ('what each solver stores', S + '*.py: get_context')])

p('C16', 'Stored results are the physical fields of their step, at the requested cadence',
  'The results file holds, under each step number divisible by the requested cadence and no other, the physical-space fields the solver advertises (velocity, pressure, vorticity, magnetic field, density) evaluated from the solution at that step (the pressure being that of the last evaluation of the right-hand side). '
  'Asking for results does not alter the run.',
  [HI, CO, IN], 'All cadences, run lengths, solvers, states.',
  'No test reads a results file.',
  ['spectralDNS/h5io/HDF5File.py', S + 'NS.py', S + 'VV.py', S + 'MHD.py', S + 'Bq2D.py', S + 'KMM.py'],
  [('cadence and transforms before writing', 'spectralDNS/h5io/HDF5File.py: update; update_components of each solver')])

p('C17', 'Parameters behave as documented',
  'Parameters can be read and written as items or attributes with the same result, mesh size is 2**M unless N is given, derived spacing is L/N, domain sizes accept expressions in pi, mesh and domain arrays are immutable, and scalar model parameters carry the selected precision. '
  'Defaults set by a program are overridden by its command line and hold otherwise; unknown options and illegal choices are rejected; the rest of the parameters are unaffected.',
  [IN, HI], 'All sequences of sets/reads/updates/deletes, all option subsets on command line vs. defaults, for the three problem classes.',
  'No test exercises the configuration beyond fixed command lines.',
  ['spectralDNS/config.py', 'spectralDNS/__init__.py'], [('parameter dictionary', 'spectralDNS/config.py: Params'), ('parsers and defaults', 'spectralDNS/config.py: update; spectralDNS/__init__.py: get_solver')])

p('C18', 'KMM channel solver advances the discrete channel equations',
  'One step of the channel solver equals the Crank-Nicolson/Adams-Bashforth Galerkin step of the wall-normal velocity/vorticity form of the Navier-Stokes equations with no-slip walls: biharmonic problem for the wall-normal velocity, Helmholtz problem for the wall-normal vorticity, '
  'continuity for the remaining components, and the forced mean-flow equation for the zero wavenumber, for every convection form, quadrature, mesh, domain, nu, dt, driving force and state.',
  [IN, CO, HI], 'All states satisfying the boundary conditions and continuity, meshes, domains, nu, dt, forces, convection forms, GC/GL.',
  'The tests follow one Orr-Sommerfeld eigenmode (two-dimensional, no spanwise variation, tiny amplitude), so nonlinear and spanwise terms are below the tolerance.',
  [S + 'KMM.py', 'spectralDNS/shen/Matrices.py', 'spectralDNS/shen/LUsolve.pyx'],
  [('right-hand side assembly', S + 'KMM.py: ComputeRHS, add_linear'), ('linear solves and continuity', S + 'KMM.py: solve_linear')])

p('C19', 'Runge-Kutta channel solver advances the discrete channel equations',
  'One step of the third-order Runge-Kutta channel solver equals its three semi-implicit substeps with the published coefficients applied to the discrete channel equations, for every state, mesh, nu, dt, force and convection form, '
  'and it converges to the same solution as the Crank-Nicolson/Adams-Bashforth solver as the step size decreases.',
  [IN, CO], 'As for C18.', 'As for C18.', [S + 'KMMRK3.py', S + 'KMM.py'], [('three-stage update', S + 'KMMRK3.py: integrate, ComputeRHS, solve_linear')])

p('C20', 'Channel flow stays solenoidal, no-slip and in momentum balance',
  'Along every channel run the velocity vanishes at both walls, its divergence vanishes to rounding, a laminar parabolic profile under its own driving force is steady, and the mean streamwise momentum changes exactly by driving force, wall friction and nothing else. '
  'Reflecting the state in the spanwise or wall-normal direction, or translating it in the periodic directions, transforms the solution in the same way (the wall-normal reflection and the momentum balance to discretisation accuracy where the scheme is not symmetric).',
  [IN, HI, CO], 'All channel solvers, states, forces, meshes, numbers of steps.',
  'The tested eigenmode has no spanwise component and no mean momentum change above the tolerance.',
  [S + 'KMM.py', S + 'KMMRK3.py', S + 'KMMr.py', S + 'Coupled.py'], [('continuity and zero wavenumber', S + 'KMM.py: solve_linear, compute_vw')])

p('C21', 'The different channel formulations agree',
  'The channel solver with the wall-normal direction last, and the coupled velocity-pressure solvers, compute the same flow as the reference channel solver from the same state (with axes permuted accordingly, and up to the discretisation accuracy they share). '
  'The convection forms agree on resolved states (with full dealiasing; to accuracy under the 2/3-rule).',
  [IN, CO], 'All resolved states, nu, dt, forces, domains.', 'KMMr is tested on the same single eigenmode; the coupled solvers are not tested.',
  [S + 'KMMr.py', S + 'Coupled.py', S + 'CoupledRK3.py', S + 'KMM.py'], [('axis conventions', S + 'KMMr.py'), ('coupled block solver', S + 'Coupled.py')])

p('C22', 'Rayleigh-Benard solvers integrate the Boussinesq channel equations',
  'The Rayleigh-Benard solvers advance temperature by advection and diffusion between walls held at their prescribed temperatures and drive the wall-normal momentum by temperature; a linear conduction profile at rest is steady, the temperature keeps its wall values, '
  'and each step equals the corresponding semi-implicit scheme (Crank-Nicolson/Adams-Bashforth with the temperature extrapolated to mid-step, or the three Runge-Kutta substeps) on the discrete equations for every state, nu, kappa and dt.',
  [IN, CO, HI], 'All states, nu, kappa, dt, meshes.', 'No test runs these solvers.',
  [S + 'KMM_RB.py', S + 'KMMRK3_RB.py'], [('buoyancy and temperature equation', S + 'KMM_RB.py: ComputeRHS, solve_linear')])

p('C23', 'Wall-normal linear algebra kernels are exact',
  'The tailored wall-normal operators (Helmholtz and biharmonic matrix-vector products, Chebyshev derivative transforms) agree with dense linear algebra for every size, coefficient, axis and right-hand side, and linear solves return the solution of the system they state.',
  [IN, CO], 'All sizes (odd and even), coefficients, axes, right-hand sides, quadratures.',
  'Tests use a couple of sizes.',
  ['spectralDNS/shen/LUsolve.pyx', 'spectralDNS/shen/Matrices.py'], [('matrix-free products', 'spectralDNS/shen/Matrices.py'), ('Chebyshev derivative recurrence', 'spectralDNS/shen/LUsolve.pyx')])

p('C24', 'Derived fields are those of the current solution',
  'The velocity, vorticity, divergence, pressure and density a solver reports are the ones defined by its current solution: vorticity is the curl of velocity, pressure satisfies the Poisson equation of the momentum equation at the latest evaluation of the right-hand side (it includes the kinetic energy in the rotational form), velocity set by the user is returned unchanged when resolved, '
  'and asking for any of them, in any order and any number of times, changes neither the solution nor the other answers.',
  [IN, HI], 'All states, all orders and repetitions of queries, all solvers.',
  'No test checks a derived field; the order of queries is fixed.',
  [S + 'NS.py', S + 'VV.py', S + 'NS2D.py', S + 'Bq2D.py', S + 'MHD.py', S + 'KMM.py'], [('getters', S + '*.py: get_velocity, get_curl, get_pressure, get_divergence'), ('shared work arrays', S + 'spectralinit.py: work_arrays')])

p('C25', 'Observation and housekeeping options do not perturb the run',
  'Profiling, verbosity, threads, FFT planning effort, file output cadence, diagnostics evaluated in the update callback, and re-running in the same process all leave the computed trajectory unchanged, and two simulations of a solver alive in one process (two contexts, each advanced with its own time and step) do not influence each other.',
  [HI, CO, IN], 'All option combinations, all callbacks that only use the public getters, all interleavings of two simulations of the same solver.',
  'Tests run one simulation per configuration and never compare trajectories with and without observation.',
  ['spectralDNS/__init__.py', S + 'spectralinit.py', S + 'NS.py', 'spectralDNS/utilities/__init__.py', 'spectralDNS/utilities/create_profile.py', 'spectralDNS/h5io/HDF5File.py'],
  [('module-level state and work arrays', S + 'spectralinit.py; spectralDNS/__init__.py: solve')])

p('C26', 'Single precision approximates double precision',
  'Running any solver that supports it in single precision gives single-precision data and a trajectory equal to the double-precision one to single-precision rounding accumulated over the steps.',
  [IN, CO], 'All states, solvers, integrators, meshes, dealiasing rules.', 'Single precision runs only for Taylor-Green with a loose tolerance.',
  ['spectralDNS/config.py', S + 'spectralinit.py', S + 'NS.py', M + 'integrators.py'], [('type selection', S + 'spectralinit.py: datatypes; spectralDNS/config.py: Params.__getattribute__')])

p('C27', 'Channel volume integration is exact for resolved fields',
  'The volume integral over the channel equals the exact integral for every field whose wall-normal dependence is a polynomial the mesh resolves, for every wall-normal axis, quadrature family, mesh and domain.',
  [IN, CO], 'All resolved polynomials x periodic variation, N, L, quadrature (GC, GL, Legendre), axis.', 'Used in tests only for one flow and one N.',
  ['spectralDNS/utilities/__init__.py'], [('Clenshaw-Curtis/Fejer weights', 'spectralDNS/utilities/__init__.py: dx')])

p('C28', 'The standalone solvers agree with the framework',
  'The self-contained C++ solver, the self-contained short Python solver and the demonstration solver written with shenfun alone compute the same flow as the framework\'s Navier-Stokes solver for the same problem (Taylor-Green flow in the C++ solver, any initial flow in the Python ones), mesh and step, for every mesh size and number of processes they accept, and report its energies.',
  [CO, IN], 'All mesh sizes, viscosities, steps, initial flows and numbers of processes.', 'Each has a single hard-coded assertion on one mesh, not run by the tests.',
  ['cpp/spectralDNS.cpp', 'spectralDNS3D_short.py', 'demo/NS_shenfun.py', S + 'NS.py'], [('standalone time loop', 'cpp/spectralDNS.cpp; spectralDNS3D_short.py')])

p('C29', 'Channel disturbances evolve as linear stability theory says',
  'An infinitesimal disturbance of laminar plane Poiseuille flow evolves, in every channel solver and convection form, as the Orr-Sommerfeld and Squire equations say: an eigenmode keeps its shape, grows or decays '
  'at the real part of its eigenvalue and travels at the phase speed of the imaginary part, whatever its wavenumbers, Reynolds number and domain. In the Rayleigh-Benard solvers an infinitesimal disturbance of the '
  'conduction state grows or decays at the rate of linear convection theory, so that convection sets in at the critical Rayleigh number.',
  [IN, CO], 'All eigenmodes resolved by the mesh (two-dimensional and oblique, leading and subordinate), wavenumbers, viscosities, diffusivities, domains, solvers, convection forms and dealiasing rules.',
  'The tests run one Orr-Sommerfeld mode (one Reynolds number, one wavenumber, streamwise only) and compare one energy; no test runs Rayleigh-Benard convection.',
  [S + 'KMM.py', S + 'KMMRK3.py', S + 'KMMr.py', S + 'Coupled.py', S + 'CoupledRK3.py', S + 'KMM_RB.py', S + 'KMMRK3_RB.py'],
  [('coupling of wall-normal velocity, vorticity and temperature', S + 'KMM.py: ComputeRHS, solve_linear; ' + S + 'KMM_RB.py: ComputeRHS')], ['velocity and temperature after a finite time'])

p('C30', 'The demonstration programs compute and report the flows they describe',
  'Each shipped demonstration program sets up the flow it describes, runs with every parameter set it documents, and the energies, growth rates, spectra and mean profiles it reports are those of the computed flow. '
  'Statistics are the averages over all samples taken (also when continued from a file), the forced isotropic and channel flows keep what they are forced to keep (energy of the forced shells, mass flux, wall values, zero divergence), '
  'a program restarted from the file of an earlier run continues that run, and on any number of processes a program that starts from the same flow does and reports the same as on one.',
  [IN, CO, HI], 'All meshes, solvers, integrators, dealiasing rules, physical parameters, sampling and restart times the programs accept.',
  'The demonstration programs are not run by the tests at all.',
  ['demo/TG.py', 'demo/TG2D.py', 'demo/KelvinHelmholtz.py', 'demo/Isotropic.py', 'demo/MKM.py', 'demo/RayleighBenard.py', 'demo/OrrSommerfeld.py', 'demo/LaminarChannel.py'],
  [('initial flows, sampling and restarts', 'demo/*.py: initialize, update, init_from_file, Stats')], ['printed or asserted numbers, statistics arrays, files, final fields'])

p('C31', 'Channel solvers converge in time, all to the same flow',
  'As the time step is refined, every channel solver converges at the order of its scheme (second order for the implicit Adams-Bashforth/Crank-Nicolson solvers, third for the explicit part of the Runge-Kutta solvers and second with diffusion, '
  'at least first for the coupling of temperature and velocity), from any resolved state, for every convection form, forcing and domain; and solvers with different time schemes converge to the same flow.',
  [IN, CO], 'All resolved states, viscosities including zero, forces, convection forms, dealiasing rules, quadratures, domains and steps in the asymptotic range.',
  'The tests run one step size per solver and compare one number with a tolerance far above the error of the scheme.',
  [S + 'KMM.py', S + 'KMMRK3.py', S + 'KMMr.py', S + 'Coupled.py', S + 'CoupledRK3.py', S + 'KMM_RB.py', S + 'KMMRK3_RB.py'],
  [('time schemes: coefficients, history of the convection, order of the stages', S + '*.py: ComputeRHS, solve_linear, integrate, end_of_tstep')], ['final velocity and temperature of runs with n, 2n, 4n steps'])

with open(__file__.rsplit('/tools', 1)[0] + '/properties.jsonl', 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P))
