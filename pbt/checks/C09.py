"""Fixed-step integrators against the published schemes."""
import numpy as np
from hypothesis import strategies as st

from .. import anysim as A, gen, periodic as P, refint as I, refper as R
from ..core import Facet, Violation
from ..harness import rng

ASSUMPTIONS = ['published tableaux, their orders verified exactly from the rooted-tree conditions',
               'a step AB2 takes with a changed size may restart with Euler, use variable-step coefficients, or keep the '
               'constant ones on the true previous rate']
METHODS = ['RK4', 'AB2', 'ForwardEuler', 'BS5_fixed']
ORDER = {'RK4': 4, 'AB2': 2, 'ForwardEuler': 1, 'BS5_fixed': 5}


# ------------------------------------------------------- an arbitrary right-hand side
def field_of(case, shape):
    """f(u) on complex arrays of the shape, and a start value; entry 0 counts time if kind is 'poly'."""
    g = rng(case['seed'])
    u = g.standard_normal(shape) + 1j * g.standard_normal(shape)
    kind = case['kind']
    if kind == 'linear':
        lam = case['rate'] * (g.standard_normal(shape) + 1j * g.standard_normal(shape))
        return (lambda v: lam * v), u, lambda t, u0: u0 * np.exp(lam * t)
    if kind == 'coupled':
        a, b = case['rate'] * g.standard_normal(2)

        def f(v):
            w = v.reshape(-1)
            return (a * np.roll(w, 1) * 1j - b * w * np.abs(np.roll(w, 2)) / (1 + np.abs(w) ** 2)).reshape(v.shape)
        return f, u, None
    deg = case['degree']
    c = g.standard_normal((deg + 1,) + shape)
    u.flat[0] = 0

    def f(v):
        t = v.flat[0].real
        out = sum(c[m] * t ** m for m in range(deg + 1)).astype(complex)
        out.flat[0] = 1
        return out

    def exact(t, u0):
        out = u0 + sum(c[m] * t ** (m + 1) / (m + 1) for m in range(deg + 1))
        out.flat[0] = t
        return out
    return f, u, exact


def any_strategy(tier):
    def one(solver):
        d = P.DIM[solver]
        return st.fixed_dictionaries({
            'solver': st.just(solver), 'N': gen.meshes(d, (4, 6, 8) if d == 3 else (4, 6, 8, 12)),
            'L': gen.lengths(d), 'integrator': st.sampled_from(METHODS), 'kind': st.sampled_from(['linear', 'coupled', 'poly']),
            'degree': st.integers(0, 5), 'seed': st.integers(0, 10 ** 9), 'rate': gen.logu(0.05, 2),
            'dt': gen.logu(1e-3, 0.5), 'steps': st.integers(1, 7), 't0': st.sampled_from([0.0, 0.0, 1.5])})
    return A.stretch(st.sampled_from(gen.share(P.SOLVERS)).flatmap(one), 7, 150, 8)


def any_check(case):
    full = dict(case, nu=0.1, eta=0.1, Ri=0.1, Pr=1.0, dealias='None', mask=False)
    dt, n = case['dt'], case['steps']
    sim = P.make(case['solver'], {k: v for k, v in full.items()}, 0, dt=float(dt), t=float(case['t0']),
                 T=float(case['t0'] + dt * n))
    shape = P.state(sim).shape
    f, u0, exact = field_of(case, shape)
    P.setstate(sim, u0)
    states = []

    def ComputeRHS(rhs, u_hat, solver, **context):
        rhs[:] = f(np.array(u_hat))
        return rhs
    sim.solver.ComputeRHS = ComputeRHS
    sim.solver.update = lambda context: states.append(P.state(sim))
    sim.solve()
    ref = I.run(case['integrator'], f, u0, [dt] * n)
    if len(states) != n:
        raise Violation('%d steps taken, expected %d' % (len(states), n))
    worst = 0.0
    for i, (a, b) in enumerate(zip(states, ref[1:])):
        if not np.all(np.isfinite(b)) or np.abs(b).max() > 1e8:
            break
        # the sums of a long run may be taken in another order
        err = float(np.abs(a - b).max() / np.abs(b).max()) / (1 + i // 10)
        worst = max(worst, err)
        if not err < 1e-11:
            raise Violation('step %d of %s differs from the published scheme by %.3g (relative)' % (i + 1, case['integrator'], err))
    info = {'err': {'scheme': worst}, 'moved': float(np.abs(states[-1] - u0).max())}
    if case['kind'] == 'poly' and case['degree'] <= ORDER[case['integrator']] - 1 and case['integrator'] != 'AB2':
        e = exact(n * dt, u0)
        err = float(np.abs(states[-1] - e).max() / np.abs(e).max())
        info['err']['exact'] = err
        if not err < 1e-11:
            raise Violation('%s does not reproduce a polynomial of degree %d in time: %.3g' % (
                case['integrator'], case['degree'] + 1, err))
    return info


# --------------------------------------------------------------- the solvers' own
def rhs_of(solver, g, case):
    nu = case['nu']
    if solver == 'NS' or solver == 'NS2D':
        return lambda q: R.ns_rhs(g, q, nu, case['convection'], None)
    if solver == 'VV':
        return lambda q: R.vv_rhs(g, q, nu, None)
    if solver == 'MHD':
        return lambda q: R.mhd_rhs(g, q, nu, case['eta'])
    return lambda q: R.bq_rhs(g, q, nu, case['Ri'], case['Pr'])


def real_strategy(tier):
    return A.stretch(P.cases(tier, extra={'integrator': st.sampled_from(METHODS), 'steps': st.integers(1, 6),
                                          'cfl': gen.rnd(0.02, 0.4, 3), 'frac': st.one_of(st.just(1.0), gen.rnd(0.1, 0.9, 2))}), 6, 60)


def real_check(case):
    solver, n, frac = case['solver'], case['steps'], case['frac']
    g = R.Grid(case['N'], case['L'], case['dealias'])
    q0 = np.where(g.nyq, 0, P.initial(solver, case))
    dt = float(P.stable_dt(g, q0, case, case['cfl'], solver))
    if n == 1:
        frac = 1.0
    # the last step may have to be shortened to end on time
    dts = [dt] * (n - 1) + [dt * frac]
    T = float(dt * (n - 1) + dt * frac)
    states = []
    sim = P.make(solver, case, q0, dt=dt, T=T)
    sim.solver.update = lambda context: states.append(P.state(sim))
    sim.solve()
    f = rhs_of(solver, g, case)
    ref = I.run(case['integrator'], f, q0, dts)
    if len(states) != n:
        raise Violation('%d steps taken, expected %d' % (len(states), n))
    worst = 0.0
    for i, (a, b) in enumerate(zip(states, ref[1:])):
        alts = [b]
        if case['integrator'] == 'AB2' and i == n - 1 and i > 0 and frac != 1:
            k, k0 = f(ref[i]), f(ref[i - 1])
            r = frac
            alts = [b, ref[i] + dts[i] * k, ref[i] + dts[i] * ((1 + r / 2) * k - r / 2 * k0)]
        err = min(P_err(a, c, g, b) for c in alts)
        worst = max(worst, err)
        if not err < 1e-10:
            raise Violation('%s: step %d (of %d, size %g) of %s differs from the published scheme by %.3g (relative)' % (
                solver, i + 1, n, dts[i], case['integrator'], err))
    return {'err': {'trajectory': worst}, 'moved': float(np.abs(states[-1] - q0).max())}


def P_err(a, c, g, b):
    return float(np.abs(np.where(g.valid, a - c, 0)).max() / (np.abs(b).max() + 1e-6))


FACETS = [
    Facet('any_rhs', any_strategy, any_check, quick=500, thorough=30000, shards=4, tshards=4,
          nontrivial=lambda c, i: i['moved'] > 1e-6 and c['steps'] > 1,
          rule='arbitrary right-hand sides (linear, coupled nonlinear, polynomial in time) put in place of the solver\'s; '
               'non-trivial = more than one step and the state moved',
          classify=lambda c, i: [c['solver'], c['integrator'], c['kind']]),
    Facet('solvers', real_strategy, real_check, quick=360, thorough=20000, shards=4, tshards=4,
          nontrivial=lambda c, i: i['moved'] > 1e-6 and c['steps'] > 1,
          rule='runs of the five periodic solvers against the scheme applied to the reference right-hand side, last step '
               'whole or shortened; non-trivial = more than one step and the state moved',
          classify=lambda c, i: [c['solver'], c['integrator'], 'short' if c['frac'] != 1 else 'whole'])]
