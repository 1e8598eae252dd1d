"""Running the periodic solvers on generated states."""
import numpy as np

from . import refper as R
from .core import Violation
from .harness import Sim, local

STATE = {'NS': 'U_hat', 'NS2D': 'U_hat', 'VV': 'W_hat', 'MHD': 'UB_hat', 'Bq2D': 'Ur_hat'}


def options(solver, case, **kw):
    opts = {'N': case['N'], 'L': case['L'], 'nu': case['nu'], 'dealias': case['dealias'],
            'convection': case.get('convection', 'Divergence' if solver == 'MHD' else 'Vortex'),
            'mask_nyquist': case.get('mask', True)}
    if solver == 'MHD':
        opts['eta'] = case['eta']
    if solver == 'Bq2D':
        opts['Ri'], opts['Pr'] = case.get('Ri', 0.0), case.get('Pr', 1.0)
    for k in ('precision', 'optimization', 'decomposition', 'integrator', 'TOL', 'threads'):
        if k in case:
            opts[k] = case[k]
    opts.update(kw)
    return opts


def make(solver, case, u0, source=None, **kw):
    hooks = {k: kw.pop(k) for k in ('update', 'regression_test', 'additional_callback', 'fresh') if k in kw}
    sim = Sim(solver, options(solver, case, **kw), **hooks)
    setstate(sim, u0)
    if source is not None:
        sim.context.Source[:] = local(sim, source, sim.context.Source)
    return sim


def setstate(sim, u0):
    x = getattr(sim.context, STATE[sim.name])
    x[:] = local(sim, u0, x)


def state(sim):
    return np.array(getattr(sim.context, STATE[sim.name]))


def rate(solver, case, u0, source=None, **kw):
    """du/dt as the solver sees it: the increment of one forward Euler step with dt = T = 1."""
    sim = make(solver, case, u0, source, dt=1.0, T=1.0, integrator='ForwardEuler', **kw)
    if case.get('before'):
        # work arrays, right-hand side and padded fields are those of another state: they must not matter
        n = u0.shape[0]
        b = {'seed': case['before'], 'amp': 1.0, 'kmax': 0, 'slope': 1, 'mean': [0.0 if solver == 'VV' else 0.4] * n}
        w = R.field(case['N'], case['L'], b, n if solver != 'MHD' else 3)
        setstate(sim, w if solver != 'MHD' else np.concatenate([w[:3], 0.7 * w[:3] * R.Grid(case['N'], case['L'], 'None').valid]))
        sim.solve()
        sim.params.t, sim.params.tstep = 0.0, 0
        setstate(sim, u0)
    sim.solve()
    return state(sim) - u0, sim


def compare(got, ref, g, u0, what, tol=2e-12, mask=None, extra=0.0):
    valid = g.valid if mask is None else mask
    scale = np.abs(u0).max() + np.abs(ref).max() + g.K2.max() ** 0.5 * np.abs(u0).max() ** 2 + extra + 1e-3
    diff = np.where(valid, np.abs(got - ref), 0)
    err = float(diff.max() / scale)
    if not err < tol:
        ix = np.unravel_index(np.argmax(diff), diff.shape)
        raise Violation('%s differs from the reference: relative error %.3g at component/mode %s (got %s, expected %s)'
                        % (what, err, ix, got[ix], ref[ix]))
    return {'err': {what: err}, 'nonlinear': float(np.abs(ref).max())}


def nyquist_clean(got, g, what):
    worst = float(np.abs(np.where(g.nyq, got, 0)).max())
    if worst > 1e-13 * (1 + np.abs(got).max()):
        raise Violation('%s has Nyquist content %.3g although the Nyquist modes are masked' % (what, worst))


# ------------------------------------------------------------------- all solvers
SOLVERS = ['NS', 'VV', 'NS2D', 'Bq2D', 'MHD']
DIM = {'NS': 3, 'VV': 3, 'MHD': 3, 'NS2D': 2, 'Bq2D': 2}
NCOMP = {'NS': 3, 'VV': 3, 'MHD': 6, 'NS2D': 2, 'Bq2D': 3}
FORMS = {'NS': ['Standard', 'Divergence', 'Skewed', 'Vortex'], 'MHD': ['Divergence']}


def initial(solver, case):
    """The primary variable of a case {'u': .., 'b': ..}."""
    N, L = case['N'], case['L']
    if solver == 'MHD':
        return np.concatenate([R.field(N, L, case['u'], 3), R.field(N, L, case['b'], 3)])
    return R.field(N, L, case['u'], NCOMP[solver])


def velocity_of(solver, g, q):
    if solver == 'VV':
        return g.biot_savart(q)
    return q[:g.d]


def stable_dt(g, q, case, cfl, solver):
    """A step well inside the stability region of all integrators for cfl <= 0.5 or so."""
    u = R.bwd(velocity_of(solver, g, q), g.N)
    if solver == 'MHD':
        u = np.concatenate([u, R.bwd(q[3:], g.N)])
    kmax = np.sqrt(g.K2.max())
    nu = max(case['nu'], case.get('eta', 0), case['nu'] / case.get('Pr', 1.0))
    ri = abs(case.get('Ri', 0.0))
    return cfl / (np.abs(u).sum(0).max() * kmax + nu * kmax ** 2 + ri + 0.1)


def cases(tier, sizes3=(4, 6, 8), sizes2=(4, 6, 8, 10, 12), lo=1.0, hi=8.0, solvers=None, extra=None, dealias=None,
          mean=True, amp=(0.1, 1.5), nus=(1e-4, 0.5), share=True):
    """A solver with everything that defines a run of it."""
    from hypothesis import strategies as st
    from . import gen

    def one(solver):
        d = DIM[solver]
        n = 3 if solver == 'MHD' else NCOMP[solver]
        f = {'solver': st.just(solver), 'N': gen.meshes(d, sizes3 if d == 3 else sizes2), 'L': gen.lengths(d, lo, hi),
             'nu': gen.logu(*nus), 'dealias': st.sampled_from(dealias or gen.DEALIAS),
             'u': gen.fields(d, n, amp=amp, mean=mean and solver != 'VV'),
             'convection': st.sampled_from(FORMS.get(solver, ['Vortex']))}
        if solver == 'MHD':
            f['eta'] = gen.logu(*nus)
            f['b'] = gen.fields(3, 3, amp=amp, mean=mean)
        if solver == 'Bq2D':
            f['Ri'] = gen.rnd(-2, 2, 2)
            f['Pr'] = gen.logu(0.1, 10.0)
        f.update(extra or {})
        return st.fixed_dictionaries(f).map(gen.no_tiny)
    return st.sampled_from(gen.share(solvers or SOLVERS) if share else list(solvers)).flatmap(one)
