"""Running the channel solvers on generated states."""
import numpy as np

from . import refchan, refper as R
from .harness import Sim, local

CHANNEL = ['KMM', 'KMMRK3', 'KMMr', 'Coupled', 'CoupledRK3', 'KMM_RB', 'KMMRK3_RB']


RB = ('KMM_RB', 'KMMRK3_RB')
COUPLED = ('Coupled', 'CoupledRK3')


def options(solver, case, **kw):
    N, L = list(case['N']), list(case['L'])
    if solver == 'KMMr':
        N, L = [N[1], N[2], N[0]], [L[1], L[2], L[0]]
    opts = {'N': N, 'L': L, 'nu': case['nu'], 'dt': float(case['dt']), 'dealias': case['dealias'],
            'convection': case['convection'], 'Dquad': case['quad'], 'Bquad': case['quad'],
            'mask_nyquist': case.get('mask', True)}
    for k in ('optimization', 'decomposition', 'threads'):
        if k in case:
            opts[k] = case[k]
    opts.update(kw)
    return opts


def make(solver, case, u, force=(0.0,), prev=None, phi=None, **kw):
    """A channel solver started the way the demos do it.

    u: physical velocity in the order of KMM (wall-normal first); prev: physical velocity the old convection is
    computed from; phi: physical temperature.
    """
    hooks = {k: kw.pop(k) for k in ('update', 'regression_test', 'additional_callback', 'fresh', 'extra') if k in kw}
    if solver in RB:
        hooks['extra'] = dict(hooks.get('extra') or {}, kappa=case['kappa'])
    sim = Sim(solver, options(solver, case, **kw), **hooks)
    start(sim, u, prev, phi)
    drive(sim, force)
    return sim


def start(sim, u, prev=None, phi=None):
    c, s, solver = sim.context, sim.solver, sim.name
    if 'RK3' not in solver:
        if prev is not None:
            put(sim, prev)
            c.H_hat1[:] = s.get_convection(**c)
        put(sim, u)
        if prev is None:
            c.H_hat1[:] = s.get_convection(**c)
        if solver in COUPLED:
            c.UP_hat0[:] = c.UP_hat
        else:
            c.U_hat0[:] = c.U_hat
    else:
        put(sim, u)
    if solver in RB:
        c.phi[:] = 0.5 * (1 - np.asarray(c.X[0])) if phi is None else local(sim, phi, c.phi, False)
        c.phi_hat = c.phi.forward(c.phi_hat)
        if 'RK3' not in solver:
            c.phi_hat0[:] = c.phi_hat
            c.phi_hat1[:] = c.phi_hat


def put(sim, u):
    c = sim.context
    if sim.name == 'KMMr':
        c.U[:] = local(sim, np.transpose(u[[1, 2, 0]], (0, 2, 3, 1)), c.U, False)
    else:
        c.U[:] = local(sim, u, c.U, False)
    sim.solver.set_velocity(**c)
    if sim.name == 'KMMr':
        c.g[:] = 1j * c.K[0] * c.U_hat[1] - 1j * c.K[1] * c.U_hat[0]
    elif sim.name not in COUPLED:
        c.g[:] = 1j * c.K[1] * c.U_hat[2] - 1j * c.K[2] * c.U_hat[1]


def drive(sim, force):
    """A mean streamwise body force (minus the pressure gradient): Chebyshev coefficients of its profile."""
    c = sim.context
    i, axis = (0, 2) if sim.name == 'KMMr' else (1, 0)
    c.Source[:] = 0
    c.Source[i] = -np.polynomial.chebyshev.chebval(np.asarray(c.X[axis]), np.asarray(force, dtype=float))
    c.Sk[:] = 0
    c.Sk[i] = c.FST.scalar_product(c.Source[i], c.Sk[i])


def profile(n, force):
    f = np.zeros((n, 3))
    f[:len(force), 1] = force
    return f


def get(sim):
    """Physical velocity in the order of KMM."""
    u = np.array(sim.solver.get_velocity(**sim.context))
    if sim.name == 'KMMr':
        u = np.transpose(u, (0, 3, 1, 2))[[2, 0, 1]]
    return u


def get_phi(sim):
    c = sim.context
    return np.array(c.phi_hat.backward(c.phi))


def cases(tier, solvers=('KMM',), quads=('GC', 'GL'), forms=('Standard', 'Divergence', 'Skew', 'Vortex'), extra=None,
          dealias=('2/3-rule', '3/2-rule', 'None'), n0=(14, 16, 18, 20), n1=(4, 6, 8), amp=(0.05, 2.0), nus=(1e-3, 0.5),
          dts=(1e-4, 0.05), share=True):
    from hypothesis import strategies as st
    from . import gen
    spec = st.fixed_dictionaries({'seed': st.integers(0, 10 ** 6), 'kmax': st.integers(1, 4), 'decay': gen.rnd(0.0, 1.2, 2),
                                  'amp': gen.rnd(*amp, 2), 'mean': gen.rnd(-1, 1, 2),
                                  'modes': st.sampled_from([0, 0, 4, 6]),
                                  'without': st.one_of(st.just([]), st.just([]), st.lists(st.sampled_from(
                                      ['u', 'g', 'mv', 'mw', 'ky', 'kz']), min_size=1, max_size=4, unique=True).map(sorted))})
    d = {'solver': st.sampled_from(gen.share(solvers) if share else list(solvers)),
         'N': st.tuples(st.sampled_from(n0), st.sampled_from(n1), st.sampled_from(n1)).map(list),
         'L': st.one_of(st.just([2.0, 6.283185307179586, 6.283185307179586]),
                        st.tuples(st.just(2.0), gen.rnd(1, 9, 2), gen.rnd(1, 9, 2)).map(list)),
         'nu': gen.logu(*nus), 'dt': gen.logu(*dts), 'convection': st.sampled_from(forms), 'quad': st.sampled_from(quads),
         'dealias': st.sampled_from(dealias), 'u': spec}
    d.update(extra or {})

    def fix(t):
        case, k, m = t
        N = case['N']
        if k > 16:          # now and then one long direction
            i = k - 17
            N = N[:i] + [max(N[i], m if i else min(2 * N[i], 32))] + N[i + 1:]
        if case['dealias'] == '2/3-rule':
            N = [N[0]] + [max(6, n) for n in N[1:]]
        return dict(case, N=N)
    return st.tuples(st.fixed_dictionaries(d), st.integers(0, 19), st.sampled_from([18, 20, 24, 34])).map(fix)
