"""Bq2D: Boussinesq right-hand side; reduction to NS2D; mean density."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, periodic as P, refper as R
from ..core import Facet, Violation

ASSUMPTIONS = ['numpy FFT-based reference of the same collocation/2-3/3-2 rules; Nyquist modes excluded']


def strategy(tier):
    return st.fixed_dictionaries({
        'N': gen.meshes(2, (4, 6, 8, 10, 12, 16, 24)), 'L': gen.lengths(2), 'nu': gen.logu(1e-4, 2.0),
        'Ri': gen.rnd(-3, 3, 3), 'Pr': gen.logu(0.05, 20.0),
        'dealias': st.sampled_from(gen.DEALIAS), 'mask': st.booleans(), 'before': gen.warm(), 'u': gen.fields(2, 3)}).map(gen.no_tiny)


def check(case):
    N, L = case['N'], case['L']
    g = R.Grid(N, L, case['dealias'])
    q0 = R.field(N, L, case['u'], 3)
    rate, sim = P.rate('Bq2D', case, q0)
    ref = R.bq_rhs(g, q0, case['nu'], case['Ri'], case['Pr'])
    info = P.compare(rate, ref, g, q0, 'd(u,rho)/dt')
    if case['mask']:
        P.nyquist_clean(rate, g, 'd(u,rho)/dt')
    if abs(rate[2, 0, 0]) > 1e-12 * (1 + np.abs(q0).max() ** 2):
        raise Violation('the mean density changes at the rate %.3g' % abs(rate[2, 0, 0]))
    return info


def strategy_ns(tier):
    return st.fixed_dictionaries({
        'N': gen.meshes(2, (6, 8, 10, 16)), 'L': gen.lengths(2, 2.0, 8.0), 'nu': gen.logu(1e-3, 0.3),
        'dealias': st.sampled_from(gen.DEALIAS), 'mask': st.just(True),
        'integrator': st.sampled_from(['RK4', 'AB2', 'ForwardEuler', 'BS5_fixed']),
        'steps': st.integers(1, 6), 'dt': gen.rnd(0.001, 0.02, 4), 'u': gen.fields(2, 2, amp=(0.2, 1.0))})


def check_ns(case):
    N, L = case['N'], case['L']
    u0 = R.field(N, L, case['u'], 2)
    kw = dict(dt=case['dt'], T=case['dt'] * case['steps'])
    ns = P.make('NS2D', case, u0, **kw)
    ns.solve()
    bq = P.make('Bq2D', case, np.concatenate([u0, np.zeros_like(u0[:1])]), **kw)
    bq.solve()
    u1, q1 = P.state(ns), P.state(bq)
    e = float(np.abs(u1 - q1[:2]).max() / (1e-3 + np.abs(u0).max()))
    if not e < 1e-11 or np.abs(q1[2]).max() > 0:
        raise Violation('without density the Boussinesq solver leaves the Navier-Stokes solution by %.3g' % e)
    return {'err': {'bq-ns': e}, 'nonlinear': float(np.abs(u1 - u0).max())}


FACETS = [
    Facet('rhs', strategy, check, quick=900, thorough=50000, shards=6, tshards=8, nontrivial=lambda c, i: i['nonlinear'] > 1e-3 and c['Ri'] != 0,
          rule='random (u, rho), Ri, Pr, nu, mesh, domain, dealiasing; non-trivial = rate above 1e-3 and Ri non-zero',
          classify=lambda c, i: [c['dealias'], 'aniso' if c['N'][0] != c['N'][1] else 'square']),
    Facet('reduces_to_ns', strategy_ns, check_ns, quick=120, thorough=4000, shards=2, tshards=8, nontrivial=lambda c, i: i['nonlinear'] > 1e-3,
          rule='no density: same trajectory as NS2D; non-trivial = the velocity moved by more than 1e-3',
          classify=lambda c, i: [c['integrator']])]
