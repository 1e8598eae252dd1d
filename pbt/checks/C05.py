"""MHD: projected divergence-form right-hand side; reduction to NS; sign symmetry of b."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, periodic as P, refper as R
from ..core import Facet, Violation

ASSUMPTIONS = ['numpy FFT-based reference of the same collocation/2-3/3-2 rules; Nyquist modes excluded']


def strategy(tier):
    return st.fixed_dictionaries({
        'N': gen.meshes(3, (4, 6, 8, 10) if tier == 'quick' else (4, 6, 8, 10, 12, 14, 16)),
        'L': gen.lengths(3), 'nu': gen.logu(1e-4, 2.0), 'eta': gen.logu(1e-4, 2.0),
        'dealias': st.sampled_from(gen.DEALIAS), 'mask': st.booleans(), 'before': gen.warm(),
        'u': gen.fields(3, 3), 'b': gen.fields(3, 3)}).map(gen.no_tiny)


def fields(case):
    N, L = case['N'], case['L']
    return np.concatenate([R.field(N, L, case['u'], 3), R.field(N, L, case['b'], 3)])


def check(case):
    g = R.Grid(case['N'], case['L'], case['dealias'])
    q0 = fields(case)
    rate, sim = P.rate('MHD', case, q0)
    ref = R.mhd_rhs(g, q0, case['nu'], case['eta'])
    info = P.compare(rate, ref, g, q0, 'd(u,b)/dt')
    if case['mask']:
        P.nyquist_clean(rate, g, 'd(u,b)/dt')
    info['b'] = float(np.abs(q0[3:]).max())
    return info


def strategy_rel(tier):
    return st.fixed_dictionaries({
        'N': gen.meshes(3, (6, 8, 10)), 'L': gen.lengths(3, 2.0, 8.0), 'nu': gen.logu(1e-3, 0.3), 'eta': gen.logu(1e-3, 0.3),
        'dealias': st.sampled_from(gen.DEALIAS), 'mask': st.just(True),
        'integrator': st.sampled_from(['RK4', 'AB2', 'ForwardEuler', 'BS5_fixed']),
        'steps': st.integers(1, 4), 'dt': gen.rnd(0.001, 0.02, 4),
        'u': gen.fields(3, 3, amp=(0.2, 1.0)), 'b': gen.fields(3, 3, amp=(0.2, 1.0)), 'rel': st.sampled_from(['ns', 'sign'])})


def check_rel(case):
    q0 = fields(case)
    kw = dict(dt=case['dt'], T=case['dt'] * case['steps'])
    s = 1e-3 + np.abs(q0).max()
    if case['rel'] == 'ns':
        q0[3:] = 0
        ns = P.make('NS', dict(case, convection='Divergence'), q0[:3], **{k: v for k, v in kw.items()})
        ns.solve()
        m = P.make('MHD', case, q0, **kw)
        m.solve()
        d = np.concatenate([P.state(m)[:3] - P.state(ns), P.state(m)[3:]])
        what = 'MHD without b differs from NS'
    else:
        m = P.make('MHD', case, q0, **kw)
        m.solve()
        f = np.array([1, 1, 1, -1, -1, -1.]).reshape(6, 1, 1, 1)
        n = P.make('MHD', case, q0 * f, **kw)
        n.solve()
        d = P.state(m) - f * P.state(n)
        what = 'flipping b does not flip its evolution'
    e = float(np.abs(d).max() / s)
    if not e < 1e-11:
        raise Violation('%s: %.3g' % (what, e))
    return {'err': {case['rel']: e}, 'nonlinear': float(np.abs(P.state(m) - q0).max())}


FACETS = [
    Facet('rhs', strategy, check, quick=600, thorough=30000, shards=6, tshards=8,
          nontrivial=lambda c, i: i['nonlinear'] > 1e-3 and i['b'] > 1e-3,
          rule='random solenoidal (u, b), mesh, domain, nu, eta, dealiasing; non-trivial = b and the rate above 1e-3',
          classify=lambda c, i: [c['dealias'], 'mask' if c['mask'] else 'nomask']),
    Facet('relations', strategy_rel, check_rel, quick=80, thorough=4000, shards=2, tshards=8, nontrivial=lambda c, i: i['nonlinear'] > 1e-3,
          rule='b = 0 gives NS; b -> -b gives the mirrored run; non-trivial = the state moved by more than 1e-3',
          classify=lambda c, i: [c['rel'], c['integrator']])]
