"""VV: vorticity transport, Biot-Savart velocity, agreement with NS."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, periodic as P, refper as R
from ..core import Facet, Violation

ASSUMPTIONS = ['numpy FFT-based reference of the same collocation/2-3/3-2 rules; Nyquist modes excluded']


def strategy(tier):
    return st.fixed_dictionaries({
        'N': gen.meshes(3, (4, 6, 8, 10, 12) if tier == 'quick' else (4, 6, 8, 10, 12, 14, 16, 20)),
        'L': gen.lengths(3), 'nu': gen.logu(1e-4, 2.0),
        'dealias': st.sampled_from(gen.DEALIAS), 'mask': st.booleans(), 'before': gen.warm(), 'u': gen.fields(3, 3, mean=False),
        'source': st.one_of(st.none(), gen.fields(3, 3, mean=False))}).map(gen.no_tiny)


def check(case):
    N, L = case['N'], case['L']
    g = R.Grid(N, L, case['dealias'])
    w0 = R.field(N, L, case['u'], 3)
    src = None if case['source'] is None else R.field(N, L, case['source'], 3)
    rate, sim = P.rate('VV', case, w0, source=src)
    ref = R.vv_rhs(g, w0, case['nu'], src)
    scale = np.abs(w0).max() ** 2 * max(1.0, max(L))
    info = P.compare(rate, ref, g, w0, 'dw/dt', extra=scale)
    if case['mask']:
        P.nyquist_clean(rate, g, 'dw/dt')
    # the velocity it reports is the Biot-Savart velocity of its vorticity
    w1 = P.state(sim)
    u = np.array(sim.solver.get_velocity(**sim.context))
    uref = R.bwd(R.Grid(N, L, 'None').biot_savart(np.where(g.nyq, 0, w1)), N)
    s = 1e-3 + np.abs(uref).max()
    if not np.any(np.abs(w1[:, g.nyq]) > 1e-14):
        e = np.abs(u - uref).max() / s
        info['err']['velocity'] = float(e)
        if not e < 1e-11:
            raise Violation('the reported velocity is not the Biot-Savart velocity of the vorticity (%.3g)' % e)
    c = np.array(sim.solver.get_curl(**sim.context))
    cref = R.bwd(w1, N)
    if not np.any(np.abs(w1[:, g.nyq]) > 1e-14):
        e = np.abs(c - cref).max() / (1e-3 + np.abs(cref).max())
        if not e < 1e-11:
            raise Violation('the reported vorticity is not the primary variable (%.3g)' % e)
    return info


def nontrivial(case, info):
    return info['nonlinear'] > 1e-3


# ---------------------------------------------------------------- against NS
def strategy_ns(tier):
    return st.fixed_dictionaries({
        'N': gen.meshes(3, (6, 8, 10)), 'L': gen.lengths(3, 2.0, 8.0), 'nu': gen.logu(1e-3, 0.3),
        'integrator': st.sampled_from(['RK4', 'AB2', 'ForwardEuler', 'BS5_fixed']),
        'form': st.sampled_from(['Standard', 'Divergence', 'Skewed', 'Vortex']),
        'steps': st.integers(1, 6), 'dt': gen.rnd(0.001, 0.02, 4),
        'u': gen.fields(3, 3, amp=(0.2, 1.0), mean=False)})


def check_ns(case):
    N, L = case['N'], case['L']
    c = dict(case, dealias='3/2-rule')
    g = R.Grid(N, L, '3/2-rule')
    u0 = R.field(N, L, case['u'], 3)
    w0 = g.curl(u0)
    kw = dict(dt=case['dt'], T=case['dt'] * case['steps'], integrator=case['integrator'])
    ns = P.make('NS', dict(c, convection=case['form']), u0, **kw)
    ns.solve()
    vv = P.make('VV', c, w0, **kw)
    vv.solve()
    u1, w1 = P.state(ns), P.state(vv)
    s = 1e-3 + np.abs(w0).max() * (1 + case['nu'] * g.K2.max() * case['dt'])
    e = float(np.abs(g.curl(u1) - w1).max() / s)
    move = float(np.abs(w1 - w0).max())
    if not (e < 1e-9 or not np.isfinite(np.abs(u1).max())):
        raise Violation('VV and curl(NS) differ by %.3g after %d steps' % (e, case['steps']))
    return {'err': {'vv-ns': e}, 'nonlinear': move}


FACETS = [
    Facet('rhs', strategy, check, quick=700, thorough=30000, shards=6, tshards=8, nontrivial=nontrivial,
          rule='random solenoidal vorticity, mesh, domain, nu, dealiasing, source; non-trivial = rate of change above 1e-3',
          classify=lambda c, i: [c['dealias'], 'source' if c['source'] else 'nosource']),
    Facet('agrees_with_ns', strategy_ns, check_ns, quick=100, thorough=4000, shards=2, tshards=8, nontrivial=nontrivial,
          rule='the same state run in velocity and vorticity form; non-trivial = the vorticity moved by more than 1e-3',
          classify=lambda c, i: [c['integrator'], c['form']])]
