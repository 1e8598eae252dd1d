"""The channel formulations against each other, and the convection forms on resolved states."""
import numpy as np
from hypothesis import strategies as st

from .. import channel as H, gen, refchan
from ..core import Discard, Facet, Violation
from .C20 import limit, FORCE

SLOW = 3
ASSUMPTIONS = ['all formulations start from one solenoidal no-slip state and one previous convection',
               'the convection forms are compared on states of low degree and few Fourier modes on meshes that resolve their products']


def pair(a, b, n1, steps, n0=(14, 16, 18, 20)):
    def strategy(tier):
        return H.cases(tier, solvers=(b,), n0=n0 if tier == 'quick' else n0 + (24, 28), n1=n1, extra={
            'steps': st.integers(*steps), 'force': FORCE, 'mask': st.just(True),
            'prev': st.one_of(st.none(), st.integers(0, 10 ** 6))}).map(lambda c: dict(c, ref=a))
    return strategy


def trace(solver, case, u, prev):
    seen = []

    def update(context):
        seen.append(H.get(sim))
    kw = {} if 'RK3' in solver else {'prev': prev}
    sim = H.make(solver, case, u, force=case['force'], T=float(case['dt']) * case['steps'], update=update, **kw)
    sim.solve()
    return sim, seen


def pair_check(case):
    # The 2/3-rule cuts the wall-normal modes of each formulation's own basis: compare flows that have little there
    near = case['dealias'] == '2/3-rule' and case['solver'] in H.COUPLED
    if near:
        case = dict(case, N=[24] + case['N'][1:], u=dict(case['u'], modes=4, decay=max(1.0, case['u']['decay']), amp=min(case['u']['amp'], 0.5)))
    tol = 1e-4 if near else 1e-8
    ch = refchan.Chan(case['N'], case['L'], case['quad'], case['dealias'])
    u = ch.state(case['u'])
    case = limit(case, ch, u)
    p = ch.phys(u)
    prev = None if case['prev'] is None else ch.phys(ch.state(dict(case['u'], seed=case['prev'])))
    A, a = trace(case['ref'], case, p, prev)
    B, b = trace(case['solver'], case, p, prev)
    if len(a) != len(b):
        raise Violation('%s took %d steps, %s took %d' % (case['ref'], len(a), case['solver'], len(b)))
    worst = 0.0
    scale = np.abs(p).max() + 1e-3
    for n, (x, y) in enumerate(zip(a, b)):
        if not np.isfinite(x).all() or np.abs(x).max() > 50 * scale + 5:
            raise Discard()
        e = float(np.abs(x - y).max() / (scale + np.abs(x).max()))
        worst = max(worst, e / tol)
        if not e < tol:
            raise Violation('%s and %s differ by %.3g after %d steps' % (case['ref'], case['solver'], e, n + 1))
    return {'err': {'difference': worst}, 'moved': float(np.abs(a[-1] - p).max())}


def forms_strategy(solvers):
    def strategy(tier):
        return H.cases(tier, solvers=solvers, n0=(32, 36), n1=(8, 10), forms=('Vortex',), amp=(0.3, 1.5), nus=(0.02, 0.3), dealias=('3/2-rule', 'None'),
                       dts=(5e-4, 4e-3), extra={'steps': st.integers(1, 3), 'force': st.lists(gen.rnd(-2, 2, 2), min_size=1, max_size=2),
                                                'other': st.sampled_from(['Standard', 'Divergence', 'Skew'])})
    return strategy


def forms_check(case):
    spec = dict(case['u'], modes=4, kmax=1, decay=max(0.8, case['u']['decay']))
    ch = refchan.Chan(case['N'], case['L'], case['quad'], case['dealias'])
    u = ch.state(spec)
    case = limit(case, ch, u)
    p = ch.phys(u)
    out = []
    for form in ('Vortex', case['other']):
        _, seen = trace(case['solver'], dict(case, convection=form), p, None)
        out.append(seen[-1])
    T = float(case['dt']) * case['steps']
    effect = T * float(np.abs(ch.phys(ch.convection(u, 'Vortex'))).max())        # size of the convective change
    e = float(np.abs(out[0] - out[1]).max())
    r = e / (effect + 1e-9)
    if not r < 2e-3:
        raise Violation('%s: the forms Vortex and %s differ by %.3g of the effect of convection' % (case['solver'], case['other'], r))
    return {'err': {'difference': r}, 'moved': effect}


moved = lambda c, i: i['moved'] > 1e-6
cls = lambda c, i: [c['solver'], c['convection'], c['dealias'], c['quad']]
FACETS = [
    Facet('kmmr', pair('KMM', 'KMMr', (4, 6, 8), (1, 5)), pair_check, quick=100, thorough=6000, shards=4, tshards=4, nontrivial=moved,
          rule='KMM and KMMr from one state (axes permuted); non-trivial = the velocity moved', classify=cls),
    Facet('coupled', pair('KMM', 'Coupled', (4, 6), (1, 4), (14, 16, 18)), pair_check, quick=28, thorough=1500, shards=4, tshards=4, nontrivial=moved,
          rule='KMM and Coupled from one state; non-trivial = the velocity moved', classify=cls),
    Facet('coupledrk3', pair('KMMRK3', 'CoupledRK3', (4, 6), (1, 2), (14, 16)), pair_check, quick=16, thorough=800, shards=4, tshards=4, nontrivial=moved,
          rule='KMMRK3 and CoupledRK3 from one state; non-trivial = the velocity moved', classify=cls),
    Facet('forms', forms_strategy(('KMM', 'KMMRK3', 'KMMr', 'Coupled')), forms_check, quick=24, thorough=1500, shards=4, tshards=4,
          nontrivial=lambda c, i: i['moved'] > 1e-4,
          rule='two convection forms on one resolved state; non-trivial = the effect of convection exceeds 1e-4',
          classify=lambda c, i: [c['solver'], c['other'], c['dealias']])]
