"""KMMRK3: every step against the dense reference; convergence to the same flow as KMM."""
import numpy as np
from hypothesis import strategies as st

from .. import anysim as A, channel as H, gen, refchan
from ..core import Discard, Facet, Violation
from . import C18

ASSUMPTIONS = C18.ASSUMPTIONS + ['Runge-Kutta coefficients 8/15, 5/12, 3/4 and 0, -17/60, -5/12 (Spalart, Moser and Rogers)']


def strategy(tier):
    return A.stretch(H.cases(tier, solvers=('KMMRK3',), n0=(14, 16, 18, 20) if tier == 'quick' else (14, 16, 20, 24, 32),
                   extra={'steps': st.integers(1, 2), 'force': st.lists(gen.rnd(-2, 2, 2), min_size=1, max_size=5),
                          'mask': st.just(True)}), 2, 20)


def conv_strategy(tier):
    return H.cases(tier, solvers=('KMMRK3',), n0=(14, 16), n1=(4, 6), forms=('Vortex',), amp=(0.05, 0.5), nus=(0.02, 0.2),
                   dts=(2e-3, 8e-3), extra={'force': st.lists(gen.rnd(-1, 1, 2), min_size=1, max_size=2)})


def conv_check(case):
    """Same flow from both schemes: halving the step must shrink their difference."""
    ch = refchan.Chan(case['N'], case['L'], case['quad'], case['dealias'])
    u = ch.state(dict(case['u'], decay=max(1.0, case['u']['decay']), modes=6))
    p = ch.phys(u)
    T = float(case['dt']) * 8

    def end(solver, n):
        sim = H.make(solver, dict(case, dt=T / n), p, force=case['force'], T=T)
        sim.solve()
        return H.get(sim)
    d = []
    for n in (8, 16):
        a, b = end('KMM', n), end('KMMRK3', n)
        if not np.isfinite(a).all() or not np.isfinite(b).all():
            raise Violation('the solution is not finite')
        d.append(float(np.abs(a - b).max()))
    moved = float(np.abs(a - p).max())
    if d[0] < 1e-10 * (1 + moved):
        return {'moved': moved, 'err': {'ratio': 0.0}}
    ratio = d[1] / d[0]
    if d[1] > 0.75 * d[0] and d[1] > 1e-9 or d[0] > 0.3 * moved + 1e-6:
        raise Violation('KMM and KMMRK3 differ by %.3g with 8 steps and by %.3g with 16 (the flow moved by %.3g)' % (d[0], d[1], moved))
    return {'moved': moved, 'err': {'ratio': ratio, 'difference': d[1]}}


FACETS = [
    Facet('steps', strategy, C18.check, quick=160, thorough=8000, shards=6, tshards=6,
          nontrivial=lambda c, i: i['moved'] > 1e-6,
          rule='as for KMM, one or two steps of the three-stage scheme; non-trivial = the velocity moved',
          classify=lambda c, i: [c['convection'], c['dealias'], c['quad'], 'steps%d' % c['steps']]),
    Facet('converges', conv_strategy, conv_check, quick=16, thorough=800, shards=2, tshards=2,
          nontrivial=lambda c, i: i['moved'] > 1e-5,
          rule='KMM and KMMRK3 from one state to one end time with 8 and 16 steps; non-trivial = the velocity moved',
          classify=lambda c, i: [c['dealias'], c['quad']])]
