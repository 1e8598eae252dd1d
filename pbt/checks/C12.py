"""Interrupting a run and continuing it gives the uninterrupted run."""
import numpy as np
from hypothesis import strategies as st

from .. import anysim as A, gen
from ..core import Discard, Facet, Violation

ASSUMPTIONS = ['cuts after completed steps for fixed steps; the adaptive integrator restarts with the step size the user set, '
               'so there the two runs agree to their tolerance']


def strategy(tier):
    return A.stretch(A.cases(tier, channel=A.CHANNEL if tier == 'thorough' else A.CHEAP_CHANNEL, steps=(2, 7), extra={
        'cuts': st.lists(st.integers(1, 6), min_size=1, max_size=3), 't0': st.sampled_from([0.0, 0.0, 1.0]),
        'tail': st.sampled_from([0.0, 0.0, 0.0, 0.5])}), 7, 40)


def check(case):
    dt, n, t0 = A.step_of(case), case['steps'], case['t0']
    chan = A.is_channel(case['solver'])
    tail = 0.0 if chan else case['tail']
    T = t0 + dt * (n + tail)
    cuts = sorted({min(c, n - 1) for c in case['cuts']})
    seen = {'a': [], 'b': []}
    where = ['a']

    def update(context):
        seen[where[0]].append((float(sim.params.t), int(sim.params.tstep)))
    sim = A.build(case, dt=dt, T=T, t=t0, update=update)
    s0 = A.state(sim)
    sim.solve()
    whole, ta, ka = A.state(sim), float(sim.params.t), int(sim.params.tstep)
    if not A.finite(whole):
        raise Discard('blew up')
    where[0] = 'b'
    sim = A.build(case, dt=dt, T=t0 + dt * cuts[0], t=t0, update=update)
    sim.solve()
    for c in cuts[1:] + [None]:
        sim.to(T if c is None else t0 + dt * c)
    cut, tb, kb = A.state(sim), float(sim.params.t), int(sim.params.tstep)
    if ka != kb or abs(ta - tb) > 1e-10 * max(1, abs(T)):
        raise Violation('cut at steps %s: the run ends at time %r, step %d; uninterrupted at %r, step %d' % (cuts, tb, kb, ta, ka))
    if [k for _, k in seen['a']] != [k for _, k in seen['b']]:
        raise Violation('cut at steps %s: update saw the steps %s, uninterrupted %s' % (
            cuts, [k for _, k in seen['b']], [k for _, k in seen['a']]))
    e = A.dist(whole, cut)
    if not e < 1e-10:
        raise Violation('cut at steps %s of %d: the final state differs from the uninterrupted run by %.3g' % (cuts, n, e))
    return {'err': {'state': e}, 'moved': A.moved(s0, whole)}


def adaptive_strategy(tier):
    return A.cases(tier, channel=[], integrators=[A.ADAPTIVE], steps=(3, 12), lo=0.05, hi=0.4, extra={
        'cuts': st.lists(gen.rnd(0.05, 0.95, 2), min_size=1, max_size=3)}, pextra={'TOL': st.sampled_from([1e-5, 1e-7])})


def adaptive_check(case):
    dt = A.step_of(case)
    T = dt * case['steps']
    sim = A.build(case, dt=dt, T=T)
    s0 = A.state(sim)
    sim.solve()
    whole = A.state(sim)
    cuts = sorted(set(case['cuts']))
    sim = A.build(case, dt=dt, T=T * cuts[0])
    sim.solve()
    for c in cuts[1:] + [1.0]:
        sim.to(T * c)
    cut = A.state(sim)
    if abs(sim.params.t - T) > 1e-11:
        raise Violation('the continued run ends at %r, not at %r' % (sim.params.t, T))
    d = max(float(np.abs(whole[k] - cut[k]).max()) for k in whole)
    size = max(float(np.abs(v).max()) for v in whole.values())
    # every accepted step has a root-mean-square error estimate below TOL*(1 + size), and the error is far below it
    bound = 3 * case['TOL'] * (1 + size) * (len(cuts) + 2)
    if not d < bound:
        raise Violation('cut at %s: the final state differs from the uninterrupted run by %.3g (tolerance %g, bound %.3g)' % (
            cuts, d, case['TOL'], bound))
    ref = A.build(dict(case, integrator='RK4'), dt=dt / 8, T=T)
    ref.solve()
    d2 = max(float(np.abs(A.state(ref)[k] - cut[k]).max()) for k in whole)
    if not d2 < bound + 1e-5 * (1 + size):
        raise Violation('cut at %s: the final state is %.3g away from a fine RK4 solution (tolerance %g)' % (cuts, d2, case['TOL']))
    return {'err': {'over_bound': d / bound, 'over_rk4': d2 / (bound + 1e-5 * (1 + size))}, 'moved': A.moved(s0, whole)}


FACETS = [
    Facet('cut', strategy, check, quick=150, thorough=9000, shards=6, tshards=6, nontrivial=lambda c, i: i['moved'] > 1e-6,
          rule='one to three cuts after random steps, solver calls continued to the end; non-trivial = the state moved',
          classify=lambda c, i: [c['solver'], c.get('integrator', 'implicit'), 'cuts%d' % len(set(c['cuts']))]),
    Facet('adaptive', adaptive_strategy, adaptive_check, quick=40, thorough=3000, shards=2, tshards=2,
          nontrivial=lambda c, i: i['moved'] > 1e-5, rule='cuts at random times; non-trivial = the state moved',
          classify=lambda c, i: [c['solver']])]
