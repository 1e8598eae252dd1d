"""The time loop: time, step count, callbacks, end time, parameters restored."""
import numpy as np
from hypothesis import strategies as st

from .. import anysim as A, gen
from ..core import Discard, Facet, Violation

ASSUMPTIONS = ['solvers without step-size control (channel) stop at the last whole step that does not overshoot the end time']


def strategy(tier):
    return A.stretch(A.cases(tier, channel=A.CHEAP_CHANNEL, integrators=A.FIXED + [A.ADAPTIVE], steps=(0, 7), extra={
        'frac': st.one_of(st.just(0.0), gen.rnd(0.0, 0.99, 2)), 't0': st.sampled_from([0.0, 0.0, 1.5, 2.25]),
        'tstep0': st.sampled_from([0, 0, 7, 998]), 'past': st.sampled_from([False] * 9 + [True])},
        pextra={'TOL': st.sampled_from([1e-2, 1e-4])}), 7, 120)


def check(case):
    solver = case['solver']
    dt = A.step_of(case)
    n, chan = case['steps'], A.is_channel(solver)
    adaptive = case.get('integrator') == A.ADAPTIVE
    t0 = case['t0']
    T = t0 + dt * (n + case['frac'])
    if case['past']:
        T = t0 - dt
    log, ends = [], []

    def update(context):
        p = sim.params
        log.append((float(p.t), int(p.tstep), A.state(sim), bool(ends)))

    def end(context):
        ends.append((float(sim.params.t), int(sim.params.tstep), A.state(sim)))

    sim = A.build(case, T=T, t=t0, tstep=case['tstep0'], dt=dt, update=update, regression_test=end)
    s0 = A.state(sim)
    before = {k: sim.params[k] for k in ('dt', 'T', 'nu', 'TOL', 'integrator', 'dealias', 'convection') if k in sim.params}
    sim.solve()
    after = {k: sim.params[k] for k in before}
    if before != after:
        raise Violation('the run changed the parameters %s' % {k: (before[k], after[k]) for k in before if before[k] != after[k]})
    if len(ends) != 1:
        raise Violation('the end-of-run function was called %d times' % len(ends))
    if any(x[3] for x in log):
        raise Violation('update was called after the end-of-run function')
    t, k = t0, case['tstep0']
    last = s0
    for i, (ti, ki, si, _) in enumerate(log):
        if ki != k + 1:
            raise Violation('update number %d saw step count %d after %d' % (i + 1, ki, k))
        d = ti - t
        if not d > 0:
            raise Violation('time did not advance in step %d: %r to %r' % (ki, t, ti))
        if ti > T + 1e-11:
            raise Violation('step %d ends at %r, after the end time %r' % (ki, ti, T))
        if not adaptive:
            whole = abs(d - dt) < 1e-12 * max(1, abs(ti)) + 1e-11
            lastone = i == len(log) - 1
            if not whole and not (lastone and not chan and d < dt):
                raise Violation('step %d of %d advanced time by %r, the step size is %r' % (i + 1, len(log), d, dt))
        t, k, last = ti, ki, si
    te, ke, se = ends[0]
    if (te, ke) != (t, k) or A.dist(se, last) > 0:
        raise Violation('the end-of-run function saw time %r, step %d and a state %.3g away; the last update saw %r, %d' % (
            te, ke, A.dist(se, last), t, k))
    if (float(sim.params.t), int(sim.params.tstep)) != (t, k):
        raise Violation('the run ended with time %r and step %d, the last update saw %r and %d' % (sim.params.t, sim.params.tstep, t, k))
    if A.dist(A.state(sim), last) > 0:
        raise Violation('the state changed after the last update')
    expect = None
    if case['past'] or n + case['frac'] == 0:
        expect = 0
        if A.dist(s0, A.state(sim)) > 0:
            raise Violation('the state changed although the end time is already reached')
    elif chan:
        expect = int(np.floor((T - t0) / dt + 1e-6 + 1e-12 / dt))
    elif not adaptive:
        expect = int(np.ceil((T - t0) / dt - 1e-6 - 1e-12 / dt))
    if expect is not None and len(log) != expect:
        raise Violation('%d steps taken from %r to %r with step size %r, expected %d' % (len(log), t0, T, dt, expect))
    if not chan and T > t0 and abs(t - T) > 1e-11:
        raise Violation('the run ended at %r, the end time is %r' % (t, T))
    return {'steps': len(log), 'moved': A.moved(s0, last)}


def prefix_strategy(tier):
    return A.stretch(A.cases(tier, channel=A.CHEAP_CHANNEL, steps=(2, 5)), 5, 60)


def prefix_check(case):
    """What the update function sees after step i is the result of a run of i steps."""
    dt, n = A.step_of(case), case['steps']
    log = []
    sim = A.build(case, update=lambda context: log.append(A.state(sim)))
    sim.solve()
    if len(log) != n:
        raise Violation('%d steps, expected %d' % (len(log), n))
    worst = 0.0
    for i in {1, n - 1}:
        part = A.build(case, T=dt * i)
        part.solve()
        if not A.finite(log[i - 1]):
            raise Discard('blew up')
        e = A.dist(A.state(part), log[i - 1])
        worst = max(worst, e)
        # the last step of a run is shortened to hit the end time to rounding
        if e > 1e-10:
            raise Violation('the state seen after step %d differs from that of a run of %d steps by %.3g' % (i, i, e))
    return {'err': {'prefix': worst}, 'moved': A.moved(log[0], log[-1])}


FACETS = [
    Facet('books', strategy, check, quick=280, thorough=12000, shards=6, tshards=6,
          nontrivial=lambda c, i: i['steps'] > 1,
          rule='solver, integrator, step, end time (also reached or past), start time and count; non-trivial = at least two steps',
          classify=lambda c, i: [c['solver'], c.get('integrator', 'implicit'), 'nostep' if not i['steps'] else 'steps']),
    Facet('prefix', prefix_strategy, prefix_check, quick=70, thorough=3000, shards=2, tshards=2,
          nontrivial=lambda c, i: i['moved'] > 1e-6, rule='states seen by update against shorter runs; non-trivial = the state moved',
          classify=lambda c, i: [c['solver'], c.get('integrator', 'implicit')])]
