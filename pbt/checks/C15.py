"""Checkpoints hold the solution of their step and restart without loss; a kill request checkpoints and stops."""
import os

import numpy as np
from hypothesis import strategies as st

from .. import anysim as A, files as F, gen
from ..core import Discard, Facet, Violation

ASSUMPTIONS = ['the AB2 integrator of the periodic solvers keeps no history in the checkpoint: a restart takes its Euler start again '
               '(the comparison run does the same); the adaptive integrator restarts from the step size of the user, so only the content of its checkpoint is decided',
               'HDF5 files are read with h5py after the run; a crash in the middle of a write is not injected (HDF5 gives no atomicity)']


def strategy(tier):
    return A.stretch(A.cases(tier, channel=A.CHANNEL if tier == 'thorough' else A.CHEAP_CHANNEL, steps=(2, 8), extra={
        'cadence': st.integers(1, 9), 'k0': st.sampled_from([0, 0, 3, 10, 97, 998]), 'write': st.sampled_from([1, 3, 100]),
        'kill': st.integers(0, 8), 'when': st.sampled_from(['update', 'update', 'before', 'never', 'never']),
        'name': st.sampled_from([None, None, 'other']), 'cut': st.integers(0, 9), 'mode': st.sampled_from(['w', 'a'])},
        integrators=A.FIXED + [A.ADAPTIVE]), 8, 60)


def run(sim):
    """True when a kill request ended the run."""
    try:
        sim.solve()
    except SystemExit:
        return True
    return False


def check(case):
    F.clean()
    s, n, k0, c = case['solver'], case['steps'], case['k0'], case['cadence']
    dt = A.step_of(case)
    t0 = round(dt * k0, 9)
    T = t0 + dt * n
    adaptive = case.get('integrator') == A.ADAPTIVE and not A.is_channel(s)
    kill = None
    if case['when'] == 'update':
        kill = k0 + 1 + case['kill'] % n
    elif case['when'] == 'before':
        kill = k0 + 1
    states, books = {}, {}

    # the undisturbed run
    def note(context):
        k = int(sim.params.tstep)
        states[k], books[k] = A.state(sim), float(sim.params.t)
    sim = A.build(case, dt=dt, T=T, t=t0, tstep=k0, update=note)
    start = A.state(sim)
    sim.solve()
    ref, refbooks = dict(states), dict(books)
    if not A.finite(A.state(sim)):
        raise Discard('blew up')
    if any(f.endswith('.h5') and F.tree(f)[0] for f in os.listdir('.')):
        raise Violation('a run without checkpoints or results stores data: %s' % os.listdir('.'))
    F.clean()

    # the same with checkpoints
    states.clear(), books.clear()

    def note2(context):
        note(context)
        if case['when'] == 'update' and sim.params.tstep == kill:
            open('killspectraldns', 'w').close()
    sim = A.build(case, dt=dt, T=T, t=t0, tstep=k0, update=note2, checkpoint=c, write_result=case['write'])
    if case['name']:
        sim.context.hdf5file.filename = case['name']
    path = (case['name'] or s) + '_c.h5'
    if case['when'] == 'before':
        open('killspectraldns', 'w').close()
    cut = k0 + case['cut'] if 0 < case['cut'] < n and kill is None and not adaptive else None
    killed = False
    if cut:
        sim.params.T = t0 + dt * case['cut']
        killed = run(sim)
        sim.params.T = T
    killed = run(sim) or killed
    last = max(states)
    want_last = kill if kill is not None and not (adaptive and kill > max(ref)) else max(ref)
    if killed != (kill is not None and kill <= max(ref)):
        raise Violation('kill request at step %s: the run %s' % (kill, 'stopped' if killed else 'went on'))
    if last != want_last:
        raise Violation('kill request at step %s: the last step is %d, expected %d' % (kill, last, want_last))
    if os.path.exists('killspectraldns'):
        raise Violation('the kill request is still there after the run')
    for k in states:
        if k in ref and A.dist(states[k], ref[k]) > (0 if not cut else 1e-10):
            raise Violation('writing checkpoints changes the solution of step %d by %.3g' % (k, A.dist(states[k], ref[k])))
    done = [k for k in sorted(states) if k % c == 0 or k == (kill if killed else None)]
    if not os.path.exists(path):
        raise Violation('the checkpoint file is %s, not %s' % ([f for f in os.listdir('.') if f.endswith('_c.h5')], path))
    if not done:
        F.verify(path, {}, 0.0, 0)
        return {'restart': 0, 'kill': killed, 'moved': A.moved(start, states[last])}
    k = done[-1]

    def contents(k):
        sim_state = states[k]
        old = states.get(k - 1, start)
        d = '%dD' % len(sim.params.N)
        name = F.PRIMARY[s]
        out = {'/'.join((name, d, '0')): sim_state[A.PRIMARY[s][0]]}
        if 'phi_hat' in sim_state:
            out['phi/%s/0' % d] = sim_state['phi_hat']
        if s in F.TWO:
            out['/'.join((name, d, '1'))] = old[A.PRIMARY[s][0]]
            if 'phi_hat' in sim_state:
                out['phi/%s/1' % d] = old['phi_hat']
        return out
    F.verify(path, contents(k), books[k], k)

    # a new simulation from the file
    if adaptive or k == max(ref):
        return {'restart': 0, 'kill': killed, 'moved': A.moved(start, states[last])}
    states.clear(), books.clear()
    data, attrs = F.tree(path)
    tk, kk = float(attrs['t']), int(attrs['tstep'])
    sim = A.build(case, dt=dt, T=T, t=tk, tstep=kk, update=note, filemode=case['mode'], checkpoint=10 ** 6, write_result=10 ** 6)
    if case['name']:
        sim.context.hdf5file.filename = case['name']
    F.restart(sim, path)
    sim.solve()
    if case['mode'] == 'a':
        F.verify(path, {k: v for k, v in data.items() if '/mesh/' not in k}, tk, kk)
    if case.get('integrator') == 'AB2' and not A.is_channel(s):
        two = A.build(case, dt=dt, T=T, t=tk, tstep=kk)
        getattr(two.context, A.PRIMARY[s][0])[:] = ref[kk][A.PRIMARY[s][0]]
        two.solve()
        goal = {max(ref): A.state(two)}
    else:
        goal = ref
    if sorted(states) != [j for j in sorted(ref) if j > kk]:
        raise Violation('the restarted run makes the steps %s; the uninterrupted one %s' % (sorted(states), sorted(ref)))
    if abs(books[max(ref)] - refbooks[max(ref)]) > 1e-12 * max(1, T):
        raise Violation('the restarted run ends at %r, the uninterrupted one at %r' % (books[max(ref)], refbooks[max(ref)]))
    e = max(A.dist(goal[j], states[j]) for j in states if j in goal)
    if not e < 1e-10:
        raise Violation('restarted from the checkpoint of step %d, the solution differs from the uninterrupted run by %.3g' % (kk, e))
    return {'err': {'restart': e}, 'restart': len(states), 'kill': killed, 'moved': A.moved(start, states[max(states)])}


FACETS = [
    Facet('restart', strategy, check, quick=150, thorough=7000, shards=7, tshards=7,
          nontrivial=lambda c, i: (i['restart'] > 0 or i['kill']) and i['moved'] > 1e-6,
          rule='checkpoints at a random cadence, kill requests at random steps, restart in fresh modules; non-trivial = restarted or killed, and the state moved',
          classify=lambda c, i: [c['solver'], 'killed' if i['kill'] else 'not killed', 'restarted' if i['restart'] else 'content only'])]
