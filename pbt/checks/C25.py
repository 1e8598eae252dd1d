"""Profiling, verbosity, threads, planning, output, observers, earlier runs and other simulations leave a trajectory unchanged."""
import json
import os

import numpy as np
from hypothesis import strategies as st

from .. import anysim as A, channel as H, files as F, harness, periodic as P
from ..core import Discard, Facet, Violation
from .C24 import QUERIES, ask

ASSUMPTIONS = ['planning effort and threads may reorder floating-point operations inside FFTW: those runs are compared to rounding, all others bit for bit',
               'two simulations alive in one process are two contexts of one solver (the parameters are global), with t, tstep and dt set by the user '
               'when switching', 'KMM.get_pressure and get_convection are not used as observers (recorded finding under C24)']


def trajectory(case, **kw):
    """[state after every step], and the sim."""
    out = []
    user = kw.pop('observe', None)

    def update(context):
        out.append(A.state(sim))
        if user:
            user(sim)
    sim = A.build(case, update=update, **kw)
    x0 = A.state(sim)
    sim.solve()
    return x0, out, sim


def same(a, b, tol, what):
    if len(a) != len(b):
        raise Violation('%s: the run took %d steps instead of %d' % (what, len(b), len(a)))
    worst = 0.0
    for k, (x, y) in enumerate(zip(a, b)):
        if not A.finite(x):
            break
        e = A.dist(x, y)
        worst = max(worst, e)
        if not e <= tol:
            raise Violation('%s: the solution of step %d differs by %.3g' % (what, k + 1, e))
    return worst


# ------------------------------------------------------------------ options
def opt_strategy(tier):
    return A.stretch(A.cases(tier, channel=A.CHANNEL if tier == 'thorough' else A.CHEAP_CHANNEL, steps=(2, 6), integrators=A.FIXED + [A.ADAPTIVE], extra={
        'profile': st.booleans(), 'verbose': st.booleans(), 'threads': st.sampled_from([1, 1, 2, 3]),
        'plan': st.sampled_from(['', '', 'FFTW_MEASURE', 'FFTW_PATIENT']), 'write': st.sampled_from([0, 0, 1, 2, 3]),
        'check': st.sampled_from([0, 0, 1, 2, 3]), 'ntol': st.sampled_from([7, 3]), 'name': st.sampled_from(['', 'other']),
        'asks': st.lists(st.integers(0, 9), max_size=3), 'slice': st.sampled_from([None, None, [0, 1], [1, 0], [2, 2]])}), 6, 40)


def opt_check(case):
    F.clean()
    x0, ref, sim = trajectory(case)
    kw, tol = {}, 0.0
    if case['profile']:
        kw['make_profile'] = 1
    if case['verbose']:
        kw['verbose'] = True
    if case['threads'] > 1:
        kw['threads'], tol = case['threads'], 1e-9
    if case['write']:
        kw['write_result'] = case['write']
    if case['check']:
        kw['checkpoint'] = case['check']
    kw['ntol'] = case['ntol']
    if case['name']:
        kw['h5filename'] = case['name']
    old = harness.PLAN
    if case['plan']:
        harness.PLAN, tol = json.dumps({'fft': case['plan'], 'dct': case['plan']}), 1e-9
    q = QUERIES[case['solver']]
    asks = [q[a % len(q)] for a in case['asks']]
    try:
        _, got, sim2 = trajectory(case, observe=lambda s: [ask(s, a) for a in asks], **kw)
    finally:
        harness.PLAN = old
        F.clean()
    e = same(ref, got, tol, 'with %s%s' % (json.dumps(kw, sort_keys=True), ' and observers ' + ','.join(asks) if asks else ''))
    for k in ('t', 'tstep', 'dt', 'T'):
        if getattr(sim.params, k) != getattr(sim2.params, k):
            raise Violation('%s ended as %r instead of %r' % (k, getattr(sim2.params, k), getattr(sim.params, k)))
    if case['profile'] and len(ref) > 1 and not hasattr(sim2.solver, 'results'):
        raise Violation('profiling gave no results')
    return {'err': {'options': e}, 'moved': A.moved(x0, ref[-1]) if ref else 0, 'options': sum(map(bool, (
        case['profile'], case['verbose'], case['threads'] > 1, case['write'], case['check'], case['plan'], asks)))}


# ------------------------------------------------------- runs in one process
def rerun_strategy(tier):
    one = A.cases(tier, steps=(1, 4), integrators=A.FIXED + [A.ADAPTIVE], share=False)
    return st.fixed_dictionaries({'runs': st.lists(one, min_size=2, max_size=3 if tier == 'quick' else 5), 'again': st.booleans(),
                                  'same': st.sampled_from([0, 0, 1])})


def rerun_check(case):
    runs = list(case['runs'])
    if case['same']:        # the same solver with other parameters
        s = runs[0]['solver']
        runs = [r for r in runs if r['solver'] == s] or runs[:1]
    if case['again']:
        runs.append(runs[0])
    if len(runs) < 2:
        raise Discard()
    refs = [trajectory(r)[1] for r in runs]
    worst, moved = 0.0, 0.0
    for i, r in enumerate(runs):
        x0, got, _ = trajectory(r, fresh=i == 0)
        worst = max(worst, same(refs[i], got, 1e-12 if i else 0.0, 'run %d of a process (%s after %s)' % (i + 1, r['solver'], [
            x['solver'] for x in runs[:i]])))
        if got and i:
            moved = max(moved, A.moved(x0, got[-1]))
    return {'err': {'rerun': worst}, 'moved': moved, 'pairs': '>'.join(r['solver'] for r in runs)}


# ------------------------------------------------------------ interleavings
def inter_strategy(tier):
    return A.cases(tier, steps=(1, 1), integrators=A.FIXED, lo=0.02, hi=0.2, extra={
        'second': st.integers(1, 10 ** 6), 'schedule': st.lists(st.tuples(st.integers(0, 1), st.integers(1, 2)), min_size=2, max_size=8)})


def inter_check(case):
    dt = A.step_of(case)
    other = dict(case, u=dict(case['u'], seed=case['second'] + 17))
    pair = [case, other]
    total = [sum(n for w, n in case['schedule'] if w == i) for i in (0, 1)]
    refs = []
    for i in (0, 1):
        if total[i]:
            x0, tr, _ = trajectory(dict(pair[i], steps=total[i]), dt=dt)
            refs.append((x0, tr))
        else:
            refs.append((None, []))
    out = [[], []]
    sims = []
    for i in (0, 1):
        sims.append(A.build(dict(pair[i], steps=1), dt=dt, fresh=i == 0, update=lambda context: out[who].append(A.state(sims[who]))))
    clock = [[0.0, 0], [0.0, 0]]
    for who, n in case['schedule']:
        sim = sims[who]
        p = sim.params
        p.t, p.tstep = clock[who]
        p.dt = dt
        p.T = dt * (clock[who][1] + n)
        sim.solve()
        clock[who] = [p.t, p.tstep]
    worst = 0.0
    for i in (0, 1):
        worst = max(worst, same(refs[i][1], out[i], 1e-12, 'simulation %d of two interleaved ones' % (i + 1)))
    both = all(total)
    return {'err': {'interleaved': worst}, 'moved': max(A.moved(r[0], r[1][-1]) for r in refs if r[1]) if both else 0.0, 'both': both}


FACETS = [
    Facet('options', opt_strategy, opt_check, quick=110, thorough=6000, shards=4, tshards=4, nontrivial=lambda c, i: i['moved'] > 1e-8 and i['options'] > 0,
          rule='a run with any housekeeping options and observers against the plain run; non-trivial = the solution moved and an option was set',
          classify=lambda c, i: [c['solver']] + [k for k in ('profile', 'verbose', 'plan', 'write', 'check') if c[k]] + (['threads'] if c['threads'] > 1 else [])),
    Facet('rerun', rerun_strategy, rerun_check, quick=40, thorough=2500, shards=2, tshards=2, nontrivial=lambda c, i: i['moved'] > 1e-8,
          rule='two to six runs of any solvers in one process against the same runs in fresh modules', classify=lambda c, i: [i['pairs'][:24]]),
    Facet('interleave', inter_strategy, inter_check, quick=50, thorough=2500, shards=2, tshards=2, nontrivial=lambda c, i: i['moved'] > 1e-8 and i['both'],
          rule='two contexts of a solver advanced in a generated schedule against each alone', classify=lambda c, i: [c['solver'], c.get('integrator', '-')])]
