"""The results file holds the physical fields of the steps the cadence asks for."""
import os

import numpy as np
from hypothesis import strategies as st

from .. import anysim as A, channel as H, files as F, gen, periodic as P, refchan, refper as R
from ..core import Discard, Facet, Violation
from .C24 import coefficients

ASSUMPTIONS = ['the stored pressure is that of the last evaluation of the right-hand side of the step (with the kinetic energy for the rotational form)']


def strategy(tier):
    return A.stretch(A.cases(tier, channel=A.CHANNEL if tier == 'thorough' else A.CHEAP_CHANNEL, steps=(2, 8), integrators=A.FIXED + [A.ADAPTIVE], extra={
        'cadence': st.integers(1, 6), 'k0': st.sampled_from([0, 0, 3, 10, 97, 998]), 'check': st.sampled_from([1, 2, 100]),
        'cut': st.integers(0, 9), 'slices': st.lists(st.tuples(st.integers(0, 2), st.integers(0, 20)), max_size=2),
        'ask': st.booleans(), 'mode': st.sampled_from(['w', 'w', 'a'])}, pextra={'mask': st.just(True)}, cextra={'mask': st.just(True)}), 8, 60)


def fields(sim, g, ch, last):
    """The physical fields the solver advertises, from the primary variable, by dataset name."""
    s = sim.name
    if ch is not None:
        u = ch.phys(coefficients(sim, ch))
        if s == 'KMMr':
            u = np.moveaxis(u[[1, 2, 0]], 1, -1)
        out = {'U%d' % i: u[i] for i in range(3)}
        if s in H.RB:
            out['phi'] = temperature(sim, ch)
        return out
    x = P.state(sim)
    if s in ('NS', 'NS2D'):
        out = {'U%d' % i: R.bwd(x[i], g.N) for i in range(g.d)}
        # on modes the dealiasing does not resolve the pressure is not compared
        out['P'] = g.pressure(g.convection(last, sim.params.convection))
        return out
    if s == 'VV':
        u = R.bwd(g.biot_savart(x), g.N)
        w = R.bwd(x, g.N)
        out = {'U%d' % i: u[i] for i in range(3)}
        out.update({'curl%d' % i: w[i] for i in range(3)})
        return out
    n = {'Bq2D': 'UR', 'MHD': 'UB'}[s]
    v = R.bwd(x, g.N)
    return {'%s%d' % (n, i): v[i] for i in range(len(v))}


def temperature(sim, ch):
    p = np.array(sim.context.phi_hat)
    n = ch.n
    c = ch.SD.cheb(p[:n - 2])
    c[0, 0, 0] += 0.5 * (1.0 + 0.0)
    c[1, 0, 0] += 0.5 * (0.0 - 1.0)
    return ch.phys(c)


def check(case):
    F.clean()
    s, n, k0, c = case['solver'], case['steps'], case['k0'], case['cadence']
    dt = A.step_of(case)
    t0 = round(dt * k0, 9)
    T = t0 + dt * n
    chan = A.is_channel(s)
    adaptive = case.get('integrator') == A.ADAPTIVE and not chan
    ch = refchan.Chan(case['N'], case['L'], case['quad'], 'None') if chan else None
    g = None if chan else R.Grid(case['N'], case['L'], case['dealias'])
    last, want, seen = {}, {}, []

    def watch(sim):
        if s in ('NS', 'NS2D'):
            rhs = sim.solver.ComputeRHS

            def watched(*args, **kw):
                last['u'] = np.array(args[1])
                return rhs(*args, **kw)
            sim.solver.ComputeRHS = watched

    def update(context):
        k = int(sim.params.tstep)
        seen.append(k)
        if k % c == 0:
            want[k] = fields(sim, g, ch, last.get('u'))
        if case['ask']:
            # stale physical fields must not reach the file
            for name in ('U', 'UB', 'Ur', 'phi', 'P', 'curl'):
                if name in sim.context:
                    sim.context[name][:] = 7.0

    quiet = A.build(case, dt=dt, T=T, t=t0, tstep=k0)
    s0 = A.state(quiet)
    quiet.solve()
    a = A.state(quiet)
    if not A.finite(a):
        raise Discard('blew up')
    F.clean()
    sim = A.build(case, dt=dt, T=T, t=t0, tstep=k0, update=update, write_result=c, checkpoint=case['check'], filemode=case['mode'])
    watch(sim)
    data = sim.context.hdf5file.results['data']
    slices = []
    if case['slices']:
        # the user asks for planes of the first field as well, the way the documentation shows
        key = sorted(data)[-1]
        arr = data[key][0]
        name = key
        rank = arr.rank
        for ax, pos in case['slices']:
            d = len(case['N'])
            sl = [slice(None)] * d
            m = arr.global_shape[rank + ax % d]
            sl[ax % d] = pos % m
            if sl not in slices:
                slices.append(sl)
        data[key] = [arr] + [(arr, list(sl)) for sl in slices]
    if 0 < case['cut'] < n and not adaptive:
        sim.to(t0 + dt * case['cut'])
    sim.to(T)
    b = A.state(sim)
    tol = 0 if not (0 < case['cut'] < n and not adaptive) else 1e-10
    e = A.dist(a, b)
    if e > tol:
        raise Violation('storing results every %d steps changes the solution by %.3g' % (c, e))
    path = s + '_w.h5'
    if not os.path.exists(path):
        raise Violation('there is no results file; files: %s' % sorted(os.listdir('.')))
    have, _ = F.tree(path)
    d = len(case['N'])
    goal = {}
    for k, f in want.items():
        for q, v in f.items():
            goal['%s/%dD/%d' % (q, d, k)] = v
            if slices and (q == name or q[:-1] == name):
                for sl in slices:
                    label = '_'.join('slice' if isinstance(x, slice) else str(x) for x in sl)
                    vv = v
                    goal['%s/%dD/%s/%d' % (q, d - 1, label, k)] = vv[tuple(sl)] if q != 'P' else (v, sl)
    data_sets = {k: v for k, v in have.items() if '/mesh/' not in k}
    if set(data_sets) != set(goal):
        extra = sorted(set(data_sets) - set(goal))[:4]
        miss = sorted(set(goal) - set(data_sets))[:4]
        raise Violation('cadence %d, steps %s: the file lacks %s and has %s besides' % (c, [k0 + 1, max(seen)], miss, extra))
    worst = 0.0
    for k, v in goal.items():
        got = data_sets[k]
        if k.startswith('P/'):
            if isinstance(v, tuple):
                continue
            got, v = np.where(g.valid, R.fwd(got, g.d), 0), np.where(g.valid, v, 0)
            scale = 1e-3 + np.abs(v).max() + np.abs(P.state(sim)).max() ** 2
        else:
            scale = 1e-3 + np.abs(v).max()
        if got.shape != v.shape:
            raise Violation('%s has shape %s, expected %s' % (k, got.shape, v.shape))
        e = float(np.abs(got - v).max() / scale)
        if not e < 1e-10:
            raise Violation('%s is not the field of its step: relative error %.3g' % (k, e))
        worst = max(worst, e)
    # the mesh stored with the data
    X = [np.squeeze(np.asarray(x)) for x in sim.context.X]
    for k, v in have.items():
        if '/mesh/x' in k:
            i = int(k[-1])
            N, L = [int(m) for m in sim.params.N], [float(x) for x in sim.params.L]
            wall = (2 if s == 'KMMr' else 0) if chan else None
            if i == wall:
                ref = refchan.points(N[i], case['quad'])[0]
            else:
                ref = np.arange(N[i]) * L[i] / N[i]
            if v.shape != ref.shape or np.abs(np.sort(v) - np.sort(ref)).max() > 1e-12:
                raise Violation('%s does not hold the mesh' % k)
    del X
    return {'err': {'fields': worst}, 'stored': len(want), 'skipped': len(seen) - len(want), 'moved': A.moved(s0, b)}


FACETS = [
    Facet('results', strategy, check, quick=150, thorough=7000, shards=7, tshards=7,
          nontrivial=lambda c, i: i['stored'] > 0 and i['moved'] > 1e-6,
          rule='results at a random cadence (planes as well), compared with the reference fields of each step; non-trivial = something is stored and the state moved',
          classify=lambda c, i: [c['solver'], 'all steps' if not i['skipped'] else 'some steps', 'planes' if c['slices'] else 'volumes'])]
