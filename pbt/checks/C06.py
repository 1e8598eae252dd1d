"""Solenoidality, realness, empty Nyquist modes and the mean, along whole runs."""
import numpy as np
from hypothesis import strategies as st

from .. import anysim as A, gen, periodic as P, refper as R
from ..core import Facet, Violation

ASSUMPTIONS = ['step sizes inside the stability region (a CFL-like bound computed from the state)']


def strategy(tier):
    return A.stretch(P.cases(tier, extra={
        'integrator': st.sampled_from(['RK4', 'AB2', 'ForwardEuler', 'BS5_fixed', 'BS5_adaptive']),
        'steps': st.integers(2, 8), 'cfl': gen.rnd(0.02, 0.3, 3), 'mask': st.sampled_from([True, True, False]),
        'TOL': st.sampled_from([1e-3, 1e-5, 1e-7]),
        'source': st.one_of(st.none(), st.integers(0, 10 ** 6))}), 8, 100)


def inspect(g, solver, case, q, q0, t, src, where):
    if not np.all(np.isfinite(q)):
        raise Violation('%s: the state is not finite' % where)
    fields = {'VV': [q], 'MHD': [q[:3], q[3:]]}.get(solver, [q[:g.d]])
    kmax = np.sqrt(g.K2.max())
    amp = max(np.abs(q).max(), np.abs(q0).max()) + 1e-4
    err = {}
    for i, f in enumerate(fields):
        div = np.where(g.nyq, 0, np.abs(g.div(f))).max() / (kmax * amp)
        err['div'] = max(err.get('div', 0), float(div))
        if div > 1e-11:
            raise Violation('%s: divergence of field %d is %.3g relative' % (where, i, div))
    qq = np.where(g.nyq, 0, q)
    back = R.fwd(R.bwd(qq, g.N), g.d)
    e = np.abs(back - qq).max() / amp
    err['real'] = float(e)
    if e > 1e-11:
        raise Violation('%s: the coefficients are not those of a real field (%.3g)' % (where, e))
    if case['mask']:
        ny = np.abs(np.where(g.nyq, q, 0)).max() / amp
        if ny > 1e-12:
            raise Violation('%s: masked Nyquist modes hold %.3g relative' % (where, ny))
    z = (slice(None),) + (0,) * g.d
    expect = q0[z].copy()
    if src is not None:
        expect = expect + t * src[z]
    if solver == 'Bq2D':
        expect[1] -= t * case['Ri'] * q0[2, 0, 0]
    e = np.abs(q[z] - expect).max() / (amp + 1e-3)
    if not case['mask']:
        return err          # Nyquist modes the user asked to keep feed the mean
    err['mean'] = float(e)
    if e > 1e-11:
        raise Violation('%s: the mean is %s, expected %s' % (where, q[z], expect))
    return err


def check(case):
    solver = case['solver']
    g = R.Grid(case['N'], case['L'], case['dealias'])
    q0 = P.initial(solver, case)
    src = None
    if case['source'] is not None and solver in ('NS', 'VV', 'NS2D'):
        src = R.field(case['N'], case['L'], {'seed': case['source'], 'amp': 0.3, 'kmax': 3, 'slope': 1,
                                              'mean': None if solver == 'VV' else [0.3, -0.2, 0.1]}, P.NCOMP[solver])
    dt = P.stable_dt(g, q0, case, case['cfl'], solver)
    seen, errs = [], {}

    def update(context):
        q = np.array(getattr(context, P.STATE[solver]))
        t = context.hdf5file and sim.params.t
        seen.append(t)
        for k, v in inspect(g, solver, case, q, q0, t, src, 'step %d' % len(seen)).items():
            errs[k] = max(errs.get(k, 0.0), v)

    T = dt * case['steps']
    sim = P.make(solver, case, q0, src, update=update, dt=float(dt), T=float(T))
    sim.solve()
    if not seen:
        raise Violation('no step was taken')
    moved = float(np.abs(P.state(sim) - q0).max())
    return {'err': errs, 'moved': moved, 'steps': len(seen)}


FACETS = [Facet('histories', strategy, check, quick=560, thorough=30000, shards=8,
                nontrivial=lambda c, i: i['moved'] > 1e-6 and i['steps'] > 1,
                rule='runs of 1-8 steps of all five solvers with all integrators and sources, inspected after every step; '
                     'non-trivial = more than one step and the state moved',
                classify=lambda c, i: [c['solver'], c['integrator'], c['dealias'], 'source' if c['source'] else 'nosource'])]
