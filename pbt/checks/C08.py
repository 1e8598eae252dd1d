"""Symmetries: translation, reflection, axis permutation, scaling, Galilei, 2D embedding."""
import itertools

import numpy as np
from hypothesis import strategies as st

from .. import gen, periodic as P, refper as R
from ..core import Facet, Violation

ASSUMPTIONS = ['grid translations; Nyquist modes empty and masked; Galilei invariance to time-discretisation accuracy']
INTEG = st.sampled_from(['RK4', 'AB2', 'ForwardEuler', 'BS5_fixed'])


def groups(solver):
    """Vector triples of the primary variable: (slice, is pseudovector)."""
    return {'NS': [(slice(0, 3), False)], 'VV': [(slice(0, 3), True)], 'MHD': [(slice(0, 3), False), (slice(3, 6), False)],
            'NS2D': [(slice(0, 2), False)], 'Bq2D': [(slice(0, 2), False)]}[solver]


def phys(q, N):
    return R.bwd(q, N)


def reflect(f, solver, axis, d):
    """x_axis -> -x_axis on physical fields."""
    out = np.roll(np.flip(f, axis=1 + axis), 1, axis=1 + axis).copy()
    for sl, pseudo in groups(solver):
        v = out[sl]
        if pseudo:
            v *= -1
            v[axis] *= -1
        else:
            v[axis] *= -1
    if solver == 'Bq2D' and axis == 1:
        out[2] *= -1           # buoyancy changes sign with the vertical
    return out


def permute(f, solver, perm):
    """New axis i is old axis perm[i]."""
    out = np.transpose(f, (0,) + tuple(1 + p for p in perm)).copy()
    sign = 1
    for i, j in itertools.combinations(range(len(perm)), 2):
        if perm[i] > perm[j]:
            sign = -sign
    for sl, pseudo in groups(solver):
        out[sl] = out[sl][list(perm)] * (sign if pseudo else 1)
    return out


def run(case, f, **kw):
    N = kw.pop('N', case['N'])
    c = dict(case, N=N, **kw)
    sim = P.make(c['solver'], c, R.fwd(f, len(N)), dt=c['dt'], T=c['dt'] * c['steps'])
    sim.solve()
    return phys(P.state(sim), N)


def strategy(tier):
    def more(c):
        d = len(c['N'])
        return st.fixed_dictionaries({
            'op': st.sampled_from(['shift', 'reflect', 'permute', 'scale']),
            'shift': st.lists(st.integers(0, 11), min_size=d, max_size=d), 'axis': st.integers(0, d - 1),
            'perm': st.permutations(list(range(d))).map(list), 'a': gen.logu(0.2, 5.0), 'tau': gen.logu(0.2, 5.0)}).map(
                lambda m: dict(c, **m))
    return P.cases(tier, extra={'integrator': INTEG, 'steps': st.integers(1, 4), 'cfl': gen.rnd(0.05, 0.4, 3)},
                   mean=True).flatmap(more)


def check(case):
    solver = case['solver']
    N, L = case['N'], case['L']
    g = R.Grid(N, L, case['dealias'])
    q = P.initial(solver, case)
    dt = float(P.stable_dt(g, q, case, case['cfl'], solver))
    c = dict(case, dt=dt)
    f0 = phys(q, N)
    f1 = run(c, f0)
    op = case['op']
    if solver == 'Bq2D' and op == 'permute':
        op = 'reflect'
    if op == 'shift':
        sh = lambda f: np.roll(f, case['shift'], axis=tuple(range(1, f.ndim)))
        got, want = run(c, sh(f0)), sh(f1)
    elif op == 'reflect':
        rf = lambda f: reflect(f, solver, case['axis'], len(N))
        got, want = run(c, rf(f0)), rf(f1)
    elif op == 'permute':
        p = case['perm']
        pm = lambda f: permute(f, solver, p)
        got, want = run(c, pm(f0), N=[N[i] for i in p], L=[L[i] for i in p]), pm(f1)
    else:
        a, tau = case['a'], case['tau']
        fac = np.full(len(f0), a / tau)
        if solver == 'VV':
            fac[:] = 1 / tau
        if solver == 'Bq2D':
            fac[2] = a / tau ** 2            # an acceleration
        fac = fac.reshape((-1,) + (1,) * len(N))
        kw = {'L': [x * a for x in L], 'nu': case['nu'] * a * a / tau, 'dt': dt * tau}
        if solver == 'MHD':
            kw['eta'] = case['eta'] * a * a / tau
        got, want = run(c, f0 * fac, **kw), f1 * fac
        got, want = got / fac, want / fac
    s = np.abs(f1).max() + np.abs(f0).max() + 1e-3
    e = float(np.abs(got - want).max() / s)
    if not np.all(np.isfinite(f1)):
        raise Violation('the run is not finite')
    if not e < 1e-10:
        raise Violation('%s is not equivariant under %s: %.3g' % (solver, op, e))
    return {'err': {op: e}, 'moved': float(np.abs(f1 - f0).max()), 'op': op}


def strategy_gal(tier):
    return P.cases(tier, solvers=['NS', 'NS2D', 'VV', 'MHD', 'Bq2D'], dealias=['3/2-rule'], sizes3=(6, 8), sizes2=(6, 8, 10), mean=False,
                   amp=(0.2, 0.8), lo=3.0, nus=(1e-3, 0.05),
                   extra={'U': st.lists(gen.rnd(-1, 1, 2), min_size=3, max_size=3), 'steps': st.integers(1, 5)})


def check_gal(case):
    solver = case['solver']
    if solver == 'VV':
        case = dict(case, solver='NS')        # VV carries no mean velocity
        solver = 'NS'
    N, L = case['N'], case['L']
    q = P.initial(solver, case)
    g = R.Grid(N, L, '3/2-rule')
    c = dict(case, dt=0.002, integrator='RK4')
    z = (slice(None),) + (0,) * g.d
    f1 = np.where(g.nyq, 0, R.fwd(run(c, phys(q, N)), g.d))
    U = np.array(case['U'][:g.d])
    qb = q.copy()
    qb[(slice(0, g.d),) + (0,) * g.d] += U
    b1 = np.where(g.nyq, 0, R.fwd(run(c, phys(qb, N)), g.d))
    t = c['dt'] * c['steps']
    phase = np.exp(-1j * t * np.tensordot(U, g.Kf, 1))
    want = f1 * phase
    want[(slice(0, g.d),) + (0,) * g.d] += U
    e = float(np.abs(b1 - want).max() / (1e-2 + np.abs(q).max()))
    if not e < 1e-7:
        raise Violation('adding a uniform velocity does not translate the solution: %.3g' % e)
    return {'err': {'galilei': e}, 'moved': float(np.abs(b1 - qb).max()), 'op': 'galilei'}


def strategy_2d(tier):
    return P.cases(tier, solvers=['NS2D'], sizes2=(6, 8, 10), extra={
        'integrator': INTEG, 'steps': st.integers(1, 4), 'cfl': gen.rnd(0.05, 0.4, 3), 'axis': st.integers(0, 2),
        'form': st.sampled_from(P.FORMS['NS'] + ['VV']), 'n3': st.sampled_from([4, 6]), 'L3': gen.rnd(0.5, 7, 2)})


def check_2d(case):
    N, L = case['N'], case['L']
    form = case['form']
    c = dict(case, dealias='3/2-rule' if form != 'Vortex' else case['dealias'])
    q = P.initial('NS2D', c)
    if form == 'VV':
        q[:, 0, 0] = 0
    g = R.Grid(N, L, c['dealias'])
    c['dt'] = float(P.stable_dt(g, q, c, case['cfl'], 'NS2D'))
    f0 = phys(q, N)
    f1 = run(c, f0)
    ax = case['axis']
    n3 = 6 if c['dealias'] == '2/3-rule' else case['n3']
    N3 = N[:ax] + [n3] + N[ax:]
    L3 = L[:ax] + [case['L3']] + L[ax:]
    comp = [i for i in range(3) if i != ax]

    def lift(f):
        out = np.zeros((3,) + tuple(N3))
        out[comp] = np.expand_dims(f, 1 + ax)
        return out
    F0, F1 = lift(f0), lift(f1)
    g3 = R.Grid(N3, L3, 'None')
    if form == 'VV':
        F0, F1 = (R.bwd(g3.curl(np.where(g3.nyq, 0, R.fwd(F, 3))), N3) for F in (F0, F1))
        got = run(dict(c, solver='VV', L=L3), F0, N=N3)
    else:
        got = run(dict(c, solver='NS', L=L3, convection=form), F0, N=N3)
    e = float(np.abs(got - F1).max() / (1e-3 + np.abs(F0).max() + np.abs(F1).max()))
    if not e < 1e-10:
        raise Violation('the 3D solver (%s, uniform along axis %d) leaves the 2D solution by %.3g' % (form, ax, e))
    return {'err': {'2d-3d': e}, 'moved': float(np.abs(f1 - f0).max()), 'op': form}


FACETS = [
    Facet('equivariance', strategy, check, quick=320, thorough=15000, shards=5, tshards=8, nontrivial=lambda c, i: i['moved'] > 1e-4,
          rule='a run and its image under a translation, reflection, axis permutation or change of units; non-trivial = the state moved',
          classify=lambda c, i: [c['solver'], i['op'], c['dealias']]),
    Facet('galilei', strategy_gal, check_gal, quick=80, thorough=4000, shards=1, tshards=4, nontrivial=lambda c, i: any(c['U']),
          rule='a run and the same run in a moving frame; non-trivial = non-zero frame velocity', classify=lambda c, i: [c['solver']]),
    Facet('embedding', strategy_2d, check_2d, quick=120, thorough=5000, shards=2, tshards=4, nontrivial=lambda c, i: i['moved'] > 1e-4,
          rule='a 2D run and the 3D run of the extruded state along each axis; non-trivial = the state moved',
          classify=lambda c, i: [i['op'], 'axis%d' % c['axis']])]
