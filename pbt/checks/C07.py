"""Quadratic invariants of the dealiased nonlinear terms, energy budget, agreement of forms."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, periodic as P, refper as R
from ..core import Facet, Violation

ASSUMPTIONS = ['states lie inside the modes the dealiasing rule resolves; Nyquist modes empty and masked']


def strategy(tier):
    return P.cases(tier, sizes3=(6, 8, 10), sizes2=(6, 8, 10, 12, 16), dealias=['3/2-rule', '2/3-rule'],
                   extra={'inviscid': st.booleans()})


def resolved(solver, case, g):
    q = P.initial(solver, case)
    return np.where(g.valid, q, 0)


def close(name, value, expect, scale, err, tol=1e-11):
    e = abs(value - expect) / (scale + 1e-12)
    err[name] = float(e)
    if not e < tol:
        raise Violation('%s changes at the rate %.6g, expected %.6g (relative to its terms: %.3g)' % (name, value, expect, e))


def check(case):
    solver = case['solver']
    g = R.Grid(case['N'], case['L'], case['dealias'])
    q = resolved(solver, case, g)
    nu = 0.0 if case['inviscid'] else case['nu']
    eta = 0.0 if case['inviscid'] else case.get('eta', 0.0)
    c = dict(case, nu=nu)
    if solver == 'MHD':
        c['eta'] = eta
    rate, sim = P.rate(solver, c, q)
    r = np.where(g.nyq, 0, rate)
    ip = lambda a, b: R.inner(np.where(g.valid, a, 0), b)
    err = {}
    K2 = g.K2
    kmax = np.sqrt(K2.max())
    if solver == 'VV':
        u, w, ru = g.biot_savart(q), q, g.biot_savart(r)
    else:
        u, ru = q[:g.d], r[:g.d]
        w = g.curl(u)
    umax = np.sqrt(R.inner(u, u)) + (np.sqrt(R.inner(q[3:], q[3:])) if solver == 'MHD' else 0)
    peak = np.abs(R.bwd(u, g.N)).max() + np.abs(R.bwd(q, g.N)).max() * (solver == 'MHD')
    scale = kmax * umax ** 2 * peak + nu * kmax ** 2 * umax ** 2 + 1e-6
    if solver == 'MHD':
        b, rb = q[3:], r[3:]
        scale += eta * kmax ** 2 * umax ** 2
        close('total energy', ip(u, ru) + ip(b, rb), -nu * R.inner(u, K2 * u) - eta * R.inner(b, K2 * b), scale, err)
        close('cross helicity', ip(u, rb) + ip(b, ru), -(nu + eta) * R.inner(u, K2 * b), scale, err)
    elif solver == 'Bq2D':
        rho, rr = q[2], r[2]
        buoy = -case['Ri'] * R.inner(rho, u[1])
        s = scale + abs(case['Ri']) * np.abs(q).max() ** 2 * 10 + peak * kmax * np.abs(R.bwd(q, g.N)).max() ** 2 \
            + nu / case['Pr'] * kmax ** 2 * np.abs(R.bwd(q, g.N)).max() ** 2
        close('kinetic energy', ip(u, ru), -nu * R.inner(u, K2 * u) + buoy, s, err)
        close('density variance', ip(rho, rr), -nu / case['Pr'] * R.inner(rho, K2 * rho), s, err)
    else:
        close('kinetic energy', ip(u, ru), -nu * R.inner(u, K2 * u), scale, err)
        if g.d == 3:
            close('helicity', ip(w, ru), -nu * R.inner(w, K2 * u), scale * kmax, err)
        else:
            close('enstrophy', ip(w, g.curl(ru)), -nu * R.inner(w, K2 * w), scale * kmax ** 2, err)
    return {'err': err, 'moved': float(np.abs(r).max())}


def strategy_forms(tier):
    return P.cases(tier, sizes3=(6, 8, 10), solvers=['NS'], dealias=['3/2-rule', '2/3-rule'])


def check_forms(case):
    g = R.Grid(case['N'], case['L'], case['dealias'])
    q = resolved('NS', case, g)
    rates = {f: P.rate('NS', dict(case, convection=f), q)[0] for f in P.FORMS['NS']}
    s = 1e-3 + np.abs(q).max() * (1 + np.sqrt(g.K2.max()) * np.abs(R.bwd(q, g.N)).max())
    err = {}
    for f, r in rates.items():
        e = float(np.where(g.valid, np.abs(r - rates['Vortex']), 0).max() / s)
        err[f] = e
        if not e < 1e-11:
            raise Violation('the %s form and the Vortex form differ by %.3g' % (f, e))
    return {'err': err, 'moved': float(np.abs(rates['Vortex'] + case['nu'] * g.K2 * q).max())}


def strategy_decay(tier):
    return P.cases(tier, sizes3=(6, 8), sizes2=(6, 8, 12), dealias=['3/2-rule', '2/3-rule'], nus=(5e-3, 0.5),
                   extra={'steps': st.integers(2, 10), 'cfl': gen.rnd(0.02, 0.2, 3),
                          'integrator': st.sampled_from(['RK4', 'BS5_fixed'])})


def check_decay(case):
    solver = case['solver']
    g = R.Grid(case['N'], case['L'], case['dealias'])
    q = resolved(solver, case, g)
    if solver == 'Bq2D':
        q[2] = 0
    z = (slice(None),) + (0,) * g.d
    dt = P.stable_dt(g, q, case, case['cfl'], solver)
    en = [R.energy(g, P.velocity_of(solver, g, q)) + (R.energy(g, q[3:]) if solver == 'MHD' else 0)]

    def update(context):
        s = np.where(g.nyq, 0, np.array(getattr(context, P.STATE[solver])))
        en.append(R.energy(g, P.velocity_of(solver, g, s)) + (R.energy(g, s[3:]) if solver == 'MHD' else 0))
        if not en[-1] <= en[-2] * (1 + 1e-7) + 1e-15:
            raise Violation('the energy grows from %.12g to %.12g in step %d of an unforced run' % (en[-2], en[-1], len(en) - 1))

    sim = P.make(solver, case, q, update=update, dt=float(dt), T=float(dt * case['steps']))
    sim.solve()
    return {'moved': (en[0] - en[-1]) / (en[0] + 1e-12)}


FACETS = [
    Facet('invariants', strategy, check, quick=480, thorough=30000, shards=5, tshards=8, nontrivial=lambda c, i: i['moved'] > 1e-3,
          rule='resolved states of all solvers, 3/2- and 2/3-rule, with and without viscosity; non-trivial = rate of change above 1e-3',
          classify=lambda c, i: [c['solver'], c['convection'], c['dealias'], 'inviscid' if c['inviscid'] else 'viscous']),
    Facet('forms', strategy_forms, check_forms, quick=60, thorough=4000, shards=1, tshards=4, nontrivial=lambda c, i: i['moved'] > 1e-3,
          rule='all four convective forms on one resolved state; non-trivial = convective term above 1e-3',
          classify=lambda c, i: [c['dealias']]),
    Facet('decay', strategy_decay, check_decay, quick=120, thorough=6000, shards=2, tshards=4, nontrivial=lambda c, i: i['moved'] > 1e-6,
          rule='unforced runs, energy after every step; non-trivial = the energy dropped measurably',
          classify=lambda c, i: [c['solver'], c['integrator']])]
