"""Derived fields are those of the current solution; asking for them changes nothing."""
import numpy as np
from numpy.polynomial import chebyshev as C
from hypothesis import strategies as st

from .. import anysim as A, channel as H, gen, periodic as P, refchan, refper as R
from ..core import Discard, Facet, Violation

ASSUMPTIONS = ['pressure is that of the most recent evaluation of the right-hand side; for the rotational form it includes the kinetic energy',
               'the vorticity form reports velocity, curl and divergence only']
QUERIES = {'NS': ['velocity', 'curl', 'divergence', 'pressure'], 'VV': ['velocity', 'curl', 'divergence'],
           'NS2D': ['velocity', 'curl', 'divergence', 'pressure'], 'Bq2D': ['velocity', 'curl', 'divergence', 'pressure', 'rho', 'Ur'],
           'MHD': ['divergence', 'fields'],
           'KMM': ['velocity', 'divergence', 'curl', 'derivatives'], 'KMMRK3': ['velocity', 'divergence', 'curl', 'derivatives'],
           'KMMr': ['velocity', 'divergence', 'curl', 'derivatives'], 'KMM_RB': ['velocity', 'divergence', 'curl', 'derivatives'],
           'KMMRK3_RB': ['velocity', 'divergence', 'curl', 'derivatives'], 'Coupled': ['velocity', 'divergence'],
           'CoupledRK3': ['velocity', 'divergence']}
ALL = sorted({q for v in QUERIES.values() for q in v})


def ask(sim, q):
    c, s = sim.context, sim.solver
    if q == 'fields':
        c.UB_hat.backward(c.UB)
        return np.concatenate([np.array(c.U), np.array(c.B)])
    if q == 'derivatives':
        return np.array(s.compute_derivatives(**c))
    return np.array(getattr(s, 'get_' + q)(**c))


def expected(sim, g, q, last):
    """Coefficients of the answer, from the primary variable."""
    name = sim.name
    x = P.state(sim)
    u = P.velocity_of(name, g, x)
    if q == 'velocity':
        return u
    if q == 'curl':
        return x if name == 'VV' else g.curl(u)
    if q == 'divergence':
        return g.div(u)
    if q == 'rho':
        return x[2]
    if q in ('Ur', 'fields'):
        return x
    F = g.convection(last[:g.d], sim.params.convection)
    if name == 'Bq2D':
        F[1] -= sim.params.Ri * last[2]
    return g.pressure(F)


def compare(sim, g, q, got, ref, where):
    fh = R.fwd(got, g.d)
    if fh.shape != ref.shape:
        raise Violation('%s %s: the answer has shape %s' % (where, q, got.shape))
    valid = g.valid if q == 'pressure' else np.ones_like(g.valid)
    x = P.state(sim)
    k = np.sqrt(g.K2.max())
    scale = 1e-3 + np.abs(ref).max() + np.abs(x).max() * (1 + (k if q in ('curl', 'divergence') else 0)) + (
        np.abs(x).max() ** 2 if q == 'pressure' else 0)
    e = float(np.abs(np.where(valid, fh - ref, 0)).max() / scale)
    if not e < 1e-12:
        raise Violation('%s %s of %s is not that of the current solution: relative error %.3g' % (where, q, sim.name, e))
    return e


def cheb(sim, vals):
    """Chebyshev-Fourier coefficients of physical values in the order of KMM."""
    N = H.options(sim.name, sim.case)['N']
    n = N[2] if sim.name == 'KMMr' else N[0]
    x, _ = refchan.points(n, sim.case['quad'])
    V = C.chebvander(x, n - 1)
    f = R.fwd(vals, 2)
    return np.moveaxis(np.linalg.solve(V, np.moveaxis(f, -3, 0).reshape(n, -1)).reshape((n,) + np.moveaxis(f, -3, 0).shape[1:]), 0, -3)


def chan_expected(sim, ch, q):
    """Physical values (order of KMM) from the Galerkin coefficients."""
    c = sim.context
    u = coefficients(sim, ch)
    if q == 'velocity':
        return ch.phys(u)
    if q == 'divergence':
        return ch.phys(ch.div(u))
    if q == 'curl':
        return ch.phys(ch.vorticity(u))
    d = np.empty((3, 3) + tuple(ch.N))
    for i in range(3):
        d[i, 0] = ch.phys(ch.dx(u[i]))
        d[i, 1] = ch.phys(1j * ch.ky * u[i])
        d[i, 2] = ch.phys(1j * ch.kz * u[i])
    return d


def coefficients(sim, ch):
    U = np.array(sim.context.U_hat)
    n = ch.n
    if sim.name == 'KMMr':
        U = np.moveaxis(U, -1, 1)[[2, 0, 1]]
    # the transforms keep the data after the last coefficient of a Galerkin space; it is not part of the solution
    sb = ch.SB if sim.name not in H.COUPLED else ch.SD
    return np.array([sb.cheb(U[0][:sb.b.shape[1]]), ch.SD.cheb(U[1][:n - 2]), ch.SD.cheb(U[2][:n - 2])])


def reorder(sim, q, v):
    """An answer in the order of KMM."""
    if sim.name != 'KMMr':
        return v
    o = [2, 0, 1]
    v = np.moveaxis(v, -1, -3)
    if q in ('velocity', 'curl'):
        return v[o]
    if q == 'derivatives':
        return v[o][:, o]
    return v


def strategy(tier):
    return A.stretch(A.cases(tier, channel=A.CHANNEL if tier == 'thorough' else A.CHEAP_CHANNEL, steps=(1, 4), channel_weight=1, extra={
        'ask': st.lists(st.lists(st.sampled_from(ALL), max_size=5), min_size=1, max_size=4)}, cextra={
            'mask': st.just(True)}, pextra={'mask': st.just(True)}), 4, 25)


def check(case):
    chan = A.is_channel(case['solver'])
    dt, n = A.step_of(case), case['steps']
    known = QUERIES[case['solver']]
    plan = [[known[ALL.index(q) % len(known)] for q in qs] for qs in case['ask']]
    if chan:
        ch = refchan.Chan(case['N'], case['L'], case['quad'], 'None')
    else:
        g = R.Grid(case['N'], case['L'], case['dealias'])
    err, count = {}, [0]
    last = {}

    def one(sim, q, where):
        before = A.state(sim)
        got = ask(sim, q)
        if any(not np.array_equal(before[k], v) for k, v in A.state(sim).items()):
            raise Violation('%s: asking for %s changes the solution' % (where, q))
        if chan:
            ref = chan_expected(sim, ch, q)
            got = reorder(sim, q, got)
            u = np.abs(A.state(sim)[list(before)[0]]).max()
            s = 1e-3 + np.abs(ref).max() + u * (1 if q == 'velocity' else ch.n ** 2)
            if got.shape != ref.shape:
                raise Violation('%s %s: the answer has shape %s' % (where, q, got.shape))
            e = float(np.abs(got - ref).max() / s)
            if not e < 1e-10:
                raise Violation('%s %s of %s is not that of the current solution: relative error %.3g' % (where, q, sim.name, e))
        else:
            e = compare(sim, g, q, got, expected(sim, g, q, last.get('u')), where)
        err[q] = max(err.get(q, 0), e)
        count[0] += 1

    def update(context):
        for q in plan[(sim.params.tstep - 1) % len(plan)]:
            one(sim, q, 'in update of step %d:' % sim.params.tstep)

    quiet = A.build(case, dt=dt, T=n * dt)
    s0 = A.state(quiet)
    quiet.solve()
    a = A.state(quiet)
    if not A.finite(a):
        raise Discard('blew up')
    sim = A.build(case, dt=dt, T=n * dt, update=update)
    sim.case = case
    if not chan and 'pressure' in known:
        rhs = sim.solver.ComputeRHS

        def watched(*args, **kw):
            last['u'] = np.array(args[1])
            return rhs(*args, **kw)
        sim.solver.ComputeRHS = watched
    for q in known:
        if q != 'pressure':
            one(sim, q, 'before the run:')
    sim.solve()
    b = A.state(sim)
    for k in a:
        if not np.array_equal(a[k], b[k]):
            raise Violation('asking for %s along the run changes its result (%s by %.3g)' % (plan, k, np.abs(a[k] - b[k]).max()))
    for q in known:
        if q == 'pressure':
            c = sim.context
            sim.solver.ComputeRHS(c.dU, c.u, sim.solver, **c)
        one(sim, q, 'after the run:')
    return {'err': err, 'asked': count[0], 'moved': A.moved(s0, b)}


# ------------------------------------------------------------------ set_velocity
def set_strategy(tier):
    return A.cases(tier, periodic=['NS', 'NS2D', 'Bq2D', 'VV'], steps=(0, 2), extra={'other': st.integers(0, 2 ** 30)},
                   channel=A.CHANNEL if tier == 'thorough' else A.CHEAP_CHANNEL, cextra={'mask': st.just(True)}, pextra={'mask': st.just(True)})


def set_check(case):
    """A resolved velocity, divergence free or not, that the user sets comes back unchanged."""
    s = case['solver']
    sim = A.build(case)
    if case['steps']:
        sim.solve()
    c = sim.context
    if A.is_channel(s):
        ch = refchan.Chan(case['N'], case['L'], case['quad'], 'None')
        spec = dict(case['u'], seed=case['other'] % 10 ** 6)
        dof = [ch.n - 2] * 3 if s in H.COUPLED else [ch.n - 4, ch.n - 2, ch.n - 2]
        cf = [(ch.SB if d == ch.n - 4 else ch.SD).cheb(ch.random_spectrum(spec, d, i)) for i, d in enumerate(dof)]
        u = ch.phys(np.array(cf))
        u *= spec['amp'] / max(np.abs(u).max(), 1e-9)
        H.put(sim, u)
        c.U[:] = 7.0
        got = H.get(sim)
    else:
        g = R.Grid(case['N'], case['L'], 'None')
        sol = s == 'VV'
        uh = R.field(case['N'], case['L'], {'seed': case['other'], 'kmax': 9, 'slope': 0, 'amp': 1.0,
                                            'mean': [0.0] * g.d if sol else [0.3, -0.4, 0.5][:g.d]}, g.d, solenoidal=sol)
        u = R.bwd(uh, g.N)
        rho = np.array(c.Ur_hat[2]) if s == 'Bq2D' else None
        c.U[:] = u
        sim.solver.set_velocity(**c)
        if sol:
            c.W_hat[:] = sim.solver.cross2(c.W_hat, c.K, c.U_hat)
        c.U[:] = 7.0
        got = np.array(sim.solver.get_velocity(**c))
        if rho is not None and not np.array_equal(rho, np.array(c.Ur_hat[2])):
            raise Violation('setting the velocity changes the density')
    e = float(np.abs(got - u).max() / (1e-3 + np.abs(u).max()))
    if not e < 1e-10:
        raise Violation('%s: a velocity that was set comes back with relative error %.3g' % (s, e))
    return {'err': {'round trip': e}, 'size': float(np.abs(u).max())}


# -------------------------------------------------------------- channel pressure
def pressure_strategy(tier):
    return H.cases(tier, solvers=('KMM', 'KMMr'), forms=('Vortex', 'Standard'), dealias=('None',), n0=(32,), n1=(8,), amp=(0.3, 0.5),
                   nus=(0.1, 0.3), dts=(2e-3, 3e-3), extra={'steps': st.just(100)})


def pressure_check(case):
    """The gradient of the pressure balances the momentum equation, in a flow that has left its initial transient."""
    case = dict(case, u=dict(case['u'], kmax=1, decay=1.0, modes=4))
    ch = refchan.Chan(case['N'], case['L'], case['quad'], 'None')
    u = ch.phys(ch.state(case['u']))
    out = {}

    def update(context):
        if sim.params.tstep == case['steps']:
            out['new'] = H.get(sim)
            out['p'] = reorder(sim, 'pressure', np.array(sim.solver.get_pressure(context, sim.solver)))
            out['state'] = A.state(sim)
        elif sim.params.tstep == case['steps'] - 1:
            out['old'] = H.get(sim)
    sim = H.make(case['solver'], case, u, T=case['dt'] * case['steps'], update=update)
    sim.case = case
    sim.solve()
    new, old = cheb(sim, out['new']), cheb(sim, out['old'])
    mid = 0.5 * (new + old)
    Hc = ch.convection(mid, 'Standard')
    lap = np.array([ch.dx(ch.dx(f)) - ch.K2 * f for f in mid])
    want = Hc + case['nu'] * lap - (new - old) / case['dt']
    p = cheb(sim, out['p'])
    got = np.array([ch.dx(p), 1j * ch.ky * p, 1j * ch.kz * p])
    want[:, :, 0, 0] = got[:, :, 0, 0] = 0
    w, r = ch.phys(want), ch.phys(got)
    inner = slice(4, -4)
    scale = np.abs(w[:, inner]).max() + 1e-3
    e = float(np.abs((w - r)[:, inner]).max() / scale)
    if not e < 0.2:
        raise Violation('%s.get_pressure does not balance the momentum equation: relative error %.3g' % (case['solver'], e))
    return {'err': {'momentum': e}}


FACETS = [
    Facet('queries', strategy, check, quick=140, thorough=7000, shards=6, tshards=6,
          nontrivial=lambda c, i: i['asked'] > 4 and i['moved'] > 1e-6,
          rule='random queries inside the update callback of every step, each compared with the reference field; non-trivial = the state moved',
          classify=lambda c, i: [c['solver']]),
    Facet('set', set_strategy, set_check, quick=60, thorough=4000, shards=2, tshards=2,
          nontrivial=lambda c, i: i['size'] > 1e-2, rule='random resolved velocity set and read back', classify=lambda c, i: [c['solver']]),
    Facet('pressure', pressure_strategy, pressure_check, quick=4, thorough=60, shards=2, tshards=2,
          fixed=[{'solver': x, 'N': [32, 8, 8], 'L': [2.0, 6.283185307179586, 6.283185307179586], 'nu': 0.1, 'dt': 0.002, 'convection': 'Vortex',
                  'quad': 'GC', 'dealias': 'None', 'steps': 100, 'u': {'seed': 0, 'kmax': 1, 'decay': 0.0, 'amp': 0.3, 'mean': 0.0, 'modes': 0,
                                                                       'without': []}} for x in ('KMM', 'KMMr')],
          rule='the pressure of the Crank-Nicolson channel solvers after 100 steps against the momentum equation',
          classify=lambda c, i: [c['solver']])]


def KNOWN(facet, case, msg):
    """The two entries of known_findings.txt that concern this property."""
    if facet != 'pressure':
        return None
    if case['solver'] == 'KMM' and msg.startswith('KMM.get_pressure does not balance the momentum equation'):
        return 'KMM.get_pressure does not return the pressure of the momentum equation'
    if case['solver'] == 'KMMr' and 'has no attribute' in msg and 'get_pressure' in msg:
        return 'KMMr.get_pressure raises AttributeError'
    return None
