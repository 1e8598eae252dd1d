"""The demonstration programs: the flow they set up, the numbers they report, their statistics and restarts."""
import os

import numpy as np
from hypothesis import strategies as st

from .. import channel as H, demos as D, files as F, gen, periodic as P, refchan, refint as I, refper as R
from ..core import Discard, Facet, Violation
from . import C29
from .C20 import FORCE, TEMP, limit

SLOW = 3
ASSUMPTIONS = ['the plotting library is replaced by a stand-in that draws nothing', 'one process, except in the facet parallel (two to four)',
               'regression tests of the demonstrations that compare with fixed numbers are kept quiet with --ntol where the parameters differ']
PI = np.pi


def near(what, got, want, tol, err):
    e = abs(got - want)
    err[what] = max(err.get(what, 0.0), float(e / (tol or 1)))
    if not e <= tol:
        raise Violation('%s: the program reports %.12g, it is %.12g' % (what, got, want))


def finish():
    F.clean()


# ------------------------------------------------------------- periodic programs
def periodic_strategy(tier):
    def one(name):
        d = 3 if name == 'TG.py' else 2
        f = {'demo': st.just(name), 'steps': st.integers(2, 8), 'every': st.integers(1, 3), 'nu': gen.logu(1e-4, 0.2),
             'integrator': st.sampled_from(['RK4', 'AB2', 'ForwardEuler', 'BS5_fixed'])}
        if name == 'TG.py':
            f.update(solver=st.sampled_from(['NS', 'VV']), N=gen.meshes(3, (8, 10, 12)), dealias=st.sampled_from(gen.DEALIAS), dt=gen.rnd(0.005, 0.05, 3),
                     L=st.lists(st.sampled_from([1, 1, 2]), min_size=3, max_size=3), convection=st.sampled_from(P.FORMS['NS']))
        else:
            f.update(M=st.lists(st.integers(3, 5), min_size=2, max_size=2), dealias=st.sampled_from(gen.DEALIAS))
        if name == 'TG2D.py':
            f.update(dt=gen.rnd(0.005, 0.1, 3))
        if name == 'KelvinHelmholtz.py':
            f.update(dt=gen.rnd(0.001, 0.01, 4))
        if name == 'KelvinHelmoltzBoussinesq.py':
            f.update(dt=gen.rnd(0.0005, 0.003, 4), Ri=gen.rnd(0.0, 2.0, 2), Pr=gen.rnd(0.3, 12.0, 1))
        if name == 'Vortices2D.py':
            f.update(dt=gen.rnd(0.002, 0.02, 3))
        return st.fixed_dictionaries(f)
    return st.sampled_from(gen.share(['TG.py', 'TG2D.py', 'KelvinHelmholtz.py', 'KelvinHelmoltzBoussinesq.py', 'Vortices2D.py'])).flatmap(one)


def mesh(N, L=None):
    L = [2 * PI] * len(N) if L is None else L
    return np.meshgrid(*[np.arange(n) * (l / n) for n, l in zip(N, L)], indexing='ij')


def start(case, N, L):
    """The initial flow the program's text describes, as coefficients of the primary variable."""
    g = R.Grid(N, L, case['dealias'])
    X = mesh(N, L)
    name = case['demo']
    if name == 'TG.py':
        u = np.array([np.sin(X[0]) * np.cos(X[1]) * np.cos(X[2]), -np.cos(X[0]) * np.sin(X[1]) * np.cos(X[2]), 0 * X[0]])
    elif name == 'TG2D.py':
        u = np.array([np.sin(X[0]) * np.cos(X[1]), -np.sin(X[1]) * np.cos(X[0])])
    elif name == 'Vortices2D.py':
        w = np.exp(-((X[0] - PI) ** 2 + (X[1] - PI + PI / 4) ** 2) / 0.2) + np.exp(-((X[0] - PI) ** 2 + (X[1] - PI - PI / 4) ** 2) / 0.2) \
            - 0.5 * np.exp(-((X[0] - PI - PI / 4) ** 2 + (X[1] - PI - PI / 4) ** 2) / 0.4)
        wh = R.fwd(w, 2)
        k = g.K
        K2 = np.where(g.K2 == 0, 1, g.K2)
        return g, R.fwd(R.bwd(np.array([1j * k[1] / K2 * wh, -1j * k[0] / K2 * wh]), N), 2)
    elif name == 'KelvinHelmholtz.py':
        U1, U2, A, delta = -0.5, 0.5, 0.01, 0.1
        Um = 0.5 * (U1 - U2)
        y = X[1]
        j = np.arange(N[1])[None, :] + 0 * X[0]
        q = N[1] // 4
        u = np.where(j < q, U1 - Um * np.exp((y - 0.5 * PI) / delta),
                     np.where(j < N[1] // 2, U2 + Um * np.exp(-(y - 0.5 * PI) / delta),
                              np.where(j < 3 * N[1] // 4, U2 + Um * np.exp((y - 1.5 * PI) / delta), U1 - Um * np.exp(-(y - 1.5 * PI) / delta))))
        uh = R.fwd(np.array([u, A * np.sin(2 * X[0])]), 2)
        k = np.array([0 * g.K2 + x for x in g.K])
        uh = uh - (uh * k).sum(0) * k / np.where(g.K2 == 0, 1, g.K2)
        uh[:, 0, 0] = 0
        return g, np.where(g.nyq, 0, uh)
    else:
        A, delta = 0.01, 0.05
        y, h = X[1], N[1] // 2
        j = np.arange(N[1])[None, :] + 0 * X[0]
        a, b = np.tanh((y - 0.5 * PI) / delta), -np.tanh((y - 1.5 * PI) / delta)
        s = np.where(j < h, a, b)
        u = np.array([s, A * np.sin(2 * X[0]), 2.0 + s - 2.0])
    return g, R.fwd(u, g.d)


SOLVER = {'TG2D.py': 'NS2D', 'KelvinHelmholtz.py': 'NS2D', 'KelvinHelmoltzBoussinesq.py': 'Bq2D', 'Vortices2D.py': 'NS2D'}


def periodic_check(case):
    name, n, dt = case['demo'], case['steps'], case['dt']
    solver = case.get('solver') or SOLVER[name]
    if name == 'TG.py':
        N = [max(m, 12) if l == 2 else m for m, l in zip(case['N'], case['L'])]
        L = [2 * PI * l for l in case['L']]
        size = ['--N'] + N
    else:
        N, L = [2 ** m for m in case['M']], [2 * PI] * 2
        size = ['--M'] + case['M']
    T = dt * n
    args = D.plan() + size + ['--L'] + [repr(x) for x in L] + ['--nu', repr(case['nu']), '--dt', repr(dt), '--T', repr(T), '--dealias', case['dealias'],
                                                               '--integrator', case['integrator'], '--ntol', '0']
    if name == 'TG.py':
        args += ['--compute_energy', case['every'], '--convection', case['convection'] if solver == 'NS' else 'Vortex']
    else:
        args += ['--plot_result', case['every'] if name != 'TG.py' else 0]
        if name.startswith('Kelvin'):
            args += ['--compute_energy', case['every']]
    args += [solver]
    if solver == 'Bq2D':
        args += ['--Ri', repr(case['Ri']), '--Pr', repr(case['Pr'])]
    g, q = start(case, N, L)
    q0 = g.curl(q) if solver == 'VV' else q
    # the same flow from the framework itself, which the other properties are about
    c = dict(case, N=N, L=L)
    if solver == 'VV':
        c.pop('convection', None)
    want = []
    sim = P.make(solver, c, q0, dt=dt, T=T, update=lambda context: want.append((float(sim.params.t), P.state(sim))))
    sim.solve()
    if not want or not all(np.isfinite(w[1]).all() for w in want):
        raise Discard()
    u = lambda s: R.bwd(P.velocity_of(solver, g, s), g.N)
    kin = lambda s: float((u(s) ** 2).sum(0).mean() / 2)
    err = {}
    big = 1e-3 + max(np.abs(w[1]).max() for w in want)

    def watch(run, solver, c, when):
        # the program compares its default run with a table; give it one that fits
        if when == 'after' and name == 'Vortices2D.py':
            np.savetxt('vortices.txt', np.array(c.U_hat.backward(c.U))[0])
    run = D.Run(name, args, watch=watch, plot=name != 'TG.py')
    state = np.array(getattr(run.context, P.STATE[solver]))
    e = float(np.abs(np.where(g.valid, state - want[-1][1], 0)).max() / big)
    err['final state'] = e / 1e-10
    if not e < 1e-10:
        raise Violation('%s: the final state differs from the flow it describes by %.3g' % (name, e))
    shown = [w for k, w in enumerate(want, 1) if k % case['every'] == 0]
    tol = lambda v, digits: abs(v) * 1e-10 + 0.6 * 10.0 ** -digits
    if name == 'TG.py':
        rows = run.numbers(count=4)
        if len(rows) != len(shown):
            raise Violation('%d lines printed, expected %d' % (len(rows), len(shown)))
        for (t, kk, diff, div), (t0, s) in zip(rows, shown):
            near('time', t, t0, 0.0051, err)
            near('kinetic energy', kk, kin(s), tol(kin(s), 8), err)
            near('energy of the coefficients', diff, 0.0, 1e-13 + 1e-12 * kin(s), err)
            near('divergence', div, 0.0, 1e-20 + 1e-20 * kin(s), err)
        for key, f in (('k', kin), ('w', lambda s: float((R.bwd(g.curl(P.velocity_of(solver, g, s)), g.N) ** 2).sum(0).mean() / 2))):
            for a, (t0, s) in zip(run[key], shown):
                near('history of ' + key, float(a), f(s), 1e-11 * (1 + f(s)), err)
    elif name == 'KelvinHelmholtz.py':
        rows = run.numbers(count=3)
        if len(rows) != len(shown):
            raise Violation('%d lines printed, expected %d' % (len(rows), len(shown)))
        for k, ((step, kk, du), (t0, s)) in enumerate(zip(rows, shown), 1):
            near('step', step, k * case['every'], 0, err)
            near('kinetic energy', kk, kin(s), 1e-11 * (1 + kin(s)), err)
            near('divergence', du, 0.0, 1e-20, err)
    elif name == 'KelvinHelmoltzBoussinesq.py':
        rows = run.numbers(count=3)
        if len(rows) != len(shown):
            raise Violation('%d lines printed, expected %d' % (len(rows), len(shown)))
        for k, ((step, t, kk), (t0, s)) in enumerate(zip(rows, shown), 1):
            near('step', step, k * case['every'], 0, err)
            near('time', t, t0, 1e-12, err)
            near('kinetic energy', kk, kin(s), 1e-10 * (1 + kin(s)), err)
    elif name == 'TG2D.py':
        row = [line for line in run.lines if line.startswith('Error')]
        if len(row) != 1:
            raise Violation('the error is reported %d times' % len(row))
        exact = 0.25 * np.exp(-4 * case['nu'] * want[-1][0])
        near('error', float(row[0].split()[1]), kin(want[-1][1]) - exact, 1e-12, err)
    finish()
    return {'err': err, 'moved': float(np.abs(want[-1][1] - q0).max())}


# ------------------------------------------------------------------ laminar channel
def laminar_strategy(tier):
    return st.fixed_dictionaries({'solver': st.sampled_from(gen.share(['KMM', 'KMMRK3', 'KMM', 'Coupled'])), 'M': st.integers(4, 6), 'steps': st.integers(10, 40),
                                  'nu': gen.logu(5e-4, 1e-2), 'dt': gen.rnd(0.1, 0.5, 2), 'quad': st.sampled_from(['GC', 'GL']),
                                  'every': st.integers(1, 10)})


def laminar_check(case):
    """The reported error is that of the time scheme: small, and shrinking with time."""
    n, dt, nu = case['steps'] if case['solver'] != 'Coupled' else 10, case['dt'], case['nu']
    args = D.plan() + ['--M', case['M'], 2, 2, '--nu', repr(nu), '--dt', repr(dt), '--T', repr(dt * n), '--Dquad', case['quad'], '--Bquad', case['quad'],
                       '--compute_energy', case['every'], '--plot_step', 3, case['solver']]
    seen = []

    def watch(run, solver, c, when):
        if when == 'after' and solver.params.tstep % case['every'] == 0:
            seen.append((solver.params.t, np.array(solver.get_velocity(**c))[1, :, 0, 0], np.asarray(c.X[0])[:, 0, 0].copy()))
    run = D.Run('LaminarChannel.py', args, watch=watch)
    rows = run.numbers('Time')
    if len(rows) != n // case['every'] or len(seen) != len(rows):
        raise Violation('%d errors reported in %d steps' % (len(rows), n))
    err, moved = {}, 0.0
    k = np.arange(1, 4001)
    lam = (2 * k - 1) * PI / 2
    for (t, e), (t0, u, x) in zip(rows, seen):
        # u_t = 2/Re + nu u_xx from rest; Re = 800 whatever nu
        exact = (2 / 800.0) * ((1 - x ** 2) / (2 * nu) - 2 / nu * ((-1.0) ** (k + 1) * np.exp(-nu * lam ** 2 * t0) / lam ** 3 * np.cos(np.outer(x, lam))).sum(1))
        mine = float(np.sqrt(np.mean((exact - u) ** 2)))
        near('time', t, t0, 0.51e-5, err)
        near('error', e, mine, 1e-6 * np.abs(exact).max() + 1e-3 * mine + 1e-12, err)
        moved = float(np.abs(u).max())
        if t0 > 5 * dt and nu * t0 > 0.004:
            err['flow'] = max(err.get('flow', 0.0), mine / (0.02 * np.abs(exact).max()))
            if not mine < 0.02 * np.abs(exact).max():
                raise Violation('at time %g the flow is off by %.3g of %.3g' % (t0, mine, np.abs(exact).max()))
    finish()
    return {'err': err, 'moved': moved}


# -------------------------------------------------------------------- Orr-Sommerfeld
def orr_strategy(tier):
    return st.fixed_dictionaries({'solver': st.sampled_from(gen.share(['KMM', 'KMMRK3', 'KMMr', 'KMM', 'CoupledRK3'] if tier == 'quick' else ['KMM', 'KMMRK3', 'KMMr', 'Coupled', 'CoupledRK3'])),
                                  'convection': st.sampled_from(['Vortex', 'Divergence', 'Standard', 'Skew']),
                                  'M': st.integers(6, 7), 'steps': st.integers(3, 10), 'dt': gen.rnd(0.0005, 0.003, 4), 'eps': st.sampled_from([1e-5, 1e-6, 1e-7]),
                                  'mode': st.sampled_from(['plain', 'plain', 'refinement'])})


def orr_check(case):
    s, n, dt = case['solver'], case['steps'], case['dt']
    M = [3, 2, case['M']] if s == 'KMMr' else [6 if 'Coupled' in s else case['M'], 3, 2]
    n = min(n, 4) if 'Coupled' in s else n
    args = D.plan() + ['--M'] + M + ['--dt', repr(dt), '--T', repr(dt * n), '--eps', repr(case['eps']), '--plot_step', 2, '--convection', case['convection']]
    if case['mode'] == 'refinement':
        args += ['--refinement_test', 'True']
    run = D.Run('OrrSommerfeldr.py' if s == 'KMMr' else 'OrrSommerfeld.py', args + [s])
    err = {}
    rate = 2 * 0.0026643           # twice the growth rate of the most unstable mode at Re = 8000, wavenumber 1
    if case['mode'] == 'refinement':
        row = [line for line in run.lines if 'Computed error' in line]
        if len(row) != 1:
            raise Violation('the error is reported %d times' % len(row))
        v = [float(x) for x in row[0].split('=')[1].split()]
        near('step size', v[1], dt, 1e-8, err)
        near('error', v[0], 0.0, 1e-4, err)
        finish()
        return {'err': err, 'moved': 1.0}
    rows = run.numbers('Time', 6)
    want = n if 'RK3' in s else n - 1
    if len(rows) != want:
        raise Violation('%d lines printed in %d steps' % (len(rows), want))
    for t, e, exact, diff, e2, div in rows:
        near('exact growth', exact, np.exp(rate * t), 1e-6, err)
        near('growth', e, exact, 2e-6, err)
        near('difference', diff, e - exact, 1e-14, err)
        near('disturbance', e2, 0.0, 1e-4 * case['eps'], err)
        near('divergence', div, 0.0, 1e-9, err)
    finish()
    return {'err': err, 'moved': 1.0}


# ------------------------------------------------------------------ isotropic turbulence
def iso_strategy(tier):
    return st.fixed_dictionaries({'solver': st.sampled_from(['NS', 'NS', 'VV']), 'N': st.sampled_from([[12] * 3, [16] * 3, [12, 16, 14], [14, 12, 18]]),
                                  'Kf2': st.integers(1, 4), 'kd': gen.rnd(8.0, 50.0, 1), 'Re_lam': gen.rnd(20.0, 90.0, 1), 'dt': gen.rnd(0.0005, 0.004, 4),
                                  'steps': st.integers(1, 5), 'every': st.integers(1, 2), 'seed': st.integers(0, 10 ** 6),
                                  'integrator': st.sampled_from(['RK4', 'AB2', 'BS5_fixed']), 'convection': st.sampled_from(P.FORMS['NS'])})


def iso_check(case):
    N, s, n, dt = case['N'], case['solver'], case['steps'], case['dt']
    g = R.Grid(N, [2 * PI] * 3, '3/2-rule')
    nu = case['kd'] ** (-4.0 / 3)
    target = 2 * case['Re_lam'] * (nu * case['kd']) ** 2 / np.sqrt(20.0 / 3)
    low = g.K2 <= case['Kf2'] ** 2
    err, rows = {}, []
    state = {}

    def velocity(c):
        q = np.array(getattr(c, P.STATE[s]))
        return np.array(P.velocity_of(s, g, np.where(g.nyq, 0, q)))

    def first(run, solver, c):
        u = velocity(c)
        E = 2 * R.energy(g, u)
        near('initial energy', E, target, 1e-9 * target, err)
        div = float(np.abs(g.div(u)).max() / np.abs(u).max())
        near('initial divergence', div, 0.0, 1e-12, err)
        if np.abs(u[:, 0, 0, 0]).max() != 0:
            raise Violation('the initial flow has a mean')

    def watch(run, solver, c, when):
        u = velocity(c)
        if not np.isfinite(u).all():
            raise Discard()
        if when == 'before':
            state['u'] = u
            state['E'] = 2 * R.energy(g, u)
            return
        E = 2 * R.energy(g, u)
        near('energy after forcing', E, target, 1e-6, err)
        old = state['u']
        a = np.sqrt(R.inner(np.where(low, u, 0), u) / R.inner(np.where(low, old, 0), old))
        e = float(np.abs(u - np.where(low, a, 1.0) * old).max() / np.abs(old).max())
        near('forced modes', e, 0.0, 1e-11, err)
        if solver.params.tstep % case['every'] == 0:
            rows.append((solver.params.t, E, nu * 2 * R.energy(g, g.curl(u)), (E - state['E']) / 2 / dt))
    args = D.plan() + ['--N'] + N + ['--Kf2', case['Kf2'], '--kd', repr(case['kd']), '--Re_lam', repr(case['Re_lam']), '--dt', repr(dt), '--T', repr(dt * n),
                                     '--integrator', case['integrator'], '--convection', case['convection'] if s == 'NS' else 'Vortex',
                                     '--compute_energy', case['every'], '--compute_spectrum', 2, s]
    run = D.Run('Isotropic.py', args, watch=watch, before=first, plot=False, seed=case['seed'])
    out = run.numbers(count=9)
    if len(out) != len(rows):
        raise Violation('%d lines printed, expected %d' % (len(out), len(rows)))
    for o, (t, E, eps, rate) in zip(out, rows):
        near('time', o[0], t, 0.51e-4, err)
        rel = lambda v: 1e-6 * abs(v) + 1e-9
        near('energy', o[1], E, rel(E), err)
        near('energy of the field', o[2], E, rel(E), err)
        near('dissipation', o[3], eps, rel(eps), err)
        near('dissipation of the gradients', o[4], eps, rel(eps), err)
        if s == 'NS':
            near('work', o[5], -eps, rel(eps) + 1e-9 * E, err)
        near('Reynolds number', o[8], case['Re_lam'], 1e-6 * case['Re_lam'], err)
        near('energy input', o[6], rate, 1e-5 * abs(rate) + 1e-9 * E / dt, err)
    finish()
    return {'err': err, 'moved': float(len(rows))}


# ------------------------------------------------------------------------ statistics
def stats_strategy(tier):
    op = st.one_of(st.integers(0, 10 ** 6), st.integers(0, 10 ** 6), st.sampled_from(['reset', 'reload', 'read']))
    return st.fixed_dictionaries({'demo': st.sampled_from(['MKM.py', 'RayleighBenard.py']), 'M': st.tuples(st.integers(1, 4), st.integers(1, 3), st.integers(1, 3)).map(list),
                                  'ops': st.lists(op, min_size=1, max_size=12), 'pressure': st.booleans()})


def stats_check(case):
    """The averages are those over all samples since the last reset, across files as well."""
    run = D.Run(case['demo'], [], main=False)
    from mpi4py import MPI
    from spectralDNS import config
    run.config.update({'M': case['M']}, 'channel')
    rb = case['demo'] != 'MKM.py'
    config.params.M = case['M']
    N = [2 ** m for m in case['M']]
    Stats = run['Stats']
    like = np.zeros([3] + N)
    S = Stats(like, MPI.COMM_WORLD, filename='st')
    got, err, loaded = [], {}, 0
    g = run.globals
    g.setdefault('comm', MPI.COMM_WORLD)

    def model():
        u, p = np.array([x[0] for x in got]), np.array([x[1] for x in got])
        m = lambda a: a.mean((0, 2, 3))
        return (np.array([m(u[:, i]) for i in range(3)]), m(p),
                np.array([m(u[:, i] * u[:, j]) for i, j in ((0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2))]), m(p * p))

    def same(what, a, b):
        e = float(np.abs(np.asarray(a) - b).max())
        err[what] = max(err.get(what, 0.0), e)
        if not e < 1e-12:
            raise Violation('%s after %d samples is off by %.3g' % (what, len(got), e))
    for op in case['ops']:
        if op == 'reset':
            S.reset_stats()
            got = []
            continue
        if op == 'reload':
            if not got:
                continue
            S = Stats(like, MPI.COMM_WORLD, fromstats='st')
            loaded += 1
            continue
        if op == 'read':
            if not got:
                continue
            r = S.get_stats(tofile=False)
        else:
            rnd = np.random.RandomState(op)
            u, p = rnd.randn(*like.shape), rnd.randn(*N)
            if not rb and not case['pressure']:
                p = 0 * p
            if rb:
                S(u, p)
            elif case['pressure']:
                S(u, p)
            else:
                S(u)
            got.append((u, p))
            r = S.get_stats()
        want = model()
        for what, a, b in zip(('mean velocity', 'mean scalar', 'stresses', 'scalar variance'), r, want):
            same(what, a, b)
        data, attrs = F.tree('st.h5')
        if op != 'read' or not loaded:
            for i, k in enumerate('UVW'):
                same('file ' + k, data['Average/' + k], want[0][i])
            same('file scalar', data['Average/phi' if rb else 'Average/P'], want[1])
            for i, k in enumerate(('UU', 'VV', 'WW', 'UV', 'UW', 'VW')):
                same('file ' + k, data['Reynolds Stress/' + k], want[2][i])
            if rb:
                same('file pp', data['Reynolds Stress/pp'], want[3])
            if int(attrs['num_samples']) != len(got):
                raise Violation('the file counts %d samples, there are %d' % (attrs['num_samples'], len(got)))
    finish()
    return {'err': err, 'samples': len(got)}


# ------------------------------------------------------- turbulent channel and convection
def channel_strategy(tier):
    return st.fixed_dictionaries({'solver': st.sampled_from(gen.share(['KMM', 'KMMRK3', 'KMM_RB', 'KMMRK3_RB'])), 'M': st.tuples(st.just(4), st.integers(2, 4), st.integers(2, 4)).map(list),
                                  'steps': st.integers(2, 8), 'every': st.integers(1, 3), 'sample': st.integers(1, 3), 'dt': gen.rnd(0.0001, 0.001, 4), 'seed': st.integers(0, 10 ** 6),
                                  'quad': st.sampled_from(['GC', 'GL']), 'convection': st.sampled_from(['Vortex', 'Standard', 'Divergence', 'Skew']),
                                  'dealias': st.sampled_from(['2/3-rule', '3/2-rule', 'None'])})


def channel_check(case):
    s, n = case['solver'], case['steps']
    rb = 'RB' in s
    dt = case['dt'] * (10 if rb else 1)
    M = list(case['M'])
    if case['dealias'] == '2/3-rule':
        M = [M[0], max(3, M[1]), max(3, M[2])]
    N = [2 ** m for m in M]
    L = [2, 2 * PI, 2 * PI if rb else PI]
    ch = refchan.Chan(N, L, case['quad'], case['dealias'])
    V = np.linalg.inv(ch.V)
    integral = lambda f: ch.integral(np.tensordot(V, f.mean((1, 2)), 1).reshape(-1, 1, 1).astype(complex))
    rows, samples, err = [], [], {}

    def watch(run, solver, c, when):
        if when == 'before':
            return
        u = np.array(solver.get_velocity(**c))
        p = np.array(c.phi_hat.backward(c.phi)) if rb else 0 * u[0]
        if not np.isfinite(u).all() or np.abs(u).max() > 1e4:
            raise Discard()
        k = solver.params.tstep
        if not rb:
            near('flux', integral(u[1]), 618.97, 1e-8 * 618.97, err)
        if k % case['every'] == 0:
            rows.append([solver.params.t] + [integral(u[i] ** 2) for i in range(3)] + [integral(p ** 2) if rb else integral(u[1])])
        if k % case['sample'] == 0:
            samples.append((u, p))
    args = D.plan() + ['--M'] + M + ['--dt', repr(dt), '--T', repr(dt * n), '--Dquad', case['quad'], '--Bquad', case['quad'], '--compute_energy', case['every'],
                                     '--sample_stats', case['sample'], '--plot_result', 3, '--convection', case['convection'], '--dealias', case['dealias']]
    run = D.Run('RayleighBenard.py' if rb else 'MKM.py', args + [s], watch=watch, seed=case['seed'])
    out = run.numbers('Time')
    if len(out) != len(rows):
        raise Violation('%d lines printed, expected %d' % (len(out), len(rows)))
    for o, r in zip(out, rows):
        near('time', o[0], r[0], 0.51e-5, err)
        for i, k in enumerate(('wall-normal energy', 'streamwise energy', 'spanwise energy', 'heat' if rb else 'flux')):
            near(k, o[1 + i], r[1 + i], 1e-6 * abs(r[1 + i]) + 1e-13 * (1 + sum(r[1:4])), err)
        near('divergence', o[5] if rb else o[6], 0.0, 1e-16 * (1 + sum(r[1:4])), err)
    if samples:
        data, attrs = F.tree('KMM_RB_stats.h5' if rb else 'KMMstats.h5')
        if int(attrs['num_samples']) != len(samples):
            raise Violation('the statistics count %d samples, %d were taken' % (attrs['num_samples'], len(samples)))
        u = np.array([x[0] for x in samples])
        big = np.abs(u).max()
        for i, k in enumerate('UVW'):
            near('mean ' + k, float(np.abs(data['Average/' + k] - u[:, i].mean((0, 2, 3))).max()), 0.0, 1e-11 * big, err)
        for k, (i, j) in zip(('UU', 'VV', 'WW', 'UV', 'UW', 'VW'), ((0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2))):
            near('stress ' + k, float(np.abs(data['Reynolds Stress/' + k] - (u[:, i] * u[:, j]).mean((0, 2, 3))).max()), 0.0, 1e-11 * big ** 2, err)
    finish()
    return {'err': err, 'moved': float(len(samples) + len(rows))}


# --------------------------------------------------------------------------- restarts
def restart_strategy(tier):
    def one(solver):
        if solver in ('NS', 'VV'):
            return P.cases(tier, sizes3=(6, 8), solvers=[solver], share=False, amp=(0.1, 1.0), mean=False, extra={
                'first': st.integers(1, 4), 'then': st.integers(1, 3), 'integrator': st.sampled_from(['RK4', 'ForwardEuler'])})
        return H.cases(tier, solvers=[solver], n0=(16,), n1=(4, 6), share=False, amp=(0.05, 1.0), dts=(1e-4, 5e-3), dealias=('2/3-rule',), extra={
            'first': st.integers(2, 4), 'then': st.integers(1, 3), 'kappa': gen.logu(1e-2, 0.5), 'phi': TEMP, 'force': FORCE, 'mask': st.just(True)})
    return st.sampled_from(gen.share(['NS', 'VV', 'KMM', 'KMMRK3', 'KMM_RB', 'KMMRK3_RB'])).flatmap(one)


def restart_check(case):
    """init_from_file of a demonstration puts a run back where its checkpoint was written."""
    from mpi4py import MPI
    s, a, b = case['solver'], case['first'], case['then']
    demo = 'Isotropic.py' if s in ('NS', 'VV') else 'RayleighBenard.py' if 'RB' in s else 'MKM.py'
    channel = s not in ('NS', 'VV')
    if channel:
        ch = refchan.Chan(case['N'], case['L'], case['quad'], case['dealias'])
        u = ch.state(case['u'])
        case = limit(case, ch, u)
        dt = float(case['dt'])
        phi = ch.phys(ch.temperature(case['phi'])) if 'RB' in s else None
        make = lambda **kw: H.make(s, case, ch.phys(u), force=case['force'], phi=phi, **kw)
        state = lambda sim: np.concatenate([H.get(sim)] + ([H.get_phi(sim)[None]] if 'RB' in s else []))
    else:
        g = R.Grid(case['N'], case['L'], case['dealias'])
        q = P.initial(s, case)
        dt = float('%.3g' % P.stable_dt(g, q, case, 0.2, s))
        make = lambda s=s, **kw: P.make(s, case, q, dt=dt, **kw)
        state = lambda sim: np.where(g.valid, P.state(sim), 0)
        if s == 'VV':       # it starts from the velocity a velocity solver has stored
            q = P.initial('NS', dict(case, solver='NS'))
            case = dict(case, convection='Vortex')
            b, first = 0, make
            make = lambda **kw: first('NS', **kw)
    seen = []
    sim = make(T=dt * (a + b), update=lambda context: seen.append(state(sim)))
    sim.solve()
    if len(seen) != a + b or not np.isfinite(seen[-1]).all():
        raise Discard()
    F.clean()
    sim = make(T=dt * a, checkpoint=a)
    sim.context.hdf5file.filename = 'old'
    sim.solve()
    if s == 'VV':
        sim = first('VV')
        seen = [g.curl(x) for x in seen]
    else:
        sim = make(T=dt * (a + b), update=lambda context: None)
    if channel:     # nothing of the initial state is left
        c = sim.context
        for k in ('U_hat', 'U_hat0', 'g', 'H_hat1', 'phi_hat', 'phi_hat0', 'phi_hat1', 'U', 'phi'):
            if k in c:
                c[k][:] = 0
    run = D.Run(demo, [], main=False, fresh=False, plot=demo != 'Isotropic.py')
    import h5py
    run.globals['h5py'] = h5py            # imported by the main program of one of them
    G = run['init_from_file'].__globals__
    G.setdefault('h5py', h5py)
    run['init_from_file']('old_c.h5', sim.solver, sim.context)
    p = sim.params
    if demo == 'RayleighBenard.py':
        if p.tstep != a or abs(p.t - a * dt) > 1e-12:
            raise Violation('the restarted run is at step %r, time %r; the checkpoint is of step %d, time %r' % (p.tstep, p.t, a, a * dt))
    p.t, p.tstep = a * dt, a
    sim.context.hdf5file.filename = 'new'
    if b:
        sim.solve()
    got, want = state(sim), seen[-1]
    e = float(np.abs(got - want).max() / (1e-3 + np.abs(want).max()))
    if not e < 1e-9:
        raise Violation('%s: the run continued from its checkpoint differs by %.3g after %d more steps' % (s, e, b))
    finish()
    return {'err': {'continued': e}, 'moved': float(np.abs(seen[-1] - seen[a - 1]).max() if b else np.abs(want).max())}


# ----------------------------------------------------- magnetic Taylor-Green flow, vortices with and without a source
def programs_strategy(tier):
    common = {'M': st.lists(st.integers(3, 4), min_size=3, max_size=3), 'steps': st.integers(1, 6), 'nu': gen.logu(1e-4, 0.1), 'dealias': st.sampled_from(gen.DEALIAS), 'integrator': st.sampled_from(['RK4', 'AB2', 'ForwardEuler', 'BS5_fixed']),
              'L': st.lists(st.sampled_from([1, 1, 2, 3]), min_size=3, max_size=3), 'seed': st.integers(0, 10 ** 6)}
    mhd = st.fixed_dictionaries(dict(common, demo=st.just('TGMHD.py'), eta=gen.logu(1e-4, 0.1), dt=gen.rnd(0.005, 0.05, 3)))
    vort = st.fixed_dictionaries(dict(common, demo=st.just('Vortices.py'), init=st.sampled_from(['random', 'vortex']), dt=gen.rnd(0.001, 0.01, 3), every=st.integers(1, 4)))
    return st.one_of(mhd, vort)


def programs_check(case):
    name, n, dt = case['demo'], case['steps'], case['dt']
    N, L = [2 ** m for m in case['M']], [2 * PI * l for l in case['L']]
    X = mesh(N, L)
    solver = 'MHD' if name == 'TGMHD.py' else 'VV'
    source = None
    if solver == 'MHD':
        s, c = np.sin, np.cos
        q = R.fwd(np.array([s(X[0]) * c(X[1]) * c(X[2]), -c(X[0]) * s(X[1]) * c(X[2]), 0 * X[0],
                            s(X[0]) * s(X[1]) * c(X[2]), c(X[0]) * c(X[1]) * c(X[2]), 0 * X[0]]), 3)
    else:
        y, z = X[1] - PI, X[2] - PI
        three = lambda a, w1, w2: a * np.exp(-(y ** 2 + (z + PI / 4) ** 2) / w1) + a * np.exp(-(y ** 2 + (z - PI / 4) ** 2) / w1) \
            - 0.5 * a * np.exp(-((y - PI / 4) ** 2 + (z - PI / 4) ** 2) / w2)
        w, S = np.zeros((3,) + tuple(N)), np.zeros((3,) + tuple(N))
        if case['init'] == 'random':
            np.random.seed(case['seed'])
            w[:] = 0.3 * np.random.randn(*w.shape)
            S[0] = three(100.0, 0.01, 0.04)
        else:
            w[0] = three(1.0, 0.2, 0.4)
        q, source = R.fwd(w, 3), R.fwd(S, 3)
    want = []

    def update(context):
        want.append(P.state(sim))
        if solver == 'VV' and sim.params.tstep == 3:
            context.Source[:] = 0
    sim = P.make(solver, dict(case, N=N, L=L), q, source, dt=dt, T=dt * n, update=update)
    sim.solve()
    if not want or not all(np.isfinite(v).all() and np.abs(v).max() < 1e6 for v in want):
        raise Discard()
    args = D.plan() + ['--M'] + case['M'] + ['--L'] + [repr(x) for x in L] + ['--nu', repr(case['nu']), '--dt', repr(dt), '--T', repr(dt * n), '--dealias', case['dealias'],
                                                               '--integrator', case['integrator']]
    args += [solver, '--eta', repr(case['eta'])] if solver == 'MHD' else ['--convection', 'Vortex', '--init', case['init'], '--plot_step', case['every'], solver]
    told = []

    def before(run, s, c):
        # the program asserts the energies of its own parameters
        if solver == 'MHD':
            s.regression_test = lambda context: told.append(1)
    run = D.Run(name, args, before=before, seed=case['seed'])
    got = np.array(getattr(run.context, P.STATE[solver]))
    big = 1e-3 + max(np.abs(v).max() for v in want)
    e = float(np.abs(got - want[-1]).max() / big)
    if not e < 1e-10:
        raise Violation('%s: the final state differs from the flow it describes by %.3g' % (name, e))
    if solver == 'VV' and len([x for x in run.lines if x.startswith('Time')]) != n:
        raise Violation('%s: %d times reported in %d steps' % (name, len([x for x in run.lines if x.startswith('Time')]), n))
    finish()
    return {'err': {'final state': e / 1e-10}, 'moved': float(np.abs(want[-1] - q).max())}


# ------------------------------------------------------------------ the eigenvalue solver of the Orr-Sommerfeld programs
def eigen_strategy(tier):
    return st.fixed_dictionaries({'Re': gen.logu(50, 12000), 'alfa': gen.rnd(0.3, 2.0, 2), 'N': st.integers(70, 110), 'quad': st.sampled_from(['GC', 'GL']), 'index': st.integers(1, 4),
                                  'main': st.booleans(), 'points': st.integers(3, 30)})


def eigen_check(case):
    a, Re = case['alfa'], case['Re']
    x, Dx, A = C29.shear(100, a, 0.0, 1.0 / Re, 1.0)
    m = A.shape[0] // 2
    lam, vec = np.linalg.eig(A[:m, :m])
    other = np.linalg.eigvals(C29.shear(112, a, 0.0, 1.0 / Re, 1.0)[2][:111, :111])
    order = np.argsort(-lam.real)[:case['index'] + 2]
    c = 1j * lam / a
    for i in order:
        if np.abs(other - lam[i]).min() > 1e-7 or np.sort(np.abs(lam - lam[i]))[1] < 1e-3 or np.sort(np.abs(lam.real - lam[i].real))[1] < 1e-5:
            raise Discard('an ill-conditioned eigenvalue')
    j = order[case['index'] - 1]
    v = np.zeros(len(x), dtype=complex)
    v[1:-1] = vec[:, j]
    run = D.Run('OrrSommerfeld_shen.py', ['--Re', repr(Re), '--alfa', repr(a), '--N', case['N'], '--quad', case['quad'], '--verbose'], main=case['main'])
    err = {}
    if case['main']:
        lines = [l for l in run.lines if l.startswith('Eigenvalue')]
        if len(lines) != 1:
            raise Violation('the eigenvalue is printed %d times' % len(lines))
        near('printed eigenvalue', complex(lines[0].split('=')[1].strip()), c[order[0]], 1e-7, err)
    z = run['OrrSommerfeld'](Re=Re, alfa=a, N=case['N'], quad=case['quad'])
    with D.quiet():
        evals, evectors = z.solve()
        y = np.cos(np.linspace(0.1, 3.0, case['points']))
        got, phi, dphi = z.interp(y, evals, evectors, eigval=case['index'])
        several = np.asarray(z.get_eigval([1, case['index']], evals)[1])
    near('eigenvalue', complex(np.ravel(got)[0]), c[j], 1e-7, err)
    near('leading of several', complex(several[0]), c[order[0]], 1e-7, err)
    near('chosen of several', complex(several[1]), c[j], 1e-7, err)
    f, df = C29.onto(x, v[:, None], y)[:, 0], C29.onto(x, (Dx @ v)[:, None], y)[:, 0]
    s = np.vdot(f, phi) / np.vdot(f, f)
    for what, p, q in (('eigenfunction', phi, f), ('derivative of the eigenfunction', dphi, df)):
        e = float(np.abs(p - s * q).max() / (abs(s) * (np.abs(q).max() + np.abs(v).max())))
        err[what] = e / 1e-5
        if not e < 1e-5:
            raise Violation('%s number %d at Re = %g, wavenumber %g is off by %.3g' % (what, case['index'], Re, a, e))
    return {'err': err, 'moved': float(abs(c[j]))}


moved = lambda c, i: i['moved'] > 1e-6
# ------------------------------------------------------------------- several processes
PARALLEL = ['TG.py', 'TG2D.py', 'KelvinHelmholtz.py', 'KelvinHelmoltzBoussinesq.py', 'Vortices2D.py', 'Vortices.py', 'TGMHD.py', 'Isotropic.py',
            'LaminarChannel.py', 'OrrSommerfeld.py', 'OrrSommerfeldr.py', 'MKM.py', 'RayleighBenard.py']
RUNS = {'TG.py': ['NS', 'VV'], 'TG2D.py': ['NS2D'], 'KelvinHelmholtz.py': ['NS2D'], 'KelvinHelmoltzBoussinesq.py': ['Bq2D'], 'Vortices2D.py': ['NS2D'], 'Vortices.py': ['VV'],
        'TGMHD.py': ['MHD'], 'Isotropic.py': ['NS', 'VV'], 'LaminarChannel.py': ['KMM', 'KMMRK3'], 'OrrSommerfeld.py': ['KMM', 'KMMRK3'], 'OrrSommerfeldr.py': ['KMMr'],
        'MKM.py': ['KMM', 'KMMRK3'], 'RayleighBenard.py': ['KMM_RB', 'KMMRK3_RB']}


def parallel_strategy(tier):
    one = lambda name: st.fixed_dictionaries({
        'demo': st.just(name), 'solver': st.sampled_from(RUNS[name]), 'procs': st.integers(2, 4), 'steps': st.integers(1, 4), 'every': st.integers(1, 2),
        'M': st.lists(st.integers(3, 4), min_size=3, max_size=3), 'nu': gen.logu(1e-3, 0.05), 'decomposition': st.sampled_from(['slab', 'slab', 'pencil']),
        'seed': st.integers(0, 10 ** 6)})
    return st.sampled_from(gen.share(PARALLEL)).flatmap(one)


def options(case):
    name, M, n, e = case['demo'], list(case['M']), case['steps'], case['every']
    dt = {'TG.py': 0.01, 'TG2D.py': 0.02, 'Vortices2D.py': 0.005, 'LaminarChannel.py': 0.2, 'RayleighBenard.py': 0.002, 'MKM.py': 0.0005, 'TGMHD.py': 0.01}.get(name, 0.001)
    if name in ('TG2D.py', 'KelvinHelmholtz.py', 'KelvinHelmoltzBoussinesq.py', 'Vortices2D.py'):
        M = M[:2]
    elif name == 'LaminarChannel.py':
        M = [M[0] + 1, 2, 2]
    elif name == 'OrrSommerfeld.py':
        M = [6, 3, 2]
    elif name == 'OrrSommerfeldr.py':
        M = [3, 2, 6]
    elif name in ('MKM.py', 'RayleighBenard.py'):
        M[0] = 4
    if name == 'Isotropic.py':
        args = ['--N'] + [12 if m == 3 else 16 for m in M]
    else:
        args = ['--M'] + M
    args = D.plan() + args + ['--dt', repr(dt), '--T', repr(dt * n)]
    if name in ('TG.py', 'KelvinHelmholtz.py', 'KelvinHelmoltzBoussinesq.py', 'Isotropic.py', 'LaminarChannel.py', 'OrrSommerfeld.py', 'OrrSommerfeldr.py', 'MKM.py', 'RayleighBenard.py'):
        args += ['--compute_energy', e]
    if name == 'Isotropic.py':
        args += ['--compute_spectrum', e]
    elif name in ('MKM.py', 'RayleighBenard.py'):
        args += ['--sample_stats', e]
    if name not in ('MKM.py', 'RayleighBenard.py', 'OrrSommerfeld.py', 'OrrSommerfeldr.py', 'Isotropic.py'):
        args += ['--nu', repr(case['nu'])]
    if name in ('TG.py', 'TGMHD.py', 'TG2D.py'):
        args += ['--ntol', '0']
    if len(M) == 3 and name in ('TG.py', 'TGMHD.py', 'Isotropic.py') and case['procs'] == 4:
        args += ['--decomposition', case['decomposition']]
    return args + [case['solver']]


def stored(c):
    """What a run starts from: the spectral fields of the context."""
    return sorted(k for k, v in c.items() if isinstance(v, np.ndarray) and np.iscomplexobj(v) and v.ndim >= 2 and k in (
        'U_hat', 'U_hat0', 'W_hat', 'Ur_hat', 'UB_hat', 'g', 'H_hat1', 'phi_hat', 'phi_hat0', 'phi_hat1'))


def on_ranks(case):
    """The program on this communicator; one process gives the start, several are given it."""
    import types
    from mpi4py import MPI
    from ..harness import local
    from ..mpi import pieces
    size = MPI.COMM_WORLD.Get_size()
    start = dict(case.get('start') or {})

    def before(run, solver, c):
        sim = types.SimpleNamespace(context=c)
        if case['demo'] == 'TGMHD.py':      # compares with numbers of its default run
            solver.regression_test = lambda context: None
        for k in stored(c):
            if size == 1:
                start[k] = np.array(c[k])
            else:
                c[k][:] = local(sim, start[k], c[k])

    def watch(run, solver, c, when):
        if when == 'after' and case['demo'] == 'Vortices2D.py' and size == 1:
            np.savetxt('vortices.txt', np.array(c.U_hat.backward(c.U))[0])
    run = D.Run(case['demo'], options(case), watch=watch, before=before, seed=case['seed'])
    c = run.context
    out = {'lines': run.lines, 'start': start, 'state': {k: pieces(types.SimpleNamespace(context=c), c[k], True) for k in stored(c)},
           't': float(run.params.t), 'tstep': int(run.params.tstep), 'stats': {}}
    if MPI.COMM_WORLD.Get_rank() == 0:
        for f in ('KMMstats.h5', 'KMMRK3stats.h5', 'KMM_RB_stats.h5', 'KMMRK3_RB_stats.h5'):
            if os.path.exists(f):
                out['stats'][f] = F.tree(f)
    return out


def report(lines):
    """The numbers of the lines that report something about the whole flow."""
    rows = []
    for line in lines:
        w = line.replace('=', ' ').split()
        if not w or '.' not in line or line.lstrip().startswith('[') or line.rstrip().endswith(']') or 'optimized' in line:
            continue
        v = []
        for x in w:
            try:
                v.append(float(x))
            except ValueError:
                if not v and not x[0].isalpha() or '.' in x:
                    v = None
                    break
        if v:
            rows.append(v)
    return rows


def parallel_check(case):
    from .. import mpi
    F.clean()
    one = on_ranks(case)
    F.clean()
    outs, where = mpi.run(case['procs'], dict(case, call='pbt.checks.C30:on_ranks', start=one['start']))
    tag = '%s on %d processes' % (case['demo'], case['procs'])
    for o in outs:
        if o is not None and 'error' in o:
            if not o['code']:
                raise RuntimeError(o['trace'])
            if o.get('divides'):
                raise Discard()
            raise Violation('%s: a rank raises %s' % (tag, o['error']))
    if any(o is None for o in outs):
        raise Violation('%s: %d ranks do not finish' % (tag, sum(o is None for o in outs)))
    err = {}
    for o in outs:
        if (o['t'], o['tstep']) != (one['t'], one['tstep']):
            raise Violation('%s: ends at step %d, time %r instead of step %d, time %r' % (tag, o['tstep'], o['t'], one['tstep'], one['t']))
    for k, (x, _, _) in one['state'].items():
        y = mpi.assemble([o['state'][k] for o in outs], tag + ' ' + k)
        e = float(np.abs(x - y).max() / (1e-3 + np.abs(x).max()))
        err['state'] = max(err.get('state', 0.0), e)
        if not e < 1e-9:
            raise Violation('%s: %s differs from the run on one process by %.3g' % (tag, k, e))
    a, b = report(one['lines']), report(outs[0]['lines'])
    if case['demo'] not in ('Vortices.py',):
        if [len(r) for r in a] != [len(r) for r in b]:
            raise Violation('%s: %d lines are printed, %d on one process: %s' % (tag, len(b), len(a), outs[0]['lines'][-3:]))
        for r, q in zip(a, b):
            big = 1 + max(abs(v) for v in r)
            for v, w in zip(r, q):
                if not abs(v - w) <= 1e-5 * abs(v) + 1e-12 * big + (1e-9 if case['demo'].startswith('Orr') else 0):
                    raise Violation('%s: reports %r, on one process %r' % (tag, q, r))
    got = outs[0]['stats']
    if set(got) != set(one['stats']):
        raise Violation('%s: writes the statistics %s, on one process %s' % (tag, sorted(got), sorted(one['stats'])))
    for f, (data, attrs) in one['stats'].items():
        d2, a2 = got[f]
        if int(attrs['num_samples']) != int(a2['num_samples']) or set(data) != set(d2):
            raise Violation('%s: the statistics hold %s samples of %s, on one process %s of %s' % (tag, a2['num_samples'], sorted(d2), attrs['num_samples'], sorted(data)))
        big = max(float(np.abs(v).max()) for v in data.values())
        for k, v in data.items():
            e = float(np.abs(d2[k] - v).max()) / (1e-12 + big) if d2[k].shape == v.shape else np.inf
            err['statistics'] = max(err.get('statistics', 0.0), e)
            if not e < 1e-10:
                raise Violation('%s: the stored statistics %s differ from those on one process by %.3g' % (tag, k, e))
    finish()
    return {'err': err, 'moved': float(len(a) + len(one['stats'])) or 1.0}


def TEARDOWN():
    from .. import mpi
    mpi.teardown()


FACETS = [
    Facet('periodic', periodic_strategy, periodic_check, quick=50, thorough=1500, shards=5, tshards=5, nontrivial=moved,
          rule='a periodic demonstration with generated options against the framework run on the flow its text describes; non-trivial = the flow changes',
          classify=lambda c, i: [c['demo'], c['integrator']]),
    Facet('laminar', laminar_strategy, laminar_check, quick=8, thorough=200, shards=2, tshards=4, nontrivial=moved,
          rule='transient laminar channel flow: the error reported against the series solution', classify=lambda c, i: [c['solver']]),
    Facet('orr-sommerfeld', orr_strategy, orr_check, quick=10, thorough=200, shards=5, tshards=5, nontrivial=moved,
          rule='the Orr-Sommerfeld demonstrations with generated options', classify=lambda c, i: [c['solver'], c['mode']]),
    Facet('isotropic', iso_strategy, iso_check, quick=16, thorough=600, shards=2, tshards=4, nontrivial=moved,
          rule='forced isotropic turbulence: energy, forcing and the reported numbers', classify=lambda c, i: [c['solver']]),
    Facet('statistics', stats_strategy, stats_check, quick=60, thorough=3000, shards=1, tshards=4, nontrivial=lambda c, i: i['samples'] > 0,
          rule='sequences of samples, resets, reloads and reads of the statistics classes', classify=lambda c, i: [c['demo']]),
    Facet('channel', channel_strategy, channel_check, quick=12, thorough=400, shards=2, tshards=4, nontrivial=moved,
          rule='the turbulent channel and Rayleigh-Benard demonstrations', classify=lambda c, i: [c['solver']]),
    Facet('restart', restart_strategy, restart_check, quick=36, thorough=1500, shards=3, tshards=3, nontrivial=moved,
          rule='init_from_file of the demonstrations against the uninterrupted run; non-trivial = the flow changes after the restart',
          classify=lambda c, i: [c['solver']]),
    Facet('programs', programs_strategy, programs_check, quick=24, thorough=1000, shards=2, tshards=4, nontrivial=moved,
          rule='TGMHD.py and Vortices.py against the framework run on the flow their text describes; non-trivial = the flow changes',
          classify=lambda c, i: [c['demo'], c['integrator']]),
    Facet('eigen', eigen_strategy, eigen_check, quick=24, thorough=1000, shards=2, tshards=4, nontrivial=moved,
          rule='eigenvalues and eigenfunctions of OrrSommerfeld_shen.py against Chebyshev collocation', classify=lambda c, i: [c['quad'], 'number %d' % c['index']]),
    Facet('parallel', parallel_strategy, parallel_check, quick=70, thorough=1500, shards=4, tshards=4, nontrivial=moved,
          rule='every demonstration on two to four processes from the start of its run on one: state, printed numbers, stored statistics; all non-trivial',
          classify=lambda c, i: [c['demo'], c['solver'], '%d processes' % c['procs']])]
