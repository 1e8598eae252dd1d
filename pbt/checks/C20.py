"""Channel runs: no-slip walls, solenoidality, laminar flow, momentum balance and the symmetries of the channel."""
import numpy as np
from hypothesis import strategies as st

from .. import anysim as A, channel as H, gen, refchan
from ..core import Discard, Facet, Violation
from .C24 import cheb

SLOW = 3
ASSUMPTIONS = ['the momentum balance is that of a resolved flow (error of the balance, not of the discrete equations)',
               'reflections in the streamwise direction reverse the driving force']
FAST = ['KMM', 'KMMRK3', 'KMMr', 'KMM_RB', 'KMMRK3_RB']
COUPLED = ['Coupled', 'CoupledRK3']
OLD = ['KMM', 'KMMr', 'Coupled', 'KMM_RB']          # keep the convection of the previous step
TEMP = st.fixed_dictionaries({'seed': st.integers(0, 10 ** 6), 'kmax': st.integers(1, 3), 'decay': gen.rnd(0.0, 1.2, 2),
                              'amp': gen.rnd(0.02, 1.0, 2), 'modes': st.sampled_from([0, 0, 5])})
FORCE = st.lists(gen.rnd(-2, 2, 2), min_size=1, max_size=4)


def limit(case, ch, u):
    """A step inside the stability limit of the explicit convection."""
    v = np.abs(ch.phys(u))
    dx = 1.0 / case['N'][0] ** 2 * 4
    rate = (v[0] / dx).max() + (v[1] * np.pi * case['N'][1] / case['L'][1]).max() + (v[2] * np.pi * case['N'][2] / case['L'][2]).max()
    return dict(case, dt=float('%.3g' % min(case['dt'], 0.3 / (rate + 1e-9))))


def setup(case):
    ch = refchan.Chan(case['N'], case['L'], case['quad'], case['dealias'])
    u = ch.state(case['u'])
    phi = ch.temperature(case['phi']) if case['solver'] in H.RB else None
    return ch, u, phi


def run(case, u, phi, force, steps, **kw):
    seen = []

    def update(context):
        seen.append(H.get(sim))
    sim = H.make(case['solver'], case, u, force=force, phi=phi, T=float(case['dt']) * steps, update=update, **kw)
    sim.case = case
    sim.solve()
    if len(seen) != steps:
        raise Violation('%d steps taken instead of %d' % (len(seen), steps))
    return sim, seen


# ------------------------------------------------------------------------- walls and continuity
def hist_strategy(solvers):
    def strategy(tier):
        few = solvers is COUPLED
        s = H.cases(tier, solvers=solvers, n0=(14, 16) if few else (14, 16, 18, 20), n1=(4, 6), extra={
            'steps': st.integers(1, 3) if few else st.integers(1, 6), 'force': FORCE, 'phi': TEMP, 'kappa': gen.logu(1e-2, 0.5)})
        return s if few else A.stretch(s, 6, 40)
    return strategy


def hist_check(case):
    ch, u, phi = setup(case)
    case = limit(case, ch, u)
    sim, seen = run(case, ch.phys(u), None if phi is None else ch.phys(phi), case['force'], case['steps'])
    err = {'wall': 0.0, 'divergence': 0.0}
    u0 = ch.phys(u)
    scale = np.abs(u0).max() + 1e-3
    for n, v in enumerate(seen):
        if not np.isfinite(v).all() or np.abs(v).max() > 100 * scale + 10:
            raise Discard()
        c = cheb(sim, v)
        s = np.abs(v).max() + scale
        # values at x = +-1 (the points themselves need not include the walls)
        w = float(np.abs(np.moveaxis(ch.wall(c), 0, 1)).max() / s)
        err['wall'] = max(err['wall'], w)
        if not w < 1e-9:
            raise Violation('%s: the velocity at the wall is %.3g of the largest after %d steps' % (case['solver'], w, n + 1))
        d = ch.div(c)
        size = max(np.abs(ch.dx(c[0])).max(), np.abs(ch.ky * c[1]).max(), np.abs(ch.kz * c[2]).max(), s)
        e = float(np.abs(d).max() / size)
        err['divergence'] = max(err['divergence'], e)
        if not e < (1e-7 if case['solver'] in COUPLED else 1e-9):
            raise Violation('%s: the divergence is %.3g of the gradients after %d steps' % (case['solver'], e, n + 1))
    if phi is not None:
        t = cheb(sim, H.get_phi(sim))
        b = ch.wall(t)
        b[0][0, 0] -= 0.0
        b[1][0, 0] -= 1.0
        e = float(np.abs(b).max())
        err['wall temperature'] = e
        if not e < 1e-9 * (1 + np.abs(t).max()):
            raise Violation('%s: the wall temperature is off by %.3g' % (case['solver'], e))
    return {'err': err, 'moved': float(np.abs(seen[-1] - u0).max())}


# ------------------------------------------------------------------------- laminar flow
def lam_strategy(tier):
    return H.cases(tier, solvers=FAST[:3] + COUPLED, n0=(14, 16, 18, 20, 24), n1=(4, 6), nus=(1e-3, 2.0), dts=(1e-4, 0.5), extra={
        'top': gen.rnd(-4, 4, 2), 'steps': st.integers(1, 3)})


def lam_check(case):
    ch = refchan.Chan(case['N'], case['L'], case['quad'], case['dealias'])
    u = np.zeros((3, case['N'][0]) + tuple(case['N'][1:]))
    u[1] = case['top'] * (1 - ch.x ** 2)[:, None, None]
    sim, seen = run(case, u, None, [2 * case['nu'] * case['top']], case['steps'])
    e = float(np.abs(seen[-1] - u).max() / (abs(case['top']) + 1e-3))
    if not e < 1e-9:
        raise Violation('%s: laminar flow drifts by %.3g in %d steps' % (case['solver'], e, case['steps']))
    return {'err': {'laminar': e}, 'top': abs(case['top'])}


# ------------------------------------------------------------------------- momentum
def mom_strategy(tier):
    return H.cases(tier, solvers=FAST[:3] + COUPLED[:1], n0=(32,), n1=(6, 8), forms=('Vortex', 'Standard', 'Divergence', 'Skew'), nus=(0.02, 0.5), amp=(0.05, 0.6),
                   dts=(5e-4, 5e-3), dealias=('3/2-rule', 'None'), extra={'steps': st.integers(2, 6), 'force': st.lists(gen.rnd(-2, 2, 2), min_size=1, max_size=3)})


def mom_check(case):
    case = dict(case, u=dict(case['u'], modes=4, kmax=1, decay=max(0.7, case['u']['decay'])))
    if case['solver'] == 'Coupled':
        case = dict(case, N=[20] + case['N'][1:], steps=2)
    ch = refchan.Chan(case['N'], case['L'], case['quad'], case['dealias'])
    u = ch.state(case['u'])
    case = limit(case, ch, u)
    sim, seen = run(case, ch.phys(u), None, case['force'], case['steps'])
    dt, nu = float(case['dt']), case['nu']
    vol = [cheb(sim, v) for v in [ch.phys(u)] + seen]

    def total(c, i):
        return ch.integral(c[i])

    def friction(c, i):
        d = ch.dx(c[i])[:, 0, 0].real
        return nu * float(d.sum() - ((-1.0) ** np.arange(len(d)) * d).sum()) * case['L'][1] * case['L'][2]
    F = ch.integral(np.array(H.profile(case['N'][0], case['force']))[:, 1].reshape(-1, 1, 1).astype(complex))
    worst = 0.0
    for n in range(1, len(vol)):          # the first step of a state that does not satisfy the wall equations has a transient
        a, b = vol[n - 1], vol[n]
        for i, f in ((1, F), (2, 0.0)):
            got = (total(b, i) - total(a, i)) / dt
            want = f + 0.5 * (friction(a, i) + friction(b, i))
            scale = abs(f) + abs(friction(a, i)) + np.abs(ch.phys(a)).max() ** 2 * case['L'][1] * case['L'][2] + 1e-3
            if n == 1:
                continue
            e = abs(got - want) / scale
            worst = max(worst, float(e))
            if not e < 0.02:
                raise Violation('%s: component %d of the momentum changes at the rate %.8g, force and wall friction give %.8g (step %d)' % (
                    case['solver'], i, got, want, n))
    return {'err': {'balance': worst}, 'moved': float(np.abs(seen[-1] - ch.phys(u)).max())}


# ------------------------------------------------------------------------- symmetries
def reflect(a, axis):
    """Index j -> -j along a periodic axis."""
    return np.roll(np.flip(a, axis), 1, axis)


OPS = ['x', 'y', 'z', 'shift', 'swap']


def sym_strategy(solvers):
    def strategy(tier):
        few = solvers is COUPLED
        return H.cases(tier, solvers=solvers, n0=(14, 16), n1=(4, 6), extra={
            'steps': st.integers(1, 2) if few else st.integers(1, 4), 'force': FORCE, 'phi': TEMP, 'kappa': gen.logu(1e-2, 0.5),
            'op': st.sampled_from(OPS), 'by': st.tuples(st.integers(0, 5), st.integers(0, 5)).map(list)}).map(plain)
    return strategy


def plain(case):
    """Shifting the temperature by a constant is a symmetry only of the exact equations, not of the discrete ones."""
    return dict(case, op='z') if case['op'] == 'x' and case['solver'] in H.RB else case


def image(op, by, u, phi):
    """The transformed velocity and temperature."""
    sign = np.ones(3)
    if op == 'x':
        v, sign[0] = np.flip(u, 1), -1
        t = None if phi is None else 1 - np.flip(phi, 0)
    elif op == 'y':
        v, sign[1] = reflect(u, 2), -1
        t = None if phi is None else reflect(phi, 1)
    elif op == 'z':
        v, sign[2] = reflect(u, 3), -1
        t = None if phi is None else reflect(phi, 2)
    elif op == 'shift':
        v = np.roll(u, by, (2, 3))
        t = None if phi is None else np.roll(phi, by, (1, 2))
    else:
        v = np.swapaxes(u, 2, 3)[[0, 2, 1]]
        t = None if phi is None else np.swapaxes(phi, 1, 2)
    return v * sign[:, None, None, None], t


def sym_check(case):
    ch, u, phi = setup(case)
    case = limit(case, ch, u)
    op, by, force = case['op'], case['by'], list(case['force'])
    pu, pp = ch.phys(u), None if phi is None else ch.phys(phi)
    if op == 'swap':
        force = [0.0]
    f2 = force
    if op == 'y':
        f2 = [-a for a in force]
    elif op == 'x':
        f2 = [a * (-1) ** k for k, a in enumerate(force)]
    c2 = case
    if op == 'swap':
        c2 = dict(case, N=[case['N'][0], case['N'][2], case['N'][1]], L=[case['L'][0], case['L'][2], case['L'][1]])
    vu, vp = image(op, by, pu, pp)
    A, a = run(case, pu, pp, force, case['steps'])
    B, b = run(c2, vu, vp, f2, case['steps'])
    scale = np.abs(pu).max() + 1e-3
    if not np.isfinite(a[-1]).all() or np.abs(a[-1]).max() > 50 * scale + 5:
        raise Discard()
    want, tw = image(op, by, a[-1], H.get_phi(A) if pp is not None else None)
    e = float(np.abs(want - b[-1]).max() / (np.abs(want).max() + scale))
    tol = 1e-8
    if not e < tol:
        raise Violation('%s: the transformed run (%s) differs from the transform of the run by %.3g' % (case['solver'], op, e))
    err = {'symmetry': e}
    if pp is not None:
        e = float(np.abs(tw - H.get_phi(B)).max())
        err['temperature'] = e
        if not e < tol:
            raise Violation('%s: the temperature of the transformed run (%s) differs by %.3g' % (case['solver'], op, e))
    return {'err': err, 'moved': float(np.abs(a[-1] - pu).max())}


moved = lambda c, i: i['moved'] > 1e-6
FACETS = [
    Facet('walls', hist_strategy(FAST), hist_check, quick=120, thorough=8000, shards=5, tshards=5, nontrivial=moved,
          rule='random runs of the wall-normal velocity/vorticity and Rayleigh-Benard solvers; non-trivial = the velocity moved',
          classify=lambda c, i: [c['solver'], c['convection'], c['dealias']]),
    Facet('coupled', hist_strategy(COUPLED), hist_check, quick=10, thorough=400, shards=2, tshards=4, nontrivial=moved,
          rule='random runs of the coupled solvers; non-trivial = the velocity moved', classify=lambda c, i: [c['solver'], c['convection']]),
    Facet('laminar', lam_strategy, lam_check, quick=50, thorough=3000, shards=5, tshards=5, nontrivial=lambda c, i: i['top'] > 0.1,
          rule='parabolic profile under its own force; non-trivial = its top exceeds 0.1', classify=lambda c, i: [c['solver']]),
    Facet('momentum', mom_strategy, mom_check, quick=24, thorough=1500, shards=4, tshards=4, nontrivial=moved,
          rule='momentum of resolved runs against force and friction; non-trivial = the velocity moved', classify=lambda c, i: [c['solver'], c['convection']]),
    Facet('symmetry', sym_strategy(FAST), sym_check, quick=120, thorough=8000, shards=5, tshards=5, nontrivial=moved,
          rule='a run and its reflected, translated or axis-swapped twin; non-trivial = the velocity moved',
          classify=lambda c, i: [c['solver'], c['op'], c['convection']]),
    Facet('coupledsymmetry', sym_strategy(COUPLED), sym_check, quick=8, thorough=300, shards=2, tshards=4, nontrivial=moved,
          rule='the same for the coupled solvers', classify=lambda c, i: [c['solver'], c['op']])]
