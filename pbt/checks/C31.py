"""Refining the time step: the channel solvers converge at the order of their schemes, and different schemes to the same flow."""
import numpy as np
from hypothesis import strategies as st

from .. import channel as H, gen, refchan
from ..core import Discard, Facet, Violation
from .C20 import FORCE, TEMP, limit

SLOW = 4
ASSUMPTIONS = ['the order is measured where the step resolves both the fastest resolved diffusion and the convection (the asymptotic range)',
               'the Rayleigh-Benard solvers couple velocity and temperature explicitly: first order is expected of them']
FLOW = ['KMM', 'KMMRK3', 'KMMr']


def strategy(solvers, forms=('Standard', 'Divergence', 'Skew', 'Vortex')):
    def make(tier):
        few = solvers is H.COUPLED
        return H.cases(tier, solvers=solvers, forms=forms, n0=(14,) if few else (14, 16, 18), n1=(6,) if few else (6, 8), amp=(0.2, 1.5), nus=(1e-3, 0.05), extra={
            'base': st.sampled_from([6, 8] if few else [8, 10, 14]), 'inviscid': st.sampled_from([False, False, True]), 'force': FORCE, 'phi': TEMP, 'kappa': gen.logu(1e-3, 0.05)})
    return make


def setup(case):
    ch = refchan.Chan(case['N'], case['L'], case['quad'], case['dealias'])
    spec = dict(case['u'], kmax=min(case['u']['kmax'], 2), decay=max(0.6, case['u']['decay']), modes=0)
    if case['solver'] in H.RB:
        # resolved in space, too
        case = dict(case, N=[case['N'][0] + 6] + case['N'][1:])
        ch = refchan.Chan(case['N'], case['L'], case['quad'], case['dealias'])
        spec.update(kmax=1, modes=5)
    if case['inviscid']:
        case = dict(case, nu=1e-7, kappa=1e-7)
    u = ch.state(spec)
    phi = ch.temperature(dict(case['phi'], kmax=1, decay=0.8, modes=5)) if case['solver'] in H.RB else None
    # convection, diffusion of the highest wall-normal mode and buoyancy are all resolved by the step
    c = limit(dict(case, dt=0.02), ch, u)
    stiff = max(case['nu'], case['kappa'] if phi is not None else 0.0) * (0.05 * case['N'][0] ** 4 + (np.pi * np.array(case['N'][1:]) / np.array(case['L'][1:]) ** 1).dot([1, 1]) ** 2)
    dt = min(c['dt'], 1.0 / stiff)
    return dict(case, dt=dt), ch.phys(u), None if phi is None else ch.phys(phi)


def final(case, solver, n, T, u, phi, dealias=None):
    c = dict(case, solver=solver, dt=T / n)
    sim = H.make(solver, c, u, force=case['force'], phi=phi, T=T)
    sim.solve()
    v = H.get(sim)
    if phi is not None:
        v = np.concatenate([v, H.get_phi(sim)[None]])
    if not np.isfinite(v).all() or np.abs(v).max() > 1e3:
        raise Discard()
    return v


def measure(case, u, phi, expect):
    """The final states with n, 2n and 4n steps; the order they show."""
    s, n = case['solver'], case['base']
    T = case['dt'] * n
    a, b, c = [final(case, s, m, T, u, phi) for m in (n, 2 * n, 4 * n)]
    scale = np.abs(c).max()
    e1, e2 = float(np.abs(a - b).max()), float(np.abs(b - c).max())
    start = u if phi is None else np.concatenate([u, phi[None]])
    moved = float(np.abs(c - start).max() / scale)
    floor = 1e-11 * scale
    if e1 < 100 * floor:
        return T, c, e2 + floor, None, moved
    order = float(np.log2(e1 / max(e2, floor)))
    if order < expect - 0.4:
        raise Violation('%s: halving the step of %.3g twice changes the flow by %.3g and then %.3g: order %.2f instead of %d' % (s, T / n, e1, e2, order, expect))
    return T, c, e2, order, moved


def order_check(case):
    case, u, phi = setup(case)
    s = case['solver']
    expect = 1 if s in H.RB else (3 if 'RK3' in s and case['inviscid'] else 2)
    T, c, e, order, moved = measure(case, u, phi, expect)
    err = {}
    other = {'KMM': 'KMMRK3', 'KMMRK3': 'KMM', 'KMMr': 'KMMRK3', 'KMM_RB': 'KMMRK3_RB', 'KMMRK3_RB': 'KMM_RB'}.get(s)
    if other and not (s in H.RB and case['dealias'] == '2/3-rule'):
        # the other scheme, whose error is measured as well
        n = 2 * case['base']
        p, q = [final(case, other, m, T, u, phi) for m in (n, 2 * n)]
        eo = float(np.abs(p - q).max())
        k = 2.0 if s in H.RB else 1.0      # what is left after the last refinement: e/(2^order - 1)
        bound = 3 * k * (e + eo) + 1e-10 * np.abs(c).max()
        if s in H.RB:
            # one evaluates the convection as div(uT), the other as u.grad(T): they differ by the truncation in space
            bound += 0.02 * np.abs(c - np.concatenate([u, phi[None]])).max()
        d = float(np.abs(q - c).max())
        err['limit'] = d / bound
        if d > bound:
            raise Violation('%s and %s do not converge to the same flow: they differ by %.3g, refinement changes them by %.3g and %.3g' % (s, other, d, e, eo))
    if order is not None:
        err['order'] = (expect - order) / 0.4
    return {'err': err, 'moved': moved, 'order': order}


measured = lambda c, i: i['order'] is not None and i['moved'] > 1e-4
RULE = 'a run with n, 2n, 4n steps, and one of another scheme; non-trivial = the flow changes by more than 1e-4 and the order can be measured above rounding'
classes = lambda c, i: [c['solver'], c['convection'], 'inviscid' if c['inviscid'] else 'viscous']
FACETS = [
    Facet('flow', strategy(FLOW), order_check, quick=20, thorough=1500, shards=4, tshards=4, nontrivial=measured, rule=RULE, classify=classes),
    Facet('coupled', strategy(H.COUPLED), order_check, quick=2, thorough=100, shards=1, tshards=4, nontrivial=measured, rule=RULE, classify=classes),
    Facet('convection', strategy(list(H.RB)), order_check, quick=12, thorough=1000, shards=3, tshards=4, nontrivial=measured, rule=RULE, classify=classes)]
