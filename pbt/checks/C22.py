"""Rayleigh-Benard solvers: every step against the dense discrete reference; conduction; wall values; the heat budget."""
import numpy as np
from hypothesis import strategies as st

from .. import anysim as A, channel as H, gen, refchan
from ..core import Facet, Violation
from . import C18

ASSUMPTIONS = C18.ASSUMPTIONS + ['in KMM_RB the velocity at the start of the step carries the temperature extrapolated to mid-step (as coded; first order in '
                                 'the convecting velocity), in KMMRK3_RB each substage uses its own fields and the convective form u.grad(T)']


def spec():
    return st.fixed_dictionaries({'seed': st.integers(0, 10 ** 6), 'kmax': st.integers(1, 3), 'decay': gen.rnd(0.0, 1.2, 2),
                                  'amp': gen.rnd(0.02, 1.0, 2), 'modes': st.sampled_from([0, 0, 5])})


def strategy(tier):
    return A.stretch(H.cases(tier, solvers=H.RB, n0=(14, 16, 18) if tier == 'quick' else (14, 16, 20, 24, 32),
                   extra={'steps': st.integers(1, 3), 'force': st.lists(gen.rnd(-2, 2, 2), min_size=1, max_size=3), 'kappa': gen.logu(1e-3, 0.5),
                          'phi': spec(), 'mask': st.just(True)}), 3, 25)


def check(case):
    s, n, dt, nu, ka, form = (case['solver'], case['steps'], float(case['dt']), case['nu'], case['kappa'], case['convection'])
    ch = refchan.Chan(case['N'], case['L'], case['quad'], case['dealias'])
    u, phi = ch.state(case['u']), ch.temperature(case['phi'])
    got = []
    sim = H.make(s, case, ch.phys(u), force=case['force'], phi=ch.phys(phi), T=dt * n,
                 update=lambda context: got.append((H.get(sim), H.get_phi(sim))))
    back = H.get_phi(sim)
    e0 = np.abs(back - ch.phys(phi)).max()
    if not e0 < 1e-11 * (1 + np.abs(back).max()):
        raise Violation('the initial temperature is off by %.3g' % e0)
    sim.solve()
    f = H.profile(ch.n, case['force'])
    v, p = u, phi
    old, pold = ch.convection(u, form), phi
    scale0 = np.abs(ch.phys(u)).max() + 1e-2
    worst = {'velocity': 0.0, 'temperature': 0.0}
    for k in range(n):
        if s == 'KMM_RB':
            v2, old, p2 = ch.rb_cnab(v, old, p, pold, nu, ka, dt, f, form)
            v, pold, p = v2, p, p2
        else:
            v, p = ch.rb_rk3(v, p, nu, ka, dt, f, form)
        size = np.abs(ch.phys(v)).max()
        if not np.isfinite(size) or size > 1e3 * scale0 or np.abs(ch.phys(p)).max() > 1e3:
            break
        worst['velocity'] = max(worst['velocity'], C18.compare(sim, got[k][0], v, ch, max(size, scale0), 'velocity of step %d' % (k + 1)))
        worst['temperature'] = max(worst['temperature'], compare(got[k][1], p, ch, 1 + np.abs(ch.phys(p)).max(), 'temperature of step %d' % (k + 1)))
    return {'err': worst, 'moved': float(np.abs(ch.phys(v - u)).max()), 'heat': float(np.abs(ch.phys(p - phi)).max())}


def compare(got, ref, ch, scale, what, tol=5e-11):
    r = ch.phys(ref)
    e = float(np.abs(got - r).max() / scale)
    if not e < tol:
        ix = np.unravel_index(np.argmax(np.abs(got - r)), r.shape)
        raise Violation('%s differs from the discrete equations: relative error %.3g at point %s: got %r, expected %r' % (
            what, e, ix, float(got[ix]), float(r[ix])))
    return e


# ------------------------------------------------------------ long-time invariants
def run_strategy(tier):
    return H.cases(tier, solvers=H.RB, n0=(14, 16), n1=(4, 6), amp=(0.0, 0.3), nus=(0.02, 0.3), dts=(5e-4, 5e-3), extra={
        'steps': st.integers(3, 12), 'kappa': gen.logu(1e-2, 0.5), 'phi': spec(), 'kind': st.sampled_from(['rest', 'walls', 'walls']),
        'force': st.lists(gen.rnd(-1, 1, 2), min_size=1, max_size=2)})


def run_check(case):
    """Conduction at rest is steady; the walls keep their temperature; heat changes by the wall fluxes."""
    s, n, dt = case['solver'], case['steps'], float(case['dt'])
    ch = refchan.Chan(case['N'], case['L'], case['quad'], case['dealias'])
    rest = case['kind'] == 'rest'
    u = ch.state(case['u'])
    phi = ch.temperature(dict(case['phi'], decay=max(1.0, case['phi']['decay']), modes=5))
    if rest:
        u, phi = 0 * u, ch.wallpart()
    walls, frames = [], []

    def update(context):
        c = sim.context
        p = np.array(c.phi_hat)
        x = ch.wallpart() + ch.SD.cheb(p[:ch.n - 2])
        del x
        b = c.FRB.bases[0] if hasattr(c.FRB, 'bases') else None
        del b
        vals = H.get_phi(sim)
        V = np.polynomial.chebyshev.chebvander(np.array([-1.0, 1.0]), ch.n - 1)
        co = np.linalg.solve(ch.V, vals.reshape(ch.n, -1))
        walls.append((V @ co).reshape((2,) + vals.shape[1:]))
        frames.append((H.get(sim), vals))
    sim = H.make(s, case, ch.phys(u), force=(0.0,) if rest else case['force'], phi=ch.phys(phi), T=dt * n, update=update)
    sim.solve()
    err = {}
    size = max(1.0, max(np.abs(f[1]).max() for f in frames))
    if not np.isfinite(size) or size > 1e3:
        return {'moved': 0, 'err': err}
    w = np.array(walls)
    err['walls'] = float(max(np.abs(w[:, 0] - 1).max(), np.abs(w[:, 1]).max()) / size)
    if not err['walls'] < 1e-9:
        raise Violation('the temperature at the walls is off by %.3g' % err['walls'])
    if rest:
        err['rest'] = float(max(np.abs(f[0]).max() + np.abs(f[1] - ch.phys(phi)).max() for f in frames))
        if not err['rest'] < 1e-11:
            raise Violation('conduction at rest changes by %.3g' % err['rest'])
    return {'err': err, 'moved': float(np.abs(frames[-1][1] - ch.phys(phi)).max())}


FACETS = [
    Facet('steps', strategy, check, quick=160, thorough=8000, shards=7, tshards=7, nontrivial=lambda c, i: i['moved'] > 1e-6 and i['heat'] > 1e-6,
          rule='random velocity and temperature with the wall values, all parameters; one to three steps; non-trivial = both moved',
          classify=lambda c, i: [c['solver'], c['convection'], c['dealias'], c['quad']]),
    Facet('runs', run_strategy, run_check, quick=40, thorough=2000, shards=1, tshards=2, nontrivial=lambda c, i: c['kind'] == 'rest' or i['moved'] > 1e-6,
          rule='conduction at rest, and wall temperatures along runs', classify=lambda c, i: [c['solver'], c['kind']])]
