"""KMM: every step against the dense discrete reference."""
import numpy as np
from hypothesis import strategies as st

from .. import anysim as A, channel as H, gen, refchan
from ..core import Facet, Violation

ASSUMPTIONS = ['even wall-normal size of at least 14: the biharmonic solver of the transform library fails for odd and tiny sizes',
               'convection is projected on the Dirichlet space, dealiasing truncates or pads the way the transform library does']


def strategy(tier):
    return A.stretch(H.cases(tier, solvers=('KMM',), n0=(14, 16, 18, 20) if tier == 'quick' else (14, 16, 20, 24, 32),
                   extra={'steps': st.integers(1, 3), 'force': st.lists(gen.rnd(-2, 2, 2), min_size=1, max_size=5),
                          'prev': st.one_of(st.none(), st.integers(0, 10 ** 6)), 'mask': st.sampled_from([True, True, False])}), 3, 30)


def compare(sim, got, ref, ch, scale, what, tol=5e-11):
    r = ch.phys(ref)
    err = float(np.abs(got - r).max() / scale)
    if not err < tol:
        ix = np.unravel_index(np.argmax(np.abs(got - r)), r.shape)
        raise Violation('%s differs from the discrete equations: relative error %.3g, component and point %s: got %r, expected %r' % (
            what, err, ix, float(got[ix]), float(r[ix])))
    return err


def check(case):
    solver, n, dt, nu, form = case['solver'], case['steps'], float(case['dt']), case['nu'], case['convection']
    ch = refchan.Chan(case['N'], case['L'], case['quad'], case['dealias'], mask=case.get('mask', True))
    u = ch.state(case['u'])
    prev = u if case.get('prev') is None else ch.state(dict(case['u'], seed=case['prev']))
    got = []
    sim = H.make(solver, case, ch.phys(u), force=case['force'], prev=ch.phys(prev), T=dt * n,
                 update=lambda context: got.append(H.get(sim)))
    sim.solve()
    if len(got) != n:
        raise Violation('%d steps taken, expected %d' % (len(got), n))
    f = H.profile(ch.n, case['force'])
    v, old = u, None
    if 'RK3' not in solver:
        old = ch.convection(prev, form)
    scale0 = np.abs(ch.phys(u)).max() + 1e-2
    worst = 0.0
    for k in range(n):
        if 'RK3' in solver:
            v = ch.rk3(v, nu, dt, f, form)
        else:
            v, old = ch.cnab(v, old, nu, dt, f, form)
        if not case.get('mask', True):
            v, old = clear(v, old, ch)
        p = np.abs(ch.phys(v)).max()
        if not np.isfinite(p) or p > 1e3 * scale0:
            break
        g = got[k]
        if not case.get('mask', True):
            # modes at the Nyquist wavenumber are outside the comparison
            from .. import refper as R
            gh = R.fwd(g, 2)
            g = R.bwd(np.where(ch.nyq, 0, gh), ch.N2)
            if k:
                break
        worst = max(worst, compare(sim, g, v, ch, max(p, scale0), 'step %d' % (k + 1)))
    return {'err': {'velocity': worst}, 'moved': float(np.abs(ch.phys(v - u)).max())}


def clear(v, old, ch):
    z = lambda a: None if a is None else np.where(ch.nyq, 0, a)
    return z(v), z(old)


FACETS = [Facet('steps', strategy, check, quick=240, thorough=12000, shards=8, tshards=8,
                nontrivial=lambda c, i: i['moved'] > 1e-6,
                rule='random solenoidal no-slip states, previous convection, driving profiles, meshes, domains, quadratures, '
                     'dealiasing and convection forms; one to three steps; non-trivial = the velocity moved',
                classify=lambda c, i: [c['convection'], c['dealias'], c['quad'], 'steps%d' % c['steps']])]
