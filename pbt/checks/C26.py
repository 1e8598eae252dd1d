"""Single precision: types, and trajectories equal to double precision up to single-precision rounding."""
import numpy as np
from hypothesis import strategies as st

from .. import anysim as A, gen, periodic as P, refper as R
from ..core import Discard, Facet, Violation
from .C24 import QUERIES, ask

ASSUMPTIONS = ['the periodic solvers support single precision', 'with the adaptive integrator only the end time and the solution to the tolerance are compared']


def strategy(tier):
    return A.stretch(A.cases(tier, channel=(), steps=(1, 8), integrators=A.FIXED + [A.ADAPTIVE], lo=0.02, hi=0.2, small=tier == 'quick', pextra={
        'amp': st.just(0), 'tol': st.sampled_from([1e-3, 1e-4])}), 8, 50)


def check(case):
    s = case['solver']
    ad = case['integrator'] == A.ADAPTIVE
    kw = {'TOL': case['tol']} if ad else {}
    out = []
    dt = A.step_of(case)
    for prec in ('double', 'single'):
        tr = []
        sim = A.build(case, dt=dt, precision=prec, update=lambda context: tr.append(A.state(sim)), **kw)
        x0 = A.state(sim)
        sim.solve()
        out.append((x0, tr, sim))
    (x0, ref, d), (y0, got, g) = out
    c = g.context
    for name in ('U', 'U_hat', 'K2', 'K_over_K2', 'dU', 'Source', A.PRIMARY[s][0]):
        if name in c:
            t = np.asarray(c[name]).dtype
            if t not in (np.float32, np.complex64):
                raise Violation('%s of %s has type %s in single precision' % (name, s, t))
            t = np.asarray(d.context[name]).dtype
            if t not in (np.float64, np.complex128):
                raise Violation('%s of %s has type %s in double precision' % (name, s, t))
    for a in c.K:
        if a.dtype != np.float32:
            raise Violation('the wavenumbers of %s have type %s in single precision' % (s, a.dtype))
    for q in QUERIES[s]:
        v = np.array(ask(g, q))
        if v.dtype != np.float32:
            raise Violation('%s of %s has type %s in single precision' % (q, s, v.dtype))
    if abs(float(g.params.t) - float(d.params.t)) > 1e-5 * (1 + abs(float(d.params.t))):
        raise Violation('the run ended at %r in single and at %r in double precision' % (g.params.t, d.params.t))
    scale = max(max(np.abs(v).max() for v in x0.values()), 1e-30)
    worst = 0.0
    if ad:
        pairs = [(len(ref), ref[-1], got[-1])] if ref and got else []
        per = 30 * case['tol'] + 1e-5
    else:
        if len(ref) != len(got):
            raise Violation('%d steps in single, %d in double precision' % (len(got), len(ref)))
        pairs = [(k + 1, a, b) for k, (a, b) in enumerate(zip(ref, got))]
        per = 1e-6
    for k, a, b in pairs:
        size = max(np.abs(v).max() for v in a.values())
        if not np.isfinite(size) or size > 20 * scale + 1:
            break
        e = max(float(np.abs(a[n] - b[n]).max()) for n in a) / max(size, scale)
        worst = max(worst, e / (per * (k + 1)))
        if not e < per * (k + 1):
            raise Violation('step %d of %s in single precision differs from double precision by %.3g' % (k, s, e))
    return {'err': {'fraction of bound': worst}, 'moved': A.moved(x0, ref[-1]) / scale if ref else 0.0}


FACETS = [Facet('single', strategy, check, quick=800, thorough=12000, shards=8, tshards=8, nontrivial=lambda c, i: i['moved'] > 1e-4,
                rule='runs in single against double precision; non-trivial = the solution changed by more than 1e-4',
                classify=lambda c, i: [c['solver'], c['integrator'], c['dealias'], 'masked' if c['mask'] else 'unmasked'])]
