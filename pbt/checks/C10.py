"""The adaptive integrator: accepted steps, rejections, controller, end time, accuracy."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, periodic as P, refint as I, refper as R
from ..core import Discard, Facet, Violation
from .C09 import P_err, field_of, rhs_of

ASSUMPTIONS = ['runs whose reference has an error estimate within 1e-4 of the acceptance limit are set aside']
TOLS = [1e-2, 1e-4, 1e-6, 1e-8]
KICKS = st.one_of(st.none(), st.tuples(st.integers(1, 5), st.sampled_from([0.3, 3.0, 20.0, 200.0])))


def reference(f, u, t, dt, T, tol, shape, cap=150, kick=None):
    """Every accepted step (t, dt taken, state, attempted sizes)."""
    c = I.Controller(f, tol, shape)
    out = []
    if t + dt > T:
        dt = T - t
    attempts = 0
    while t < T - 1e-12:
        rejected = []
        while True:
            attempts += 1
            if attempts > cap:
                raise Discard()
            new, est, _ = c.attempt(u, dt)
            if not np.isfinite(est) or np.abs(new).max() > 1e6:
                raise Discard()
            if abs(est - 1) < 1e-4:
                raise Discard()
            nxt = dt * c.factor(est, bool(rejected))
            if est <= 1:
                break
            rejected.append(dt)
            dt = nxt
        t, u = t + dt, new
        out.append({'t': t, 'dt': dt, 'u': u, 'rejected': rejected, 'est': est})
        dt = nxt
        if kick and len(out) == kick[0]:
            dt = dt * kick[1]
        if t + dt >= T + 1e-12 or abs(t + dt - T) < 1e-12:
            dt = T - t
    return out


def amplification(ref, rate):
    """How much the pair magnifies rounding errors of damped modes, in the states and in the error estimates of these steps."""
    z = np.linspace(0, rate, 400)
    total = worst = 1.0
    for r in ref:
        for d in r['rejected'] + [r['dt']]:
            new, k = I.rk(I.BS5_A, I.BS5_B, lambda u: -z * u, np.ones_like(z), d)
            est = sum(d * float(b - h) * s for b, h, s in zip(I.BS5_B, I.BS5_BHAT, k))
            worst = max(worst, total * float(np.abs(new).max()), total * float(np.abs(est).max()))
        total *= max(1.0, float(np.abs(new).max()))
    return worst


def observe(sim, kick=None):
    """Watch the accepted and rejected attempts of a run; kick = (n, factor): the user changes the step after step n."""
    acc, rej, calls = [], [], []
    p, ctx = sim.params, sim.context

    def update(context):
        acc.append({'t': float(p.t), 'tstep': int(p.tstep), 'u': P.state(sim), 'rejected': list(rej)})
        rej.clear()
        if kick and len(acc) == kick[0]:
            p.dt = float(p.dt) * kick[1]

    def callback(context):
        calls.append(1)
        if getattr(context, 'is_step_rejected_callback', False):
            rej.append({'dt': float(context.dt_rejected), 't': float(p.t), 'tstep': int(p.tstep), 'u': P.state(sim)})
            context.is_step_rejected_callback = False
    sim.solver.update = update
    sim.solver.additional_callback = callback
    return acc, calls


def verify(sim, ref, u0, t0, T, acc, calls, same, dt0):
    worst = {'state': 0.0, 'dt': 0.0}
    if len(acc) != len(ref):
        raise Violation('%d accepted steps, the controller prescribes %d (accepted at %s, expected %s)' % (
            len(acc), len(ref), [round(a['t'], 8) for a in acc][:6], [round(r['t'], 8) for r in ref][:6]))
    tp, up = t0, u0
    for n, (a, r) in enumerate(zip(acc, ref)):
        if a['tstep'] != n + 1:
            raise Violation('the step count is %d after step %d' % (a['tstep'], n + 1))
        e = abs((a['t'] - tp) - r['dt']) / r['dt']
        worst['dt'] = max(worst['dt'], float(e))
        if e > 1e-5:
            raise Violation('step %d has size %.12g, the controller prescribes %.12g' % (n + 1, a['t'] - tp, r['dt']))
        if len(a['rejected']) != len(r['rejected']):
            raise Violation('step %d was rejected %d times, expected %d' % (n + 1, len(a['rejected']), len(r['rejected'])))
        last = None
        for x, d in zip(a['rejected'], r['rejected']):
            if abs(x['dt'] - d) > 1e-5 * d:
                raise Violation('step %d: rejected size %.12g, expected %.12g' % (n + 1, x['dt'], d))
            if abs(x['t'] - tp) > 1e-14 * (1 + abs(tp)) or x['tstep'] != n:
                raise Violation('a rejected attempt moved time to %r (from %r) or the count to %d (from %d)' % (x['t'], tp, x['tstep'], n))
            if not np.array_equal(x['u'], up):
                raise Violation('a rejected attempt changed the state by %.3g' % np.abs(x['u'] - up).max())
            if last is not None and not x['dt'] < last:
                raise Violation('the retry after a rejection is not smaller: %r then %r' % (last, x['dt']))
            last = x['dt']
        err = same(a['u'], r['u'])
        worst['state'] = max(worst['state'], err)
        if not err < 1e-6:
            raise Violation('accepted step %d differs from the reference pair by %.3g (relative)' % (n + 1, err))
        tp, up = a['t'], a['u']
    if abs(float(sim.params.t) - T) > 1e-12 * (1 + abs(T)):
        raise Violation('the run ended at %r, requested %r' % (float(sim.params.t), T))
    nrej = sum(len(r['rejected']) for r in ref)
    if len(calls) != len(ref) + 2 * nrej:
        raise Violation('the integrator called the user %d times, expected %d' % (len(calls), len(ref) + 2 * nrej))
    if float(sim.params.dt) != dt0:
        raise Violation('the time step parameter is %r after the run, it was %r' % (float(sim.params.dt), dt0))
    return {'err': worst, 'rejections': nrej, 'steps': len(ref)}


def any_strategy(tier):
    def one(solver):
        d = P.DIM[solver]
        return st.fixed_dictionaries({
            'solver': st.just(solver), 'N': gen.meshes(d, (4, 6) if d == 3 else (4, 6, 8)), 'L': gen.lengths(d),
            'kind': st.sampled_from(['linear', 'coupled', 'poly']), 'degree': st.integers(0, 9), 'seed': st.integers(0, 10 ** 9),
            'rate': gen.logu(0.05, 8), 'dt': gen.logu(1e-2, 3.0), 'span': gen.rnd(0.3, 12, 2), 'TOL': st.sampled_from(TOLS),
            't0': st.sampled_from([0.0, 0.0, 0.75]), 'kick': KICKS})
    return st.sampled_from(gen.share(P.SOLVERS)).flatmap(one)


def any_check(case):
    dt, tol = float(case['dt']), case['TOL']
    t0, T = float(case['t0']), float(case['t0'] + dt * case['span'])
    full = dict(case, nu=0.1, eta=0.1, Ri=0.1, Pr=1.0, dealias='None', mask=False, integrator='BS5_adaptive')
    sim = P.make(case['solver'], full, 0, dt=dt, t=t0, T=T)
    shape = P.state(sim).shape
    f, u0, exact = field_of(case, shape)
    ref = reference(f, u0, t0, dt, T, tol, shape[1:], kick=case['kick'])
    P.setstate(sim, u0)

    def ComputeRHS(rhs, u_hat, solver, **context):
        rhs[:] = f(np.array(u_hat))
        return rhs
    sim.solver.ComputeRHS = ComputeRHS
    acc, calls = observe(sim, case['kick'])
    sim.solve()
    info = verify(sim, ref, u0, t0, T, acc, calls, lambda a, b: float(np.abs(a - b).max() / np.abs(b).max()), dt)
    if exact is not None and case['kind'] == 'poly':
        e = np.abs(acc[-1]['u'] - exact(T - t0, u0))
        e.flat[0] = 0
        big = max(np.abs(a['u']).max() for a in acc)
        ratio = float(np.sqrt((e ** 2).reshape(shape[0], -1).mean(1)).max() / (tol * (1 + big) * len(acc)))
        info['err']['error/tolerance/steps'] = ratio
        if ratio > 3:
            raise Violation('the error is %.3g times the tolerance per step' % ratio)
    return info


def real_strategy(tier):
    return P.cases(tier, extra={'cfl': gen.logu(0.5, 40.0), 'span': gen.rnd(0.3, 9.0, 2), 'TOL': st.sampled_from([1e-8, 1e-7, 1e-5, 1e-3]), 'kick': KICKS},
                   amp=(0.3, 2.0), nus=(1e-3, 0.5))


def real_check(case):
    solver = case['solver']
    g = R.Grid(case['N'], case['L'], case['dealias'])
    q0 = np.where(g.nyq, 0, P.initial(solver, case))
    dt = float(P.stable_dt(g, q0, case, case['cfl'], solver))
    T = dt * case['span']
    f = rhs_of(solver, g, case)
    ref = reference(f, q0, 0.0, dt, T, case['TOL'], q0.shape[1:], cap=60, kick=case['kick'])
    rate = max(case['nu'], case.get('eta', 0), case['nu'] / case.get('Pr', 1.0)) * float(g.K2.max())
    if amplification(ref, rate) * 1e-16 * float(np.abs(q0).max()) > 1e-6 * case['TOL']:
        raise Discard()  # unstable for the highest modes, and what these grow from is rounding
    sim = P.make(solver, dict(case, integrator='BS5_adaptive'), q0, dt=dt, T=T)
    acc, calls = observe(sim, case['kick'])
    sim.solve()
    return verify(sim, ref, q0, 0.0, T, acc, calls, lambda a, b: P_err(a, b, g, b), dt)


FACETS = [
    Facet('any_rhs', any_strategy, any_check, quick=500, thorough=30000, shards=4, tshards=4,
          nontrivial=lambda c, i: i['rejections'] > 0 or i['steps'] > 3,
          rule='arbitrary right-hand sides under the adaptive pair against a reference controller; non-trivial = a rejection '
               'or more than three accepted steps',
          classify=lambda c, i: [c['solver'], c['kind'], 'rejected' if i['rejections'] else 'clean', 'kicked' if c['kick'] and i['steps'] > c['kick'][0] else 'free']),
    Facet('solvers', real_strategy, real_check, quick=360, thorough=20000, shards=4, tshards=4,
          nontrivial=lambda c, i: i['rejections'] > 0 or i['steps'] > 3,
          rule='the five periodic solvers under the adaptive pair against the reference controller on the reference '
               'right-hand side; non-trivial = a rejection or more than three accepted steps',
          classify=lambda c, i: [c['solver'], 'rejected' if i['rejections'] else 'clean', 'kicked' if c['kick'] and i['steps'] > c['kick'][0] else 'free'])]
