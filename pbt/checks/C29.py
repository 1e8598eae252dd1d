"""Infinitesimal disturbances of channel flow and of the conduction state evolve as linear stability theory says."""
import numpy as np
from hypothesis import strategies as st
from scipy.linalg import eig

from .. import channel as H, gen
from ..core import Discard, Facet, Violation

SLOW = 4
ASSUMPTIONS = ['the growth rates are compared at a step size at which the time discretisation changes them by less than the tolerance',
               'the eigenvalue problem is solved by Chebyshev collocation on 64 points (72 for the test of its own resolution)']
FLOW = ['KMM', 'KMMRK3', 'KMMr', 'Coupled', 'CoupledRK3']


# ------------------------------------------------------------------------- the eigenvalue problem
def matrix(n):
    """Chebyshev points and differentiation matrix."""
    x = np.cos(np.pi * np.arange(n + 1) / n)
    c = np.r_[2, np.ones(n - 1), 2] * (-1.0) ** np.arange(n + 1)
    X = np.tile(x, (n + 1, 1)).T
    D = np.outer(c, 1 / c) / (X - X.T + np.eye(n + 1))
    return x, D - np.diag(D.sum(axis=1))


def clamped(x, D):
    """D4 for functions that vanish with their derivative at +-1."""
    s = np.diag(np.r_[0, 1 / (1 - x[1:-1] ** 2), 0])
    D2, D3 = D @ D, D @ D @ D
    return (np.diag(1 - x ** 2) @ (D2 @ D2) - 8 * np.diag(x) @ D3 - 12 * D2) @ s


def shear(n, a, b, nu, top):
    """d/dt of (v, eta): wall-normal velocity and vorticity of a disturbance exp(i a y + i b z) of top (1 - x^2)."""
    x, D = matrix(n)
    k2 = a * a + b * b
    D2, D4 = D @ D, clamped(x, D)
    i = slice(1, -1)
    I = np.eye(n - 1)
    U, dU, ddU = [np.diag(f[i]) for f in (top * (1 - x ** 2), -2 * top * x, np.full_like(x, -2 * top))]
    lap = D2[i, i] - k2 * I
    los = -1j * a * U @ lap + 1j * a * ddU + nu * (D4[i, i] - 2 * k2 * D2[i, i] + k2 ** 2 * I)
    lsq = -1j * a * U + nu * lap
    m = n - 1
    A = np.zeros((2 * m, 2 * m), dtype=complex)
    A[:m, :m], A[m:, :m], A[m:, m:] = np.linalg.solve(lap, los), -1j * b * dU, lsq
    return x, D, A


def convection(n, a, b, nu, kappa):
    """d/dt of (v, theta) about the conduction state 0.5 (1 - x)."""
    x, D = matrix(n)
    k2 = a * a + b * b
    D2, D4 = D @ D, clamped(x, D)
    i = slice(1, -1)
    m = n - 1
    I = np.eye(m)
    lap = D2[i, i] - k2 * I
    A = np.zeros((2 * m, 2 * m), dtype=complex)
    A[:m, :m] = np.linalg.solve(lap, nu * (D4[i, i] - 2 * k2 * D2[i, i] + k2 ** 2 * I))
    A[:m, m:] = np.linalg.solve(lap, -k2 * I)
    A[m:, :m], A[m:, m:] = 0.5 * I, kappa * lap
    return x, D, A


def mode(build, args, index):
    """The index-th least stable mode that two resolutions agree about: its eigenvalue and (v, eta or theta) on the points."""
    x, D, A = build(64, *args)
    lam, vec = np.linalg.eig(A)
    other = np.linalg.eigvals(build(72, *args)[2])
    good = [j for j in range(len(lam)) if np.abs(other - lam[j]).min() < 1e-7 * (1 + abs(lam[j]))]
    good = sorted(good, key=lambda j: -lam[j].real)[:8]
    if not good:
        raise Discard()
    j = good[index % len(good)]
    # a nearly repeated eigenvalue has no well-conditioned vector
    if np.sort(np.abs(lam - lam[j]))[1] < 1e-3 * (1e-3 + abs(lam[j])):
        raise Discard()
    w = vec[:, j]
    r = np.zeros((2, len(x)), dtype=complex)
    r[:, 1:-1] = w.reshape(2, -1)
    return lam[j], x, D, r / np.abs(r).max()


def onto(x, f, y):
    """The Chebyshev interpolant of f (values at x) at y."""
    n = len(x) - 1
    w = np.r_[0.5, np.ones(n - 1), 0.5] * (-1.0) ** np.arange(n + 1)
    d = y[:, None] - x[None, :]
    hit = np.abs(d) < 1e-14
    d = np.where(hit, 1.0, d)
    m = w / d
    v = (m @ f) / m.sum(axis=1).reshape((-1,) + (1,) * (f.ndim - 1))
    for i in np.flatnonzero(hit.any(axis=1)):
        v[i] = f[np.flatnonzero(hit[i])[0]]
    return v


def place(case, f):
    """Real field of the amplitude f(x) exp(i (a y + b z))."""
    N = case['N']
    j, k = case['mode']
    ph = 2 * np.pi * (j * np.arange(N[1])[:, None] / N[1] + k * np.arange(N[2])[None, :] / N[2])
    return (f[:, None, None] * np.exp(1j * ph)[None]).real


def amplitude(case, field):
    """The amplitude over x of the mode in a real field."""
    j, k = case['mode']
    c = np.fft.fft2(field, axes=(1, 2))[:, j % case['N'][1], k % case['N'][2]] / (case['N'][1] * case['N'][2])
    return 2 * c


def points(n, quad):
    return np.cos(np.pi * (2 * np.arange(n) + 1) / (2 * n)) if quad == 'GC' else np.cos(np.pi * np.arange(n) / (n - 1))


# ------------------------------------------------------------------------- runs
MODES = [[1, 0], [1, 0], [1, 1], [1, -1], [0, 1], [2, 1], [1, 2]]
FORMS = ('Standard', 'Divergence', 'Skew', 'Vortex')


def base(few=False):
    return {'n1': st.sampled_from([6, 8]), 'n2': st.sampled_from([6, 8]), 'mode': st.sampled_from(MODES), 'L': st.tuples(st.just(2.0), gen.rnd(2, 9, 2), gen.rnd(2, 9, 2)).map(list),
            'index': st.integers(0, 4), 'convection': st.sampled_from(FORMS), 'quad': st.sampled_from(['GC', 'GL']),
            'dealias': st.sampled_from(['3/2-rule', 'None']), 'phase': gen.rnd(0, 6.28, 2)}


def shape(case):
    n = dict(case, N=[32 if case['solver'] not in H.COUPLED else 24, case['n1'], case['n2']])
    return n


def flow_strategy(solvers):
    def strategy(tier):
        return st.fixed_dictionaries(dict(base(), solver=st.sampled_from(gen.share(solvers)), Re=gen.logu(10, 500), top=st.sampled_from([1.0, 0.5, -1.5]))).map(shape)
    return strategy


def wave(case):
    return 2 * np.pi * case['mode'][0] / case['L'][1], 2 * np.pi * case['mode'][1] / case['L'][2]


def resolved(x, r, n):
    """Whether functions on the points x are resolved by n Chebyshev modes."""
    y = points(n - 4, 'GC')
    z = np.linspace(-0.99, 0.99, 57)
    c = np.polynomial.chebyshev.chebfit(y, onto(x, r.T, y), n - 5)
    return np.abs(np.polynomial.chebyshev.chebval(z, c).T - onto(x, r.T, z)).max() < 1e-6 * np.abs(r).max()


def compare(case, lam, first, seen, T, tol, what):
    worst = 0.0
    want = first * np.exp(lam * T)
    size = np.abs(first).max() * max(1.0, np.abs(np.exp(lam * T)))
    e = float(np.abs(seen - want).max() / size)
    worst = e / (abs(lam) * T)
    if not worst < tol:
        got = np.log(np.vdot(first, seen) / np.vdot(first, first)) / T
        raise Violation('%s: a disturbance of wave numbers (%.4g, %.4g) has the growth rate %.6g%+.6gi, linear theory says %.6g%+.6gi (%s off by %.3g of the change)' % (
            case['solver'], *wave(case), got.real, got.imag, lam.real, lam.imag, what, worst))
    return worst


def flow_check(case):
    a, b = wave(case)
    nu = 1.0 / case['Re']
    lam, x, D, r = mode(shear, (a, b, nu, case['top']), case['index'])
    k2 = a * a + b * b
    dv = D @ r[0]
    f = np.array([r[0], 1j * (a * dv - b * r[1]) / k2, 1j * (b * dv + a * r[1]) / k2])
    f = f / np.abs(f).max() * np.exp(1j * case['phase'])
    if not resolved(x, f, case['N'][0]):
        raise Discard()
    eps = 1e-6
    rate = abs(lam) + abs(a * case['top']) + nu * k2
    T = min(0.4 / rate, 2.0)
    steps = 12 if case['solver'] in H.COUPLED else 40
    dt = T / steps
    case = dict(case, nu=nu, dt=dt)
    y = points(case['N'][0], case['quad'])
    u = np.zeros((3,) + tuple(case['N']))
    g = np.array([onto(x, c, y) for c in f])
    for i in range(3):
        u[i] = eps * place(case, g[i])
    u[1] += case['top'] * (1 - y ** 2)[:, None, None]
    seen = {}

    def update(context):
        seen[context.params.tstep if 'params' in context else len(seen) + 1] = H.get(sim)
    sim = H.make(case['solver'], case, u, force=[2 * nu * case['top']], T=T, update=update)
    sim.solve()
    if len(seen) != steps:
        raise Violation('%d steps taken instead of %d' % (len(seen), steps))
    last = seen[max(seen)]
    first = np.array([amplitude(case, eps * place(case, c)) for c in g]) / eps
    got = np.array([amplitude(case, v) for v in last]) / eps
    e = compare(case, lam, first, got, T, 0.005 if case['solver'] in H.COUPLED else 1e-3, 'velocity')
    # and nothing else has been set in motion
    rest = last.copy()
    rest[1] -= case['top'] * (1 - y ** 2)[:, None, None]
    for i in range(3):
        rest[i] -= eps * place(case, got[i])
    o = float(np.abs(rest).max() / eps)
    if not o < 1e-3:
        raise Violation('%s: a disturbance of one pair of wave numbers spreads to others: %.3g of it' % (case['solver'], o))
    return {'err': {'rate': e, 'other modes': o}, 'change': float(abs(lam) * T)}


def rb_strategy(tier):
    d = dict(base(), solver=st.sampled_from(gen.share(list(H.RB))), nu=gen.logu(3e-3, 0.3), kappa=gen.logu(3e-3, 0.3))
    return st.fixed_dictionaries(d).map(shape)


def rb_check(case):
    a, b = wave(case)
    lam, x, D, r = mode(convection, (a, b, case['nu'], case['kappa']), case['index'])
    k2 = a * a + b * b
    dv = D @ r[0]
    f = np.array([r[0], 1j * a * dv / k2, 1j * b * dv / k2, r[1]])
    f = f / np.abs(f).max() * np.exp(1j * case['phase'])
    if not resolved(x, f, case['N'][0]):
        raise Discard()
    eps = 1e-6
    rate = abs(lam) + 0.5 + max(case['nu'], case['kappa']) * k2
    T = min(0.4 / rate, 1.0)
    steps = 60
    case = dict(case, dt=T / steps)
    y = points(case['N'][0], case['quad'])
    g = np.array([onto(x, c, y) for c in f])
    fields = np.array([eps * place(case, c) for c in g])
    fields[3] += (0.5 * (1 - y))[:, None, None]
    sim = H.make(case['solver'], case, fields[:3], phi=fields[3], T=T)
    if case['solver'] == 'KMM_RB':
        # what the step before would have left
        back = np.exp(-lam * case['dt'])
        old = eps * place(case, g[3] * back) + (0.5 * (1 - y))[:, None, None]
        c = sim.context
        p = c.phi.copy()
        p[:] = old
        c.phi_hat1[:] = p.forward(c.phi_hat1.copy())
    sim.solve()
    last = np.concatenate([H.get(sim), H.get_phi(sim)[None]])
    first = np.array([amplitude(case, eps * place(case, c)) for c in g]) / eps
    got = np.array([amplitude(case, v) for v in last]) / eps
    e = compare(case, lam, first, got, T, 0.01, 'velocity and temperature')
    rest = last.copy()
    rest[3] -= (0.5 * (1 - y))[:, None, None]
    for i in range(4):
        rest[i] -= eps * place(case, got[i])
    o = float(np.abs(rest).max() / eps)
    if not o < 1e-3:
        raise Violation('%s: a disturbance of one pair of wave numbers spreads to others: %.3g of it' % (case['solver'], o))
    return {'err': {'rate': e, 'other modes': o}, 'change': float(abs(lam) * T), 'growing': bool(lam.real > 0)}


changed = lambda c, i: i['change'] > 0.01
FACETS = [
    Facet('shear', flow_strategy(FLOW[:3]), flow_check, quick=40, thorough=3000, shards=5, tshards=5, nontrivial=changed,
          rule='an eigenmode of plane Poiseuille flow; non-trivial = the disturbance changes by more than 1 % of itself',
          classify=lambda c, i: [c['solver'], c['convection'], 'oblique' if c['mode'][1] else '2D']),
    Facet('coupled', flow_strategy(FLOW[3:]), flow_check, quick=6, thorough=200, shards=2, tshards=4, nontrivial=changed,
          rule='the same for the coupled solvers', classify=lambda c, i: [c['solver'], c['convection']]),
    Facet('conduction', rb_strategy, rb_check, quick=24, thorough=2000, shards=3, tshards=4, nontrivial=changed,
          rule='an eigenmode of the conduction state; non-trivial = the disturbance changes by more than 1 % of itself',
          classify=lambda c, i: [c['solver'], c['convection'], 'growing' if i['growing'] else 'decaying'])]
