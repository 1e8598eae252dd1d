"""Optimised kernels against their definitions, and trajectories of every back end against the plain implementation."""
import importlib

import numpy as np
from hypothesis import strategies as st

from .. import anysim as A, channel as H, gen
from ..core import Discard, Facet, Violation

ASSUMPTIONS = ['a back end replaces what it has a kernel for and leaves the rest plain', 'single precision is compared to single-precision rounding',
               'channel solvers accept double precision only']
BACK = ['cython', 'numba', 'pythran']
KERNELS = {'cython': ['cross1', 'cross2', 'cross2_array', 'cross1_2D', 'cross2_2D', 'cross2_2D_array', 'mult_K1j', 'assembleAB_KMM', 'add_pressure_diffusion_NS',
                      'add_pressure_diffusion_Bq2D', 'add_pressure_diffusion_NS2D', 'compute_vw'],
           'numba': ['cross1', 'cross2', 'cross2_array', 'mult_K1j', 'add_pressure_diffusion_NS', 'compute_vw'],
           'pythran': ['cross1', 'cross2', 'cross2_array', 'mult_K1j', 'add_pressure_diffusion_NS', 'compute_vw']}


# ------------------------------------------------------------------- kernels
def kernel_strategy(tier):
    dims = st.lists(st.integers(1, 7), min_size=3, max_size=3)
    pairs = [(b, k) for b in BACK for k in KERNELS[b]]
    return st.sampled_from(gen.share(pairs)).flatmap(lambda t: st.fixed_dictionaries({
        'back': st.just(t[0]), 'kernel': st.just(t[1]), 'precision': st.sampled_from(['double', 'double', 'single']) if t[1] != 'mult_K1j' else st.just('double'),
        'shape': dims, 'seed': st.integers(0, 10 ** 6), 'zeros': st.booleans(), 'scale': st.sampled_from([1.0, 1.0, 1e-3, 1e3])}))


def module(back, precision):
    return importlib.import_module('spectralDNS.optimization.' + ('cython_' + precision if back == 'cython' else back + '_module'))


def kernel_check(case):
    back, name, prec = case['back'], case['kernel'], case['precision']
    real, cplx = (np.float64, np.complex128) if prec == 'double' else (np.float32, np.complex64)
    rng = np.random.Generator(np.random.PCG64(case['seed']))
    sh = tuple(case['shape'])
    if '2D' in name:
        sh = sh[:2]
    d = len(sh)

    def r(*s):
        x = rng.standard_normal(s) * case['scale']
        if case['zeros']:
            x[rng.random(s) < 0.3] = 0
        return x.astype(real)

    def z(*s):
        return (r(*s) + 1j * r(*s)).astype(cplx)

    def waves():
        return [rng.integers(-9, 9, n).reshape([-1 if j == i else 1 for j in range(d)]).astype(real) for i, n in enumerate(sh)]

    mod = module(back, prec)
    f = getattr(mod, name.replace('_array', ''), None)
    if f is None:
        raise Discard()         # the plain implementation stands in
    big = np.float64 if prec == 'double' else np.float64
    if name == 'cross1':
        a, b = r(3, *sh), r(3, *sh)
        args, ref = (r(3, *sh), a, b), np.cross(a.astype(big), b.astype(big), axis=0)
    elif name == 'cross1_2D':
        a, b = r(2, *sh), r(2, *sh)
        args, ref = (r(*sh), a, b), a[0] * b[1] - a[1] * b[0]
    elif name.startswith('cross2'):
        n = 2 if '2D' in name else 3
        K = waves()
        a, b = np.array(np.broadcast_arrays(*K)), z(n, *sh)
        if name.endswith('_array'):
            a = np.ascontiguousarray(r(n, *sh))
        if n == 3:
            ref, c = 1j * np.cross(a, b, axis=0), z(3, *sh)
        else:
            ref, c = 1j * (a[0] * b[1] - a[1] * b[0]), z(*sh)
        args = (c, a if name.endswith('_array') else K, b)
    elif name == 'mult_K1j':
        K, a = waves(), z(*sh)
        args, ref = (K, a, z(2, *sh)), np.array([1j * K[2] * a, -1j * K[1] * a])
    elif name == 'assembleAB_KMM':
        h, h1 = z(3, *sh), z(3, *sh)
        args, ref = (z(3, *sh), h, h1), 1.5 * h - 0.5 * h1
    elif name == 'compute_vw':
        u, fh, g, kk = z(3, *sh), z(*sh), z(*sh), r(2, *sh)
        ref = np.array([u[0], -1j * (kk[0] * fh - kk[1] * g), -1j * (kk[1] * fh + kk[0] * g)])
        args = (u, fh, g, kk)
    else:
        n = {'NS': 3, 'NS2D': 2, 'Bq2D': 3}[name.split('_')[-1]]
        m = 3 if n == 3 and d == 3 else 2
        K = waves()
        K2 = sum(k * k for k in K).astype(real)
        kk = np.array([k / np.where(K2 == 0, 1, K2) for k in K]).astype(real)
        du, u, nu = z(n, *sh), z(n, *sh), real(abs(r(1)[0]))
        p = z(*sh)
        P = sum(du[i].astype(complex) * kk[i] for i in range(m))
        ref = du.astype(complex)
        if name.endswith('Bq2D'):
            ri, pr = real(rng.standard_normal()), real(0.5 + rng.random())
            P = P - ri * u[2] * kk[1]
            ref = np.array([du[0] - P * K[0] - nu * K2 * u[0], du[1] - P * K[1] - nu * K2 * u[1] - ri * u[2], du[2] - nu * K2 / pr * u[2]])
            args = (du, u, p, kk, K, K2, nu, ri, pr)
        else:
            ref = np.array([du[i] - P * K[i] - nu * K2 * u[i] for i in range(n)])
            args = (du, u, nu, K2, K, p, kk)
    keep = [[np.array(y) for y in x] if isinstance(x, list) else np.array(x) for x in args]
    out = f(*args)
    e = float(np.abs(np.asarray(out) - ref).max()) if ref.size else 0.0
    size = case['scale'] ** 2 * 100 + case['scale'] * 3000 + np.abs(ref).max()
    tol = 1e-14 if prec == 'double' else 3e-6
    if np.asarray(out).shape != ref.shape or np.asarray(out).dtype.itemsize != (np.dtype(args[0].dtype).itemsize if not isinstance(args[0], list) else 16):
        raise Violation('%s of %s (%s) returns shape %s and type %s' % (name, back, prec, np.asarray(out).shape, np.asarray(out).dtype))
    if not e < tol * size:
        raise Violation('%s of %s (%s, shape %s) is off by %.3g' % (name, back, prec, sh, e))
    if 'pressure' in name:
        q = args[2] if name.endswith('Bq2D') else args[5]
        if not np.abs(q - P).max() < tol * (size + np.abs(P).max()):
            raise Violation('%s of %s (%s, shape %s): the pressure is off by %.3g' % (name, back, prec, sh, np.abs(q - P).max()))
    outs = {'mult_K1j': [2], 'add_pressure_diffusion_Bq2D': [0, 2], 'add_pressure_diffusion_NS': [0, 5], 'add_pressure_diffusion_NS2D': [0, 5]}.get(name, [0])
    for i, (x, y) in enumerate(zip(args, keep)):
        if i in outs:
            continue
        if not (all(np.array_equal(p, q) for p, q in zip(x, y)) if isinstance(x, list) else np.array_equal(x, y)):
            raise Violation('%s of %s (%s) changed its argument %d' % (name, back, prec, i))
    return {'err': {prec: e / size}, 'size': float(np.abs(ref).max()) if ref.size else 0.0, 'distinct': len(set(sh))}


# --------------------------------------------------------------- trajectories
def run_strategy(tier):
    one = A.stretch(A.cases(tier, steps=(1, 5), integrators=A.FIXED + [A.ADAPTIVE], lo=0.02, hi=0.2,
                  extra={'back': st.sampled_from(BACK)}, pextra={'prec': st.sampled_from(['double', 'double', 'single'])}, cextra={'mask': st.just(True)}), 5, 40)
    return one


def run_check(case):
    back, prec = case['back'], case.get('prec', 'double')
    case = {k: v for k, v in case.items() if k not in ('back', 'prec')}
    runs = []
    for b in ('', back):
        kw = {}
        if b:
            kw['optimization'] = b
        if not A.is_channel(case['solver']):
            kw['precision'] = prec
        tr = []
        sim = A.build(case, update=lambda context: tr.append(A.state(sim)), **kw)
        x0 = A.state(sim)
        sim.solve()
        runs.append((x0, tr, sim))
    (x0, ref, s0), (_, got, s1) = runs
    plain = s1.printed.count('not optimized')
    done = s0.printed.count('not optimized') - plain
    if case.get('integrator') == A.ADAPTIVE and prec == 'single':
        raise Discard()         # the error estimate is at rounding level: the step sizes need not agree
    if len(ref) != len(got):
        raise Violation('%s in %s: %d steps instead of %d' % (case['solver'], back, len(got), len(ref)))
    tol = {'double': 1e-10, 'single': 2e-4}[prec]
    if case.get('integrator') == A.ADAPTIVE:
        tol = 1e-7
    worst = 0.0
    for k, (a, b) in enumerate(zip(ref, got)):
        if not A.finite(a) or max(np.abs(v).max() for v in a.values()) > 1e3:
            break
        e = A.dist(a, b)
        worst = max(worst, e)
        if not e < tol:
            raise Violation('%s with %s in %s precision: step %d differs from the plain implementation by %.3g' % (case['solver'], back, prec, k + 1, e))
        for n in a:
            if a[n].dtype != b[n].dtype:
                raise Violation('%s with %s: %s has type %s instead of %s' % (case['solver'], back, n, b[n].dtype, a[n].dtype))
    return {'err': {prec: worst}, 'moved': A.moved(x0, ref[-1]) if ref else 0.0, 'kernels': done}


# -------------------------------------------------------------------- schemes
SCHEMES = ['RK4', 'ForwardEuler', 'AB2']


def scheme_strategy(tier):
    pairs = [(b, k, d) for b in BACK + ['plain'] for k in SCHEMES for d in ((4, 3) if b in ('cython', 'plain') else (4,))] + [('plain', 'project', 4), ('plain', 'project', 3)]
    return st.sampled_from(pairs).flatmap(lambda t: st.fixed_dictionaries({
        'back': st.just(t[0]), 'scheme': st.just(t[1]), 'precision': st.sampled_from(['double', 'double', 'single']),
        'shape': st.lists(st.integers(1, 6), min_size=t[2], max_size=t[2]), 'seed': st.integers(0, 10 ** 6), 'steps': st.integers(1, 4),
        'dt': gen.rnd(0.01, 0.3, 3), 'own': st.booleans()}))


class _Solver:
    """A right-hand side that depends on all of the state; the result goes in the given array or in another one."""
    def __init__(self, own, rng, cplx):
        self.own, self.cplx, self.w, self.calls = own, cplx, rng.standard_normal(2), 0
        self.other = None

    def f(self, u):
        u = u.astype(complex)
        return self.w[0] * np.roll(u, 1) * 1j - self.w[1] * u * np.abs(np.roll(u, 3)) - 0.3 * u

    def ComputeRHS(self, rhs, u, solver, **context):
        assert solver is self and context == {'a': 1}
        self.calls += 1
        rhs[...] = self.f(u)
        return rhs


def scheme_check(case):
    prec, shape = case['precision'], tuple(case['shape'])
    cplx, real = (np.complex128, np.float64) if prec == 'double' else (np.complex64, np.float32)
    dt = real(case['dt'])       # as the parameters hold it
    rng = np.random.Generator(np.random.PCG64(case['seed']))
    u = (rng.standard_normal(shape) + 1j * rng.standard_normal(shape)).astype(cplx)
    tol = 1e-13 if prec == 'double' else 2e-5
    if case['scheme'] == 'project':
        from spectralDNS.maths import project
        n = len(shape) - 1
        u = np.resize(u, (n,) + shape[1:]).copy()
        K = np.array(np.broadcast_arrays(*[rng.integers(-5, 6, m).reshape([-1 if j == i else 1 for j in range(n)]).astype(real) for i, m in enumerate(shape[1:])]))
        K2 = (K * K).sum(axis=0)
        ref = u.astype(complex) - (K * u).sum(axis=0) / np.where(K2 == 0, 1, K2) * K
        got = project(u, K, (K / np.where(K2 == 0, 1, K2)).astype(real))
        if got is not u or not np.abs(got - ref).max() < tol * 100 or not np.abs((K * got).sum(axis=0)).max() < tol * 1000:
            raise Violation('project (%s, shape %s) does not give the divergence-free part: off by %.3g' % (prec, shape, np.abs(got - ref).max()))
        return {'err': {prec: float(np.abs(got - ref).max())}, 'moved': float(np.abs(ref).max())}
    if case['back'] == 'plain':
        mod = importlib.import_module('spectralDNS.maths.integrators')
    else:
        mod = module(case['back'], prec)
    name = case['scheme'] + ('_2D' if len(shape) == 3 and case['back'] != 'plain' else '')
    step = getattr(mod, name, None)
    if step is None:
        raise Discard()         # the plain implementation stands in
    sol = _Solver(case['own'], rng, cplx)
    ref, last = u.astype(complex), None
    start = ref
    rhs, u1, u2 = np.zeros_like(u), u.copy(), u.copy()
    if not case['own']:
        rhs[:], u1[:], u2[:] = 3, 4j, 5         # what the work arrays hold at first does not matter
    a, b = np.array([1 / 6, 1 / 3, 1 / 3, 1 / 6], dtype=real), np.array([0.5, 0.5, 1], dtype=real)
    worst = 0.0
    for k in range(case['steps']):
        f = sol.f
        if case['scheme'] == 'RK4':
            k1 = f(ref)
            k2 = f(ref + dt / 2 * k1)
            k3 = f(ref + dt / 2 * k2)
            k4 = f(ref + dt * k3)
            ref = ref + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
            out = step(u, u1, u2, rhs, a, b, dt, sol, {'a': 1})
        elif case['scheme'] == 'ForwardEuler':
            ref = ref + dt * f(ref)
            out = step(u, rhs, dt, sol, {'a': 1})
        else:
            now = f(ref)
            ref = ref + dt * (now if last is None else 1.5 * now - 0.5 * last)
            last = now
            out = step(u, u1, rhs, dt, k, sol, {'a': 1})
        if not np.all(np.isfinite(ref)) or np.abs(ref).max() > 1e3:
            break
        e = float(np.abs(u - ref).max()) / max(1.0, np.abs(ref).max() ** 2)
        worst = max(worst, e)
        where = '%s of %s (%s, shape %s), step %d' % (name, case['back'], prec, shape, k + 1)
        if not e < tol:
            raise Violation('%s: the state is off by %.3g' % (where, e))
        if out[0] is not u and not np.array_equal(out[0], u):
            raise Violation('%s: what is returned is not the state' % where)
        if abs(out[1] - dt) > 1e-6 or abs(out[2] - dt) > 1e-6:
            raise Violation('%s: returns the step sizes %s instead of %s' % (where, out[1:], dt))
    return {'err': {prec: worst}, 'moved': float(np.abs(ref - start).max())}


FACETS = [
    Facet('schemes', scheme_strategy, scheme_check, quick=800, thorough=30000, shards=2, tshards=2, nontrivial=lambda c, i: i['moved'] > 1e-3 and len(set(c['shape'])) > 1,
          rule='the fixed-step schemes of every back end, driven directly with a non-linear right-hand side, against the textbook formulas; also the projection; non-trivial = a change, on an anisotropic shape',
          classify=lambda c, i: [c['back'] + '/' + c['scheme'], c['precision'], 'rank %d' % len(c['shape'])]),
    Facet('kernels', kernel_strategy, kernel_check, quick=1200, thorough=60000, shards=3, tshards=3, nontrivial=lambda c, i: i['size'] > 0 and i['distinct'] > 1,
          rule='every kernel of every back end on random arrays of random shapes; non-trivial = a non-zero result on an anisotropic shape',
          classify=lambda c, i: [c['back'], c['precision'], c['kernel']]),
    Facet('trajectories', run_strategy, run_check, quick=240, thorough=8000, shards=5, tshards=5, nontrivial=lambda c, i: i['moved'] > 1e-7 and i['kernels'] > 0,
          rule='runs with a back end against plain runs; non-trivial = the solution moved and the back end replaced a function',
          classify=lambda c, i: [c['solver'], c['back'], c['back'] + '/' + c.get('integrator', 'channel'), c.get('prec', 'double')])]
