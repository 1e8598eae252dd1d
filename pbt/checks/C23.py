"""Wall-normal operators against dense linear algebra."""
import numpy as np
from hypothesis import strategies as st

from .. import channel as H, gen, refchan
from ..core import Discard, Facet, Violation
from ..harness import quiet, rng

C = np.polynomial.chebyshev
ASSUMPTIONS = ['the dense matrices are the quadrature inner products on the mesh of the solvers',
               'the biharmonic solver of the transform library needs an even number of wall-normal points, its products fourteen']
DATA = st.sampled_from(['normal', 'normal', 'unit', 'decay', 'wide', 'zero'])


def fill(shape, seed, kind, axis=0):
    g = rng(seed)
    a = g.standard_normal(shape) + 1j * g.standard_normal(shape)
    if kind == 'unit':
        flat = np.zeros(int(np.prod(shape)), dtype=complex)
        flat[g.integers(flat.size)] = 1 + 0.5j
        a = flat.reshape(shape)
    elif kind == 'decay':
        n = shape[axis]
        a = a * np.exp(-0.7 * np.arange(n)).reshape([-1 if i == axis else 1 for i in range(len(shape))])
    elif kind == 'wide':
        a = a * 10.0 ** g.integers(-6, 7, shape)
    elif kind == 'zero':
        a = a * (g.random(shape) < 0.15)
    return a


def along(op, a, axis):
    return np.moveaxis(np.tensordot(op, np.moveaxis(a, axis, 0), 1), 0, axis)


def compare(got, want, scale, what, tol=1e-11):
    e = float(np.abs(got - want).max() / scale) if got.size else 0.0
    if not e < tol:
        raise Violation('%s differs from dense linear algebra by %.3g of its size' % (what, e))
    return e


def spot(n, m, axis):
    s = list(m)
    s.insert(axis, n)
    return tuple(s)


# ------------------------------------------------------------------------- Chebyshev derivative of Dirichlet functions
def der_strategy(tier):
    return st.fixed_dictionaries({'n': st.integers(5, 40 if tier == 'quick' else 130), 'm': st.tuples(st.integers(1, 5), st.integers(1, 5)).map(list),
                                  'axis': st.integers(0, 2), 'seed': st.integers(0, 10 ** 6), 'kind': DATA, 'junk': st.booleans()})


def der_check(case):
    from spectralDNS.shen import LUsolve
    n, axis = case['n'], case['axis']
    sh = spot(n, case['m'], axis)
    v, w = fill(sh, case['seed'], case['kind'], axis), fill(sh, case['seed'] + 1, case['kind'], axis)
    top = [slice(None)] * 3
    top[axis] = slice(n - 2, None)
    if not case['junk']:
        v[tuple(top)] = w[tuple(top)] = 0
    bv, bw = fill(sh, 5, 'normal'), fill(sh, 6, 'normal')        # the output is overwritten
    keep = v.copy(), w.copy()
    LUsolve.Mult_CTD_3D_ptr(n, v, w, bv, bw, axis)
    if not (np.array_equal(v, keep[0]) and np.array_equal(w, keep[1])):
        raise Violation('the derivative kernel changed its input')
    B = refchan.dirichlet(n)
    op = refchan.derivative(n) @ B
    low = [slice(None)] * 3
    low[axis] = slice(0, n - 2)
    err = {}
    for name, x, y in (('first', v, bv), ('second', w, bw)):
        want = along(op, x[tuple(low)], axis)
        scale = np.abs(along(np.abs(op), np.abs(x[tuple(low)]), axis)).max() + 1e-300
        err[name] = compare(y, want, scale, 'the derivative of the %s component along axis %d (N=%d)' % (name, axis, n))
    return {'err': err, 'size': float(np.abs(v[tuple(low)]).max())}


# ------------------------------------------------------------------------- divergence tested with the Neumann basis
def div_strategy(tier):
    return st.fixed_dictionaries({'n': st.integers(7, 40 if tier == 'quick' else 130), 'm': st.tuples(st.integers(1, 4), st.integers(1, 4)).map(list),
                                  'seed': st.integers(0, 10 ** 6), 'kind': DATA, 'flat': st.booleans()})


def div_check(case):
    from spectralDNS.shen import LUsolve
    n = case['n']
    sh = (n - 2,) + tuple(case['m'])
    u, v, w = (fill(sh, case['seed'] + i, case['kind']) for i in range(3))
    g = rng(case['seed'] + 9)
    m, q = np.round(3 * g.standard_normal(case['m']), 2), np.round(3 * g.standard_normal(case['m']), 2)
    b = np.zeros((n - 3,) + tuple(case['m']), dtype=complex)
    if case['flat']:
        m, q = np.full_like(m, m[0, 0]), np.full_like(q, q[0, 0])
        for i in range(sh[1]):
            for j in range(sh[2]):
                LUsolve.Mult_Div_1D(n, m[i, j], q[i, j], u[:, i, j].copy(), v[:, i, j].copy(), w[:, i, j].copy(), b[:, i, j])
    else:
        LUsolve.Mult_Div_3D(n, m, q, u, v, w, b)
    x, wt = refchan.points(n + 4, 'GC')                # exact for these products
    V = C.chebvander(x, n)
    k = np.arange(1, n - 2)
    psi = V[:, k] - V[:, k + 2] * (k / (k + 2.0)) ** 2
    phi = C.chebvander(x, n - 1) @ refchan.dirichlet(n)
    dphi = C.chebvander(x, n - 1) @ refchan.derivative(n) @ refchan.dirichlet(n)
    A, B = (psi.T * wt) @ dphi, (psi.T * wt) @ phi
    want = np.tensordot(A, u, 1) + 1j * np.tensordot(B, m * v + q * w, 1)
    scale = (np.tensordot(abs(A), abs(u), 1) + np.tensordot(abs(B), abs(m * v) + abs(q * w), 1)).max() + 1e-300
    e = compare(b[:n - 3], want, scale, 'the tested divergence (N=%d)' % n)
    return {'err': {'divergence': e}, 'size': float(np.abs(u).max())}


# ------------------------------------------------------------------------- matrix-vector products with variable coefficients
def mv_strategy(tier):
    return st.fixed_dictionaries({'kind': st.sampled_from(['helmholtz', 'biharmonic']), 'n': st.integers(8, 40 if tier == 'quick' else 100),
                                  'm': st.tuples(st.integers(1, 5), st.integers(1, 5)).map(list), 'axis': st.integers(0, 2),
                                  'quad': st.sampled_from(['GC', 'GL']), 'seed': st.integers(0, 10 ** 6), 'data': DATA,
                                  'scalar': st.booleans(), 'a0': gen.rnd(-2, 2, 2)}).map(lambda c: dict(c, n=max(c['n'], 14)))


def dense(n, quad):
    ch = refchan.Chan([n, 4, 4], [2, 1, 1], quad)
    D2 = ch.D @ ch.D
    d, b = ch.SD.b, ch.SB.b
    return {'A': ch.ip(d, D2 @ d), 'B': ch.ip(d, d), 'S': ch.ip(b, D2 @ D2 @ b), 'AB': ch.ip(b, D2 @ b), 'BB': ch.ip(b, b)}


def mv_check(case):
    from spectralDNS.shen.Matrices import BiharmonicCoeff, HelmholtzCoeff
    n, axis = case['n'], case['axis']
    sh = spot(n, case['m'], axis)
    one = spot(1, case['m'], axis)
    g = rng(case['seed'] + 3)
    v = fill(sh, case['seed'], case['data'], axis)
    bi = case['kind'] == 'biharmonic'
    dof = n - 4 if bi else n - 2
    low = [slice(None)] * 3
    low[axis] = slice(0, dof)
    low = tuple(low)
    alfa = g.standard_normal(one)
    beta = 30 * g.standard_normal(one)
    M = dense(n, case['quad'])
    c = fill(sh, 7, 'normal')
    keep = v.copy()
    a = np.array(v)
    if bi:
        op = BiharmonicCoeff(n, case['a0'], alfa, beta, axis, case['quad'])
        c = op.matvec(v, c)
        parts = [(case['a0'], M['S']), (alfa, M['AB']), (beta, M['BB'])]
    else:
        al = case['a0'] if case['scalar'] else alfa
        op = HelmholtzCoeff(n, al, beta, axis, case['quad'])
        c = op.matvec(v, c)
        parts = [(al, M['A']), (beta, M['B'])]
    if not np.array_equal(keep, v):
        raise Violation('the %s product changed its input' % case['kind'])
    want = sum(k * along(m, a[low], axis) for k, m in parts)
    scale = sum(np.abs(k) * along(np.abs(m), np.abs(a[low]), axis) for k, m in parts).max() + 1e-300
    e = compare(np.asarray(c)[low], want, scale, 'the %s product along axis %d (N=%d, %s)' % (case['kind'], axis, n, case['quad']), 1e-10)
    rest = np.array(c)
    rest[low] = 0
    if np.abs(rest).max() > 0:
        raise Violation('the %s product left something in the rows of the boundary conditions' % case['kind'])
    return {'err': {'product': e}, 'size': float(np.abs(a[low]).max())}


# ------------------------------------------------------------------------- solvers of the channel contexts
def la_strategy(tier):
    return H.cases(tier, solvers=('KMM', 'KMMRK3', 'KMMr'), n0=(14, 16, 20, 24, 32), n1=(4, 6), nus=(1e-4, 2.0), dts=(1e-5, 0.5),
                   extra={'data': DATA, 'steps': st.just(1)})


def la_check(case):
    ch = refchan.Chan(case['N'], case['L'], case['quad'])
    u = ch.phys(ch.state(dict(case['u'], without=['u', 'g', 'mv', 'mw'])))
    sim = H.make(case['solver'], case, u)
    c, n = sim.context, case['N'][0]
    nu, dt = case['nu'], float(case['dt'])
    axis = 2 if case['solver'] == 'KMMr' else 0
    M = dense(n, case['quad'])
    K2 = np.array(np.broadcast_to(c.K2, c.g.shape), dtype=float)
    K2w = np.moveaxis(K2, axis, 0)[0]
    rk = case['solver'] == 'KMMRK3'
    err = {}
    fr = np.array([8 / 15., 5 / 12. - 17 / 60., 3 / 4. - 5 / 12.]) if rk else [1.0]
    for i, f in enumerate(fr):
        pick = lambda x: x[i] if rk else x
        h = f * dt
        for name, solver, dof, mats in (
                ('HelmholtzSolverG', pick(c.la.HelmholtzSolverG), n - 2, [(-1.0 + 0 * K2w, M['A']), (K2w + 2 / nu / h, M['B'])]),
                ('BiharmonicSolverU', pick(c.la.BiharmonicSolverU), n - 4,
                 [(-nu * h / 2 + 0 * K2w, M['S']), (1 + nu * h * K2w, M['AB']), (-(K2w + nu * h / 2 * K2w ** 2), M['BB'])])):
            a = fill(c.g.shape, case['u']['seed'] + i, case['data'] if case['data'] not in ('wide', 'zero') else 'normal', axis)
            aw = np.moveaxis(a, axis, 0).copy()
            aw[dof:] = 0
            rhs = sum(k * np.tensordot(m, aw[:dof], 1) for k, m in mats)
            full = np.zeros_like(aw)
            full[:dof] = rhs
            x = np.zeros(c.g.shape, dtype=complex)
            b = np.ascontiguousarray(np.moveaxis(full, 0, axis))
            x = np.array(solver(b, x))
            xw = np.moveaxis(x, axis, 0)[:dof]
            # residual, relative to the size of the terms
            res = sum(k * np.tensordot(m, xw, 1) for k, m in mats) - rhs
            size = sum(np.abs(k) * np.tensordot(np.abs(m), np.abs(xw), 1) for k, m in mats)
            e = float((np.abs(res).max(0) / (size.max(0) + np.abs(rhs).max(0) + 1e-300)).max())
            err[name] = max(err.get(name, 0), e)
            if not e < 1e-9:
                raise Violation('%s of %s leaves a residual of %.3g (substep %d)' % (name, case['solver'], e, i))
    return {'err': err, 'size': 1.0}


big = lambda c, i: i['size'] > 0
FACETS = [
    Facet('derivative', der_strategy, der_check, quick=700, thorough=60000, shards=2, tshards=4, nontrivial=big,
          rule='Chebyshev derivative kernel on random coefficients, sizes and axes; non-trivial = not all zero',
          classify=lambda c, i: ['axis%d' % c['axis'], 'odd' if c['n'] % 2 else 'even', c['kind']]),
    Facet('divergence', div_strategy, div_check, quick=500, thorough=30000, shards=2, tshards=4, nontrivial=big,
          rule='divergence kernels on random coefficients; non-trivial = not all zero',
          classify=lambda c, i: ['1d' if c['flat'] else '3d', 'odd' if c['n'] % 2 else 'even']),
    Facet('products', mv_strategy, mv_check, quick=400, thorough=20000, shards=2, tshards=4, nontrivial=big,
          rule='Helmholtz and biharmonic products with random coefficient arrays; non-trivial = not all zero',
          classify=lambda c, i: [c['kind'], 'axis%d' % c['axis'], c['quad'], 'odd' if c['n'] % 2 else 'even']),
    Facet('solves', la_strategy, la_check, quick=60, thorough=3000, shards=3, tshards=4, nontrivial=big,
          rule='linear solvers of the channel contexts on right-hand sides of random solutions', classify=lambda c, i: [c['solver'], c['quad']])]
