"""Volume integration over the channel."""
import numpy as np
from hypothesis import strategies as st

from .. import channel as H, gen, refchan
from ..core import Discard, Facet, Violation
from ..harness import Sim, rng

C = np.polynomial.chebyshev
ASSUMPTIONS = ['one process (with several the result is on the first; see C14)']


def strategy(tier):
    top = 40 if tier == 'quick' else 120
    return st.fixed_dictionaries({
        'n': st.integers(4, top), 'm': st.tuples(st.integers(2, 9), st.integers(1, 5).map(lambda k: 2 * k)).map(list), 'axis': st.integers(0, 2),
        'quad': st.sampled_from(['GC', 'GL', 'GC', 'GL', 'LG', 'LL']), 'bc': st.booleans(), 'L': st.tuples(gen.rnd(0.5, 12, 3), gen.rnd(0.5, 12, 3)).map(list),
        'degree': st.integers(0, top), 'seed': st.integers(0, 10 ** 6), 'kind': st.sampled_from(['random', 'random', 'single', 'decay'])})


def check(case):
    from mpi4py import MPI
    from shenfun import FunctionSpace, TensorProductSpace
    from spectralDNS import config
    from spectralDNS.utilities import dx
    n, axis = case['n'], case['axis']
    fam = 'C' if case['quad'] in ('GC', 'GL') else 'L'
    quad = {'LL': 'GL'}.get(case['quad'], case['quad'])
    kw = {'bc': (0, 0)} if case['bc'] else {}
    bases = [FunctionSpace(case['m'][0], 'F', domain=(0, case['L'][0]), dtype='D'), FunctionSpace(case['m'][1], 'F', domain=(0, case['L'][1]), dtype='d')]
    bases.insert(axis, FunctionSpace(n, fam, quad=quad, **kw))
    T = TensorProductSpace(MPI.COMM_SELF, bases) if axis != 2 else \
        TensorProductSpace(MPI.COMM_SELF, bases, axes=(2, 0, 1))
    N, L = list(case['m']), list(case['L'])
    N.insert(axis, n)
    L.insert(axis, 2.0)
    config.params.N, config.params.L = N, L
    g = rng(case['seed'])
    deg = min(case['degree'], n - 1)
    c = g.standard_normal((deg + 1,) + tuple(case['m']))
    if case['kind'] == 'single':
        c[:-1] = 0
    elif case['kind'] == 'decay':
        c *= np.exp(-0.3 * np.arange(deg + 1))[:, None, None]
    x = np.asarray(T.mesh()[axis]).ravel()
    u = np.moveaxis(np.tensordot(C.chebvander(x, deg), c, 1), 0, axis)
    keep = u.copy()
    got = dx(u, T, axis=axis)
    if not np.array_equal(u, keep):
        raise Violation('the integration changed its argument')
    k = np.arange(deg + 1)
    w = np.where(k % 2 == 0, 2.0 / (1.0 - np.where(k % 2 == 0, k, 0) ** 2.0), 0.0)
    want = float((c.mean((1, 2)) @ w) * case['L'][0] * case['L'][1])
    vol = 2 * case['L'][0] * case['L'][1]
    e = abs(float(got) - want) / (np.abs(c).sum(0).max() * vol)
    if not e < 1e-11:
        raise Violation('the integral of a polynomial of degree %d on %d points (%s, axis %d) is %.14g, exactly %.14g' % (deg, n, case['quad'], axis, got, want))
    return {'err': {'integral': float(e)}, 'size': abs(want) / vol}


def flow_strategy(tier):
    return H.cases(tier, solvers=('KMM', 'KMMr', 'Coupled', 'KMMRK3', 'KMM_RB'), n0=(14, 16, 20), n1=(4, 6), extra={'kappa': st.just(0.1)})


def flow_check(case):
    """Mean flow and kinetic energy of a solver's own fields on its own spaces."""
    ch = refchan.Chan(case['N'], case['L'], case['quad'])
    u = ch.state(dict(case['u'], modes=4))
    sim = H.make(case['solver'], case, ch.phys(u))
    axis = 2 if case['solver'] == 'KMMr' else 0
    from spectralDNS.utilities import dx
    U = np.array(sim.solver.get_velocity(**sim.context))
    err = 0.0
    names = [1, 2, 0] if axis == 2 else [0, 1, 2]
    p = ch.phys(u)
    V = np.linalg.inv(ch.V)
    for i, j in enumerate(names):
        for what, f, h in (('velocity', U[i], p[j]), ('squared velocity', U[i] ** 2, p[j] ** 2)):
            got = float(dx(f, sim.context.FST, axis=axis))
            c = np.tensordot(V, h.mean((1, 2)), 1)
            want = ch.integral(c.reshape(-1, 1, 1).astype(complex))
            e = abs(got - want) / (np.abs(h).max() * 2 * case['L'][1] * case['L'][2] + 1e-9)
            err = max(err, float(e))
            if not e < 1e-10:
                raise Violation('%s: the integral of %s %d is %.14g, exactly %.14g' % (case['solver'], what, j, got, want))
    return {'err': {'integral': err}, 'size': float(np.abs(p).max())}


FACETS = [
    Facet('polynomials', strategy, check, quick=800, thorough=40000, shards=3, tshards=4, nontrivial=lambda c, i: i['size'] > 1e-6,
          rule='random resolved polynomials; non-trivial = the mean of the field exceeds 1e-6',
          classify=lambda c, i: ['axis%d' % c['axis'], c['quad'], 'odd' if c['n'] % 2 else 'even', 'bc' if c['bc'] else 'free']),
    Facet('solvers', flow_strategy, flow_check, quick=60, thorough=3000, shards=3, tshards=4, nontrivial=lambda c, i: i['size'] > 1e-3,
          rule='integrals of fields of the channel solvers on their own spaces', classify=lambda c, i: [c['solver'], c['quad']])]
