"""Runs of any solver of the framework from a generated case."""
import functools
import json

import numpy as np

from . import channel as H, periodic as P, refchan, refper as R
from .core import Violation, canon

PERIODIC = P.SOLVERS
CHANNEL = H.CHANNEL
CHEAP_CHANNEL = ['KMM', 'KMMRK3', 'KMMr', 'KMM_RB', 'KMMRK3_RB']
FIXED = ['RK4', 'ForwardEuler', 'AB2', 'BS5_fixed']
ADAPTIVE = 'BS5_adaptive'
PRIMARY = {'NS': ['U_hat'], 'NS2D': ['U_hat'], 'VV': ['W_hat'], 'MHD': ['UB_hat'], 'Bq2D': ['Ur_hat'],
           'KMM': ['U_hat', 'g'], 'KMMRK3': ['U_hat', 'g'], 'KMMr': ['U_hat', 'g'],
           'KMM_RB': ['U_hat', 'g', 'phi_hat'], 'KMMRK3_RB': ['U_hat', 'g', 'phi_hat'],
           'Coupled': ['UP_hat'], 'CoupledRK3': ['UP_hat']}


def is_channel(solver):
    return solver in CHANNEL


def cases(tier, periodic=PERIODIC, channel=CHEAP_CHANNEL, integrators=tuple(FIXED), steps=(1, 6), extra=None,
          channel_weight=1, pextra=None, cextra=None, small=True, lo=0.01, hi=0.25, share=True):
    from hypothesis import strategies as st
    from . import gen
    pe = {'integrator': st.sampled_from(list(integrators)), 'cfl': gen.rnd(lo, hi, 3),
          'steps': st.integers(*steps), 'mask': st.sampled_from([True, True, False])}
    pe.update(extra or {})
    pe.update(pextra or {})
    sizes3 = (4, 6, 8) if small else (4, 6, 8, 10, 12)
    options = []
    # every shard has its own mix of solvers; half of the cases (or the given weight) are periodic
    mine = gen.share(list(periodic) + list(channel) * channel_weight) if share else list(periodic) + list(channel)
    periodic, channel = [x for x in mine if x in PERIODIC], [x for x in mine if x in CHANNEL]
    if periodic:
        options += [P.cases(tier, sizes3=sizes3, solvers=list(periodic), extra=pe, share=False)] * len(periodic)
    if channel:
        ce = {'steps': st.integers(*steps), 'kappa': gen.logu(1e-2, 0.5), 'phi': st.integers(0, 10 ** 6),
              'force': st.lists(gen.rnd(-1, 1, 2), min_size=1, max_size=3)}
        ce.update(extra or {})
        ce.update(cextra or {})
        options += [H.cases(tier, solvers=list(channel), n0=(14, 16), n1=(4, 6, 8), dts=(1e-3, 0.02), amp=(0.05, 1.0),
                            nus=(5e-3, 0.3), extra=ce, share=False)] * len(channel)
    return st.one_of(*options)


def stretch(strategy, hi, cap, every=12):
    """One case in `every` gets a long history: more steps than hi (up to cap), of a smaller size, in the same total time."""
    from hypothesis import strategies as st

    def apply(t):
        case, k, n, r = t
        if k != every - 1:
            return case
        out = dict(case, steps=n)
        for key in ('cfl', 'dt'):
            if key in out:
                out[key] = float('%.4g' % (out[key] * hi / n))
        for key in ('cut', 'kill'):
            if out.get(key):
                out[key] = max(1, out[key] * n // hi + r % 5 - 2)
        if out.get('cuts') and all(isinstance(c, int) for c in out['cuts']):
            out['cuts'] = [max(1, c * n // hi + r % 5 - 2) for c in out['cuts']]
        if 'cadence' in out:
            out['cadence'] *= 1 + r % (n // hi)
        return out
    return st.tuples(strategy, st.integers(0, every - 1), st.integers(hi + 1, cap), st.integers(0, 1000)).map(apply)


@functools.lru_cache(maxsize=8)
def _chan_start(key):
    case = json.loads(key)
    ch = refchan.Chan(case['N'], case['L'], case['quad'], case['dealias'])
    u = ch.phys(ch.state(case['u']))
    return ch, u


def perturbation(case, ch):
    """A temperature with the wall values 1 at -1 and 0 at 1."""
    rng = np.random.Generator(np.random.PCG64(case['phi']))
    x = np.asarray(ch.x)[:, None, None]
    N = case['N']
    y = (np.arange(N[1]) / N[1] * 2 * np.pi)[None, :, None]
    z = (np.arange(N[2]) / N[2] * 2 * np.pi)[None, None, :]
    phi = 0.5 * (1 - x) * np.ones((N[0], N[1], N[2]))
    for _ in range(3):
        a, b = rng.integers(0, 2, 2)
        c = rng.standard_normal(4)
        wall = (1 - x * x) * (c[0] + c[1] * x)
        phi = phi + 0.2 * wall * np.cos(a * y + b * z + 6 * c[2])
    return phi


def start(case, **kw):
    """The initial data of a case: (positional, keyword) arguments for the solver's make."""
    solver = case['solver']
    if is_channel(solver):
        key = canon({k: case[k] for k in ('N', 'L', 'quad', 'dealias', 'u')})
        ch, u = _chan_start(key)
        k = {'force': case.get('force', (0.0,))}
        if solver in H.RB:
            k['phi'] = perturbation(case, ch)
        return u, k
    return P.initial(solver, case), {}


def step_of(case):
    if is_channel(case['solver']):
        return float(case['dt'])
    if 'dt' in case:
        return float(case['dt'])
    g = R.Grid(case['N'], case['L'], case['dealias'])
    return float('%.3g' % P.stable_dt(g, P.initial(case['solver'], case), case, case['cfl'], case['solver']))


def build(case, **kw):
    """A started simulation: options override the case."""
    solver = case['solver']
    u, k = start(case)
    kw.setdefault('dt', step_of(case))
    kw.setdefault('T', kw['dt'] * case['steps'])
    k.update(kw)
    return (H if is_channel(solver) else P).make(solver, case, u, **k)


def flat(x):
    return np.array(x)


def state(sim):
    c = sim.context
    d = {k: flat(getattr(c, k)) for k in PRIMARY[sim.name]}
    return d


def dist(a, b):
    """Largest relative difference over the arrays of two states."""
    worst = 0.0
    for k in a:
        x, y = a[k], b[k]
        if x.shape != y.shape:
            raise Violation('%s has shape %s and %s' % (k, x.shape, y.shape))
        s = max(np.abs(x).max(), np.abs(y).max(), 1e-3)
        with np.errstate(invalid='ignore'):
            e = np.abs(x - y).max() / s
        if np.isnan(e):
            if np.array_equal(np.isnan(x), np.isnan(y)):
                continue
            e = np.inf
        worst = max(worst, float(e))
    return worst


def moved(a, b):
    return max(float(np.abs(a[k] - b[k]).max()) for k in a)


def finite(a):
    return all(np.isfinite(v).all() for v in a.values())
