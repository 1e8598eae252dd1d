"""One process and many: the same run."""
import os

import numpy as np
from hypothesis import strategies as st

from .. import anysim as A, files as F, gen, mpi
from ..core import Discard, Facet, Violation
from .C24 import ALL

WIDTH, SLOW = 2, 4
TEARDOWN = mpi.teardown
ASSUMPTIONS = ['all ranks run on one machine, over shared memory; message orderings are those the scheduler happens to produce (the ranks outnumber the cores)',
               'a rank that has not finished a sub-second case after 45 s, and again after 90 s, is taken not to finish']
PROCS = {'quick': [2, 3, 4, 5], 'thorough': [2, 3, 4, 5, 6, 7, 8, 9, 12]}


def fits(case):
    """The mesh can be divided over that many processes: every process gets a part of each distributed axis."""
    N, p = [int(n) for n in case['N']], case['procs']
    first = N[:-1] if not A.is_channel(case['solver']) else N[1:2]
    last = N[-1] // 2 + 1
    if case['decomposition'] == 'slab':
        # without padding the library transforms the Fourier axes in one go and then divides the last one
        return p <= min(first) and (p <= last or (len(N) == 3 and case['dealias'] == '3/2-rule'))
    return max(dims(p)) <= min(first + [last])


def dims(p):
    a = int(np.sqrt(p))
    while p % a:
        a -= 1
    return p // a, a


def shape(case):
    """Bring the case into the domain."""
    case = dict(case)
    if len(case['N']) == 2:
        case['decomposition'] = 'slab'
    while not fits(case):
        case['procs'] -= 1
    if case['ask'] and case['solver'] in A.CHANNEL:
        case['ask'] = {k: [q for q in v if q != 'pressure'] for k, v in case['ask'].items()}
    return case


def strategy(tier, **kw):
    i, k = gen.SHARD
    procs = [p for j, p in enumerate(PROCS[tier]) if (i + j) % 2]
    n = kw.pop('steps', (1, 5))
    extra = {'procs': st.sampled_from(procs), 'decomposition': st.sampled_from(['slab', 'pencil']),
             'ask': st.fixed_dictionaries({'end': st.lists(st.sampled_from(ALL), max_size=4, unique=True), '1': st.lists(st.sampled_from(ALL), max_size=2, unique=True),
                                          '2': st.lists(st.sampled_from(ALL), max_size=1)}),
             'write': st.sampled_from([0, 0, 1, 2]), 'checkpoint': st.sampled_from([0, 0, 1, 2]), 'k0': st.sampled_from([0, 0, 5, 98]),
             'slices': st.lists(st.tuples(st.integers(0, 2), st.integers(0, 20)).map(list), max_size=2),
             'kill': st.sampled_from([0, 0, 0, 1, 2]), 'killer': st.integers(0, 8), 'profile': st.sampled_from([0] * 9 + [1]),
             'optimization': st.sampled_from(['', '', 'cython'])}
    extra.update(kw)
    return A.stretch(A.cases(tier, channel=A.CHANNEL, steps=n, integrators=A.FIXED + [A.ADAPTIVE, A.ADAPTIVE], extra=extra,
                   pextra={'TOL': st.sampled_from([1e-9, 1e-7, 1e-4]), 'cfl': gen.logu(0.02, 3.0), 'source': st.one_of(st.none(), st.fixed_dictionaries({
                       'seed': st.integers(0, 10 ** 6), 'amp': gen.rnd(0.1, 1, 2), 'kmax': st.integers(1, 3), 'slope': st.just(1), 'mean': st.just([0.0] * 3)}))}), n[1], 25, 15).map(prepare)


def adaptive_strategy(tier):
    """Large first steps and tight tolerances: the ranks have to agree on what to reject."""
    i, k = gen.SHARD
    procs = [p for j, p in enumerate(PROCS[tier]) if (i + j) % 2]
    return A.cases(tier, channel=[], steps=(1, 2), integrators=[A.ADAPTIVE], lo=1.0, hi=4.0, extra={
        'procs': st.sampled_from(procs), 'decomposition': st.sampled_from(['slab', 'pencil']), 'TOL': gen.logu(1e-10, 1e-7), 'k0': st.sampled_from([0, 0, 3]),
        'ask': st.just({}), 'write': st.just(0), 'checkpoint': st.just(0), 'kill': st.just(0), 'killer': st.just(0), 'source': st.none()}).map(shape)


def prepare(case):
    if case['solver'] in ('NS2D', 'Bq2D', 'VV', 'MHD') or A.is_channel(case['solver']):
        case = dict(case, source=None)
    if case.get('optimization') == '':
        case = {k: v for k, v in case.items() if k != 'optimization'}
    if case.get('integrator') == A.ADAPTIVE:
        # steps the error control has to shorten
        case = dict(case, cfl=round(min(4.0, 3 * case['cfl']), 4), steps=min(2, case['steps']))
    return shape(case)


def failed(outs):
    return [o for o in outs if o is None or 'error' in o]


def serial(case, sub='one'):
    """The run on this process alone: its result and its files."""
    os.makedirs(sub, exist_ok=True)
    mpi.F_clean(sub)
    here = os.getcwd()
    os.chdir(sub)
    try:
        return mpi.execute(dict(case, profile=0)), os.path.join(here, sub)
    finally:
        os.chdir(here)


def compare(case, one, where1, outs, where2, tol):
    p = case['procs']
    tag = '%s on %d processes (%s)' % (case['solver'], p, case['decomposition'])
    for o in failed(outs):
        if o is not None and not o['code']:
            raise RuntimeError(o['trace'])
        if o is not None:
            raise Violation('%s: a rank raises %s' % (tag, o['error']))
    if any(o is None for o in outs):
        raise Violation('%s: %d ranks do not finish' % (tag, sum(o is None for o in outs)))
    for r, o in enumerate(outs):
        for k in ('tstep', 't', 'dt', 'killed', 'rhs', 'book'):
            if o[k] != outs[0][k]:
                raise Violation('%s: rank 0 and rank %d disagree on %s: %s, %s' % (tag, r, k, outs[0][k], o[k]))
    m = outs[0]
    for k in ('tstep', 'killed', 'rhs', 'kill left'):
        if m[k] != one[k]:
            raise Violation('%s: %s is %s; on one process %s' % (tag, k, m[k], one[k]))
    if len(m['book']) != len(one['book']):
        raise Violation('%s: %d steps; on one process %d' % (tag, len(m['book']), len(one['book'])))
    worst = 0.0
    for a, b in zip(m['book'] + [(m['tstep'], m['t'], m['dt'])], one['book'] + [(one['tstep'], one['t'], one['dt'])]):
        if a[0] != b[0] or abs(a[1] - b[1]) > tol * max(1, abs(b[1])) or abs(a[2] - b[2]) > 1e-6 * abs(b[2]):
            raise Violation('%s: (step, time, step size) %s; on one process %s' % (tag, a, b))

    def field(what, parts, ref, scale=0.0):
        got = mpi.assemble(parts, '%s: %s' % (tag, what))
        ref = ref[0]
        if got.shape != ref.shape:
            raise Violation('%s: %s has shape %s; on one process %s' % (tag, what, got.shape, ref.shape))
        s = 1e-3 + np.abs(ref).max() + scale
        e = float(np.abs(got - ref).max() / s)
        if not e < tol:
            raise Violation('%s: %s differs from that of one process by %.3g' % (tag, what, e))
        return e
    size = 0.0
    for k in one['state']:
        worst = max(worst, field(k, [o['state'][k] for o in outs], one['state'][k]))
        size = max(size, float(np.abs(one['state'][k][0]).max()))
    if any(set(o['queries']) != set(one['queries']) for o in outs):
        raise RuntimeError('the ranks answered different queries')
    for q in one['queries']:
        worst = max(worst, field(q, [o['queries'][q] for o in outs], one['queries'][q], size))
    for q in one['scalars']:
        a, b = m['scalars'][q], one['scalars'][q]
        if not abs(a - b) <= tol * (1e-3 + abs(b)):
            raise Violation('%s: the %s is %.15g; on one process %.15g' % (tag, q, a, b))
    stored = 0
    f1, f2 = [sorted(f for f in os.listdir(d) if f.endswith('.h5')) for d in (where1, where2)]
    if f1 != f2:
        raise Violation('%s: files %s; on one process %s' % (tag, f2, f1))
    for f in f1:
        d1, a1 = F.tree(os.path.join(where1, f))
        d2, a2 = F.tree(os.path.join(where2, f))
        if set(d1) != set(d2) or set(a1) != set(a2):
            raise Violation('%s: %s holds %s; on one process %s' % (tag, f, sorted(set(d2) ^ set(d1)), sorted(set(a1) ^ set(a2))))
        for k in a1:
            if abs(float(a1[k]) - float(a2[k])) > tol * max(1, abs(float(a1[k]))):
                raise Violation('%s: attribute %s of %s is %s; on one process %s' % (tag, k, f, a2[k], a1[k]))
        for k in d1:
            if d1[k].shape != d2[k].shape or d1[k].dtype != d2[k].dtype:
                raise Violation('%s: %s in %s has shape %s; on one process %s' % (tag, k, f, d2[k].shape, d1[k].shape))
            e = float(np.abs(d1[k] - d2[k]).max() / (1e-3 + np.abs(d1[k]).max())) if d1[k].size else 0.0
            if not e < tol * 10:
                raise Violation('%s: %s in %s differs from that of one process by %.3g' % (tag, k, f, e))
            stored += 1
    return worst, stored, size


def check(case):
    case = dict(case, step=A.step_of(case))
    one, where1 = serial(case)
    if not all(np.isfinite(v[0]).all() for v in one['state'].values()):
        raise Discard('blew up')
    if len(one['book']) > 150:
        raise Discard('the adaptive integrator takes many steps')
    outs, where2 = mpi.run(case['procs'], case)
    tol = 1e-9 if A.is_channel(case['solver']) else 1e-10
    worst, stored, size = compare(case, one, where1, outs, where2, tol)
    blocks = {tuple(map(tuple, o['state'][k][1])) for o in outs for k in o['state']}
    return {'err': {'fields': worst}, 'stored': stored, 'size': size, 'blocks': len(blocks), 'rejected': len(one['book']) and one['rhs'] > 7 * len(one['book']) + 1,
            'asked': len(one['queries'])}


FACETS = [
    Facet('processes', strategy, check, quick=160, thorough=9000, shards=6, tshards=12, nontrivial=lambda c, i: i['size'] > 1e-4 and i['blocks'] > 1,
          rule='runs on several processes against one; non-trivial = the solution is spread over several different blocks and is not zero',
          classify=lambda c, i: [c['solver'], '%d processes' % c['procs'], c['decomposition'], 'stored' if i['stored'] else 'nothing stored',
                                 'queries' if i['asked'] else 'no queries', 'rejections' if i['rejected'] else 'no rejections', 'killed' if c['kill'] else 'not killed']),
    Facet('rejections', adaptive_strategy, check, quick=40, thorough=2500, shards=2, tshards=5, nontrivial=lambda c, i: i['rejected'],
          rule='the adaptive integrator with steps that are too long; non-trivial = at least one step is rejected',
          classify=lambda c, i: [c['solver'], '%d processes' % c['procs'], 'rejections' if i['rejected'] else 'no rejections'])]
