"""The two self-contained solvers against an independent solver of the same discretisation, and the framework."""
import ast
import io
import os
import re
import shutil
import subprocess
import sys
import tempfile

import numpy as np
from hypothesis import strategies as st

from .. import gen, mpi, periodic as P, refper as R
from ..core import REPO, Discard, Facet, Violation
from ..harness import quiet

SLOW = 4
TEARDOWN = mpi.teardown
ASSUMPTIONS = ['the C++ program takes its mesh size only: its problem is the Taylor-Green flow it starts from, and what is compared is every energy it prints; '
               'the constants and the initial flow of the Python script are replaced (by name, in its syntax tree)']
SCRIPT = os.path.join(REPO, 'spectralDNS3D_short.py')


class Problem:
    """Rotational form, RK4, modes with |k_i| < (2/3)(N/2 + 1) kept in the nonlinear term, lengths 2 pi."""

    def __init__(self, N, nu, dt, steps, u):
        self.g = g = R.Grid([N] * 3, [2 * np.pi] * 3, 'None')
        self.nu, self.dt = nu, dt
        k = R.index([N] * 3)
        self.keep = np.ones(g.K2.shape, dtype=bool)
        for a in k:
            self.keep &= np.broadcast_to(np.abs(a) < 2.0 / 3.0 * (N // 2 + 1), g.K2.shape)
        self.u, self.energies = u, []
        for _ in range(steps):
            self.step()
            self.energies.append(R.energy(g, self.u))

    def rhs(self, u):
        g = self.g
        f = np.where(self.keep, g.spec(np.cross(R.bwd(u, g.N), R.bwd(g.curl(u), g.N), axis=0)), 0)
        return g.project(f) - self.nu * g.K2 * u

    def step(self):
        u, h = self.u, self.dt
        a = self.rhs(u)
        b = self.rhs(u + 0.5 * h * a)
        c = self.rhs(u + 0.5 * h * b)
        d = self.rhs(u + h * c)
        self.u = u + h / 6 * (a + 2 * b + 2 * c + d)


def taylor_green(N):
    X = np.meshgrid(*[2 * np.pi * np.arange(N) / N] * 3, indexing='ij')
    u = np.array([np.sin(X[0]) * np.cos(X[1]) * np.cos(X[2]), -np.cos(X[0]) * np.sin(X[1]) * np.cos(X[2]), 0 * X[0]])
    return R.fwd(u, 3)


# ------------------------------------------------------------------- C++
BUILT = {}


def program():
    """The C++ program of the current tree, built the way cpp/CMakeLists.txt does."""
    if 'exe' not in BUILT:
        d = tempfile.mkdtemp(prefix='cpp-')
        env = {k: v for k, v in os.environ.items() if k not in ('CC', 'CXX')}
        env['FFTW3_INSTALL_DIR'] = '/usr'
        for cmd in (['cmake', os.path.join(REPO, 'cpp')], ['make']):
            r = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise RuntimeError('the C++ program does not build: ' + r.stdout[-1500:])
        BUILT['exe'] = os.path.join(d, 'spectralDNS')
    return BUILT['exe']


REF = {}


def reference(M):
    if M not in REF:
        N = 2 ** M
        REF[M] = Problem(N, 0.000625, 0.01, 10, taylor_green(N)).energies
    return REF[M]


def cpp_strategy(tier):
    return st.fixed_dictionaries({'M': st.integers(1, 5 if tier == 'quick' else 6), 'procs': st.integers(1, 8 if tier == 'quick' else 12)})


def cpp_check(case):
    env = mpi.clean_environment()
    want = reference(case['M'])
    try:
        r = subprocess.run(['mpirun', '--oversubscribe', '-np', str(case['procs']), program(), str(case['M'])], env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=100)
    except subprocess.TimeoutExpired:
        raise Violation('the C++ solver does not finish on 2^%d points, %d processes' % (case['M'], case['procs']))
    if r.returncode:
        raise Violation('the C++ solver ends with %d on 2^%d points, %d processes: %s' % (r.returncode, case['M'], case['procs'], r.stdout[-300:]))
    n = re.findall(r'^\s*N\s*=\s*(\d+)', r.stdout, re.M)
    if n and [int(x) for x in n] != [2 ** case['M']]:
        raise Violation('asked for 2^%d points the C++ solver reports %s' % (case['M'], n))
    got = [float(x) for x in re.findall(r'^\s*k\s*=\s*(\S+)', r.stdout, re.M)]
    goal = [e for i, e in enumerate(want) if i % 2] + want[-1:]
    if len(got) != len(goal):
        raise Violation('the C++ solver prints %d energies, expected %d' % (len(got), len(goal)))
    e = max(abs(a - b) for a, b in zip(got, goal)) if not any(np.isnan(got)) else np.inf
    if not e < 2e-13:
        raise Violation('2^%d points, %d processes: the energies of the C++ solver are %s; of the framework\'s discretisation %s (off by %.3g)' % (
            case['M'], case['procs'], got, goal, e))
    return {'err': {'energy': float(e)}, 'flow': want[-1]}


# ------------------------------------------------------------------- Python script
class Change(ast.NodeTransformer):
    """Other constants and another initial velocity, by name."""

    def __init__(self, values):
        self.values, self.done, self.velocity = dict(values), set(), 0

    def module(self, tree):
        last = None
        for i, node in enumerate(tree.body):
            if not isinstance(node, ast.Assign) or len(node.targets) != 1:
                continue
            t = node.targets[0]
            if isinstance(t, ast.Name) and t.id in self.values and t.id not in self.done:
                node.value = ast.Constant(self.values[t.id])
                self.done.add(t.id)
            if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == 'U':
                last = i
        if last is not None:
            tree.body.insert(last + 1, ast.parse('__start__(U)').body[0])
            self.velocity = 1
        ast.fix_missing_locations(tree)
        return tree


def script(case):
    """Run the script on this communicator; the flow it ends with."""
    from mpi4py import MPI
    rank, size = MPI.COMM_WORLD.Get_rank(), MPI.COMM_WORLD.Get_size()
    N = case['N']
    u = R.bwd(R.field([N] * 3, [2 * np.pi] * 3, case['u'], 3), [N] * 3) if case['u'] is not None else None
    m = N // size

    def start(U):
        if u is not None:
            U[:] = u[:, rank * m:(rank + 1) * m]
    change = Change({'nu': case['nu'], 'dt': case['dt'], 'T': case['dt'] * case['steps'], 'N': N})
    with open(SCRIPT) as f:
        tree = change.module(ast.parse(f.read(), SCRIPT))
    names = {'__name__': '__main__', '__start__': start}
    old, sys.stdout = sys.stdout, io.StringIO()
    try:
        exec(compile(tree, SCRIPT, 'exec'), names)
    except AssertionError:
        pass                    # the energy of the flow written in the script
    finally:
        sys.stdout = old
    if change.done != {'nu', 'dt', 'T', 'N'} or not change.velocity or 'U_hat' not in names or 'U' not in names:
        return {'unknown': True}
    return {'U_hat': np.array(names['U_hat']) / N ** 3, 'U': np.array(names['U']), 't': float(names.get('t', np.nan)), 'tstep': int(names.get('tstep', -1))}


def as_written():
    """When its constants cannot be replaced the script is run as it is: it knows the energy it should end with."""
    if 'plain' not in BUILT:
        r = subprocess.run([sys.executable, SCRIPT], env=mpi.clean_environment(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        BUILT['plain'] = (r.returncode, r.stdout[-500:])
    if BUILT['plain'][0]:
        raise Violation('the script fails as it is: %s' % BUILT['plain'][1])


def script_strategy(tier):
    procs = [1, 1, 2, 4] if tier == 'quick' else [1, 1, 2, 3, 4, 6, 8]
    sizes = (4, 6, 8, 12, 16) if tier == 'quick' else (4, 6, 8, 10, 12, 16, 18, 24)
    return st.fixed_dictionaries({'procs': st.sampled_from(procs), 'N': st.sampled_from(sizes), 'nu': gen.logu(1e-4, 0.3), 'cfl': gen.rnd(0.02, 0.3, 2),
                                  'steps': st.integers(1, 5), 'u': gen.fields(3, 3, amp=(0.1, 1.5))}).map(divisible)


def divisible(case):
    while case['N'] % case['procs']:
        case = dict(case, procs=case['procs'] - 1)
    return case


def step_of(case, g, u):
    return float('%.3g' % P.stable_dt(g, u, case, case['cfl'], 'NS'))


def script_check(case):
    N = case['N']
    g = R.Grid([N] * 3, [2 * np.pi] * 3, 'None')
    u = R.field([N] * 3, [2 * np.pi] * 3, case['u'], 3)
    dt = step_of(case, g, u)
    want = Problem(N, case['nu'], dt, case['steps'], u)
    run = dict(case, dt=dt, call='pbt.checks.C28:script')
    if case['procs'] == 1:
        outs = [script(run)]
    else:
        outs, _ = mpi.run(case['procs'], run)
    for o in outs:
        if o is None:
            raise Violation('the script does not finish on %d processes' % case['procs'])
        if 'error' in o:
            raise Violation('the script fails on %d processes: %s' % (case['procs'], o['error']))
    if any('unknown' in o for o in outs):
        as_written()
        raise Discard('the script has other names')
    got = np.concatenate([o['U_hat'] for o in outs], 2)
    U = np.concatenate([o['U'] for o in outs], 1)
    for o in outs:
        if o['tstep'] != case['steps'] or abs(o['t'] - dt * case['steps']) > 1e-12:
            raise Violation('the script ends at step %s, time %s; expected %s, %s' % (o['tstep'], o['t'], case['steps'], dt * case['steps']))
    s = 1e-3 + np.abs(want.u).max()
    if got.shape != want.u.shape:
        raise Violation('the script has %s coefficients, expected %s' % (got.shape, want.u.shape))
    e = float(np.abs(got - want.u).max() / s)
    if not e < 1e-12:
        raise Violation('%d^3 points, %d processes: the flow of the script differs by %.3g' % (N, case['procs'], e))
    f = R.bwd(want.u, [N] * 3)
    e2 = float(np.abs(U - f).max() / (1e-3 + np.abs(f).max()))
    if not e2 < 1e-11:
        raise Violation('%d^3 points, %d processes: the velocity of the script differs by %.3g' % (N, case['procs'], e2))
    return {'err': {'coefficients': e, 'velocity': e2}, 'moved': float(np.abs(want.u - u).max())}


# ------------------------------------------------------------------- framework
def framework_strategy(tier):
    return st.fixed_dictionaries({'nu': gen.logu(1e-3, 0.3), 'steps': st.integers(1, 4), 'cfl': gen.rnd(0.02, 0.15, 2), 'mask': st.booleans(),
                                  'convection': st.sampled_from(['Vortex', 'Standard', 'Divergence', 'Skewed']), 'seed': st.integers(0, 10 ** 6), 'amp': gen.rnd(0.2, 1.0, 2)})


def framework_check(case):
    """A resolved flow: the truncations of the two no longer matter."""
    N = 24
    spec = {'seed': case['seed'], 'amp': case['amp'], 'kmax': 1, 'slope': 0, 'mean': [0.0] * 3}
    c = dict(case, N=[N] * 3, L=[2 * np.pi] * 3, dealias='2/3-rule', u=spec, procs=1, integrator='RK4')
    g = R.Grid([N] * 3, c['L'], 'None')
    u = R.field(c['N'], c['L'], spec, 3)
    dt = step_of(c, g, u)
    sim = P.make('NS', {k: v for k, v in c.items() if k != 'procs'}, u, dt=dt, T=dt * c['steps'])
    sim.solve()
    got = script(dict(c, N=N, dt=dt))
    if 'unknown' in got:
        as_written()
        raise Discard('the script has other names')
    a, b = P.state(sim), got['U_hat']
    e = float(np.abs(a - b).max() / np.abs(a).max())
    if not e < 1e-8:
        raise Violation('the script and the framework differ by %.3g on a resolved flow' % e)
    return {'err': {'framework': e}, 'moved': float(np.abs(a - u).max())}


# ------------------------------------------------------------------- the demonstration that needs shenfun only
SHENFUN = os.path.join(REPO, 'demo', 'NS_shenfun.py')


def shenfun_strategy(tier):
    size = st.sampled_from([4, 6, 8, 10, 12, 16])
    return st.fixed_dictionaries({'N': st.tuples(size, size, size).map(list), 'nu': gen.logu(1e-4, 0.3), 'cfl': gen.rnd(0.02, 0.3, 2), 'steps': st.integers(1, 5),
                                  'u': gen.fields(3, 3, amp=(0.1, 1.5))})


def shenfun_check(case):
    """Rotational form, RK4, no dealiasing, wavenumber zero for the Nyquist frequency of each direction."""
    N, L = case['N'], [2 * np.pi] * 3
    g = R.Grid(N, L, 'None')
    u0 = R.field(N, L, case['u'], 3)
    nu, dt = case['nu'], step_of(case, g, u0)
    change = Change({'nu': nu, 'dt': dt, 'end_time': dt * case['steps']})

    def start(U):
        U[:] = R.bwd(u0, N)
    with open(SHENFUN) as f:
        tree = change.module(ast.parse(f.read(), SHENFUN))
    size = 0
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id == 'N':
            node.value, size = ast.parse(repr(tuple(N)), mode='eval').body, 1
    names = {'__name__': '__main__', '__start__': start}
    with quiet():
        try:
            exec(compile(ast.fix_missing_locations(tree), SHENFUN, 'exec'), names)
        except AssertionError:
            pass                    # the energy of the flow written in the program
    if change.done != {'nu', 'dt', 'end_time'} or not change.velocity or not size or 'U_hat' not in names or 'U' not in names:
        raise Discard('the program has other names')
    k = [np.where(2 * np.abs(i) == n, 0, i) for i, n in zip(R.index(N), N)]
    K = np.array(R.full(k, N)).astype(float)
    K2 = (K ** 2).sum(0)
    one = np.where(K2 == 0, 1, K2)

    def rhs(u):
        w = 1j * np.array([K[1] * u[2] - K[2] * u[1], K[2] * u[0] - K[0] * u[2], K[0] * u[1] - K[1] * u[0]])
        f = R.fwd(np.cross(R.bwd(u, N), R.bwd(w, N), axis=0), 3)
        return f - K * ((K * f).sum(0) / one) - nu * K2 * u
    u = R.fwd(R.bwd(u0, N), 3)
    for _ in range(case['steps']):
        a = rhs(u)
        b = rhs(u + 0.5 * dt * a)
        c = rhs(u + 0.5 * dt * b)
        u = u + dt / 6 * (a + 2 * b + 2 * c + rhs(u + dt * c))
    got = np.array(names['U'])
    f = R.bwd(u, N)
    e = float(np.abs(got - f).max() / (1e-3 + np.abs(f).max()))
    if not e < 1e-11:
        raise Violation('demo/NS_shenfun.py on %s points: the velocity differs by %.3g' % (N, e))
    return {'err': {'velocity': e}, 'moved': float(np.abs(u - u0).max())}


FACETS = [
    Facet('program', cpp_strategy, cpp_check, quick=40, thorough=400, shards=2, tshards=2, nontrivial=lambda c, i: i['flow'] > 1e-3,
          rule='mesh size and number of processes of the C++ program; non-trivial = the mesh resolves the flow (not the 2^3 one)',
          fixed=[{'M': 3, 'procs': 3}, {'M': 4, 'procs': 5}, {'M': 2, 'procs': 7}, {'M': 5, 'procs': 1}],
          classify=lambda c, i: ['2^%d points' % c['M'], '%d processes' % c['procs']]),
    Facet('script', script_strategy, script_check, quick=120, thorough=6000, shards=3, tshards=4, nontrivial=lambda c, i: i['moved'] > 1e-5,
          rule='the script with generated constants and initial flows on one or more processes; non-trivial = the flow changes by more than 1e-5',
          classify=lambda c, i: ['%d^3 points' % c['N'], '%d processes' % c['procs']]),
    Facet('framework', framework_strategy, framework_check, quick=20, thorough=800, shards=1, tshards=4, nontrivial=lambda c, i: i['moved'] > 1e-5,
          rule='the script against the Navier-Stokes solver of the framework', classify=lambda c, i: [c['convection']]),
    Facet('shenfun', shenfun_strategy, shenfun_check, quick=40, thorough=3000, shards=1, tshards=3, nontrivial=lambda c, i: i['moved'] > 1e-5,
          rule='the solver of demo/NS_shenfun.py with generated constants and initial flows; non-trivial = the flow changes by more than 1e-5')]
