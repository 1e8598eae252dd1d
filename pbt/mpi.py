"""The same run on one process and on several."""
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import time

import numpy as np

from . import anysim as A, channel as H, files as F
from .core import Violation
from .harness import local

RECYCLE = 120        # cases before a pool is replaced
PATIENCE = 45        # seconds a case may take


# ------------------------------------------------------------------- one rank
def pieces(sim, x, spectral):
    """This process's part of a distributed array and where it belongs."""
    c = sim.context
    space = c.T if 'T' in c else c.FCT
    return np.array(x), [(s.start, s.stop) for s in space.local_slice(spectral)], [int(n) for n in space.global_shape(spectral)]


def execute(case):
    """Run the case on this process's communicator; what it ends with."""
    from mpi4py import MPI
    from . import periodic as P
    from .checks.C24 import QUERIES, ask
    rank, size = MPI.COMM_WORLD.Get_rank(), MPI.COMM_WORLD.Get_size()
    s, n, dt = case['solver'], case['steps'], case['step']
    chan = A.is_channel(s)
    k0 = case.get('k0', 0)
    t0 = round(dt * k0, 9)
    T = t0 + dt * n
    book, rhs, wrong = [], [0], []
    out = {'queries': {}, 'scalars': {}}

    def update(context):
        sim.params  # the hook may look at anything
        k = int(sim.params.tstep)
        book.append((k, float(sim.params.t), float(sim.params.dt)))
        if case.get('kill') and k == k0 + case['kill'] and rank == case['killer'] % size:
            open('killspectraldns', 'w').close()
        for q in case['ask'].get(str(k - k0), []):
            if q in QUERIES[s]:
                out['queries']['%s at step %d' % (q, k)] = pieces(sim, ask(sim, q), False)

    kw = {}
    if case.get('write'):
        kw['write_result'] = case['write']
    if case.get('checkpoint'):
        kw['checkpoint'] = case['checkpoint']
    if case.get('profile'):
        kw['make_profile'] = 1
    sim = A.build(case, dt=dt, T=T, t=t0, tstep=k0, update=update, **kw)
    c = sim.context
    if case.get('restart'):
        F.restart(sim, case['restart'])
    if case.get('source') is not None and not chan:
        g = local(sim, P.R.field(case['N'], case['L'], case['source'], c.Source.shape[0]), c.Source)
        c.Source[:] = g
    if case.get('slices') and case.get('write'):
        data = c.hdf5file.results['data']
        key = sorted(data)[-1]
        arr = data[key][0]
        d, used = len(case['N']), []
        for axis, ix in case['slices']:
            sl = [slice(None)] * d
            sl[axis % d] = int(ix % arr.global_shape[arr.rank + axis % d])
            if sl not in used:
                used.append(sl)
                data[key] = list(data[key]) + [(arr, list(sl))]
    inner = sim.solver.ComputeRHS

    def counted(*args, **k):
        rhs[0] += 1
        return inner(*args, **k)
    sim.solver.ComputeRHS = counted
    killed = False
    try:
        sim.solve()
    except SystemExit:
        killed = True
    for q in case['ask'].get('end', []):
        if q in QUERIES[s]:
            out['queries'][q + ' at the end'] = pieces(sim, ask(sim, q), False)
    out['state'] = {k: pieces(sim, getattr(c, k), True) for k in A.PRIMARY[s]}
    if chan:
        from spectralDNS.utilities import dx
        u = np.array(sim.solver.get_velocity(**c))
        axis = 2 if s == 'KMMr' else 0
        for i in range(3):
            for what, f in (('flow', u[i]), ('energy', u[i] ** 2)):
                out['scalars']['integral of %s %d' % (what, i)] = float(dx(f, c.FST, axis=axis))
    out.update({'book': book, 'rhs': rhs[0], 'killed': killed, 't': float(sim.params.t), 'tstep': int(sim.params.tstep), 'dt': float(sim.params.dt),
                'kill left': os.path.exists('killspectraldns')})
    return out


# ------------------------------------------------------------------- pools
def clean_environment():
    """This process may itself be a (single) MPI process."""
    return {k: v for k, v in os.environ.items() if not k.startswith(
        ('OMPI_COMM', 'PMIX_', 'OMPI_UNIVERSE', 'OMPI_MCA_ess', 'OMPI_MCA_orte', 'OMPI_APP'))}


class Stuck(Exception):
    pass


class Pool:
    def __init__(self, procs):
        self.procs, self.k = procs, 0
        self.base = tempfile.mkdtemp(prefix='pool%d-' % procs)
        self.run = os.path.join(self.base, 'run')
        os.mkdir(self.run)
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        env = clean_environment()
        env['PYTHONPATH'] = here + os.pathsep + env.get('PYTHONPATH', '')
        env['TMPDIR'] = self.base
        self.log = open(os.path.join(self.base, 'log'), 'w')
        self.p = subprocess.Popen(['mpirun', '--oversubscribe', '-np', str(procs), sys.executable, '-m', 'pbt.mpiworker', self.base], cwd=self.run,
                                  env=env, stdin=subprocess.DEVNULL, stdout=self.log, stderr=subprocess.STDOUT)
        self.until(['up-%d' % r for r in range(procs)], 150)

    def until(self, names, limit):
        end = time.time() + limit
        nap = 0.0005
        while True:
            left = [n for n in names if not os.path.exists(os.path.join(self.base, n))]
            if not left:
                return
            if self.p.poll() is not None:
                raise Stuck('mpirun ended with %s: %s' % (self.p.returncode, open(os.path.join(self.base, 'log')).read()[-600:]))
            if time.time() > end:
                raise Stuck('%d of %d ranks did not finish' % (len(left), len(names)))
            time.sleep(nap)
            nap = min(nap * 1.3, 0.01)

    def submit(self, case, limit=PATIENCE):
        F_clean(self.run)
        k = self.k
        path = os.path.join(self.base, 'case-%d' % k)
        with open(path + '.tmp', 'wb') as f:
            pickle.dump(case, f)
        os.replace(path + '.tmp', path)
        self.k += 1
        names = ['out-%d-%d' % (k, r) for r in range(self.procs)]
        end = time.time() + limit
        # an exception on one rank leaves the others waiting: no need to wait for those
        while True:
            try:
                self.until(names, min(2.0, max(0.1, end - time.time())))
                break
            except Stuck as exc:
                bad = self.outs(names)
                if any(o and 'error' in o for o in bad):
                    time.sleep(1.0)
                    bad = self.outs(names)
                    if not all(bad):
                        self.k = RECYCLE
                    return bad
                if self.p.poll() is not None or time.time() > end:
                    raise Stuck('%s (after %d s)' % (exc, limit))
        out = self.outs(names)
        for n in names + ['case-%d' % k]:
            os.unlink(os.path.join(self.base, n))
        return out

    def outs(self, names):
        r = []
        for n in names:
            p = os.path.join(self.base, n)
            r.append(pickle.load(open(p, 'rb')) if os.path.exists(p) else None)
        return r

    def close(self):
        open(os.path.join(self.base, 'quit'), 'w').close()
        try:
            self.p.wait(0.3)
        except subprocess.TimeoutExpired:
            self.p.send_signal(signal.SIGTERM)
            try:
                self.p.wait(5)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()
        self.log.close()
        shutil.rmtree(self.base, ignore_errors=True)


def F_clean(d):
    for f in os.listdir(d):
        if f.endswith('.h5') or f == 'killspectraldns':
            os.unlink(os.path.join(d, f))


POOLS = {}


def run(procs, case):
    """What every rank ends with, and the directory its files are in."""
    for attempt in (0, 1):
        pool = POOLS.get(procs)
        if pool is not None and pool.k >= RECYCLE:
            pool.close()
            pool = POOLS.pop(procs) and None
        if pool is None:
            pool = POOLS[procs] = Pool(procs)
        try:
            return pool.submit(case, PATIENCE * (1 + attempt)), pool.run
        except Stuck as exc:
            pool.close()
            POOLS.pop(procs)
            if attempt:
                raise Violation('on %d processes the run does not finish: %s' % (procs, exc))


def teardown():
    for p in list(POOLS.values()):
        p.close()
    POOLS.clear()


# ------------------------------------------------------------------- putting the parts together
def assemble(parts, what):
    """The global array from the parts of all ranks."""
    shape = parts[0][2]
    d = len(shape)
    lead = parts[0][0].shape[:-d]
    # an axis no process divides may be stored longer than the space's own number of coefficients
    full = [parts[0][0].shape[len(lead) + i] if all(p[1][i][0] == 0 and p[1][i][1] == shape[i] for p in parts) else shape[i] for i in range(d)]
    out = np.full(lead + tuple(full), np.nan, dtype=parts[0][0].dtype)
    seen = np.zeros(full, dtype=int)
    for x, sl, _ in parts:
        ix = tuple(slice(0, full[i]) if full[i] != shape[i] else slice(*sl[i]) for i in range(d))
        if x.shape[len(lead):] != out[(Ellipsis,) + ix].shape[len(lead):]:
            raise Violation('%s: a rank holds a block of shape %s for the part %s' % (what, x.shape, sl))
        out[(Ellipsis,) + ix] = x
        seen[ix] += 1
    if not (seen == 1).all():
        raise Violation('%s: the ranks hold parts of it %s times' % (what, sorted(set(seen.ravel().tolist()))))
    return out
