"""Driving the spectralDNS solvers through their public entry points."""
import contextlib
import importlib
import io
import json
import os
import sys

import numpy as np

PLAN = json.dumps({'fft': 'FFTW_ESTIMATE', 'dct': 'FFTW_ESTIMATE'})
MESH = {'NS': 'triplyperiodic', 'VV': 'triplyperiodic', 'MHD': 'triplyperiodic',
        'NS2D': 'doublyperiodic', 'Bq2D': 'doublyperiodic'}
PRE = ('precision', 'optimization', 'make_profile', 'dt', 'T', 'write_result', 'checkpoint', 'nu', 't',
       'tstep', 'filemode', 'dealias', 'decomposition', 'ntol', 'threads', 'h5filename', 'convection',
       'TOL', 'Dquad', 'Bquad', 'integrator')
POST = ('eta', 'Ri', 'Pr')


def mesh_of(solver):
    return MESH.get(solver, 'channel')


def purge():
    """Forget every spectralDNS module, so the next import is a fresh process's."""
    for name in [m for m in sys.modules if m == 'spectralDNS' or m.startswith('spectralDNS.')]:
        if 'cython_' in name or name.endswith(('pythran_maths', 'LUsolve')):
            continue            # compiled extension modules hold no state
        if name.endswith(('numba_module', 'pythran_module')):
            continue            # neither do these, and compiling them is slow
        del sys.modules[name]


@contextlib.contextmanager
def quiet():
    """Drop what the code prints on Python's stdout."""
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        yield sys.stdout
    finally:
        sys.stdout = old


def arguments(solver, opts):
    """The command line for these options."""
    pre, post = [], []
    for k, v in opts.items():
        if k in ('N', 'verbose', 'mask_nyquist', 'extra'):
            continue
        if k in ('L', 'M'):
            pre += ['--' + k] + [repr(float(x)) if k == 'L' else str(int(x)) for x in v]
        elif k in POST:
            post += ['--' + k, str(v)]
        elif k in PRE:
            pre += ['--' + k, repr(v) if isinstance(v, float) else str(v)]
        else:
            raise KeyError(k)
    pre += ['--verbose' if opts.get('verbose') else '--no-verbose']
    pre += ['--mask_nyquist' if opts.get('mask_nyquist', True) else '--no-mask_nyquist']
    pre += ['--planner_effort', PLAN]
    return pre + [solver] + post


class Sim:
    """A solver module and one context of it."""

    def __init__(self, solver, opts, fresh=True, update=None, regression_test=None,
                 additional_callback=None, extra=None, context=True):
        self.name = solver
        if fresh:
            purge()
        args = (solver, opts, update, regression_test, additional_callback, extra, context)
        with quiet() as out:
            try:
                self._start(*args)
            except ImportError:
                # Forgetting the modules and importing them again is this harness's own doing, and
                # was seen to fail once in many thousand times. A module that cannot be imported
                # fails again.
                if not fresh:
                    raise
                purge()
                importlib.invalidate_caches()
                self._start(*args)
        self.printed = out.getvalue()

    def _start(self, solver, opts, update, regression_test, additional_callback, extra, context):
        from spectralDNS import config
        import spectralDNS
        self.config = config
        self.mod = spectralDNS
        mesh = mesh_of(solver)
        if extra:
            config.update(dict(extra), mesh)
        self.solver = spectralDNS.get_solver(update=update, regression_test=regression_test,
                                             additional_callback=additional_callback, mesh=mesh,
                                             parse_args=arguments(solver, opts))
        self.params = config.params
        if opts.get('N') is not None:
            self.params.N = [int(n) for n in opts['N']]
        self.context = self.solver.get_context() if context else None

    def solve(self):
        try:
            with quiet():
                self.mod.solve(self.solver, self.context)
        finally:
            # a run that is stopped early leaves its profiler on, and a process has room for one
            prof = getattr(self.solver, 'profiler', None)
            if prof is not None:
                prof.disable()

    def to(self, T):
        self.params.T = T
        self.solve()


def rng(seed):
    return np.random.Generator(np.random.PCG64(int(seed)))


def local(sim, src, like, spectral=True):
    """The part of a global array that this process holds."""
    src = np.asarray(src)
    if src.shape == like.shape or src.ndim == 0:
        return src
    c = sim.context
    cut = (c.T if 'T' in c else c.FCT).local_slice(spectral)
    d = len(cut)
    sl = [slice(None)] * (src.ndim - d)
    for i in range(d):
        k = src.ndim - d + i
        sl.append(slice(None) if src.shape[k] == like.shape[k] else cut[i])
    return src[tuple(sl)]
