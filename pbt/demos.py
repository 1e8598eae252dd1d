"""Running the demonstration programs of /repo/demo in this process, with their command line."""
import os
import runpy
import sys
import types

import numpy as np

from .core import Discard
from .harness import PLAN, purge, quiet


class Blank:
    """What the stand-in for the plotting library returns: anything goes."""

    def __init__(self, *a, **k):
        pass

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Blank()

    def __call__(self, *a, **k):
        return Blank()

    def __iter__(self):
        return iter((Blank(), Blank()))


def plotting():
    m, p, c = (types.ModuleType(n) for n in ('matplotlib', 'matplotlib.pyplot', 'matplotlib.cbook'))
    p.__getattr__ = lambda name: Blank()
    p.fignum_exists = lambda n: False
    c.mplDeprecation = DeprecationWarning
    m.pyplot, m.cbook = p, c
    return {'matplotlib': m, 'matplotlib.pyplot': p, 'matplotlib.cbook': c}


def folder():
    import spectralDNS
    return os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(spectralDNS.__file__))), 'demo')


class Run:
    """Output, globals, solver and context of one demonstration."""

    def __init__(self, name, args, watch=None, before=None, plot=True, main=True, seed=0, fresh=True):
        if fresh:
            purge()
        for m in [m for m in sys.modules if m.startswith('OrrSommerfeld') or m.startswith('matplotlib')]:
            del sys.modules[m]
        import spectralDNS
        self.watch, self.before = watch, before
        self.context = self.solver = None
        path = folder()
        old = sys.argv, list(sys.path), spectralDNS.solve
        sys.argv = [name] + [str(a) for a in args]
        sys.path.insert(0, path)
        if plot:
            sys.modules.update(plotting())
        spectralDNS.solve = self.spy(spectralDNS.solve)
        np.random.seed(seed)
        try:
            with quiet() as out:
                self.globals = runpy.run_path(os.path.join(path, name), run_name='__main__' if main else 'demo')
            self.lines = out.getvalue().splitlines()
            from spectralDNS import config
            self.config, self.params = config, config.params
        finally:
            sys.argv, sys.path[:] = old[0], old[1]
            spectralDNS.solve = old[2]
            for m in plotting():
                sys.modules.pop(m, None)

    def spy(self, solve):
        def watched(solver, context):
            self.solver, self.context = solver, context
            update = solver.update
            if self.before:
                self.before(self, solver, context)

            def seen(c):
                if self.watch is None:
                    return update(c)
                self.watch(self, solver, c, 'before')
                r = update(c)
                self.watch(self, solver, c, 'after')
                return r
            solver.update = seen
            try:
                return solve(solver, context)
            finally:
                solver.update = update
        return watched

    def __getitem__(self, name):
        if name not in self.globals:
            raise Discard('the program has no %s' % name)
        return self.globals[name]

    def numbers(self, start=None, count=None):
        """The lines that consist of numbers (after the given word), as tuples."""
        out = []
        for line in self.lines:
            w = line.split()
            if start is not None:
                if not w or w[0] != start:
                    continue
            v = []
            for x in w:
                try:
                    v.append(float(x))
                except ValueError:
                    if start is None:
                        v = []
                        break
            if v and (count is None or len(v) == count):
                out.append(tuple(v))
        return out


def plan():
    return ['--no-verbose', '--planner_effort', PLAN]
