"""The parameter dictionary against a model; command lines and program defaults for the three problem classes."""
import contextlib
import io
import math
import os

import numpy as np
from hypothesis import strategies as st

from .. import files as F, gen, harness
from ..core import Discard, Facet, Violation

ASSUMPTIONS = ['a missing parameter raises KeyError when read as item or attribute', 'the mesh size N derived from M is available as attribute, not as item',
               'scalar model parameters carry the precision when read as attributes; items hold the value as given']
SCALARS = ('nu', 'dt', 'Ri', 'Pr', 'eta')
PLAIN = ('T', 't', 'tstep', 'solver', 'dealias', 'mine')


# ------------------------------------------------------- the dictionary itself
def expr():
    leaf = st.one_of(st.just('pi'), gen.rnd(0.1, 9, 2).map(repr), st.integers(1, 9).map(str))
    return st.recursive(leaf, lambda s: st.one_of(
        st.tuples(s, st.sampled_from(['*', '+', '/']), s).map(lambda t: '(%s%s%s)' % t),
        s.map(lambda x: '%s**2' % x)), max_leaves=4)


def value(key):
    if key in ('M', 'N'):
        return st.lists(st.one_of(st.integers(1, 9), st.integers(1, 9).map(str)), min_size=2, max_size=3)
    if key == 'L':
        return st.lists(st.one_of(expr(), gen.rnd(0.1, 20, 3)), min_size=2, max_size=3)
    if key in SCALARS:
        return gen.logu(1e-6, 100)
    if key == 'precision':
        return st.sampled_from(['single', 'double'])
    return st.one_of(st.integers(0, 99), gen.rnd(0, 9, 3), st.sampled_from(['a', 'NS', '']), st.none())


KEYS = ('M', 'N', 'L', 'precision') + SCALARS + PLAIN
BAD = {'M': [[1.5, 2, 3], ['x', 2, 3], 3], 'N': [['4.0', 4, 4], [None, 1, 1]],
       'L': [['len("a")', 1, 1], ['x', 1, 1], ['__import__("os")', 1, 1], ['1+', 1, 1]]}


def ops(tier):
    def one(kind):
        key = st.sampled_from(KEYS)
        if kind in ('item', 'attr', 'default'):
            return key.flatmap(lambda k: st.tuples(st.just(kind), st.just(k), value(k)))
        if kind in ('update', 'kwargs', 'pairs'):
            return st.lists(key, min_size=1, max_size=4, unique=True).flatmap(
                lambda ks: st.tuples(st.just(kind), st.just('-'), st.fixed_dictionaries({k: value(k) for k in ks})))
        if kind == 'bad':
            return st.sampled_from(sorted(BAD)).flatmap(lambda k: st.tuples(st.sampled_from(['bad', 'badattr']), st.just(k), st.sampled_from(BAD[k])))
        return st.tuples(st.just(kind), st.sampled_from([k for k in KEYS if k != 'precision']), st.none())
    kinds = ['item', 'item', 'attr', 'attr', 'default', 'update', 'kwargs', 'pairs', 'bad', 'del', 'delattr', 'pop', 'write', 'alias']
    return st.fixed_dictionaries({'ops': st.lists(st.sampled_from(kinds).flatmap(one).map(list), min_size=1, max_size=14)})


def convert(k, v):
    if k in ('M', 'N'):
        return [int(x) for x in v]
    if k == 'L':
        return [float(eval(str(x), {'__builtins__': {}}, {'pi': math.pi})) for x in v]
    return v


def compare(p, m, where):
    if set(p) != set(m) or len(p) != len(m) or set(p.keys()) != set(m):
        raise Violation('%s: the parameters are %s, expected %s' % (where, sorted(p), sorted(m)))
    for k, v in m.items():
        if k not in p:
            raise Violation('%s: %s is missing' % (where, k))
        a, b = p[k], getattr(p, k)
        if k in ('M', 'N', 'L'):
            if b is not a or not isinstance(a, np.ndarray) or a.flags.writeable or list(a) != list(v) or a.dtype != (float if k == 'L' else int):
                raise Violation('%s: %s reads %r as item and %r as attribute, expected the constant array %r' % (where, k, a, b, v))
        elif k in SCALARS:
            t = np.float32 if m['precision'] == 'single' else np.float64
            if a != v or type(b) is not t or b != t(v):
                raise Violation('%s: %s reads %r as item and %r (%s) as attribute, expected %r in %s precision' % (
                    where, k, a, b, type(b).__name__, v, m['precision']))
        elif not (a == v or a is v) or type(a) is not type(v) or b is not a:
            raise Violation('%s: %s reads %r as item and %r as attribute, expected %r' % (where, k, a, b, v))
    for k in KEYS:
        if k in m:
            continue
        for how, read in (('item', lambda: p[k]), ('attribute', lambda: getattr(p, k))):
            if k == 'N' and 'M' in m and how == 'attribute':
                n = read()
                if list(n) != [2 ** x for x in m['M']]:
                    raise Violation('%s: N is %r with M=%r' % (where, n, m['M']))
                continue
            try:
                x = read()
            except (KeyError, AssertionError):
                continue
            raise Violation('%s: %s, which is not set, reads %r as %s' % (where, k, x, how))
    n = m.get('N') or ([2 ** x for x in m['M']] if 'M' in m else None)
    if n and 'L' in m and len(n) == len(m['L']):
        d = p.dx
        if not np.allclose(d, np.array(m['L']) / np.array(n), rtol=1e-15, atol=0):
            raise Violation('%s: dx is %r for L=%r and N=%r' % (where, d, m['L'], n))


def map_check(case):
    from spectralDNS.config import Params
    p, m = Params(), {}
    p['precision'] = m['precision'] = 'double'
    deep = 0
    for i, (kind, k, v) in enumerate(case['ops']):
        where = 'after %s %s %r (operation %d)' % (kind, k, v, i + 1)
        if kind == 'item':
            p[k] = v
            m[k] = convert(k, v)
        elif kind == 'attr':
            setattr(p, k, v)
            m[k] = convert(k, v)
        elif kind == 'default':
            p.setdefault(k, v)
            m.setdefault(k, convert(k, v))
        elif kind in ('update', 'kwargs', 'pairs'):
            if kind == 'update':
                p.update(dict(v))
            elif kind == 'kwargs':
                p.update(**v)
            else:
                p.update(list(v.items()))
            m.update({a: convert(a, b) for a, b in v.items()})
        elif kind in ('bad', 'badattr'):
            try:
                if kind == 'bad':
                    p[k] = v
                else:
                    setattr(p, k, v)
            except Exception:
                pass
            else:
                raise Violation('%s was accepted: %s = %r' % (where, k, p[k]))
        elif kind in ('del', 'delattr', 'pop'):
            try:
                if kind == 'del':
                    del p[k]
                elif kind == 'delattr':
                    delattr(p, k)
                else:
                    p.pop(k)
                ok = True
            except (KeyError, AttributeError):
                ok = False
            if ok != (k in m):
                raise Violation('%s: deleting it %s' % (where, 'worked' if ok else 'failed'))
            m.pop(k, None)
        elif kind == 'write' and k in ('M', 'N', 'L') and k in m:
            try:
                p[k][0] = 3
            except ValueError:
                deep += 1
            else:
                raise Violation('%s: the array could be changed in place' % where)
        elif kind == 'alias':       # the caller's list and a derived array are not tied to the parameters
            if k in ('M', 'N', 'L') and k in m:
                mine = list(m[k])
                p[k] = mine
                mine[0] = 77
            elif 'M' in m and 'N' not in m:
                n = p.N
                if n.flags.writeable:
                    n[0] = 5
            deep += 1
        compare(p, m, where)
    return {'err': {}, 'size': len(m), 'deep': deep}


# ------------------------------------------- command lines and program defaults
D3 = {'precision': 'double', 'optimization': '', 'make_profile': 0, 'dt': 0.01, 'T': 0.1, 'write_result': 1e8, 'checkpoint': 1e8, 'nu': 0.000625, 't': 0.0,
      'tstep': 0, 'filemode': 'w', 'dealias': '2/3-rule', 'decomposition': 'slab', 'ntol': 7, 'threads': 1, 'h5filename': 'results', 'verbose': True,
      'mask_nyquist': True, 'convection': 'Vortex', 'L': [2 * math.pi] * 3, 'M': [6, 6, 6]}
EXP = {'TOL': 1e-6, 'integrator': 'RK4'}
TABLE = {'triplyperiodic': dict(D3, **EXP), 'doublyperiodic': dict(D3, L=[2 * math.pi] * 2, M=[6, 6], **EXP),
         'channel': dict(D3, L=[2.0, 2 * math.pi, 2 * math.pi], Dquad='GC', Bquad='GC', Nquad='GC')}
SOLVERS = {'triplyperiodic': {'NS': {}, 'VV': {}, 'MHD': {'eta': 0.01}}, 'doublyperiodic': {'NS2D': {}, 'Bq2D': {'Ri': 0.1, 'Pr': 1.0}},
           'channel': {'KMM': {'integrator': 'implicit'}, 'KMMr': {'integrator': 'implicit'}, 'KMMRK3': {'integrator': 'implicitRK3'},
                       'KMM_RB': {'integrator': 'implicit'}, 'KMMRK3_RB': {'integrator': 'implicitRK3'}, 'Coupled': {'integrator': 'implicit'},
                       'CoupledRK3': {'integrator': 'implicit'}}}
CHOICES = {'precision': ['single', 'double'], 'filemode': ['w', 'r', 'a'], 'dealias': ['2/3-rule', '3/2-rule', 'None'], 'decomposition': ['slab', 'pencil'],
           'Dquad': ['GC', 'GL'], 'Bquad': ['GC', 'GL'], 'Nquad': ['GC', 'GL'],
           'integrator': ['RK4', 'ForwardEuler', 'AB2', 'BS5_adaptive', 'BS5_fixed']}
FLOATS = ('dt', 'T', 'nu', 't', 'TOL', 'eta', 'Ri', 'Pr')
INTS = ('make_profile', 'write_result', 'checkpoint', 'tstep', 'ntol', 'threads')


def choices(mesh, k):
    if k == 'convection':
        return {'triplyperiodic': ['Standard', 'Divergence', 'Skewed', 'Vortex'], 'doublyperiodic': ['Vortex'],
                'channel': ['Standard', 'Divergence', 'Skew', 'Vortex']}[mesh]
    return CHOICES.get(k)


def setting(mesh, k):
    c = choices(mesh, k)
    n = 2 if mesh == 'doublyperiodic' else 3
    if c:
        return st.sampled_from(c)
    if k in FLOATS:
        return gen.logu(1e-5, 50)
    if k in INTS:
        return st.integers(0, 1000)
    if k in ('verbose', 'mask_nyquist'):
        return st.booleans()
    if k == 'L':
        return st.lists(expr(), min_size=n, max_size=n)
    if k in ('M', 'N'):
        return st.lists(st.integers(1, 9), min_size=n, max_size=n)
    return st.sampled_from(['results', 'abc', 'x_1'])


def cli_strategy(tier):
    def of(mesh, solver):
        keys = [k for k in sorted(TABLE[mesh]) if k not in (('optimization', 'precision') if mesh == 'channel' else ('optimization',))]
        sub = [k for k in SOLVERS[mesh][solver] if k != 'integrator']

        def some(ks, most=5):
            return st.lists(st.sampled_from(ks), max_size=most, unique=True).flatmap(
                lambda s: st.fixed_dictionaries({k: setting(mesh, k) for k in s})) if ks else st.just({})
        bad = st.sampled_from(['unknown', 'choice', 'type', 'arity', 'solver', 'subopt', 'substring'])
        return st.fixed_dictionaries({'mesh': st.just(mesh), 'solver': st.just(solver), 'defaults': some(keys + sub + ['N', 'mine']), 'again': some(keys + sub, 3),
                                      'cli': some(keys), 'sub': some(sub, 2), 'other': some(['nu', 'dt', 'T', 'dealias', 'M'], 2),
                                      'bad': st.one_of(st.none(), st.none(), bad), 'plan': st.sampled_from([None, None, 'fft', 'dct']),
                                      'callbacks': st.integers(0, 7)})
    pairs = [(m, s) for m in sorted(SOLVERS) for s in sorted(SOLVERS[m])]
    return st.sampled_from(gen.share(pairs)).flatmap(lambda t: of(*t))


def words(k, v):
    if k in ('verbose', 'mask_nyquist'):
        return ['--' + ('' if v else 'no-') + k]
    if isinstance(v, list):
        return ['--' + k] + [str(x) for x in v]
    return ['--' + k, repr(v) if isinstance(v, float) else str(v)]


def cli_check(case):
    mesh, solver = case['mesh'], case['solver']
    harness.purge()
    from spectralDNS import config
    import spectralDNS
    other = [m for m in sorted(TABLE) if m != mesh][case['callbacks'] % 2]
    if case['defaults']:
        config.update(dict(case['defaults']), mesh)
    o = {k: v for k, v in case['other'].items() if not isinstance(v, list) or len(v) == (2 if other == 'doublyperiodic' else 3)}
    config.update(dict(o), other)
    if case['again']:
        config.update(dict(case['again']), mesh)
    want = dict(TABLE[mesh], **SOLVERS[mesh][solver])
    given = dict(case['defaults'], **case['again'])
    want.update(given)
    want.update(case['cli'])
    want.update(case['sub'])
    want['solver'] = solver
    args = [w for k, v in case['cli'].items() for w in words(k, v)]
    tail = [w for k, v in case['sub'].items() for w in words(k, v)]
    if case['plan']:
        if case['callbacks'] & 1:
            args += ['--planner_effort', '{"%s": "FFTW_ESTIMATE"}' % case['plan']]
        else:
            config.update({'planner_effort': {case['plan']: 'FFTW_ESTIMATE'}}, mesh)
    line = args + [solver] + tail
    hooks = {n: (lambda context, n=n: n) for i, n in enumerate(('update', 'regression_test', 'additional_callback')) if case['callbacks'] >> i & 1}
    before = dict(config.params)
    if case['bad']:
        bads = {'unknown': ['--nosuchoption', '1'] + line, 'choice': ['--dealias', 'some'] + line, 'type': ['--dt', 'fast'] + line,
                'arity': ['--M', '4'] + line, 'solver': args + ['Euler'], 'subopt': args + [solver, '--nosuch', '3'],
                'substring': ['--convection', 'V'] + line}[case['bad']]
        try:
            with contextlib.redirect_stderr(io.StringIO()), harness.quiet():
                spectralDNS.get_solver(mesh=mesh, parse_args=bads)
        except SystemExit:
            pass
        else:
            raise Violation('the command line %r was accepted' % bads)
        if dict(config.params) != before:
            raise Violation('a rejected command line changed the parameters')
        return {'err': {}, 'options': 0, 'bad': case['bad']}
    try:
        with contextlib.redirect_stderr(io.StringIO()), harness.quiet():
            mod = spectralDNS.get_solver(mesh=mesh, parse_args=line, **hooks)
    except SystemExit:
        raise Violation('the command line %r was rejected' % line)
    p = config.params
    have = dict(p)
    plans = have.pop('planner_effort', None)
    if set(have) != set(want):
        raise Violation('the parameters are %s, expected %s' % (sorted(set(have) - set(want)), sorted(set(want) - set(have))))
    for k, v in want.items():
        v = convert(k, v)
        x = have[k]
        ok = list(x) == list(v) if k in ('L', 'M', 'N') else x == v
        if not ok:
            raise Violation('%s is %r, expected %r (program defaults %s, command line %s)' % (k, x, v, given, line))
    n = convert('N', want['N']) if 'N' in want else [2 ** x for x in convert('M', want['M'])]
    if list(p.N) != n:
        raise Violation('the mesh is %r, expected %r' % (list(p.N), n))
    t = np.float32 if want['precision'] == 'single' else np.float64
    for k in SCALARS:
        if k in want and (type(getattr(p, k)) is not t or getattr(p, k) != t(want[k])):
            raise Violation('%s is %r in %s precision, expected %r' % (k, getattr(p, k), want['precision'], want[k]))
    for k in ('fft', 'dct'):
        w = 'FFTW_ESTIMATE' if k == case['plan'] else 'FFTW_MEASURE'
        if plans[k] != w:
            raise Violation('the planning effort of %s is %r, expected %r' % (k, plans[k], w))
    if mod.__name__ != 'spectralDNS.solvers.' + solver or config.solver is not mod or mod.params is not p:
        raise Violation('solver %s gave module %s' % (solver, mod.__name__))
    for nme, f in hooks.items():
        if getattr(mod, nme) is not f:
            raise Violation('callback %s is not installed' % nme)
    # the other problem class does not see any of it
    s2 = sorted(SOLVERS[other])[0]
    a = vars(getattr(config, other).parse_args([s2]))
    w2 = dict(TABLE[other], **SOLVERS[other][s2])
    w2.update(o)
    for k, v in w2.items():
        if k in ('planner_effort',):
            continue
        if a.get(k) != v and list(a.get(k) if isinstance(a.get(k), (list, tuple)) else []) != v:
            raise Violation('%s of %s is %r, expected %r' % (k, other, a.get(k), v))
    return {'err': {}, 'options': len(given) + len(case['cli']) + len(case['sub']), 'bad': ''}


# ----------------------------------------------------------- the file name option
def name_check(case):
    F.clean()
    harness.purge()
    sim = harness.Sim('NS2D', {'N': [6, 6], 'dt': 0.01, 'T': 0.01, 'write_result': 1, 'h5filename': case['name']})
    sim.solve()
    made = sorted(f for f in os.listdir('.') if f.endswith('.h5'))
    F.clean()
    if not made:
        raise Violation('no file was written')
    if not all(f.startswith(case['name']) for f in made):
        raise Violation('the files are called %s with h5filename=%s' % (made, case['name']))
    return {'err': {}}


def KNOWN(facet, case, msg):
    if facet == 'filename' and case == {'name': 'mydata'} and 'NS2D_w.h5' in msg:
        return 'h5filename is accepted and documented but ignored: files are named after the solver'


FACETS = [
    Facet('mapping', ops, map_check, quick=1500, thorough=60000, shards=3, tshards=3, nontrivial=lambda c, i: i['size'] > 2 and len(c['ops']) > 2,
          rule='sequences of sets, updates, deletions, illegal values and in-place writes against a model dictionary; non-trivial = three operations and parameters',
          classify=lambda c, i: sorted({o[0] for o in c['ops']})),
    Facet('cli', cli_strategy, cli_check, quick=400, thorough=15000, shards=4, tshards=4, nontrivial=lambda c, i: i['options'] > 1 or i['bad'],
          rule='program defaults and command lines of the three problem classes; non-trivial = two settings, or a rejected line',
          classify=lambda c, i: [c['solver']] + (['rejected ' + i['bad']] if i['bad'] else [])),
    Facet('filename', lambda tier: st.just({'name': 'mydata'}), name_check, quick=1, thorough=1, shards=1, nontrivial=lambda c, i: True,
          rule='a fixed case')]
