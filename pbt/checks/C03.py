"""NS2D: the rate of change is the projected rotational term + viscosity + source."""
from hypothesis import strategies as st

from .. import gen, periodic as P, refper as R
from ..core import Facet

ASSUMPTIONS = ['numpy FFT-based reference of the same collocation/2-3/3-2 rules; Nyquist modes excluded']


def strategy(tier):
    return st.fixed_dictionaries({
        'N': gen.meshes(2, (4, 6, 8, 10, 12, 16, 24)), 'L': gen.lengths(2), 'nu': gen.logu(1e-4, 2.0),
        'dealias': st.sampled_from(gen.DEALIAS), 'mask': st.booleans(), 'before': gen.warm(), 'u': gen.fields(2, 2),
        'source': st.one_of(st.none(), gen.fields(2, 2))}).map(gen.no_tiny)


def check(case):
    N, L = case['N'], case['L']
    g = R.Grid(N, L, case['dealias'])
    u0 = R.field(N, L, case['u'], 2)
    src = None if case['source'] is None else R.field(N, L, case['source'], 2)
    rate, sim = P.rate('NS2D', case, u0, source=src)
    ref = R.ns_rhs(g, u0, case['nu'], 'Vortex', src)
    info = P.compare(rate, ref, g, u0, 'du/dt')
    if case['mask']:
        P.nyquist_clean(rate, g, 'du/dt')
    info['adv'] = float(abs(ref + case['nu'] * g.K2 * u0 - (0 if src is None else src)).max())
    return info


FACETS = [Facet('rhs', strategy, check, quick=1200, thorough=60000, shards=8, nontrivial=lambda c, i: i['adv'] > 1e-3,
                rule='random solenoidal 2D fields, mesh, domain, nu, dealiasing, source; non-trivial = the projected '
                     'convective term exceeds 1e-3',
                classify=lambda c, i: [c['dealias'], 'source' if c['source'] else 'nosource',
                                       'aniso' if c['N'][0] != c['N'][1] else 'square'])]
