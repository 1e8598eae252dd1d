"""NS: the rate of change is the projected nonlinear term + viscosity + source."""
from hypothesis import strategies as st

from .. import gen, periodic as P, refper as R
from ..core import Facet

ASSUMPTIONS = ['numpy FFT-based reference of the same collocation/2-3/3-2 rules; Nyquist modes excluded from comparison']


def strategy(tier):
    return st.fixed_dictionaries({
        'N': gen.meshes(3, (4, 6, 8, 10, 12) if tier == 'quick' else (4, 6, 8, 10, 12, 14, 16, 20)),
        'L': gen.lengths(3), 'nu': gen.logu(1e-4, 2.0),
        'convection': st.sampled_from(['Standard', 'Divergence', 'Skewed', 'Vortex']),
        'dealias': st.sampled_from(['2/3-rule', '3/2-rule', 'None']),
        'mask': st.booleans(), 'before': gen.warm(), 'u': gen.fields(3, 3),
        'source': st.one_of(st.none(), gen.fields(3, 3))}).map(gen.no_tiny)


def check(case):
    N, L = case['N'], case['L']
    g = R.Grid(N, L, case['dealias'])
    u0 = R.field(N, L, case['u'], 3)
    src = None if case['source'] is None else R.field(N, L, case['source'], 3)
    rate, sim = P.rate('NS', case, u0, source=src)
    ref = R.ns_rhs(g, u0, case['nu'], case['convection'], src)
    info = P.compare(rate, ref, g, u0, 'du/dt')
    if case['mask']:
        P.nyquist_clean(rate, g, 'du/dt')
    return info


def nontrivial(case, info):
    return info['nonlinear'] > 1e-3


FACETS = [Facet('rhs', strategy, check, quick=900, thorough=40000, shards=8, tshards=8, nontrivial=nontrivial,
                rule='random solenoidal fields (random spectra and few-mode fields, mean flow), meshes, domains, '
                     'viscosity, form, dealiasing, source; non-trivial = nonlinear term above 1e-3',
                classify=lambda c, i: [c['convection'], c['dealias'], 'source' if c['source'] else 'nosource',
                                       'mask' if c['mask'] else 'nomask'])]
