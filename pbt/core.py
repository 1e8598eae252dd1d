"""Generated-input campaigns: facets, the Hypothesis driver, the statistics.

A property's check is a list of facets.  A facet is a generator of JSON-able
cases, a function that decides one case against its oracle, and a rule saying
which cases are non-trivial.  A case is the whole input: replaying one needs
the case and the code, nothing else.
"""
import hashlib
import json
import math
import os
import sys
import time
import traceback

REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))


class Violation(Exception):
    """The property does not hold on this case."""


class Discard(Exception):
    """The case is outside the property's domain (counted, never decided)."""


class Facet:
    def __init__(self, name, strategy, check, quick, thorough, nontrivial=None,
                 rule='', classify=None, shards=1, heavy=False, fixed=None, tshards=None):
        self.name = name
        self.strategy = strategy      # callable(tier) -> hypothesis strategy
        self.check = check            # callable(case) -> info dict | None
        self.quick = quick            # number of generated cases
        self.thorough = thorough
        self.nontrivial = nontrivial or (lambda case, info: True)
        self.rule = rule
        self.classify = classify or (lambda case, info: [])
        self.shards = shards
        self.tshards = tshards or max(shards, 4)
        self.fixed = fixed or []      # saved regression cases, run first

    def examples(self, tier):
        n = self.quick if tier == 'quick' else self.thorough
        return max(1, int(n * float(os.environ.get('VERIF_SCALE', '1') or 1)))

    def nshards(self, tier):
        return self.shards if tier == 'quick' else self.tshards


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


def digest(case):
    return hashlib.sha256(canon(case).encode()).hexdigest()[:16]


def touches_repo(exc):
    tb = exc.__traceback__
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if os.path.realpath(fn).startswith(REPO + os.sep):
            return True
        tb = tb.tb_next
    if exc.__cause__ is not None and touches_repo(exc.__cause__):
        return True
    return False


def decide(facet, case):
    """Run one case. Returns info; raises Violation on a broken property.

    An exception that comes out of the code under test on an input of the
    property's domain is a violation; one from the harness is not.
    """
    try:
        return facet.check(case) or {}
    except (Violation, Discard):
        raise
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as exc:      # SystemExit from the code counts too
        if type(exc).__module__.startswith('hypothesis'):
            raise
        if touches_repo(exc):
            last = traceback.extract_tb(exc.__traceback__)
            where = [f for f in last if os.path.realpath(f.filename).startswith(REPO)]
            w = where[-1] if where else last[-1]
            raise Violation('the code raised %s: %s (at %s:%s %s)' % (
                type(exc).__name__, str(exc)[:300], w.filename, w.lineno, w.name)) from exc
        raise


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.discarded = 0
        self.nontrivial = set()
        self.distinct = set()
        self.classes = {}
        self.samples = []
        self.maxerr = {}
        self.known = {}

    def add(self, facet, case, info):
        self.evaluations += 1
        d = digest(case)
        new = d not in self.distinct
        self.distinct.add(d)
        for k, v in (info.get('err') or {}).items():
            if isinstance(v, float) and not math.isfinite(v):
                v = 1e300
            if v > self.maxerr.get(k, -1):
                self.maxerr[k] = float(v)
        for c in facet.classify(case, info):
            self.classes[c] = self.classes.get(c, 0) + 1
        if facet.nontrivial(case, info):
            self.nontrivial.add(d)
            if new and len(self.samples) < 3:
                self.samples.append(case)

    def dump(self):
        return {'evaluations': self.evaluations, 'discarded': self.discarded,
                'distinct': len(self.distinct), 'nontrivial': sorted(self.nontrivial),
                'classes': self.classes, 'samples': self.samples, 'maxerr': self.maxerr,
                'known': self.known}


def shard_seed(seed, name, shard):
    h = hashlib.sha256(('%d/%s/%d' % (seed, name, shard)).encode()).digest()
    return int.from_bytes(h[:6], 'big')


def run_campaign(facet, tier, seed, shard, nshards, current_file, known=None):
    """Run one shard of a facet. Returns (stats, failure or None)."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 40 if tier == 'quick' else 120

    stats = Stats()
    state = {'fail': None}

    def one(case):
        with open(current_file, 'w') as f:
            json.dump({'facet': facet.name, 'case': case}, f)
        try:
            info = decide(facet, case)
        except Discard:
            stats.discarded += 1
            return
        except Violation as exc:
            if known:
                k = known(facet.name, case, str(exc))
                if k:
                    stats.known[k] = stats.known.get(k, 0) + 1
                    stats.add(facet, case, {})
                    return
            state['fail'] = {'facet': facet.name, 'case': case, 'message': str(exc)}
            raise
        stats.add(facet, case, info)

    if shard == 0:
        for case in facet.fixed:
            try:
                one(json.loads(json.dumps(case)))
            except Violation:
                return stats, state['fail']

    from . import gen
    gen.SHARD[:] = [shard, nshards]
    total = facet.examples(tier)
    n = total // nshards + (1 if shard < total % nshards else 0)
    if n <= 0:
        return stats, None

    @hypothesis.seed(shard_seed(seed, facet.name, shard))
    @settings(max_examples=n, deadline=None, database=None, print_blob=False,
              report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
              phases=(Phase.generate, Phase.shrink))
    @given(facet.strategy(tier))
    def prop(case):
        one(case)

    try:
        prop()
    except Violation:
        pass
    except hypothesis.errors.Flaky as exc:
        # It failed at least once on a valid input, so it is not the generator
        if state['fail'] is None:
            raise
        state['fail']['message'] += ' [not every run of this case fails]'
    return stats, state['fail']
