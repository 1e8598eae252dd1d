"""One shard of one facet, in its own process and its own scratch directory."""
import importlib
import json
import os
import sys


def add_hypothesis():
    try:
        import hypothesis  # noqa: F401
        return
    except ImportError:
        pass
    for p in ('/opt/veriftools/pyvenv/lib/python3.12/site-packages',):
        if os.path.isdir(p):
            sys.path.append(p)
            import hypothesis  # noqa: F401
            return
    raise SystemExit('hypothesis not found')


def load(pid):
    mod = importlib.import_module('pbt.checks.' + pid)
    return mod


def main():
    pid, fname, tier, seed, shard, nshards, out, current = sys.argv[1:9]
    add_hypothesis()
    from pbt import core
    mod = load(pid)
    facet = {f.name: f for f in mod.FACETS}[fname]
    stats, fail = core.run_campaign(facet, tier, int(seed), int(shard), int(nshards), current,
                                    known=getattr(mod, 'KNOWN', None))
    with open(out + '.tmp', 'w') as f:
        json.dump({'stats': stats.dump(), 'fail': fail}, f)
    os.replace(out + '.tmp', out)
    if hasattr(mod, 'TEARDOWN'):
        mod.TEARDOWN()
    sys.stdout.flush()
    os._exit(0)


def replay():
    """Run one saved case, without Hypothesis."""
    pid, path = sys.argv[2:4]
    add_hypothesis()
    from pbt import core
    mod = load(pid)
    rec = json.load(open(path))
    facet = {f.name: f for f in mod.FACETS}[rec['facet']]
    rc = 0
    try:
        info = core.decide(facet, rec['case'])
        print('replay: the case passes', json.dumps(info, default=str))
    except core.Discard:
        print('replay: the case is outside the domain')
    except core.Violation as exc:
        print('replay: violated:', exc)
        rc = 1
    if hasattr(mod, 'TEARDOWN'):
        mod.TEARDOWN()
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        replay()
    else:
        main()
